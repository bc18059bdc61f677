package main

import (
	"fmt"
	"go/types"
	"math"
)

func init() {
	register("C32", 30, "value-graph analysis", "The centre functions of a bounding box and the placement functions of the api are evaluated for an arbitrary object with arbitrary finite bounds (and for boxes that are infinite along any set of axes), and compared with the map they stand for, through the point that the original object is asked about. Combinations and constructors of the api are evaluated for arbitrary arguments and an arbitrary ray and point, and compared with the object that they are named after.", checkC32)
}

// apiO evaluates a method of an api object and returns the object inside the result.
func (w *W) apiO(o *V, name string, args ...*V) *V {
	r := w.method("api", "Object", name, w.apiObj(o), args...)
	return w.field(r, w.p.Type("api", "Object"), "Interface")
}

func checkC32(r *R) {
	half := func(w *W, a, b *V) *V { return w.div(w.add(a, b), w.num(2)) }
	mid := func(w *W, b *V) *V {
		lo, hi := w.bbMin(b).args, w.bbMax(b).args
		return w.mkvec(half(w, lo[0], hi[0]), half(w, lo[1], hi[1]), half(w, lo[2], hi[2]))
	}
	put := func(w *W, v *V, i int, x *V) *V {
		a := append([]*V{}, v.args...)
		a[i] = x
		return w.mkvec(a[0], a[1], a[2])
	}
	finite := func(w *W, c *Case, b *V) {
		for _, v := range []*V{w.bbMin(b), w.bbMax(b)} {
			for _, x := range v.args {
				if x.K == KNum {
					continue
				}
				if !c.Bool(w.lt(x, w.num(math.Inf(1)))) || !c.Bool(w.lt(w.num(math.Inf(-1)), x)) {
					c.Skip()
				}
			}
		}
	}
	centers := []struct {
		name string
		axis int
		max  bool
	}{{"Center", -1, false}, {"CenterBottom", 1, false}, {"CenterTop", 1, true}, {"CenterBack", 2, false}, {"CenterFront", 2, true}}
	for _, ct := range centers {
		ct := ct
		want := func(w *W, b *V) *V {
			v := mid(w, b)
			switch {
			case ct.axis < 0:
				return v
			case ct.max:
				return put(w, v, ct.axis, w.bbMax(b).args[ct.axis])
			}
			return put(w, v, ct.axis, w.bbMin(b).args[ct.axis])
		}
		r.Rule("box "+ct.name, "", func(w *W) {
			b := w.sym("B", w.bbT())
			got := w.method(objPkg, "BoundingBox", ct.name, b)
			w.Same(ct.name, got, want(w, b), func(c *Case) { finite(w, c, b) })
		})
		r.Rule("object "+ct.name, "", func(w *W) {
			o := w.foreign("o")
			o.bounds = w.sym("B", w.bbT())
			got := w.method("api", "Object", ct.name, w.apiObj(o.v))
			w.Same(ct.name, got, want(w, o.bounds), func(c *Case) { finite(w, c, o.bounds) })
		})
	}
	r.Rule("Center of boxes without end", "", func(w *W) {
		inf := math.Inf(1)
		for m := 1; m < 8; m++ {
			q := w.fresh()
			q.where = w.where
			b := q.sym("B", q.bbT())
			lo, hi := q.bbMin(b), q.bbMax(b)
			fin := q.mkbb(lo, hi)
			want := mid(q, fin)
			for i := 0; i < 3; i++ {
				if m>>uint(i)&1 == 1 {
					lo, hi, want = put(q, lo, i, q.num(-inf)), put(q, hi, i, q.num(inf)), put(q, want, i, q.num(0))
				}
			}
			b = q.mkbb(lo, hi)
			got := q.method(objPkg, "BoundingBox", "Center", b)
			q.Same(fmt.Sprintf("centre of a box without end along axes %03b", m), got, want, func(c *Case) { finite(q, c, fin) })
		}
	})

	// placement: the map from points of the original to points of the result
	place := func(name string, f func(w *W, o *fobj) (got *V, fwd func(x *V) *V, assume func(c *Case))) {
		r.Rule("placed by "+name, "", func(w *W) {
			o := w.foreign("o")
			o.bounds = w.sym("B", w.bbT())
			got, fwd, assume := f(w, o)
			w.Calls = nil
			p := w.vec("p")
			in := w.insideO(got, p)
			calls := w.callsTo("invoke:Inside")
			w.All(func(c *Case) {
				finite(w, c, o.bounds)
				if assume != nil {
					assume(c)
				}
				n := 0
				for _, cr := range calls {
					if !c.Bool(cr.Guard) {
						continue
					}
					n++
					c.Expect("point asked of the original, moved forward", fwd(cr.Args[0]), p)
					if c.Bool(in) != c.Bool(cr.Res) {
						c.Fail("insideness differs from that of the original")
					}
				}
				if n == 0 {
					c.Fail("the original object is not consulted")
				}
			})
		})
	}
	place("Translate", func(w *W, o *fobj) (*V, func(x *V) *V, func(c *Case)) {
		d := w.vec("d")
		return w.apiO(o.v, "Translate", d), func(x *V) *V { return w.vadd(x, d) }, nil
	})
	place("WithCenter", func(w *W, o *fobj) (*V, func(x *V) *V, func(c *Case)) {
		to := w.vec("to")
		return w.apiO(o.v, "WithCenter", to), func(x *V) *V { return w.vadd(x, w.vsub(to, mid(w, o.bounds))) }, nil
	})
	place("WithCenterBottom", func(w *W, o *fobj) (*V, func(x *V) *V, func(c *Case)) {
		to := w.vec("to")
		from := put(w, mid(w, o.bounds), 1, w.bbMin(o.bounds).args[1])
		return w.apiO(o.v, "WithCenterBottom", to), func(x *V) *V { return w.vadd(x, w.vsub(to, from)) }, nil
	})
	about := func(w *W, at, s *V) func(x *V) *V {
		return func(x *V) *V { return w.vadd(at, w.vscale(s, w.vsub(x, at))) }
	}
	place("ScaleAt", func(w *W, o *fobj) (*V, func(x *V) *V, func(c *Case)) {
		at, s := w.vec("at"), w.F("s")
		return w.apiO(o.v, "ScaleAt", at, s), about(w, at, s), func(c *Case) { c.NonZero(s) }
	})
	place("Scale", func(w *W, o *fobj) (*V, func(x *V) *V, func(c *Case)) {
		s := w.F("s")
		return w.apiO(o.v, "Scale", s), about(w, mid(w, o.bounds), s), func(c *Case) { c.NonZero(s) }
	})
	place("ScaleToSize", func(w *W, o *fobj) (*V, func(x *V) *V, func(c *Case)) {
		m := w.F("m")
		size := w.sub(w.bbMax(o.bounds).args[0], w.bbMin(o.bounds).args[0])
		return w.apiO(o.v, "ScaleToSize", m), about(w, mid(w, o.bounds), w.div(m, size)), func(c *Case) { c.NonZero(m, size) }
	})
	for axis := 0; axis < 3; axis++ {
		axis := axis
		turn := func(w *W, at, a *V) func(x *V) *V {
			f64 := types.Typ[types.Float64]
			co, si := w.g.Fn("cos", f64, a), w.g.Fn("sin", f64, a)
			u, v := (axis+1)%3, (axis+2)%3
			return func(x *V) *V {
				d := w.vsub(x, at)
				e := put(w, d, u, w.sub(w.mul(co, d.args[u]), w.mul(si, d.args[v])))
				e = put(w, e, v, w.add(w.mul(si, d.args[u]), w.mul(co, d.args[v])))
				return w.vadd(at, e)
			}
		}
		// at multiples of a quarter turn the sines are rounded (C13)
		general := func(w *W, a *V) func(c *Case) {
			return func(c *Case) {
				for _, k := range []float64{-1, -0.5, 0.5, 1} {
					if c.Bool(w.g.Cmp("==", a, w.num(k*math.Pi))) {
						c.Skip()
					}
				}
			}
		}
		dir := func(w *W) *V { return put(w, w.cvec(0, 0, 0), axis, w.num(1)) }
		place(fmt.Sprintf("RotateAt, axis %d", axis), func(w *W, o *fobj) (*V, func(x *V) *V, func(c *Case)) {
			at, a := w.vec("at"), w.F("angle")
			return w.apiO(o.v, "RotateAt", at, dir(w), a), turn(w, at, a), general(w, a)
		})
		place(fmt.Sprintf("Rotate, axis %d", axis), func(w *W, o *fobj) (*V, func(x *V) *V, func(c *Case)) {
			a := w.F("angle")
			return w.apiO(o.v, "Rotate", dir(w), a), turn(w, mid(w, o.bounds), a), general(w, a)
		})
	}

	// combinations and constructors
	same := func(name string, f func(w *W) (got, want *V)) {
		r.Rule("api "+name, "", func(w *W) {
			got, want := f(w)
			where := w.where
			p := w.vec("p")
			i1, i2 := w.insideO(got, p), w.insideO(want, p)
			b1, b2 := w.boundsO(got), w.boundsO(want)
			rp, rv := w.ray()
			h1 := w.intersect(got, rp)
			rp2 := w.box(rv)
			h2 := w.intersect(want, rp2)
			w.where = where
			w.All(func(c *Case) {
				if i1 != i2 && c.Bool(i1) != c.Bool(i2) {
					c.Fail("another set of points is inside")
				}
			})
			w.All(func(c *Case) { c.Expect("bounds", b1, b2) })
			w.All(func(c *Case) {
				for _, f := range []string{"T", "Normal", "Local", "Material"} {
					if x, y := w.hf(h1, f), w.hf(h2, f); x != y {
						c.Expect(f, x, y)
					}
				}
			})
		})
	}
	for _, cb := range []struct {
		name string
		want func(w *W, a, b *V) *V
	}{
		{"And", func(w *W, a, b *V) *V { return w.objf("And", a, b) }},
		{"Or", func(w *W, a, b *V) *V { return w.objf("Or", a, b) }},
		{"AndNot", func(w *W, a, b *V) *V { return w.objf("And", a, w.objf("Not", b)) }},
		{"Restrict", func(w *W, a, b *V) *V { return w.objf("Restrict", a, b) }},
		{"Remove", func(w *W, a, b *V) *V { return w.objf("Restrict", a, w.objf("Not", b)) }},
		{"Difference", func(w *W, a, b *V) *V { return w.objf("Difference", a, b) }},
	} {
		cb := cb
		same(cb.name, func(w *W) (*V, *V) {
			a, b := w.foreign("a"), w.foreign("b")
			a.bounds, b.bounds = w.sym("A", w.bbT()), w.sym("B", w.bbT())
			var got *V
			if cb.name == "Difference" {
				got = w.field(w.call("api", cb.name, w.apiObj(a.v), w.apiObj(b.v)), w.p.Type("api", "Object"), "Interface")
			} else {
				got = w.apiO(a.v, cb.name, w.apiObj(b.v))
			}
			return got, cb.want(w, a.v, b.v)
		})
	}
	ctor := func(name string, f func(w *W) (args []*V, want *V)) {
		same(name, func(w *W) (*V, *V) {
			args, want := f(w)
			got := w.field(w.call("api", name, args...), w.p.Type("api", "Object"), "Interface")
			return got, want
		})
	}
	dir := func(w *W, i int) *V { return w.g.Int(i) }
	for _, k := range []struct {
		name string
		axis int
	}{{"Cylinder", -1}, {"CylinderX", 0}, {"CylinderZ", 2}, {"CylinderWithCaps", -1}} {
		k := k
		ctor(k.name, func(w *W) ([]*V, *V) {
			m, d, h, at := w.mat("m"), w.F("diam"), w.F("height"), w.vec("at")
			args := []*V{m, d, h, at}
			if k.axis >= 0 {
				return args, w.objf("CylinderDir", m, dir(w, k.axis), d, h, at)
			}
			return args, w.objf(k.name, args...)
		})
	}
	for _, k := range []struct {
		name string
		kind string // m: material, f: number, v: vector
	}{{"Backdrop", "m"}, {"Sphere", "mfv"}, {"Box", "mfffv"}, {"BoxWithBounds", "mvv"}, {"Rectangle", "mffv"}, {"RectangleWithVertices", "mvvv"}} {
		k := k
		ctor(k.name, func(w *W) ([]*V, *V) {
			var args []*V
			for i, t := range k.kind {
				n := fmt.Sprintf("x%d", i)
				switch t {
				case 'm':
					args = append(args, w.mat(n))
				case 'f':
					args = append(args, w.F(n))
				case 'v':
					args = append(args, w.vec(n))
				}
			}
			return args, w.objf(k.name, args...)
		})
	}
	ctor("Tree", func(w *W) ([]*V, *V) {
		var os, as []*V
		for i := 0; i < 3; i++ {
			o := w.foreign(fmt.Sprintf("o%d", i))
			o.bounds = w.infBB()
			os = append(os, o.v)
			as = append(as, w.apiObj(o.v))
		}
		return []*V{w.slice(w.p.Type("api", "Object"), as...)}, w.tree(os...)
	})
	ctor("Bounded", func(w *W) ([]*V, *V) {
		o := w.foreign("o")
		o.bounds = w.sym("B", w.bbT())
		return []*V{w.apiObj(o.v)}, w.objf("Bounded", o.v)
	})
	same("WithMaterial", func(w *W) (*V, *V) {
		o := w.foreign("o")
		o.bounds = w.sym("B", w.bbT())
		m := w.mat("m")
		return w.apiO(o.v, "WithMaterial", m), w.objf("WithMaterial", m, o.v)
	})
}
