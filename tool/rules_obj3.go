package main

import (
	"fmt"
	"go/types"
	"math"
)

// ---------------------------------------------------------------- slabs

// slab is a box described by where a ray crosses its planes: along axis i the
// planes are at parameters a_i and b_i. Every box and every ray with non-zero
// direction components can be written this way.
type slab struct{ a, b *V }

func (w *W) slab(name string, ray *V) (*slab, *V) {
	s := &slab{w.vec(name + ".a"), w.vec(name + ".b")}
	at := func(t *V) *V {
		return w.vadd(w.start(ray), w.vmap2(t, w.dir(ray), w.g.Mul))
	}
	return s, w.mkbb(at(s.a), at(s.b))
}

// proper: Min <= Max along axis i.
func (s *slab) proper(w *W, c *Case, ray *V, i int) {
	c.NonNeg(w.mul(w.sub(s.b.args[i], s.a.args[i]), w.dir(ray).args[i]))
}

// holds: the point at t lies in the box along axis i.
func (s *slab) holds(w *W, c *Case, ray, t *V, i int) {
	d := w.dir(ray).args[i]
	c.NonNeg(w.mul(w.sub(t, s.a.args[i]), d), w.mul(w.sub(s.b.args[i], t), d))
}

// ---------------------------------------------------------------- C10: culling

func checkC10Cull(r *R) {
	cull := func(name string, n int, shared bool, mk func(w *W, os []*V) *V) {
		for k := 0; k < n; k++ {
			k := k
			if n > 4 && k != 0 && k != n/2 && k != n-1 {
				continue
			}
			for vary := 0; vary < 3; vary++ {
				vary := vary
				if n == 1 && vary > 0 {
					continue
				}
				r.Rule(fmt.Sprintf("culling by %s, object %d, axis %d", name, k, vary), "", func(w *W) {
					rp, rv := w.ray()
					if n > 1 { // one axis at a time: unbounded along the others
						d := w.cvec(0.5, -0.25, 2)
						rp, rv = w.mkray(w.vec("s"), aggSet(w.g, d, []int{vary}, w.F("d")))
					}
					t := w.F("t")
					h := w.setField(w.sym("h", w.hitT()), w.hitT(), "T", t)
					s, bb := w.slab("B", rv)
					s2, bb2 := w.slab("C", rv)
					for i := 0; i < 3 && n > 1; i++ {
						if i != vary {
							for _, b := range []**V{&bb, &bb2} {
								*b = w.mkbb(aggSet(w.g, w.bbMin(*b), []int{i}, w.num(math.Inf(-1))), aggSet(w.g, w.bbMax(*b), []int{i}, w.num(math.Inf(1))))
							}
						}
					}
					var os []*V
					for i := 0; i < n; i++ {
						o := w.foreign(fmt.Sprintf("o%d", i))
						if i == k {
							o.bounds = bb
							o.hit = func(st *State, ray *V) *V { return h }
						} else {
							o.bounds = bb2
							o.hit = func(st *State, ray *V) *V { return w.missRec() }
						}
						os = append(os, o.v)
					}
					got := w.intersect(mk(w, os), rp)
					w.All(func(c *Case) {
						c.Pos(t)
						c.NonNeg(w.sub(w.num(1e99), t))
						for i := 0; i < 3; i++ {
							if n == 1 || i == vary {
								c.NonZero(w.dir(rv).args[i])
								s.proper(w, c, rv, i)
								s.holds(w, c, rv, t, i)
							}
						}
						if n > 1 {
							s2.proper(w, c, rv, vary)
						}
						if !c.Eq(w.hf(got, "T"), t) {
							c.Fail("an object that is hit inside its bounding box is skipped (T=%s)", c.Show(w.hf(got, "T")))
						}
					})
				})
			}
		}
	}
	cull("Bounded", 1, false, func(w *W, os []*V) *V { return w.objf("Bounded", os[0]) })
	cull("Tree", 1, false, func(w *W, os []*V) *V { return w.tree(os...) })
	cull("Tree of 2", 2, false, func(w *W, os []*V) *V { return w.tree(os...) })
	cull("Tree of 8", 8, false, func(w *W, os []*V) *V { return w.tree(os...) })
	cull("Bounded Tree", 1, false, func(w *W, os []*V) *V { return w.objf("Bounded", w.tree(os...)) })
	cull("Translated", 1, false, func(w *W, os []*V) *V { return w.objf("Translated", os[0], w.cvec(0, 0, 0)) })
	cull("Translated Bounded", 1, false, func(w *W, os []*V) *V {
		return w.objf("Translated", w.objf("Bounded", os[0]), w.cvec(0, 0, 0))
	})
	// rays parallel to some axes, starting strictly between those sides
	for _, mask := range []int{1, 2, 4, 3, 5, 6} {
		mask := mask
		par := func(name string, mk func(w *W, o *V) *V) {
			r.Rule(fmt.Sprintf("culling by %s, ray parallel to sides %03b", name, mask), "", func(w *W) {
				d := w.vec("d")
				for i := 0; i < 3; i++ {
					if mask&(1<<uint(i)) != 0 {
						d = aggSet(w.g, d, []int{i}, w.num(0))
					}
				}
				rp, rv := w.mkray(w.vec("s"), d)
				t := w.F("t")
				h := w.setField(w.sym("h", w.hitT()), w.hitT(), "T", t)
				s, bb := w.slab("B", rv)
				lo, hi := w.vec("lo"), w.vec("hi")
				for i := 0; i < 3; i++ {
					if mask&(1<<uint(i)) != 0 {
						bb = w.mkbb(aggSet(w.g, w.bbMin(bb), []int{i}, w.sub(w.start(rv).args[i], lo.args[i])), aggSet(w.g, w.bbMax(bb), []int{i}, w.add(w.start(rv).args[i], hi.args[i])))
					}
				}
				o := w.foreign("o")
				o.bounds = bb
				o.hit = func(st *State, ray *V) *V { return h }
				got := w.intersect(mk(w, o.v), rp)
				w.All(func(c *Case) {
					c.Pos(t)
					c.NonNeg(w.sub(w.num(1e99), t))
					for i := 0; i < 3; i++ {
						if mask&(1<<uint(i)) != 0 {
							c.Pos(lo.args[i], hi.args[i])
						} else {
							c.NonZero(d.args[i])
							s.proper(w, c, rv, i)
							s.holds(w, c, rv, t, i)
						}
					}
					if !c.Eq(w.hf(got, "T"), t) {
						c.Fail("an object that is hit inside its bounding box is skipped (T=%s)", c.Show(w.hf(got, "T")))
					}
				})
			})
		}
		par("Bounded", func(w *W, o *V) *V { return w.objf("Bounded", o) })
		par("Tree", func(w *W, o *V) *V { return w.tree(o) })
		par("Translated", func(w *W, o *V) *V { return w.objf("Translated", o, w.cvec(0, 0, 0)) })
	}
	// inside implies inside the box
	in := func(name string, mk func(w *W, o *V) *V) {
		r.Rule("culling of insideness by "+name, "", func(w *W) {
			o := w.foreign("o")
			o.bounds = w.sym("B", w.bbT())
			o.inside = func(p *V) *V { return w.g.True }
			p := w.vec("p")
			got := w.insideO(mk(w, o.v), p)
			w.All(func(c *Case) {
				for i := 0; i < 3; i++ {
					c.Pos(w.sub(p.args[i], w.bbMin(o.bounds).args[i]), w.sub(w.bbMax(o.bounds).args[i], p.args[i]))
				}
				if !c.Bool(got) {
					c.Fail("a point inside the object and its box is reported as outside")
				}
			})
		})
	}
	in("Bounded", func(w *W, o *V) *V { return w.objf("Bounded", o) })
	in("Tree", func(w *W, o *V) *V { return w.tree(o) })
	in("Or", func(w *W, o *V) *V { return w.objf("Or", o, o) })
	in("Translated", func(w *W, o *V) *V { return w.objf("Translated", o, w.cvec(0, 0, 0)) })
}

// inBox checks that p lies in the box bb, with at most eps outside.
func (w *W) inBox(c *Case, what string, bb, p *V) {
	for i := 0; i < 3; i++ {
		if !c.Bool(w.le(w.bbMin(bb).args[i], p.args[i])) || !c.Bool(w.le(p.args[i], w.bbMax(bb).args[i])) {
			c.Fail("%s may lie outside of the bounding box along axis %d", what, i)
			return
		}
	}
}

// ---------------------------------------------------------------- C10: primitives

func checkC10Prim(r *R) {
	prim := func(name string, mk func(w *W) *V, pos func(w *W) []*V) {
		r.Rule("box of hits of "+name, "", func(w *W) {
			o := mk(w)
			rp, rv := w.ray()
			got := w.intersect(o, rp)
			bb := w.boundsO(o)
			w.All(func(c *Case) {
				c.Pos(pos(w)...)
				c.NonZero(w.dir(rv).args...)
				t := w.hf(got, "T")
				if !c.Bool(w.positive(t)) {
					return
				}
				w.inBox(c, "a hit", bb, w.along(rv, t))
			})
		})
		r.Rule("box of the inside of "+name, "", func(w *W) {
			o := mk(w)
			p := w.vec("p")
			in := w.insideO(o, p)
			bb := w.boundsO(o)
			w.All(func(c *Case) {
				c.Pos(pos(w)...)
				if c.Bool(in) {
					w.inBox(c, "a point inside", bb, p)
				}
			})
		})
	}
	prim("Sphere", func(w *W) *V { return w.objf("Sphere", w.mat("m"), w.F("diam"), w.vec("c")) }, func(w *W) []*V { return []*V{w.F("diam")} })
	prim("Cylinder", func(w *W) *V { return w.objf("Cylinder", w.mat("m"), w.F("diam"), w.F("h"), w.vec("c")) }, func(w *W) []*V { return []*V{w.F("diam"), w.F("h")} })
	for i := 0; i < 3; i++ {
		i := i
		prim(fmt.Sprintf("CylinderDir %d", i), func(w *W) *V {
			return w.objf("CylinderDir", w.mat("m"), w.g.Int(i), w.F("diam"), w.F("h"), w.vec("c"))
		}, func(w *W) []*V { return []*V{w.F("diam"), w.F("h")} })
	}
	boxes := func(name string, mk func(w *W) *V, pos func(w *W) []*V) {
		r.Rule("box of the inside of "+name, "", func(w *W) {
			o := mk(w)
			p := w.vec("p")
			in := w.insideO(o, p)
			bb := w.boundsO(o)
			w.All(func(c *Case) {
				c.Pos(pos(w)...)
				if c.Bool(in) {
					w.inBox(c, "a point inside", bb, p)
				}
			})
		})
	}
	boxes("Box", func(w *W) *V { return w.objf("Box", w.mat("m"), w.F("dx"), w.F("dy"), w.F("dz"), w.vec("c")) }, func(w *W) []*V { return []*V{w.F("dx"), w.F("dy"), w.F("dz")} })
	boxes("BoxWithBounds", func(w *W) *V { return w.objf("BoxWithBounds", w.mat("m"), w.vec("a"), w.vec("b")) }, func(w *W) []*V { return nil })
	r.Rule("box of the inside of IsoSurface", "", func(w *W) {
		w.Cut = true
		f := w.p.Func(objPkg, "IsoSurface")
		o := w.objf("IsoSurface", w.mat("m"), w.F("dx"), w.F("dy"), w.F("dz"), w.g.Sym("f", f.Params[len(f.Params)-1].Type()))
		p := w.vec("p")
		in := w.insideO(o, p)
		bb := w.boundsO(o)
		w.All(func(c *Case) {
			c.Pos(w.F("dx"), w.F("dy"), w.F("dz"))
			if c.Bool(in) {
				w.inBox(c, "a point inside", bb, p)
			}
		})
	})
	r.Rule("box of Box", "", func(w *W) {
		o := w.objf("Box", w.mat("m"), w.F("dx"), w.F("dy"), w.F("dz"), w.vec("c"))
		bb := w.boundsO(o)
		size := w.mkvec(w.F("dx"), w.F("dy"), w.F("dz"))
		half := w.vscale(w.num(0.5), size)
		w.All(func(c *Case) {
			c.Pos(size.args...)
			w.inBox(c, "the corner", bb, w.vadd(w.vec("c"), half))
			w.inBox(c, "the corner", bb, w.vsub(w.vec("c"), half))
		})
	})
	mesh := func(name string, mk func(w *W) (*V, []*V)) {
		r.Rule("box of "+name, "", func(w *W) {
			o, vs := mk(w)
			bb := w.boundsO(o)
			for i := 0; i < 3; i++ {
				for _, v := range vs {
					w.All(func(c *Case) {
						if !c.Bool(w.le(w.bbMin(bb).args[i], v.args[i])) || !c.Bool(w.le(v.args[i], w.bbMax(bb).args[i])) {
							c.Fail("a vertex may lie outside of the bounding box along axis %d", i)
						}
					})
				}
			}
		})
	}
	noNormals := func(w *W) {
		w.handlers["github.com/barnex/bruteray/geom.TriangleNormal"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return w.vec("n"), true }
	}
	mesh("Triangle", func(w *W) (*V, []*V) {
		noNormals(w)
		a, b, c := w.vec("a"), w.vec("b"), w.vec("c")
		return w.objf("Triangle", w.mat("m"), a, b, c), []*V{a, b, c}
	})
	mesh("Quadrilateral", func(w *W) (*V, []*V) {
		noNormals(w)
		a, b, c, d := w.vec("a"), w.vec("b"), w.vec("c"), w.vec("d")
		return w.objf("Quadrilateral", w.mat("m"), a, b, c, d), []*V{a, b, c, d}
	})
}

// ---------------------------------------------------------------- C14: lights and cameras

func (w *W) lightT() types.Type  { return w.p.Type("tracer", "Light") }
func (w *W) cameraT() types.Type { return w.p.Type("tracer", "Camera") }

// foreignCamera is an arbitrary camera: its ray is a function of u and v.
func (w *W) foreignCamera() (cam, ray *V) {
	cam = w.g.Sym("cam", w.cameraT())
	ray = w.sym("camray", w.rayT())
	w.handlers["invoke:RayFrom"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		if cr.Recv != cam {
			return nil, false
		}
		return it.newObj(st, "ray", w.rayT(), ray), true
	}
	return
}

func checkC14Rest(r *R) {
	r.Rule("Light Transformed: Sample", "", func(w *W) {
		l := w.g.Sym("l", w.lightT())
		o := w.foreign("o")
		o.bounds = w.infBB()
		w.handlers["invoke:Object"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return o.v, true }
		t, v := w.tr("t")
		tl := w.call("tracer/lights", "Transformed", l, t)
		w.Calls = nil
		target := w.vec("target")
		res := w.invoke(tl, "Sample", types.NewTuple(types.NewVar(0, nil, "", w.vecT()), types.NewVar(0, nil, "", w.colT())), w.ctx(), target)
		calls := w.callsTo("invoke:Sample")
		w.All(func(c *Case) {
			n := 0
			for _, cr := range calls {
				if !c.Bool(cr.Guard) {
					continue
				}
				n++
				if cr.Recv != l {
					c.Fail("an other light is sampled")
				}
				c.Expect("target seen by the original light, transformed forward", w.affPoint(v, w.argOfType(cr, w.vecT())), target)
				c.Expect("position", res.args[0], w.affPoint(v, cr.Res.args[0]))
				c.Expect("intensity", res.args[1], cr.Res.args[1])
			}
			if n != 1 {
				c.Fail("the original light is sampled %d times", n)
			}
		})
	})
	r.Rule("Light Transformed: Object", "", func(w *W) {
		l := w.g.Sym("l", w.lightT())
		o := w.foreign("o")
		o.bounds = w.infBB()
		w.handlers["invoke:Object"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return o.v, true }
		t, v := w.tr("t")
		tl := w.call("tracer/lights", "Transformed", l, t)
		ob := w.invoke(tl, "Object", w.p.Type("tracer", "Object"))
		rp, rv := w.ray()
		w.Calls = nil
		got := w.intersect(ob, rp)
		calls := w.callsTo("invoke:Intersect")
		w.All(func(c *Case) {
			c.NonZero(w.dir(rv).args...)
			for _, cr := range calls {
				if !c.Bool(cr.Guard) {
					continue
				}
				if cr.Recv != o.v {
					c.Fail("an other object is intersected")
				}
				c.Expect("start of the ray seen by the original", w.affPoint(v, w.start(cr.Args[0])), w.start(rv))
				c.Expect("direction of the ray seen by the original", w.affDir(v, w.dir(cr.Args[0])), w.dir(rv))
				c.Expect("T", w.hf(got, "T"), w.hf(cr.Res, "T"))
				c.Expect("material", w.hf(got, "Material"), w.hf(cr.Res, "Material"))
				w.parallel(c, "normal", w.hf(got, "Normal"), w.affDir(v, w.hf(cr.Res, "Normal")))
				return
			}
			c.Fail("the object of the light is not intersected")
		})
	})
	cam := func(name string, mk func(w *W, cam *V) (c *V, fwd, fdir func(x *V) *V)) {
		r.Rule("Camera "+name, "", func(w *W) {
			cam, ray := w.foreignCamera()
			tc, fwd, fdir := mk(w, cam)
			u, v := w.F("u"), w.F("v")
			w.Calls = nil
			rp := w.method("tracer/cameras", "WithTransform", "RayFrom", tc, w.ctx(), u, v)
			got := w.get(rp, w.rayT())
			calls := w.callsTo("invoke:RayFrom")
			w.All(func(c *Case) {
				n := 0
				for _, cr := range calls {
					if c.Bool(cr.Guard) {
						n++
						k := len(cr.Args)
						c.Expect("u", cr.Args[k-2], u)
						c.Expect("v", cr.Args[k-1], v)
					}
				}
				if n != 1 {
					c.Fail("the original camera is asked for %d rays", n)
				}
				c.Expect("start", w.start(got), fwd(w.start(ray)))
				c.Expect("direction", w.dir(got), fdir(w.dir(ray)))
			})
		})
	}
	matT := func(w *W) types.Type { return w.p.Type("geom", "Matrix") }
	cam("Transform", func(w *W, c *V) (*V, func(x *V) *V, func(x *V) *V) {
		m, t := w.sym("m", matT(w)), w.vec("t")
		return w.call("tracer/cameras", "Transform", c, m, t), func(x *V) *V { return w.vadd(w.matVec(m, x), t) }, func(x *V) *V { return w.matVec(m, x) }
	})
	cam("Transform twice", func(w *W, c *V) (*V, func(x *V) *V, func(x *V) *V) {
		m, t, n, s := w.sym("m", matT(w)), w.vec("t"), w.sym("n", matT(w)), w.vec("s")
		c1 := w.call("tracer/cameras", "Transform", c, m, t)
		return w.call("tracer/cameras", "Transform", w.iface(w.p.Func("tracer/cameras", "Transform").Signature.Results().At(0).Type(), c1), n, s),
			func(x *V) *V { return w.vadd(w.matVec(n, w.matVec(m, x)), w.vadd(t, s)) }, func(x *V) *V { return w.matVec(n, w.matVec(m, x)) }
	})
	cam("Translate", func(w *W, c *V) (*V, func(x *V) *V, func(x *V) *V) {
		m, t, s := w.sym("m", matT(w)), w.vec("t"), w.vec("s")
		c1 := w.call("tracer/cameras", "Transform", c, m, t)
		return w.method("tracer/cameras", "WithTransform", "Translate", c1, s),
			func(x *V) *V { return w.vadd(w.matVec(m, x), w.vadd(t, s)) }, func(x *V) *V { return w.matVec(m, x) }
	})
	cam("YawPitchRoll", func(w *W, c *V) (*V, func(x *V) *V, func(x *V) *V) {
		m, t := w.sym("m", matT(w)), w.vec("t")
		y, p, q := w.F("yaw"), w.F("pitch"), w.F("roll")
		c1 := w.call("tracer/cameras", "Transform", c, m, t)
		rot := w.get(w.call("geom", "YawPitchRoll", y, p, q), w.p.Type("geom", "AffineTransform"))
		return w.method("tracer/cameras", "WithTransform", "YawPitchRoll", c1, y, p, q),
			func(x *V) *V { return w.vadd(w.affDir(rot, w.matVec(m, x)), t) }, func(x *V) *V { return w.affDir(rot, w.matVec(m, x)) }
	})
	// the api's object methods are the transforms they say
	obj := func(name string, mk func(w *W, o *V, oT types.Type) (*V, *V)) {
		r.Rule("api.Object."+name, "", func(w *W) {
			o := w.foreign("o")
			o.bounds = w.sym("B", w.bbT())
			oT := w.p.Type("api", "Object")
			ob := w.g.Agg(oT, o.v)
			got, v := mk(w, ob, oT)
			p := w.vec("p")
			w.Calls = nil
			in := w.insideO(w.field(got, oT, "Interface"), p)
			calls := w.callsTo("invoke:Inside")
			w.All(func(c *Case) {
				n := 0
				for _, cr := range calls {
					if !c.Bool(cr.Guard) {
						continue
					}
					n++
					if v.K == KAgg && len(v.args) == 3 {
						c.Expect("moved by", w.vsub(p, cr.Args[0]), v)
					} else {
						c.Expect("point seen by the original, transformed forward", w.affPoint(v, cr.Args[0]), p)
					}
					if c.Bool(in) != c.Bool(cr.Res) {
						c.Fail("insideness differs from that of the original")
					}
				}
				if n == 0 {
					c.Fail("the original object is not consulted")
				}
			})
		})
	}
	am := func(w *W, name string, o *V, a ...*V) *V { return w.method("api", "Object", name, o, a...) }
	center := func(w *W, o *V) *V { // assumes finite bounds
		b := w.sym("B", w.bbT())
		return w.vscale(w.num(0.5), w.vadd(w.bbMin(b), w.bbMax(b)))
	}
	obj("Transform", func(w *W, o *V, t types.Type) (*V, *V) { p, v := w.tr("t"); return am(w, "Transform", o, p), v })
	obj("Translate", func(w *W, o *V, t types.Type) (*V, *V) { return am(w, "Translate", o, w.vec("d")), w.vec("d") })
	obj("WithCenter", func(w *W, o *V, t types.Type) (*V, *V) {
		return am(w, "WithCenter", o, w.vec("d")), w.vsub(w.vec("d"), center(w, o))
	})
	obj("WithCenterBottom", func(w *W, o *V, t types.Type) (*V, *V) {
		b := w.sym("B", w.bbT())
		return am(w, "WithCenterBottom", o, w.vec("d")), w.vsub(w.vec("d"), aggSet(w.g, center(w, o), []int{1}, w.bbMin(b).args[1]))
	})
	aff := func(w *W, f string, a ...*V) *V {
		return w.get(w.call("geom", f, a...), w.p.Type("geom", "AffineTransform"))
	}
	obj("ScaleAt", func(w *W, o *V, t types.Type) (*V, *V) {
		return am(w, "ScaleAt", o, w.vec("d"), w.F("s")), aff(w, "Scale", w.vec("d"), w.F("s"))
	})
	obj("Scale", func(w *W, o *V, t types.Type) (*V, *V) {
		return am(w, "Scale", o, w.F("s")), aff(w, "Scale", center(w, o), w.F("s"))
	})
	obj("RotateAt", func(w *W, o *V, t types.Type) (*V, *V) {
		return am(w, "RotateAt", o, w.vec("d"), w.cvec(0, 1, 0), w.F("s")), aff(w, "Rotate", w.vec("d"), w.cvec(0, 1, 0), w.F("s"))
	})
	obj("Rotate", func(w *W, o *V, t types.Type) (*V, *V) {
		return am(w, "Rotate", o, w.cvec(0, 0, 1), w.F("s")), aff(w, "Rotate", center(w, o), w.cvec(0, 0, 1), w.F("s"))
	})
}
