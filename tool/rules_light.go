package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	seqPkg   = "tracer/sequence"
	lightPkg = "tracer/lights"
	camPkg   = "tracer/cameras"
)

func init() {
	register("C28", 13, "value-graph analysis with polynomial normal forms", "Light sources are sampled at an arbitrary target with arbitrary random numbers: position and intensity must be those of the documented emitter (identities between normal forms, all sign cases), and an arbitrary ray to the plane of the light must meet its visible object exactly inside its outline, bright on the front and black on the back.", checkC28)
	register("C29", 6, "value-graph analysis with polynomial normal forms", "The mappings are evaluated at arbitrary (u,v) and normals (all orders of the normal's components): disk radius and angle must be the uniform ones, and the hemisphere mapping the disk point lifted to the unit sphere in an orthonormal basis around the normal.", checkC29)
	register("C25", 9, "value-graph analysis with polynomial normal forms", "Pixel and sensor coordinates are symbolic: IndexToCam must be the documented linear map for every image size, and each camera's ray the documented direction and start for every sensor position, field of view, aperture, focus and lens sample.", checkC25)
	register("C07", 12, "value-graph analysis and loop invariants", "Context initialisation must re-seed every low-discrepancy sequence with pixel and pass; the radical inverse loop is verified with an invariant over its generic iteration, the element formula by normal forms, and the bases of the sequences that are used together are compared.", checkC07)
}

// f2 is a pair of floats as returned by a function.
func (w *W) f2(a, b *V) *V {
	f := types.Typ[types.Float64]
	return w.g.mk(&V{K: KTuple, typ: types.NewTuple(types.NewVar(0, nil, "", f), types.NewVar(0, nil, "", f)), args: []*V{a, b}})
}

type rnd struct{ n int }

// random makes the context's generators return fresh symbols u1,v1, u2,v2, ...
func (w *W) random() *rnd {
	r := &rnd{}
	for _, m := range []string{"Generate2", "GenerateLens"} {
		w.handlers[ctxName+m] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			r.n++
			return w.f2(w.F(fmt.Sprintf("u%d", r.n)), w.F(fmt.Sprintf("v%d", r.n))), true
		}
	}
	w.handlers[ctxName+"Ray"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		return it.newObj(st, "pooled ray", w.rayT(), w.g.Zero(w.rayT())), true
	}
	w.handlers[ctxName+"PutRay"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		return w.g.mk(&V{K: KTuple, typ: types.NewTuple()}), true
	}
	return r
}

func (w *W) unitIval(c *Case, xs ...*V) {
	for _, x := range xs {
		c.NonNeg(x)
		c.Pos(w.sub(w.num(1), x))
	}
}

// diskPoint: (x,y) is the uniform image of (u,v) on a disk of radius r.
func (w *W) diskPoint(c *Case, x, y, r, u, v *V) bool {
	tau := w.num(2 * math.Pi)
	for _, uv := range [][2]*V{{u, v}, {v, u}} {
		rad := w.mul(r, w.sqrt(uv[1]))
		co, si := w.mul(rad, w.fn1("cos", w.mul(tau, uv[0]))), w.mul(rad, w.fn1("sin", w.mul(tau, uv[0])))
		for _, p := range [][2]*V{{x, y}, {y, x}} {
			for _, s := range []*V{si, w.g.Neg(si)} {
				for _, k := range []*V{co, w.g.Neg(co)} {
					if c.Eq(p[0], k) && c.Eq(p[1], s) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (w *W) posColT() types.Type {
	return types.NewTuple(types.NewVar(0, nil, "", w.vecT()), types.NewVar(0, nil, "", w.colT()))
}

func checkC28(r *R) {
	pi := math.Pi
	type lightDef struct {
		name string
		mk   func(w *W) *V
		disk bool
	}
	defs := []lightDef{
		{"RectangleLight", func(w *W) *V {
			return w.call(lightPkg, "RectangleLight", w.col("B"), w.F("w"), w.F("h"), w.vec("c"))
		}, false},
		{"DiskLight", func(w *W) *V {
			return w.call(lightPkg, "DiskLight", w.col("B"), w.F("w"), w.vec("c"))
		}, true},
	}
	for _, d := range defs {
		d := d
		r.Rule(d.name+": position of samples", "", func(w *W) {
			gen := w.random()
			got := w.invoke(d.mk(w), "Sample", w.posColT(), w.ctx(), w.vec("target"))
			w.All(func(c *Case) {
				c.Pos(w.F("w"), w.F("h"))
				w.unitIval(c, w.F("u1"), w.F("v1"))
				w.noPanic(c)
				if gen.n != 1 {
					c.Fail("%d pairs of random numbers are used", gen.n)
					return
				}
				off := w.vsub(tupleAt(got, 0), w.vec("c"))
				if !c.Bool(w.le(w.mul(off.args[1], off.args[1]), w.num(1e-8))) {
					c.Fail("the sampled position is not in the plane of the light")
				}
				u, v := w.F("u1"), w.F("v1")
				if d.disk {
					if !w.diskPoint(c, off.args[0], off.args[2], w.mul(w.num(0.5), w.F("w")), u, v) {
						c.Fail("the position is not uniform on the disk: x = %s", c.Show(off.args[0]))
					}
					return
				}
				ok := false
				for _, uv := range [][2]*V{{u, v}, {v, u}} {
					x := w.mul(w.sub(uv[0], w.num(0.5)), w.F("w"))
					z := w.mul(w.sub(uv[1], w.num(0.5)), w.F("h"))
					okx := c.Eq(off.args[0], x) || c.Eq(off.args[0], w.g.Neg(x))
					okz := c.Eq(off.args[2], z) || c.Eq(off.args[2], w.g.Neg(z))
					ok = ok || okx && okz
				}
				if !ok {
					c.Fail("the position is not uniform on the rectangle: x = %s, z = %s", c.Show(off.args[0]), c.Show(off.args[2]))
				}
			})
		})
		r.Rule(d.name+": intensity", "", func(w *W) {
			w.random()
			target := w.vec("target")
			got := w.invoke(d.mk(w), "Sample", w.posColT(), w.ctx(), target)
			w.All(func(c *Case) {
				c.Pos(w.F("w"), w.F("h"))
				w.unitIval(c, w.F("u1"), w.F("v1"))
				delta := w.vsub(target, tupleAt(got, 0))
				d2 := w.dot(delta, delta)
				c.Pos(d2)
				area := w.mul(w.F("w"), w.F("h"))
				if d.disk {
					area = w.mul(w.num(pi/4), w.F("w"), w.F("w"))
				}
				dn := w.g.Neg(delta.args[1])
				want := w.g.Zero(w.colT())
				if c.Bool(w.positive(dn)) {
					cs := w.div(dn, w.sqrt(d2))
					want = w.cscale(w.div(w.mul(area, cs), w.mul(w.num(pi), d2)), w.col("B"))
				}
				c.Expect("intensity", tupleAt(got, 1), want)
			})
		})
		for _, up := range []bool{true, false} {
			up := up
			r.Rule(fmt.Sprintf("%s: visible shape (seen from %s)", d.name, map[bool]string{true: "below", false: "above"}[up]), "", func(w *W) {
				w.infBounds()
				w.shading(nil)
				x, z, t := w.F("x"), w.F("z"), w.F("t")
				dx := 1.0
				if !up {
					dx = -1
				}
				wd, hd, c0 := w.num(6), w.num(4), w.cvec(1, 2, 3)
				var l *V
				if d.disk {
					l = w.call(lightPkg, "DiskLight", w.col("B"), wd, c0)
				} else {
					l = w.call(lightPkg, "RectangleLight", w.col("B"), wd, hd, c0)
				}
				obj := w.invoke(l, "Object", w.p.Type("tracer", "Object"))
				rp, rv := w.mkray(w.mkvec(w.add(x, w.num(1)), w.sub(w.num(2), w.mul(w.num(dx), t)), w.add(z, w.num(3))), w.cvec(0, dx, 0))
				w.Cut, w.MaxIter = true, 3
				got := w.invoke(obj, "Intersect", w.hitT(), rp)
				hc := w.g.Zero(w.hcT())
				n := w.hf(got, "Normal")
				hc = w.setField(hc, w.hcT(), "T", w.hf(got, "T"))
				hc = w.setField(hc, w.hcT(), "Normal", w.vscale(w.div(w.num(1), w.vlen(n)), n))
				_ = rv
				m := w.hf(got, "Material")
				col := w.tryShade(m, w.ctx(), w.box(w.sym("scene", w.p.Type("tracer", "Scene"))), rp, hc)
				w.All(func(c *Case) {
					w.noTrunc(c)
					c.Pos(t)
					c.NonNeg(w.sub(w.num(1000), t))
					a, b := w.mul(x, x), w.mul(z, z)
					var in bool
					if d.disk {
						in = c.Bool(w.lt(w.add(a, b), w.num(9)))
						if in {
							for _, v := range []*V{x, z} {
								c.Pos(w.add(w.num(3), v), w.sub(w.num(3), v))
							}
						} else if c.Bool(w.g.Cmp("==", w.add(a, b), w.num(9))) {
							c.Skip()
						}
					} else {
						in = c.Bool(w.lt(x, w.num(3))) && c.Bool(w.lt(w.num(-3), x)) && c.Bool(w.lt(z, w.num(2))) && c.Bool(w.lt(w.num(-2), z))
						for _, e := range []*V{w.sub(w.num(3), x), w.add(w.num(3), x), w.sub(w.num(2), z), w.add(w.num(2), z)} {
							if !in && c.Bool(w.g.Cmp("==", e, w.num(0))) {
								c.Skip()
							}
						}
					}
					if !in {
						if c.Bool(w.positive(w.hf(got, "T"))) {
							c.Fail("the visible object is larger than the light")
						}
						return
					}
					c.Expect("distance to the visible object", w.hf(got, "T"), t)
					if up {
						c.Expect("brightness of the front", col, w.col("B"))
					} else {
						c.Expect("brightness of the back", col, w.g.Zero(w.colT()))
					}
				})
			})
		}
	}
	r.Rule("PointLight", "", func(w *W) {
		l := w.call(lightPkg, "PointLight", w.col("P"), w.vec("c"))
		target := w.vec("target")
		got := w.invoke(l, "Sample", w.posColT(), w.ctx(), target)
		delta := w.vsub(target, w.vec("c"))
		w.All(func(c *Case) {
			c.Pos(w.dot(delta, delta))
			w.noPanic(c)
			c.Expect("position", tupleAt(got, 0), w.vec("c"))
			c.Expect("intensity", tupleAt(got, 1), w.cscale(w.div(w.num(1), w.mul(w.num(4*pi), w.dot(delta, delta))), w.col("P")))
		})
	})
	r.Rule("PointLight is not visible", "", func(w *W) {
		l := w.call(lightPkg, "PointLight", w.col("P"), w.vec("c"))
		rp, _ := w.ray()
		got := w.invoke(w.invoke(l, "Object", w.p.Type("tracer", "Object")), "Intersect", w.hitT(), rp)
		w.All(func(c *Case) {
			if c.Bool(w.positive(w.hf(got, "T"))) {
				c.Fail("a point light is visible")
			}
		})
	})
	sun := func(name string, yaw, pitch func(w *W) *V) {
		r.Rule("SunLight: "+name, "", func(w *W) {
			// the centre of the sun (v = 0) and a point at its edge (v = 1)
			y, p := yaw(w), pitch(w)
			ang := w.F("diam")
			l := w.call(lightPkg, "SunLight", w.col("B"), ang, y, p)
			at := func(u, v float64) *V {
				w.handlers[ctxName+"Generate2"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
					return w.f2(w.num(u), w.num(v)), true
				}
				return w.invoke(l, "Sample", w.posColT(), w.ctx(), w.cvec(0, 0, 0))
			}
			ctr := at(0, 0)
			e1, e2 := at(0, 1), at(0.25, 1)
			cp, sp := w.fn1("cos", p), w.fn1("sin", p)
			cy, sy := w.fn1("cos", y), w.fn1("sin", y)
			dir := w.mkvec(w.g.Neg(w.mul(cp, sy)), sp, w.g.Neg(w.mul(cp, cy)))
			w.All(func(c *Case) {
				c.Pos(ang)
				for _, a := range []*V{y, p} { // special values have their own rules
					for _, k := range []float64{-1, -0.5, 0.5, 1} {
						if a.K != KNum {
							c.NonZero(w.sub(a, w.num(k*math.Pi)))
						}
					}
				}
				pos := tupleAt(ctr, 0)
				dist := w.dot(pos, dir)
				if s, ok := c.Sign(dist); !ok || s <= 0 {
					c.Fail("the sun is not in the requested direction")
					return
				}
				c.Expect("direction of the sun", pos, w.vscale(dist, dir))
				if !c.Bool(w.lt(w.num(1e4), dist)) {
					c.Fail("the sun is not far away")
				}
				for i, e := range []*V{e1, e2} {
					off := w.vsub(tupleAt(e, 0), pos)
					want := w.mul(w.num(0.25), ang, ang, dist, dist)
					rel := w.sub(w.div(w.dot(off, off), want), w.num(1))
					if !c.Bool(w.lt(w.mul(rel, rel), w.num(1e-6))) {
						c.Fail("apparent radius of the sun in direction %d: square is %s", i, c.Show(w.dot(off, off)))
					}
					c.Expect("the sun faces the scene", w.dot(off, dir), w.num(0))
				}
				c.Expect("intensity on a surface facing the centre of the sun", tupleAt(ctr, 1), w.col("B"))
			})
		})
	}
	ang := func(n string) func(w *W) *V { return func(w *W) *V { return w.F(n) } }
	cst := func(x float64) func(w *W) *V { return func(w *W) *V { return w.num(x) } }
	sun("any yaw and pitch", ang("yaw"), ang("pitch"))
	sun("on the horizon", ang("yaw"), cst(0))
	sun("in the zenith", ang("yaw"), cst(math.Pi/2))
}

// tryShade evaluates a material where there is one.
func (w *W) tryShade(m *V, args ...*V) *V {
	switch m.K {
	case KIte:
		a, b := w.tryShade(m.args[1], args...), w.tryShade(m.args[2], args...)
		return w.g.Ite(m.args[0], a, b)
	case KNil:
		return w.g.Zero(w.colT())
	}
	return w.invoke(m, "Shade", w.colT(), args...)
}

func checkC29(r *R) {
	r.Rule("UniformDisk", "", func(w *W) {
		u, v := w.F("u"), w.F("v")
		got := w.call(seqPkg, "UniformDisk", u, v)
		w.All(func(c *Case) {
			w.unitIval(c, u, v)
			w.noPanic(c)
			if !w.diskPoint(c, tupleAt(got, 0), tupleAt(got, 1), w.num(1), u, v) {
				c.Fail("not uniform on the unit disk: x = %s, y = %s", c.Show(tupleAt(got, 0)), c.Show(tupleAt(got, 1)))
			}
		})
	})
	hemi := func(name string, mk func(w *W) *V) {
		r.Rule("CosineSphere, "+name, "", func(w *W) {
			n := mk(w)
			u, v := w.F("u"), w.F("v")
			at := func(u *V) *V { return w.call(seqPkg, "CosineSphere", u, v, n) }
			got := at(u)
			// the tangent directions, from two values of u a quarter turn apart
			g0, g1 := at(w.num(0)), at(w.num(0.25))
			w.All(func(c *Case) {
				c.Pos(v)
				c.Pos(w.sub(w.num(1), v))
				w.unitIval(c, u)
				for _, x := range n.args {
					if x.K != KNum { // the axes have their own rules
						a, b := w.sub(w.num(1), x), w.add(w.num(1), x)
						c.Pos(a, b)
						c.Fact(w.mul(a, a, a, b), sPos)
						c.Fact(w.mul(a, a), sPos)
						c.Fact(w.mul(a, a, a, b, b, b), sPos)
					}
				}
				w.noPanic(c)
				z := w.sqrt(w.sub(w.num(1), v))
				zn := w.vscale(z, n)
				ex, ey := w.vsub(g0, zn), w.vsub(g1, zn)
				c.Expect("height of the first tangent", w.dot(ex, n), w.num(0))
				c.Expect("height of the second tangent", w.dot(ey, n), w.num(0))
				c.Expect("squared length of the first tangent", w.dot(ex, ex), v)
				c.Expect("squared length of the second tangent", w.dot(ey, ey), v)
				c.Expect("angle of the tangents", w.dot(ex, ey), w.num(0))
				tau := w.mul(w.num(2*math.Pi), u)
				want := w.vadd(zn, w.vadd(w.vscale(w.fn1("cos", tau), ex), w.vscale(w.fn1("sin", tau), ey)))
				c.Expect("direction", got, want)
			})
		})
	}
	hemi("any unit normal", func(w *W) *V {
		n := w.vec("n")
		w.unit(n)
		return n
	})
	for i := 0; i < 3; i++ {
		for _, s := range []float64{1, -1} {
			i, s := i, s
			hemi(fmt.Sprintf("normal %+g along axis %d", s, i), func(w *W) *V {
				n := [3]float64{}
				n[i] = s
				return w.v3(n)
			})
		}
	}
}

func checkC25(r *R) {
	for _, pkg := range []string{"tracer", "sampler"} {
		pkg := pkg
		r.Rule("IndexToCam of "+pkg, "", func(w *W) {
			W, H, x, y := w.I("w"), w.I("h"), w.F("ix"), w.F("iy")
			got := w.call(pkg, "IndexToCam", W, H, x, y)
			half := w.num(0.5)
			w.All(func(c *Case) {
				c.Pos(W, H)
				for _, d := range [][2]*V{{x, W}, {y, H}} {
					c.NonNeg(w.add(d[0], half), w.sub(w.sub(d[1], half), d[0]))
				}
				w.noPanic(c)
				c.Expect("u", tupleAt(got, 0), w.div(w.add(x, half), W))
				v := w.add(half, w.div(w.sub(w.mul(half, H), w.add(y, half)), W))
				c.Expect("v", tupleAt(got, 1), v)
			})
		})
	}
	r.Shared(checkC06, "positions")
	ray := func(w *W, cam *V) *V {
		w.random()
		rp := w.invoke(w.iface(types.NewPointer(w.p.Type(camPkg, "WithTransform")), cam), "RayFrom", types.NewPointer(w.rayT()), w.ctx(), w.F("u"), w.F("v"))
		return w.get(rp, w.rayT())
	}
	half := func(w *W, s string) *V { return w.sub(w.F(s), w.num(0.5)) }
	fov := func(c *Case, w *W) *V {
		f := w.F("fov")
		c.Pos(f)
		c.Pos(w.sub(w.num(math.Pi), f))
		tn := w.fn1("tan", w.div(f, w.num(2)))
		c.Pos(w.fn1("sin", w.div(f, w.num(2))))
		c.Pos(w.fn1("cos", w.div(f, w.num(2))))
		return tn
	}
	// direction of the pinhole's ray: the image is 2*tan(fov/2) wide at unit distance
	pinhole := func(w *W) *V {
		a := w.div(w.F("fov"), w.num(2))
		k := w.mul(w.num(2), w.fn1("sin", a))
		return w.mkvec(w.mul(k, half(w, "u")), w.mul(k, half(w, "v")), w.g.Neg(w.fn1("cos", a)))
	}
	r.Rule("Projective", "", func(w *W) {
		got := ray(w, w.call(camPkg, "Projective", w.F("fov")))
		w.All(func(c *Case) {
			fov(c, w)
			w.noPanic(c)
			p := pinhole(w)
			c.Fact(w.dot(p, p), sPos)
			c.Expect("start", w.start(got), w.cvec(0, 0, 0))
			d := w.dir(got)
			c.Expect("squared length of the direction", w.dot(d, d), w.num(1))
			w.parallelPos(c, "direction", d, p)
		})
	})
	r.Rule("ProjectiveAperture", "", func(w *W) {
		ap, fd := w.F("aperture"), w.F("focus")
		got := ray(w, w.call(camPkg, "ProjectiveAperture", w.F("fov"), ap, fd))
		w.All(func(c *Case) {
			tn := fov(c, w)
			c.Pos(ap, fd)
			w.unitIval(c, w.F("u1"), w.F("v1"))
			w.noPanic(c)
			st := w.start(got)
			c.Expect("depth of the lens", st.args[2], w.num(0))
			if !w.diskPoint(c, st.args[0], st.args[1], ap, w.F("u1"), w.F("v1")) {
				c.Fail("the start is not uniform on the lens: %s", c.Show(st))
			}
			// all rays of one pixel meet where the pinhole's ray meets the focal plane
			f := w.div(w.num(0.5), tn)
			focus := w.vscale(fd, w.mkvec(half(w, "u"), half(w, "v"), w.g.Neg(f)))
			si, co := w.mul(w.num(2), w.fn1("sin", w.div(w.F("fov"), w.num(2)))), w.fn1("cos", w.div(w.F("fov"), w.num(2)))
			to := w.vsub(w.vscale(fd, w.mkvec(w.mul(si, half(w, "u")), w.mul(si, half(w, "v")), w.g.Neg(co))), w.vscale(si, st))
			c.Fact(w.dot(to, to), sPos)
			d := w.dir(got)
			c.Expect("squared length of the direction", w.dot(d, d), w.num(1))
			w.parallelPos(c, "direction", d, w.vsub(focus, st))
		})
	})
	r.Rule("ProjectiveAperture without aperture", "", func(w *W) {
		got := ray(w, w.call(camPkg, "ProjectiveAperture", w.F("fov"), w.num(0), w.F("focus")))
		w.All(func(c *Case) {
			fov(c, w)
			c.NonNeg(w.F("focus"))
			w.noPanic(c)
			c.Expect("start", w.start(got), w.cvec(0, 0, 0))
			p := pinhole(w)
			c.Fact(w.dot(p, p), sPos)
			w.parallelPos(c, "direction", w.dir(got), p)
		})
	})
	r.Rule("EnvironmentMap", "", func(w *W) {
		got := ray(w, w.call(camPkg, "EnvironmentMap"))
		ph := w.mul(w.num(2*math.Pi), half(w, "u"))
		th := w.mul(w.num(math.Pi), half(w, "v"))
		cs, sn := func(x *V) *V { return w.fn1("cos", x) }, func(x *V) *V { return w.fn1("sin", x) }
		w.All(func(c *Case) {
			w.noPanic(c)
			c.Expect("start", w.start(got), w.cvec(0, 0, 0))
			c.Expect("direction", w.dir(got), w.mkvec(w.mul(sn(ph), cs(th)), sn(th), w.g.Neg(w.mul(cs(ph), cs(th)))))
		})
	})
	axes := []struct{ right, up, dir v3 }{
		{v3{0, 0, -1}, v3{0, 1, 0}, v3{-1, 0, 0}},
		{v3{1, 0, 0}, v3{0, 0, -1}, v3{0, -1, 0}},
		{v3{1, 0, 0}, v3{0, 1, 0}, v3{0, 0, -1}},
	}
	for i, a := range axes {
		i, a := i, a
		r.Rule(fmt.Sprintf("Isometric along axis %d", i), "", func(w *W) {
			sz := w.F("size")
			got := ray(w, w.call(camPkg, "Isometric", w.g.Int(i), sz))
			w.All(func(c *Case) {
				c.Pos(sz)
				w.noPanic(c)
				d, st := w.dir(got), w.start(got)
				c.Expect("direction", d, w.v3(a.dir))
				c.Expect("horizontal position", w.dot(st, w.v3(a.right)), w.mul(sz, half(w, "u")))
				c.Expect("vertical position", w.dot(st, w.v3(a.up)), w.mul(sz, half(w, "v")))
				if !c.Bool(w.lt(w.dot(st, w.v3(a.dir)), w.num(-1000))) {
					c.Fail("the camera does not see the scene from a distance")
				}
			})
		})
	}
	r.Rule("Translate and YawPitchRoll", "", func(w *W) {
		cam := w.call(camPkg, "Projective", w.num(math.Pi/2))
		d, ya, pi, ro := w.vec("delta"), w.F("yaw"), w.F("pitch"), w.F("roll")
		wt := "WithTransform"
		cam = w.method(camPkg, wt, "Translate", cam, d)
		cam = w.method(camPkg, wt, "YawPitchRoll", cam, ya, pi, ro)
		got := ray(w, cam)
		rot := w.call("geom", "YawPitchRoll", ya, pi, ro)
		w.All(func(c *Case) {
			w.noPanic(c)
			c.Expect("start", w.start(got), d)
			p := w.mkvec(w.mul(w.num(2), half(w, "u")), w.mul(w.num(2), half(w, "v")), w.num(-1))
			at := w.p.Type("geom", "AffineTransform")
			m := w.field(w.get(rot, at), at, "A")
			q := w.vscale(w.div(w.num(1), w.vlen(p)), p)
			c.Expect("direction", w.dir(got), w.matVec(m, q))
		})
	})
}

// parallelPos: a and b have the same direction.
func (w *W) parallelPos(c *Case, what string, a, b *V) {
	c.Expect(what, w.cross(a, b), w.cvec(0, 0, 0))
	k := 2
	if s, ok := c.Sign(w.mul(a.args[k], b.args[k])); !ok || s <= 0 {
		c.Fail("%s points the wrong way", what)
	}
}

// ---------------------------------------------------------------- C07

func checkC07(r *R) {
	r.Shared(checkC06, "new sampler 3x2", "new sampler 2x3", "one more pass")
	ctxT := func(w *W) types.Type { return w.p.Type("tracer", "Ctx") }
	type seq struct {
		v            *V
		baseU, baseV *V
		pseudo       bool
	}
	// newCtx evaluates NewCtx with symbolic sequences
	newCtx := func(w *W) (*V, map[*V]*seq) {
		seqs := map[*V]*seq{}
		st := w.p.Type(seqPkg, "Sequence")
		w.handlers[mod+seqPkg+".NewHalton"] = func(it *Interp, s *State, cr *CallRec) (*V, bool) {
			v := w.g.Sym(fmt.Sprintf("halton%d", len(seqs)), st)
			seqs[v] = &seq{v: v, baseU: cr.Args[0], baseV: cr.Args[1]}
			return v, true
		}
		w.handlers[mod+seqPkg+".PseudoRandom"] = func(it *Interp, s *State, cr *CallRec) (*V, bool) {
			v := w.g.Sym(fmt.Sprintf("pseudo%d", len(seqs)), st)
			seqs[v] = &seq{v: v, pseudo: true}
			return v, true
		}
		ctx := w.call("tracer", "NewCtx", w.I("numPix"))
		return ctx, seqs
	}
	r.Rule("every sequence is initialised", "", func(w *W) {
		ctx, seqs := newCtx(w)
		w.Calls = nil
		w.method("tracer", "Ctx", "Init", ctx, w.I("pixel"), w.I("pass"))
		if len(seqs) < 4 {
			w.fail("only %d sequences found", len(seqs))
		}
		w.oblige(len(seqs))
		// those stored in the context
		ct := ctxT(w)
		cv := w.get(ctx, ct)
		var used []*seq
		s := ct.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if q := seqs[cv.args[i]]; q != nil {
				used = append(used, q)
			}
		}
		calls := w.callsTo("invoke:Init")
		w.All(func(c *Case) {
			c.NonNeg(w.I("pixel"), w.I("pass"))
			w.noPanic(c)
			if len(used) == 0 {
				c.Fail("no sequence in the context")
			}
			for _, q := range used {
				if q.pseudo {
					continue
				}
				n := 0
				for _, cr := range calls {
					if cr.Recv == q.v && c.Bool(cr.Guard) {
						n++
						c.Expect("pixel of "+q.v.name, cr.Args[0], w.I("pixel"))
						c.Expect("pass of "+q.v.name, cr.Args[1], w.I("pass"))
					}
				}
				if n == 0 {
					c.Fail("the sequence with bases %s, %s is not initialised for the pixel", c.Show(q.baseU), c.Show(q.baseV))
				}
			}
		})
	})
	r.Rule("the shifts of the pixels are the same in every context", "", func(w *W) {
		w.where = w.p.Pos(w.p.Func("tracer", "NewCtx").Pos())
		newCtx(w)
		w.oblige(1)
		for _, cr := range w.Calls {
			nm := strings.TrimPrefix(cr.Name, "invoke:")
			switch {
			case nm == "math/rand.NewSource" || nm == "math/rand.Seed":
				for _, a := range cr.Args {
					w.oblige(1)
					if !dependsOnly(a, w.I("numPix")) {
						w.fail("%s: the random generator is seeded with %s, so that workers shift the sequence of a pixel differently", w.p.Pos(cr.Pos), w.g.short(a))
					}
				}
			case nm == "math/rand.New":
			case strings.HasPrefix(nm, "math/rand.") || strings.HasPrefix(nm, "crypto/rand.") || strings.HasPrefix(nm, "time."):
				w.fail("%s: the sequences of a pixel depend on %s", w.p.Pos(cr.Pos), nm)
			}
		}
	})
	r.Rule("dimensions of one sample have coprime bases", "", func(w *W) {
		ctx, seqs := newCtx(w)
		ct := ctxT(w)
		var bases []int
		var from []string
		use := func(what string, v *V) {
			q := seqs[v]
			if q == nil {
				w.fail("%s is not generated from a sequence of the context", what)
				return
			}
			if q.pseudo {
				return
			}
			for _, b := range []*V{q.baseU, q.baseV} {
				if b.K != KNum {
					panic(undecided("base of " + what))
				}
				bases = append(bases, int(b.num))
				from = append(from, what)
			}
		}
		use("anti-aliasing", w.field(w.get(ctx, ct), ct, "AA"))
		depths := func(what, m string, d *V) {
			cv := w.setField(w.get(ctx, ct), ct, "CurrentRecursionDepth", d)
			w.Calls = nil
			w.method("tracer", "Ctx", m, w.box(cv))
			n := 0
			for _, cr := range w.callsTo("invoke:Generate2") {
				if cr.Guard != w.g.False {
					n++
					use(what, cr.Recv)
				}
			}
			if n != 1 {
				w.fail("%s: %d sequences are used", what, n)
			}
		}
		depths("depth 1", "Generate2", w.num(1))
		depths("depth 2", "Generate2", w.num(2))
		depths("depth 3", "Generate2", w.num(3))
		depths("depth 4", "Generate2", w.num(4))
		depths("lens", "GenerateLens", w.num(0))
		for i := range bases {
			w.oblige(1)
			if bases[i] < 2 {
				w.fail("base %d of %s", bases[i], from[i])
			}
			for j := 0; j < i; j++ {
				if gcd(bases[i], bases[j]) != 1 {
					w.fail("%s and %s share a factor of bases %d and %d", from[j], from[i], bases[j], bases[i])
				}
			}
		}
	})
	r.Rule("elements of a sequence", "", func(w *W) {
		v2 := w.p.Type("geom", "Vec2")
		hal := mod + seqPkg + ".Halton"
		w.NoInline = map[string]bool{hal: true}
		sh := []*V{w.sym("shift0", v2), w.sym("shift1", v2), w.sym("shift2", v2)}
		bu, bv := w.I("baseU"), w.I("baseV")
		px, ps := w.I("pixel"), w.I("pass")
		s := w.call(seqPkg, "NewHalton", bu, bv, w.I("stride"), w.slice(v2, sh...))
		it := types.NewTuple()
		w.invoke(s, "Init", it, px, ps)
		f := types.Typ[types.Float64]
		pair := types.NewTuple(types.NewVar(0, nil, "", f), types.NewVar(0, nil, "", f))
		g1 := w.invoke(s, "Generate2", pair)
		again := w.invoke(s, "Generate2", pair)
		ri := func(b *V) *V { return w.g.expand(hal, f, b, ps) }
		want := func(c *Case, b *V, k int) *V {
			shift := sh[2].args[k]
			for i := 0; i < 2; i++ {
				if c.Bool(w.g.Cmp("==", px, w.g.Int(i))) {
					shift = sh[i].args[k]
				}
			}
			x := w.add(ri(b), shift)
			return w.sub(x, w.fn1("floor", x))
		}
		w.All(func(c *Case) {
			c.NonNeg(px, ps, w.sub(w.num(2), px))
			c.NonNeg(w.sub(bu, w.num(2)), w.sub(bv, w.num(2)))
			w.noPanic(c)
			c.Expect("u", tupleAt(g1, 0), want(c, bu, 0))
			c.Expect("v", tupleAt(g1, 1), want(c, bv, 1))
			c.Expect("u, when asked for again", tupleAt(again, 0), want(c, bu, 0))
			c.Expect("v, when asked for again", tupleAt(again, 1), want(c, bv, 1))
		})
		// initialising for another pixel and back gives the same values
		w.invoke(s, "Init", it, w.I("pixel'"), w.I("pass'"))
		w.invoke(s, "Generate2", pair)
		w.invoke(s, "Init", it, px, ps)
		g2 := w.invoke(s, "Generate2", pair)
		w.All(func(c *Case) {
			c.NonNeg(px, ps, w.sub(w.num(2), px))
			c.NonNeg(w.I("pixel'"), w.sub(w.num(2), w.I("pixel'")))
			c.Expect("u after re-initialisation", tupleAt(g2, 0), tupleAt(g1, 0))
			c.Expect("v after re-initialisation", tupleAt(g2, 1), tupleAt(g1, 1))
		})
	})
	for _, b := range []int{0, 2, 3, 5, 7, 11, 13} {
		b := b
		name := "radical inverse, any base"
		if b > 0 {
			name = fmt.Sprintf("radical inverse, base %d", b)
		}
		r.Rule(name, "", func(w *W) { checkHalton(w, b) })
	}
}

// dependsOnly reports whether a value is made of constants and the given symbol.
func dependsOnly(v, sym *V) bool {
	if v == sym || v.K == KNum || v.K == KStr || v.K == KBool {
		return true
	}
	if len(v.args) == 0 {
		return false
	}
	for _, a := range v.args {
		if !dependsOnly(a, sym) {
			return false
		}
	}
	return true
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// checkHalton: with phi(0) = 0 and phi(i) = (i mod b + phi(i div b)) / b, the
// quantity r + f*phi(i) of some three loop variables is invariant, starts as
// phi(i+1), and the loop ends with i = 0 and result r.
func checkHalton(w *W, base int) {
	b, i := w.I("b"), w.I("i")
	if base > 0 {
		b = w.g.Int(base)
	}
	got := w.call(seqPkg, "Halton", b, i)
	f := types.Typ[types.Float64]
	if len(w.Loops) != 1 {
		panic(undecided(fmt.Sprintf("the radical inverse has %d loops", len(w.Loops))))
	}
	lp := w.Loops[0]
	phi := func(x *V) *V { return w.g.Fn("phi", f, x) }
	var why string
	for _, pi := range lp.Phis {
		for _, pr := range lp.Phis {
			for k := -1; k < len(lp.Phis); k++ {
				if pr == pi || k >= 0 && (lp.Phis[k] == pi || lp.Phis[k] == pr) {
					continue
				}
				one := w.num(1)
				for mode := 0; mode < 7; mode++ {
					if k < 0 && mode > 0 {
						break
					}
					// value = r*u + phi(i)*f for some functions u, f of a third variable
					u0, u1, u2 := one, one, one
					f0, f1, f2 := one, one, one
					if k >= 0 {
						weight := func(v *V) *V {
							switch mode {
							case 1:
								return w.mul(v, b)
							case 2:
								return w.div(v, b)
							case 3, 6:
								return w.div(one, v)
							case 4:
								return w.div(one, w.mul(v, b))
							case 5:
								return w.div(b, v)
							}
							return v
						}
						f0, f1, f2 = weight(lp.Phis[k].Init), weight(lp.Phis[k].Sym), weight(lp.Phis[k].Next)
						if mode == 6 {
							u0, u1, u2 = f0, f1, f2
						}
					}
					ok := true
					res := ForAllCases(w.n, func(c *Case) {
						c.Pos(w.sub(b, one))
						c.NonNeg(i, pi.Sym)
						x := pi.Sym
						// start
						if !c.Eq(pi.Init, w.add(i, one)) || !c.Eq(w.mul(pr.Init, u0), w.num(0)) || !c.Eq(f0, one) {
							c.Fail("initial values")
							return
						}
						stay := c.Bool(lp.Stay)
						if stay != c.Bool(w.lt(w.num(0), x)) {
							c.Fail("the loop does not run while digits are left")
							return
						}
						if !stay {
							if !c.Eq(got, w.mul(pr.Sym, u1)) {
								c.Fail("the result is not the sum")
							}
							return
						}
						digit := w.g.Fn("rem", types.Typ[types.Int], x, b)
						q1, q2 := w.fn1("floor", w.div(x, b)), w.g.Fn("quo", types.Typ[types.Int], x, b)
						nx := pi.Next
						if c.Eq(nx, q1) || c.Eq(nx, q2) || c.Eq(nx, w.fn1("trunc", w.div(x, b))) || c.Eq(nx, w.fn1("trunc", q1)) || c.Eq(nx, w.div(w.sub(x, digit), b)) {
							nx = q2
						} else {
							c.Fail("the next digits are %s", c.Show(nx))
							return
						}
						before := func(digit *V) *V {
							return w.add(w.mul(pr.Sym, u1), w.mul(f1, w.div(w.add(digit, phi(q2)), b)))
						}
						after := w.add(w.mul(pr.Next, u2), w.mul(f2, phi(nx)))
						if rest := w.sub(x, w.mul(b, q2)); !c.Eq(after, before(rest)) {
							c.Expect("invariant", after, before(digit))
						}
					})
					w.cases += res.Cases
					if len(res.Fails) > 0 {
						ok, why = false, res.Fails[0]
					}
					if res.Und != "" {
						ok, why = false, res.Und
					}
					if ok {
						w.obl += 4
						return
					}
				}
			}
		}
	}
	w.fail("not the radical inverse: %s", why)
}

var _ = ssa.Value(nil)
