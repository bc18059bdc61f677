package main

import (
	"fmt"
	"go/types"
	"math"
)

func init() {
	register("C26", 20, "value-graph analysis with polynomial normal forms and sign domain", "Every ray is written as one that meets the surface at a symbolic parameter t and surface point; the intersection code must then report a T with 0 < T <= t, and conversely every reported T must satisfy the surface equation and extent, with the outward normal (identities between normal forms, all sign cases).", checkC26)
	register("C27", 20, "value-graph analysis with polynomial normal forms and sign domain", "Meshes, rectangles and parametric surfaces are built and intersected with rays written as meeting a face at symbolic barycentric coordinates and parameter t: hit exactly if they are all non-negative and t>0, with T=t and linearly interpolated normal and texture coordinates; vertex normals are compared with the normalised sum of the adjacent face normals.", checkC27)
}

// infBounds makes every object report an infinite box: culling is decided by C10.
func (w *W) infBounds() {
	w.Methods["Bounds"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return w.infBB(), true }
}

func (w *W) noPanic(c *Case) {
	for _, p := range w.Panics {
		if c.Bool(p.Guard) {
			c.Fail("panics at %s", w.p.Pos(p.Pos))
			return
		}
	}
}

func checkC26(r *R) {
	quad := func(name string, axis int, mk func(w *W, diam, h, c *V) *V) {
		// axis: direction of the cylinder, or -1
		rad2 := func(w *W, p, c *V) *V {
			x := w.vsub(p, c)
			if axis >= 0 {
				x = aggSet(w.g, x, []int{axis}, w.num(0))
			}
			return w.dot(x, x)
		}
		r.Rule(name+": hits lie on the surface", "", func(w *W) {
			diam, h, ctr := w.F("diam"), w.F("h"), w.vec("c")
			o := mk(w, diam, h, ctr)
			rp, rv := w.ray()
			got := w.intersect(o, rp)
			w.All(func(c *Case) {
				c.Pos(diam, h)
				c.NonZero(w.dir(rv).args...)
				w.noPanic(c)
				t := w.hf(got, "T")
				if !c.Bool(w.positive(t)) {
					return
				}
				p := w.along(rv, t)
				c.Expect("squared distance of the hit from the centre or axis", rad2(w, p, ctr), w.mul(w.num(0.25), diam, diam))
				out := w.vsub(p, ctr)
				if axis >= 0 {
					out = aggSet(w.g, out, []int{axis}, w.num(0))
				}
				w.parallel(c, "normal", w.hf(got, "Normal"), out)
				c.Expect("material", w.hf(got, "Material"), w.mat("m"))
				if axis >= 0 {
					y := w.sub(p.args[axis], ctr.args[axis])
					lim := w.add(w.mul(w.num(0.5), h), w.num(1e-5))
					if !c.Bool(w.le(y, lim)) || !c.Bool(w.le(w.g.Neg(y), lim)) {
						c.Fail("the hit lies beyond the end of the cylinder")
					}
				}
			})
		})
		r.Rule(name+": no hit is missed", "", func(w *W) {
			// the line start + x dir meets the surface at x = mid - dl and x = mid + dl
			ctr, d, k, y := w.vec("c"), w.vec("d"), w.vec("k"), w.F("y")
			mid, dl, h := w.F("mid"), w.F("dl"), w.F("h")
			t := w.add(mid, dl)
			dd := d
			if axis >= 0 {
				dd = aggSet(w.g, d, []int{axis}, w.num(0))
				k = aggSet(w.g, w.vec("z"), []int{0}, w.num(0))
				k = aggSet(w.g, k, []int{1}, w.num(0))
				k = aggSet(w.g, k, []int{2}, w.num(0))
				k = aggSet(w.g, k, []int{axis}, w.F("k"))
			}
			m := w.cross(dd, k)
			A := w.dot(dd, dd)
			r2 := w.add(w.dot(m, m), w.mul(A, dl, dl))
			rad := w.sqrt(r2)
			diam := w.mul(w.num(2), rad)
			p := w.vadd(w.vadd(ctr, m), w.vscale(dl, dd)) // point of the surface at t
			if axis >= 0 {
				p = aggSet(w.g, p, []int{axis}, w.add(ctr.args[axis], y))
			}
			o := mk(w, diam, h, ctr)
			rp, _ := w.mkray(w.vsub(p, w.vscale(t, d)), d)
			got := w.intersect(o, rp)
			w.All(func(c *Case) {
				c.Pos(A, r2, h, t)
				c.NonZero(dl)
				for i := 0; i < 3; i++ {
					if i == axis {
						c.NonNeg(w.sub(w.mul(w.num(0.5), h), y), w.add(w.mul(w.num(0.5), h), y))
						continue
					}
					// |p_i - c_i| <= r follows from |p-c| = r
					x := w.sub(p.args[i], ctr.args[i])
					c.Fact(w.sub(rad, x), sPos|sZer)
					c.Fact(w.add(rad, x), sPos|sZer)
				}
				w.noPanic(c)
				T := w.hf(got, "T")
				if !c.Bool(w.positive(T)) {
					c.Fail("a point of the surface in front of the ray is missed")
				} else if !c.Bool(w.le(T, t)) {
					c.Fail("a nearer point of the surface is skipped")
				}
			})
		})
		r.Rule(name+": inside", "", func(w *W) {
			diam, h, ctr, p := w.F("diam"), w.F("h"), w.vec("c"), w.vec("p")
			got := w.insideO(mk(w, diam, h, ctr), p)
			rad := w.mul(w.num(0.5), diam)
			w.All(func(c *Case) {
				c.Pos(diam, h)
				in := c.Bool(w.lt(rad2(w, p, ctr), w.mul(rad, rad)))
				if axis >= 0 {
					y, hh := w.sub(p.args[axis], ctr.args[axis]), w.mul(w.num(0.5), h)
					c.NonNeg(w.sub(hh, y), w.add(hh, y))
				}
				for i := 0; i < 3 && in; i++ {
					if i != axis {
						x := w.sub(p.args[i], ctr.args[i])
						c.Fact(w.sub(rad, x), sPos)
						c.Fact(w.add(rad, x), sPos)
					}
				}
				if c.Bool(got) != in {
					c.Fail("a point at %s of the radius is inside: %v", map[bool]string{true: "less", false: "more"}[in], !in)
				}
			})
		})
	}
	quad("Sphere", -1, func(w *W, diam, h, c *V) *V { return w.objf("Sphere", w.mat("m"), diam, c) })
	quad("Cylinder", 1, func(w *W, diam, h, c *V) *V { return w.objf("Cylinder", w.mat("m"), diam, h, c) })
	for i := 0; i < 3; i++ {
		i := i
		quad(fmt.Sprintf("CylinderDir %d", i), i, func(w *W, diam, h, c *V) *V {
			return w.objf("CylinderDir", w.mat("m"), w.g.Int(i), diam, h, c)
		})
	}
	// boxes
	mkBox := func(w *W, bb *V) *V { return w.objf("BoxWithBounds", w.mat("m"), w.bbMin(bb), w.bbMax(bb)) }
	for oct := 0; oct < 8; oct++ {
		oct := oct
		r.Rule(fmt.Sprintf("Box: hits lie on the surface, octant %d", oct), "", func(w *W) {
			rp, rv := w.ray()
			s, bb := w.slab("B", rv)
			got := w.intersect(mkBox(w, bb), rp)
			w.All(func(c *Case) {
				for i := 0; i < 3; i++ {
					c.AssumeSign(w.dir(rv).args[i], []int{sPos, sNeg}[oct>>uint(i)&1])
				}
				for i := 0; i < 3; i++ {
					s.proper(w, c, rv, i)
				}
				w.noPanic(c)
				t := w.hf(got, "T")
				if !c.Bool(w.positive(t)) {
					return
				}
				p := w.along(rv, t)
				w.inBox(c, "the hit", bb, p)
				on := false
				for i := 0; i < 3; i++ {
					on = on || c.Eq(t, s.a.args[i]) || c.Eq(t, s.b.args[i])
				}
				if !on {
					c.Fail("the hit lies on none of the sides")
				}
				for i := 0; i < 3; i++ {
					// signs of products
					d := w.dir(rv).args[i]
					for _, x := range []*V{s.a.args[i], s.b.args[i]} {
						y := w.sub(t, x)
						s1, ok1 := c.Sign(d)
						s2, ok2 := c.Sign(y)
						if ok1 && ok2 {
							c.Fact(w.mul(d, y), maskOf(s1*s2))
						}
					}
				}
				n := w.hf(got, "Normal")
				for i := 0; i < 3; i++ {
					for k, side := range []*V{w.bbMin(bb), w.bbMax(bb)} {
						e := []float64{0, 0, 0}
						e[i] = float64(2*k - 1)
						if !c.Eq(n, w.cvec(e[0], e[1], e[2])) {
							continue
						}
						dist := w.sub(p.args[i], side.args[i])
						if c.Eq(t, []*V{s.a, s.b}[k].args[i]) {
							return
						}
						if !c.Bool(w.lt(dist, w.num(1e-6))) || !c.Bool(w.lt(w.g.Neg(dist), w.num(1e-6))) {
							c.Fail("the normal is that of a side on which the hit does not lie")
						}
						return
					}
				}
				c.Fail("normal %s is not perpendicular to a side", c.Show(n))
			})
		})
	}
	for i := 0; i < 3; i++ {
		for k := 0; k < 2; k++ {
			i, k := i, k
			r.Rule(fmt.Sprintf("Box: no hit on side %d%c is missed", i, "-+"[k]), "", func(w *W) {
				rp, rv := w.ray()
				s, bb := w.slab("B", rv)
				got := w.intersect(mkBox(w, bb), rp)
				t := s.a.args[i]
				if k == 1 {
					t = s.b.args[i]
				}
				w.All(func(c *Case) {
					c.NonZero(w.dir(rv).args...)
					c.Pos(t)
					for j := 0; j < 3; j++ {
						s.proper(w, c, rv, j)
						s.holds(w, c, rv, t, j)
						c.NonZero(s.a.args[j], s.b.args[j]) // the start does not lie in the plane of a side
					}
					T := w.hf(got, "T")
					if !c.Bool(w.positive(T)) {
						c.Fail("a point of the surface in front of the ray is missed")
					} else if !c.Bool(w.le(T, t)) {
						c.Fail("a nearer point of the surface is skipped")
					}
				})
			})
		}
	}
	r.Rule("Box: size, centre and inside", "", func(w *W) {
		size, ctr, p := w.vec("size"), w.vec("c"), w.vec("p")
		got := w.insideO(w.objf("Box", w.mat("m"), size.args[0], size.args[1], size.args[2], ctr), p)
		want := w.g.True
		for i := 0; i < 3; i++ {
			h := w.mul(w.num(0.5), size.args[i])
			want = w.and(want, w.lt(w.sub(ctr.args[i], h), p.args[i]), w.lt(p.args[i], w.add(ctr.args[i], h)))
		}
		w.All(func(c *Case) {
			c.Pos(size.args...)
			if c.Bool(got) != c.Bool(want) {
				c.Fail("inside a box differs from being between its sides")
			}
		})
	})
	r.Rule("CylinderWithCaps: inside", "", func(w *W) {
		diam, h, ctr, p := w.F("diam"), w.F("h"), w.vec("c"), w.vec("p")
		got := w.insideO(w.objf("CylinderWithCaps", w.mat("m"), diam, h, ctr), p)
		w.All(func(c *Case) {
			c.Pos(diam, h)
			if !c.Bool(got) {
				return
			}
			x := aggSet(w.g, w.vsub(p, ctr), []int{1}, w.num(0))
			y := w.sub(p.args[1], ctr.args[1])
			hh := w.mul(w.num(0.5), h)
			if !c.Bool(w.lt(w.dot(x, x), w.mul(w.num(0.25), diam, diam))) || !c.Bool(w.lt(y, hh)) || !c.Bool(w.lt(w.g.Neg(y), hh)) {
				c.Fail("a point outside of the capped cylinder is reported as inside")
			}
		})
	})
	// triangles: ray through l1 a + l2 b + l3 c at t
	tri := func(w *W) (a, b, c, l1, l2, l3, t, d, s *V) {
		a, b, c = w.vec("a"), w.vec("b"), w.vec("c")
		l2, l3, t, d = w.F("l2"), w.F("l3"), w.F("t"), w.vec("d")
		l1 = w.sub(w.num(1), w.add(l2, l3))
		p := w.vadd(w.vadd(w.vscale(l1, a), w.vscale(l2, b)), w.vscale(l3, c))
		s = w.vsub(p, w.vscale(t, d))
		return
	}
	r.Rule("Triangle: hit exactly if the ray meets it", "", func(w *W) {
		w.infBounds()
		w.handlers["github.com/barnex/bruteray/geom.TriangleNormal"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return w.cvec(0, 0, 1), true }
		a, b, cc, l1, l2, l3, t, d, s := tri(w)
		o := w.objf("Triangle", w.mat("m"), a, b, cc)
		rp, _ := w.mkray(s, d)
		got := w.intersect(o, rp)
		n := w.cross(w.vsub(b, a), w.vsub(cc, a))
		w.All(func(c *Case) {
			c.NonZero(d.args...)
			c.NonZero(w.dot(n, d))
			c.Pos(w.dot(n, n))
			c.NonNeg(w.sub(w.num(1e99), t))
			in := c.Bool(w.positive(t)) && c.Bool(w.le(w.num(0), l1)) && c.Bool(w.le(w.num(0), l2)) && c.Bool(w.le(w.num(0), l3))
			T := w.hf(got, "T")
			if !in {
				if c.Bool(w.positive(T)) {
					c.Fail("the ray does not meet the triangle, but a hit is reported")
				}
				return
			}
			c.Expect("T", T, t)
			c.Expect("texture coordinates", w.hf(got, "Local"), w.mkvec(l2, l3, w.num(0)))
			c.Expect("material", w.hf(got, "Material"), w.mat("m"))
		})
	})
	r.Rule("Triangle: parallel rays miss", "", func(w *W) {
		w.infBounds()
		w.handlers["github.com/barnex/bruteray/geom.TriangleNormal"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return w.cvec(0, 0, 1), true }
		a, b, cc := w.cvec(0, 0, 0), w.cvec(2, 0, 0), w.cvec(0, 3, 0)
		o := w.objf("Triangle", w.mat("m"), a, b, cc)
		rp, rv := w.mkray(w.vec("s"), w.mkvec(w.F("dx"), w.F("dy"), w.num(0)))
		got := w.intersect(o, rp)
		w.All(func(c *Case) {
			c.NonZero(w.F("dx"), w.F("dy"), w.start(rv).args[2])
			if c.Bool(w.positive(w.hf(got, "T"))) {
				c.Fail("a ray parallel to the triangle reports a hit at T=%s", c.Show(w.hf(got, "T")))
			}
		})
	})
}

// unit2 declares x*x+y*y == 1.
func (w *W) unit2(x, y *V) {
	ax, ay := w.n.atom(x.name, nil), w.n.atom(y.name, nil)
	w.n.relSqr[ay.id] = &Rat{n: Poly{"": {1, 1}, monoOf(ax.id, 2): {-1, 1}}}
}

// ---------------------------------------------------------------- C27

type v3 [3]float64

func (a v3) sub(b v3) v3 { return v3{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func (a v3) add(b v3) v3 { return v3{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func (a v3) cross(b v3) v3 {
	return v3{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}
func (a v3) norm() (v3, bool) {
	l := math.Sqrt(a[0]*a[0] + a[1]*a[1] + a[2]*a[2])
	if l == 0 {
		return a, false
	}
	return v3{a[0] / l, a[1] / l, a[2] / l}, true
}
func (w *W) v3(a v3) *V { return w.cvec(a[0], a[1], a[2]) }

func (w *W) vecs(l []v3) *V {
	var r []*V
	for _, a := range l {
		r = append(r, w.v3(a))
	}
	return w.slice(w.vecT(), r...)
}
func (w *W) faces(t types.Type, l [][3]int) *V {
	e := t.Underlying().(*types.Slice).Elem()
	var r []*V
	for _, f := range l {
		r = append(r, w.g.Agg(e, w.g.Int(f[0]), w.g.Int(f[1]), w.g.Int(f[2])))
	}
	return w.slice(e, r...)
}

func normalsOf(vs []v3, fs [][3]int) []v3 {
	sum := make([]v3, len(vs))
	for _, f := range fs {
		n, ok := vs[f[1]].sub(vs[f[0]]).cross(vs[f[2]].sub(vs[f[0]])).norm()
		if !ok {
			continue
		}
		for _, i := range f {
			sum[i] = sum[i].add(n)
		}
	}
	for i := range sum {
		sum[i], _ = sum[i].norm()
	}
	return sum
}

func checkC27(r *R) {
	r.Rule("faces of an obj file", "", func(w *W) { w.objMesh() })
	// meshes that do not overlap when seen along z
	meshes := []struct {
		name string
		vs   []v3
		fs   [][3]int
	}{
		{"one triangle", []v3{{0, 0, 0.5}, {2, 0.25, 1}, {0.5, 3, -1}}, [][3]int{{0, 1, 2}}},
		{"three triangles", []v3{{0, 0, 0}, {4, 0, 1}, {4, 4, 3}, {0, 4, -1}, {8, 2, 0}}, [][3]int{{0, 1, 2}, {0, 2, 3}, {1, 4, 2}}},
		{"a fan, with a degenerate face and an unused vertex", []v3{{1, 1, 2}, {4, 1, 0}, {2, 4, 1}, {-2, 3, 0}, {9, 9, 9}, {-1, -2, 1}}, [][3]int{{0, 1, 2}, {0, 2, 3}, {0, 3, 5}, {1, 1, 0}, {0, 5, 1}}},
		{"nine triangles", []v3{{0, 0, 1}, {1, 0, 0}, {2, 0, 1}, {3, 0, 0.5}, {0, 1, 0}, {1, 1, 2}, {2, 1, 0}, {3, 1, 1}, {0, 2, 1}, {1, 2, 0}, {2, 2, 1}, {3, 2, 0}},
			[][3]int{{0, 1, 5}, {0, 5, 4}, {1, 2, 6}, {1, 6, 5}, {2, 3, 7}, {2, 7, 6}, {4, 5, 9}, {4, 9, 8}, {6, 7, 11}}},
	}
	for _, m := range meshes {
		for k := range m.fs {
			if n, _ := m.vs[m.fs[k][1]].sub(m.vs[m.fs[k][0]]).cross(m.vs[m.fs[k][2]].sub(m.vs[m.fs[k][0]])).norm(); n == (v3{}) {
				continue
			}
			for _, uv := range []bool{false, true} {
				m, k, uv := m, k, uv
				r.Rule(fmt.Sprintf("Mesh %s, face %d, uv %v", m.name, k, uv), "", func(w *W) {
					w.infBounds()
					name := "Mesh"
					args := []*V{w.mat("m"), w.vecs(m.vs)}
					var uvs []*V
					if uv {
						name = "MeshWithUV"
					}
					f := w.p.Func(objPkg, name)
					args = append(args, w.faces(f.Params[2].Type(), m.fs))
					if uv {
						e := f.Params[3].Type().Underlying().(*types.Slice).Elem()
						for i := range m.vs {
							uvs = append(uvs, w.g.Agg(e, w.F(fmt.Sprintf("u%d", i)), w.F(fmt.Sprintf("v%d", i))))
						}
						args = append(args, w.slice(e, uvs...))
					}
					o := w.objf(name, args...)
					l2, l3, t := w.F("l2"), w.F("l3"), w.F("t")
					l1 := w.sub(w.num(1), w.add(l2, l3))
					face := m.fs[k]
					mix := func(x [3]*V) *V {
						return w.vadd(w.vadd(w.vscale(l1, x[0]), w.vscale(l2, x[1])), w.vscale(l3, x[2]))
					}
					pick := func(f func(i int) *V) *V { return mix([3]*V{f(face[0]), f(face[1]), f(face[2])}) }
					p := pick(func(i int) *V { return w.v3(m.vs[i]) })
					d := w.cvec(0, 0, -1)
					rp, _ := w.mkray(w.vsub(p, w.vscale(t, d)), d)
					got := w.intersect(o, rp)
					ns := normalsOf(m.vs, m.fs)
					want := pick(func(i int) *V { return w.v3(ns[i]) })
					w.All(func(c *Case) {
						c.Pos(t, l1, l2, l3)
						c.NonNeg(w.sub(w.num(1000), t))
						c.Expect("T", w.hf(got, "T"), t)
						c.Expect("normal", w.hf(got, "Normal"), want)
						if uv {
							u2 := pick(func(i int) *V { return w.mkvec(uvs[i].args[0], uvs[i].args[1], w.num(0)) })
							c.Expect("texture coordinates", w.hf(got, "Local"), u2)
						}
						c.Expect("material", w.hf(got, "Material"), w.mat("m"))
					})
				})
			}
		}
	}
	r.Rule("Mesh is missed beside its faces", "", func(w *W) {
		w.infBounds()
		m := meshes[1]
		f := w.p.Func(objPkg, "Mesh")
		o := w.objf("Mesh", w.mat("m"), w.vecs(m.vs), w.faces(f.Params[2].Type(), m.fs))
		x, y, z := w.F("x"), w.F("y"), w.F("z")
		rp, _ := w.mkray(w.mkvec(x, y, z), w.cvec(0, 0, -1))
		got := w.intersect(o, rp)
		w.All(func(c *Case) {
			// outside of the hull: x<0 or y<0 or y>4 or right of the slanted sides
			c.Assume(w.or(w.lt(x, w.num(0)), w.lt(y, w.num(0)), w.lt(w.num(4), y), w.lt(w.num(8), x)))
			if c.Bool(w.positive(w.hf(got, "T"))) {
				c.Fail("a hit is reported where there is no face")
			}
		})
	})
	par := func(name string, mk func(w *W) (o, org, a, b *V), local bool) {
		r.Rule(name, "", func(w *W) {
			w.infBounds()
			o, org, a, b := mk(w)
			al, be, t, d := w.F("alpha"), w.F("beta"), w.F("t"), w.vec("d")
			p := w.vadd(org, w.vadd(w.vscale(al, a), w.vscale(be, b)))
			rp, _ := w.mkray(w.vsub(p, w.vscale(t, d)), d)
			got := w.intersect(o, rp)
			n := w.cross(a, b)
			w.All(func(c *Case) {
				c.NonZero(d.args...)
				c.NonZero(w.dot(n, d))
				c.Pos(w.dot(n, n))
				if name == "Rectangle" {
					c.Pos(w.F("width"), w.F("depth"))
				}
				c.NonNeg(w.sub(w.num(1000), t))
				in := c.Bool(w.positive(t)) && c.Bool(w.le(w.num(0), al)) && c.Bool(w.le(w.num(0), be)) && c.Bool(w.le(al, w.num(1))) && c.Bool(w.le(be, w.num(1)))
				if !in {
					if c.Bool(w.positive(w.hf(got, "T"))) {
						c.Fail("a hit is reported beside the surface")
					}
					return
				}
				c.Expect("T", w.hf(got, "T"), t)
				if local {
					c.Expect("texture coordinates", w.hf(got, "Local"), w.mkvec(al, be, w.num(0)))
				}
				c.Expect("normal", w.hf(got, "Normal"), w.vscale(w.div(w.num(1), w.vlen(n)), n))
				c.Expect("material", w.hf(got, "Material"), w.mat("m"))
			})
		})
	}
	par("RectangleWithVertices", func(w *W) (*V, *V, *V, *V) {
		o, a, b := w.vec("o"), w.vec("a"), w.vec("b")
		return w.objf("RectangleWithVertices", w.mat("m"), o, w.vadd(o, a), w.vadd(o, b)), o, a, b
	}, true)
	par("Quadrilateral (parallelogram)", func(w *W) (*V, *V, *V, *V) {
		o, a, b := w.vec("o"), w.vec("a"), w.vec("b")
		return w.objf("Quadrilateral", w.mat("m"), o, w.vadd(o, a), w.vadd(w.vadd(o, a), b), w.vadd(o, b)), o, a, b
	}, true)
	par("Rectangle", func(w *W) (*V, *V, *V, *V) {
		wd, dp, c := w.F("width"), w.F("depth"), w.vec("c")
		org := w.vsub(c, w.mkvec(w.mul(w.num(0.5), wd), w.num(0), w.mul(w.num(0.5), dp)))
		return w.objf("Rectangle", w.mat("m"), wd, dp, c), org, w.mkvec(w.num(0), w.num(0), dp), w.mkvec(wd, w.num(0), w.num(0))
	}, true)
	r.Rule("Quadrilateral with general corners", "", func(w *W) {
		w.infBounds()
		q := []v3{{0, 0, 1}, {5, 1, 0}, {4, 4, 2}, {-1, 3, 0}}
		uv := []v3{{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}}
		o := w.objf("Quadrilateral", w.mat("m"), w.v3(q[0]), w.v3(q[1]), w.v3(q[2]), w.v3(q[3]))
		// every corner is met, with its own texture coordinates
		for i := range q {
			t := w.F("t")
			d := w.cvec(0, 0, -1)
			rp, _ := w.mkray(w.vsub(w.v3(q[i]), w.vscale(t, d)), d)
			got := w.intersect(o, rp)
			i := i
			w.All(func(c *Case) {
				c.Pos(t)
				c.NonNeg(w.sub(w.num(1000), t))
				c.Expect(fmt.Sprintf("T at corner %d", i), w.hf(got, "T"), t)
				c.Expect(fmt.Sprintf("texture coordinates at corner %d", i), w.hf(got, "Local"), w.v3(uv[i]))
			})
		}
	})
	r.Rule("Disk", "", func(w *W) {
		diam := w.num(2)
		o := w.objf("Disk", w.mat("m"), diam, w.cvec(1, 2, 3))
		w.Cut, w.MaxIter = true, 3
		x, z, t := w.F("x"), w.F("z"), w.F("t")
		rp, _ := w.mkray(w.mkvec(w.add(x, w.num(1)), w.add(t, w.num(2)), w.add(z, w.num(3))), w.cvec(0, -1, 0))
		got := w.intersect(o, rp)
		w.All(func(c *Case) {
			w.noTrunc(c)
			c.Pos(t)
			c.NonNeg(w.sub(w.num(1000), t))
			if !c.Bool(w.lt(w.dot(w.mkvec(x, z, w.num(0)), w.mkvec(x, z, w.num(0))), w.num(1))) {
				if c.Bool(w.positive(w.hf(got, "T"))) {
					c.Fail("a hit is reported outside of the disk")
				}
				return
			}
			for _, v := range []*V{x, z} {
				c.Pos(w.add(w.num(1), v), w.sub(w.num(1), v))
			}
			c.Expect("T", w.hf(got, "T"), t)
		})
	})
	// parametric: a flat sheet is covered exactly, whatever the number of steps
	for _, n := range [][2]int{{2, 2}, {3, 2}, {2, 4}, {4, 3}} {
		nu, nv := n[0], n[1]
		for iu := 0; iu < nu-1; iu++ {
			for iv := 0; iv < nv-1; iv++ {
				iu, iv := iu, iv
				r.Rule(fmt.Sprintf("Parametric %dx%d, cell %d,%d", nu, nv, iu, iv), "", func(w *W) {
					w.infBounds()
					f := w.p.Func(objPkg, "Parametric")
					fs := w.g.Sym("f", f.Params[len(f.Params)-1].Type())
					seen := map[[2]float64]bool{}
					w.handlers["call"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
						if cr.Recv != fs {
							return nil, false
						}
						if cr.Args[0].K == KNum && cr.Args[1].K == KNum {
							seen[[2]float64{cr.Args[0].num, cr.Args[1].num}] = true
						}
						return w.mkvec(cr.Args[0], cr.Args[1], w.num(0)), true
					}
					o := w.objf("Parametric", w.mat("m"), w.g.Int(nu), w.g.Int(nv), fs)
					for i := 0; i < nu; i++ {
						for j := 0; j < nv; j++ {
							if !seen[[2]float64{float64(i) / float64(nu-1), float64(j) / float64(nv-1)}] {
								w.fail("the function is not sampled at grid point %d/%d, %d/%d", i, nu-1, j, nv-1)
							}
						}
					}
					x, y, t := w.F("x"), w.F("y"), w.F("t")
					rp, _ := w.mkray(w.mkvec(x, y, t), w.cvec(0, 0, -1))
					got := w.intersect(o, rp)
					w.All(func(c *Case) {
						c.Pos(t)
						c.NonNeg(w.sub(w.num(1000), t))
						g := func(k, n int) *V { return w.num(float64(k) / float64(n-1)) }
						c.Pos(w.sub(x, g(iu, nu)), w.sub(g(iu+1, nu), x), w.sub(y, g(iv, nv)), w.sub(g(iv+1, nv), y))
						c.Expect("T", w.hf(got, "T"), t)
						c.Expect("texture coordinates", w.hf(got, "Local"), w.mkvec(x, y, w.num(0)))
						c.Expect("normal", w.hf(got, "Normal"), w.cvec(0, 0, 1))
						c.Expect("material", w.hf(got, "Material"), w.mat("m"))
					})
				})
			}
		}
	}
}
