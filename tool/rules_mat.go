package main

import (
	"fmt"
	"go/types"
	"math"
)

const (
	mod     = "github.com/barnex/bruteray/"
	matPkg  = "tracer/materials"
	scnName = "(*" + mod + "tracer.Scene)."
	ctxName = "(*" + mod + "tracer.Ctx)."
)

func init() {
	register("C16", 16, "value-graph analysis with polynomial normal forms", "Matte is evaluated for 0 to 3 arbitrary lights in a scene whose occlusion is an arbitrary per-channel attenuation: colour = reflectivity * (sum of attenuated intensity * cosine + indirect light). Occlude, LightField and LightFieldIndirect are evaluated for arbitrary objects, materials and lights, in every order of hits.", checkC16)
	register("C17", 8, "value-graph analysis with sign and order domain", "Each medium is evaluated on an arbitrary ray, with every sign and order of fog boundary, hit and start: the weights must be exp(-density*length) with the length of the part of the ray in the fog, and secondary rays must be unaffected.", checkC17)
	register("C15", 14, "value-graph analysis with polynomial normal forms", "Every material is evaluated on an arbitrary incident ray and unit normal, in an arbitrary scene (the light field is an unknown function of the ray): the colour must be the sum of the light along the reflected and refracted rays (checked against the laws of reflection and Snell's law, in all cases of entering, leaving and total reflection) with exactly the specified weights.", checkC15)
}

// shading is an arbitrary scene in which materials are evaluated.
type shading struct {
	w            *W
	scene, ctx   *V
	rp, rv       *V
	hc           *V
	d, n, T      *V
	lf, lfi, occ []*CallRec
	gen          int
}

func (w *W) hcT() types.Type { return w.p.Type("tracer", "HitCoords") }

// shading sets up a ray with unit direction hitting a surface with unit normal.
func (w *W) shading(scene *V) *shading {
	d, n := w.vec("d"), w.vec("n")
	w.unit(d)
	w.unit(n)
	return w.shadingAt(scene, w.vec("s"), d, n, w.F("T"))
}

func (w *W) shadingAt(scene, start, d, n, T *V) *shading {
	s := &shading{w: w, scene: scene, d: d, n: n, T: T}
	s.ctx = w.ctx()
	s.rp, s.rv = w.mkray(start, s.d)
	hc := w.g.Zero(w.hcT())
	hc = w.setField(hc, w.hcT(), "T", s.T)
	hc = w.setField(hc, w.hcT(), "Normal", s.n)
	s.hc = w.setField(hc, w.hcT(), "Local", w.vec("local"))
	if s.scene == nil {
		s.scene = w.box(w.sym("scene", w.p.Type("tracer", "Scene")))
	}
	light := func(name string, l *[]*CallRec) {
		w.handlers[scnName+name] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			r := w.argOfType(cr, w.rayT())
			cr.Res = w.g.expand(name, w.colT(), r)
			cr.Depth = r
			*l = append(*l, cr)
			return cr.Res, true
		}
	}
	w.handlers[ctxName+"Ray"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		return it.newObj(st, "pooled ray", w.rayT(), w.g.Zero(w.rayT())), true
	}
	w.handlers[ctxName+"PutRay"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		return w.g.mk(&V{K: KTuple, typ: types.NewTuple()}), true
	}
	light("LightField", &s.lf)
	light("LightFieldIndirect", &s.lfi)
	w.handlers[ctxName+"Generate2"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		s.gen++
		f := types.Typ[types.Float64]
		return w.g.mk(&V{K: KTuple, typ: types.NewTuple(types.NewVar(0, nil, "", f), types.NewVar(0, nil, "", f)),
			args: []*V{w.F(fmt.Sprintf("u%d", s.gen)), w.F(fmt.Sprintf("v%d", s.gen))}}), true
	}
	return s
}

func (s *shading) shade(m *V) *V {
	return s.w.invoke(m, "Shade", s.w.colT(), s.ctx, s.scene, s.rp, s.hc)
}

// partShade is what a foreign material shows.
func (s *shading) partShade(m *V) *V {
	return s.w.g.expand("invoke:Shade", s.w.colT(), append([]*V{m}, s.w.snapshots(s.w.st, []*V{s.ctx, s.scene, s.rp, s.hc})...)...)
}

// hit is the point of the surface.
func (s *shading) hit() *V { return s.w.along(s.rv, s.T) }

// startsNear: p lies just above the surface on the side of the incident ray (seen), or on the other.
func (s *shading) startsNear(c *Case, what string, p *V, seen bool) {
	w := s.w
	off := w.vsub(p, s.hit())
	c.Fact(w.mul(w.dot(s.d, s.n), w.dot(s.d, s.n)), sPos)
	side := w.mul(w.dot(off, s.n), w.dot(s.d, s.n))
	sg, ok := c.Sign(side)
	want := -1
	if !seen {
		want = 1
	}
	if !ok || sg != want {
		c.Fail("%s starts at the wrong side of the surface, or on it", what)
		return
	}
	if !c.Bool(w.le(w.dot(off, off), w.num(1e-6))) {
		c.Fail("%s does not start at the point that was hit", what)
	}
}

// only returns the one call of the list that is made in this case.
func onlyCall(c *Case, what string, l []*CallRec) *CallRec {
	var r *CallRec
	for _, cr := range l {
		if cr.Guard == nil || c.Bool(cr.Guard) {
			if r != nil {
				c.Fail("more than one %s is evaluated", what)
				return nil
			}
			r = cr
		}
	}
	if r == nil {
		c.Fail("no %s is evaluated", what)
	}
	return r
}

func (w *W) reflectV(d, n *V) *V {
	return w.vsub(d, w.vscale(w.mul(w.num(2), w.dot(d, n)), n))
}
func (w *W) cscale(s, a *V) *V { return w.vscale(s, a) }
func (w *W) cmul(a, b *V) *V   { return w.vmap2(a, b, w.g.Mul) }

// fresnel is the reflectance for unpolarised light.
func (w *W) fresnel(n1, n2, ci, ct *V) *V {
	sq := func(a, b *V) *V {
		x := w.div(w.sub(a, b), w.add(a, b))
		return w.mul(x, x)
	}
	return w.mul(w.num(0.5), w.add(sq(w.mul(n1, ci), w.mul(n2, ct)), sq(w.mul(n1, ct), w.mul(n2, ci))))
}

func checkC15(r *R) {
	texT := func(w *W) types.Type { return w.p.Type("texture", "Texture") }
	at := func(w *W, tex, p *V) *V { return w.g.expand("invoke:At", w.colT(), tex, p) }
	r.Rule("Reflective", "", func(w *W) {
		s := w.shading(nil)
		col := w.col("c")
		got := s.shade(w.call(matPkg, "Reflective", col))
		w.All(func(c *Case) {
			c.NonZero(w.dot(s.d, s.n))
			w.noPanic(c)
			l := onlyCall(c, "reflected ray", s.lf)
			if l == nil {
				return
			}
			s.startsNear(c, "the reflected ray", w.start(l.Depth), true)
			c.Expect("direction of the reflected ray", w.dir(l.Depth), w.reflectV(s.d, s.n))
			c.Expect("colour", got, w.cmul(l.Res, col))
		})
	})
	r.Rule("ReflectFresnel", "", func(w *W) {
		s := w.shading(nil)
		n, m := w.F("n2"), w.mat("under")
		got := s.shade(w.call(matPkg, "ReflectFresnel", n, m))
		ci := w.dot(s.d, s.n)
		ct := w.sqrt(w.sub(w.num(1), w.mul(w.div(w.num(1), w.mul(n, n)), w.sub(w.num(1), w.mul(ci, ci)))))
		w.All(func(c *Case) {
			c.NonZero(ci)
			c.NonNeg(w.sub(n, w.num(1)))
			// 1 - ci^2 >= 0 (unit vectors), n >= 1
			x := w.sub(w.num(1), w.mul(ci, ci))
			c.NonNeg(x)
			c.Pos(w.sub(w.mul(n, n), x))
			if !c.Bool(w.positive(ci)) {
				ci = w.g.Neg(w.dot(s.d, s.n))
			} else {
				ci = w.dot(s.d, s.n)
			}
			l := onlyCall(c, "reflected ray", s.lf)
			if l == nil {
				return
			}
			s.startsNear(c, "the reflected ray", w.start(l.Depth), true)
			c.Expect("direction of the reflected ray", w.dir(l.Depth), w.reflectV(s.d, s.n))
			R := w.fresnel(w.num(1), n, ci, ct)
			c.Expect("colour", got, w.vadd(w.cscale(R, l.Res), w.cscale(w.sub(w.num(1), R), s.partShade(m))))
		})
	})
	refr := func(name string, mk func(w *W, n1, n2 *V) *V, fixed bool) {
		for _, side := range []string{"entering", "leaving"} {
			for _, tir := range []bool{false, true} {
				side, tir := side, tir
				r.Rule(fmt.Sprintf("%s, %s, total reflection %v", name, side, tir), "", func(w *W) {
					s := w.shading(nil)
					n1, n2 := w.F("n1"), w.F("n2")
					if fixed {
						n1 = w.num(1)
					}
					got := s.shade(mk(w, n1, n2))
					n := s.n
					if side == "leaving" {
						n1, n2 = n2, n1
						n = w.vscale(w.num(-1), n)
					}
					ci := w.g.Neg(w.dot(s.d, n)) // > 0
					q := w.div(n1, n2)
					sin2 := w.mul(q, q, w.sub(w.num(1), w.mul(ci, ci)))
					w.All(func(c *Case) {
						c.Pos(n1, n2, ci)
						c.NonNeg(w.sub(w.num(1), w.mul(ci, ci)))
						k := w.sub(w.mul(n2, n2), w.mul(n1, n1, w.sub(w.num(1), w.mul(ci, ci))))
						if tir {
							c.Pos(w.g.Neg(k))
						} else {
							c.Pos(k)
						}
						w.noPanic(c)
						var refl, trans *CallRec
						cnt := 0
						dirR := w.reflectV(s.d, n)
						for _, l := range s.lf {
							if l.Guard != nil && !c.Bool(l.Guard) {
								continue
							}
							cnt++
							if c.Eq(w.dir(l.Depth), dirR) {
								refl = l
							} else {
								trans = l
							}
						}
						if refl == nil {
							c.Fail("no ray is reflected in the direction of a mirror")
							return
						}
						s.startsNear(c, "the reflected ray", w.start(refl.Depth), true)
						if tir {
							if cnt != 1 {
								c.Fail("%d rays are followed on total reflection", cnt)
							}
							c.Expect("colour on total reflection", got, refl.Res)
							return
						}
						if trans == nil || cnt != 2 {
							c.Fail("%d rays are followed instead of a reflected and a refracted one", cnt)
							return
						}
						s.startsNear(c, "the refracted ray", w.start(trans.Depth), false)
						ct := w.sqrt(w.sub(w.num(1), sin2))
						want := w.vadd(w.vscale(q, s.d), w.vscale(w.sub(w.mul(q, ci), ct), n))
						c.Expect("direction of the refracted ray (Snell's law)", w.dir(trans.Depth), want)
						R := w.fresnel(n1, n2, ci, ct)
						c.Expect("colour", got, w.vadd(w.cscale(R, refl.Res), w.cscale(w.sub(w.num(1), R), trans.Res)))
					})
				})
			}
		}
	}
	refr("Refractive2", func(w *W, n1, n2 *V) *V { return w.call(matPkg, "Refractive2", n1, n2) }, false)
	r.Rule("Refractive is Refractive2 from air", "", func(w *W) {
		s := w.shading(nil)
		n := w.F("n2")
		a := s.shade(w.call(matPkg, "Refractive", n))
		b := s.shade(w.call(matPkg, "Refractive2", w.num(1), n))
		w.Same("colour", a, b, func(c *Case) { c.Pos(n); c.NonZero(w.dot(s.d, s.n)) })
	})
	r.Rule("Blend", "", func(w *W) {
		s := w.shading(nil)
		a, b, A, B := w.F("a"), w.F("b"), w.mat("A"), w.mat("B")
		got := s.shade(w.call(matPkg, "Blend", a, A, b, B))
		w.Same("colour", got, w.vadd(w.cscale(a, s.partShade(A)), w.cscale(b, s.partShade(B))))
	})
	r.Rule("BlendMap", "", func(w *W) {
		s := w.shading(nil)
		tex, A, B := w.g.Sym("tex", texT(w)), w.mat("A"), w.mat("B")
		f := w.p.Func(matPkg, "BlendMap")
		m := w.callF(f, tex, A, B)
		got := w.invoke(w.iface(f.Signature.Results().At(0).Type(), m), "Shade", w.colT(), s.ctx, s.scene, s.rp, s.hc)
		k := at(w, tex, w.vec("local")).args[0]
		w.All(func(c *Case) {
			c.NonNeg(k, w.sub(w.num(1), k))
			c.Expect("colour", got, w.vadd(w.cscale(k, s.partShade(A)), w.cscale(w.sub(w.num(1), k), s.partShade(B))))
		})
	})
	r.Rule("Shiny", "", func(w *W) {
		s := w.shading(w.scene(w.I("depth"), nil, nil))
		tex, k := w.g.Sym("tex", texT(w)), w.F("k")
		got := s.shade(w.call(matPkg, "Shiny", tex, k))
		s.gen = 0
		p1 := s.shade(w.call(matPkg, "Matte", tex))
		one := w.mkcol(w.num(1), w.num(1), w.num(1))
		p2 := s.shade(w.call(matPkg, "Reflective", one))
		w.Same("colour", got, w.vadd(w.cscale(w.sub(w.num(1), k), p1), w.cscale(k, p2)), func(c *Case) { c.NonZero(w.dot(s.d, s.n)) })
	})
	r.Rule("Transparent", "", func(w *W) {
		s := w.shading(nil)
		tex := w.g.Sym("tex", texT(w))
		got := s.shade(w.call(matPkg, "Transparent", tex, w.g.Sym("useRec", boolT())))
		w.All(func(c *Case) {
			c.NonZero(w.dot(s.d, s.n))
			l := onlyCall(c, "transmitted ray", append(append([]*CallRec{}, s.lf...), s.lfi...))
			if l == nil {
				return
			}
			s.startsNear(c, "the transmitted ray", w.start(l.Depth), false)
			c.Expect("direction of the transmitted ray", w.dir(l.Depth), s.d)
			c.Expect("colour", got, w.cmul(l.Res, at(w, tex, w.vec("local"))))
		})
	})
	r.Rule("Transparent: filter", "", func(w *W) {
		tex := w.g.Sym("tex", texT(w))
		m := w.call(matPkg, "Transparent", tex, w.g.Sym("useRec", boolT()))
		rp, _ := w.ray()
		h := w.sym("h", w.hitT())
		bg := w.col("bg")
		got := w.invoke(m, "Filter", w.colT(), rp, h, bg)
		w.Same("colour", got, w.cmul(bg, at(w, tex, w.hf(h, "Local"))))
	})
	r.Rule("TwoSided", "", func(w *W) {
		s := w.shading(nil)
		A, B := w.mat("A"), w.mat("B")
		got := s.shade(w.call(matPkg, "TwoSided", A, B))
		w.All(func(c *Case) {
			c.NonZero(w.dot(s.d, s.n))
			want := s.partShade(B)
			if c.Bool(w.positive(w.dot(s.d, s.n))) {
				want = s.partShade(A)
			}
			c.Expect("colour", got, want)
		})
	})
	r.Rule("Flat", "", func(w *W) {
		s := w.shading(nil)
		tex := w.g.Sym("tex", texT(w))
		got := s.shade(w.call(matPkg, "Flat", tex))
		w.Same("colour", got, at(w, tex, w.vec("local")))
	})
}

func checkC16(r *R) {
	r.Shared(checkC29, "CosineSphere", "UniformDisk")
	r.Shared(checkC15, "Transparent")
	for nl := 0; nl <= 3; nl++ {
		nl := nl
		r.Rule(fmt.Sprintf("Matte with %d lights", nl), "", func(w *W) {
			var lights []*V
			var pos, intens []*V
			samples := map[*V][]*CallRec{}
			for i := 0; i < nl; i++ {
				lights = append(lights, w.g.Sym(fmt.Sprintf("light%d", i), w.p.Type("tracer", "Light")))
				pos = append(pos, w.vec(fmt.Sprintf("pos%d", i)))
				intens = append(intens, w.col(fmt.Sprintf("I%d", i)))
			}
			scene := w.scene(w.I("depth"), lights, nil)
			var s *shading
			if nl <= 2 {
				s = w.shading(scene)
			} else { // many lights: above a floor
				s = w.shadingAt(scene, w.cvec(0, 1, 0), w.cvec(0, -1, 0), w.cvec(0, 1, 0), w.num(1))
			}
			w.handlers["invoke:Sample"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
				for i, l := range lights {
					if l == cr.Recv {
						samples[l] = append(samples[l], cr)
						return w.g.mk(&V{K: KTuple, typ: types.NewTuple(types.NewVar(0, nil, "", w.vecT()), types.NewVar(0, nil, "", w.colT())), args: []*V{pos[i], intens[i]}}), true
					}
				}
				return nil, false
			}
			type occ struct {
				cr        *CallRec
				ray, orig *V
				len, att  *V
			}
			var occs []occ
			w.handlers[scnName+"Occlude"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
				o := occ{cr: cr, ray: w.argOfType(cr, w.rayT()), orig: w.argOfType(cr, w.colT()), len: w.argOfType(cr, types.Typ[types.Float64])}
				o.att = w.g.expand("attenuation", w.colT(), o.ray, o.len)
				occs = append(occs, o)
				return w.cmul(o.orig, o.att), true
			}
			cosN := mod + "tracer/sequence.CosineSphere"
			w.NoInline = map[string]bool{cosN: true}
			tex := w.g.Sym("tex", w.p.Type("texture", "Texture"))
			got := s.shade(w.call(matPkg, "Matte", tex))
			refl := w.g.expand("invoke:At", w.colT(), tex, w.vec("local"))
			w.All(func(c *Case) {
				c.NonZero(w.dot(s.d, s.n))
				w.noPanic(c)
				n := s.n
				if nl > 2 {
					for i := range lights {
						c.Pos(intens[i].args[0])
					}
				}
				if c.Bool(w.positive(w.dot(s.n, s.d))) {
					n = w.vscale(w.num(-1), n)
				}
				sum := w.g.Zero(w.colT())
				for i, l := range lights {
					if len(samples[l]) == 0 {
						c.Fail("light %d is not sampled", i)
						return
					}
					sm := onlyCall(c, fmt.Sprintf("sample of light %d", i), samples[l])
					if sm == nil {
						return
					}
					p := w.argOfType(sm, w.vecT())
					s.startsNear(c, fmt.Sprintf("the sample of light %d", i), p, true)
					delta := w.vsub(pos[i], p)
					c.Pos(w.dot(delta, delta))
					cs := w.div(w.dot(delta, n), w.vlen(delta))
					if !c.Bool(w.positive(w.dot(delta, n))) || w.black(c, intens[i]) {
						if nl > 2 {
							c.Skip() // many lights: the case that they all matter
						}
						continue
					}
					var o *occ
					for k := range occs {
						if c.Bool(occs[k].cr.Guard) && c.Eq(occs[k].orig, intens[i]) {
							o = &occs[k]
							break
						}
					}
					if o == nil {
						c.Fail("what lies between the surface and light %d is not taken into account", i)
						return
					}
					s.startsNear(c, fmt.Sprintf("the shadow ray to light %d", i), w.start(o.ray), true)
					c.Expect("direction of the shadow ray", w.dir(o.ray), w.vscale(w.div(w.num(1), w.vlen(delta)), delta))
					c.Expect("length of the shadow ray", o.len, w.vlen(delta))
					sum = w.vadd(sum, w.cscale(cs, w.cmul(intens[i], o.att)))
				}
				if len(s.lf) > 0 {
					for _, l := range s.lf {
						if c.Bool(l.Guard) {
							c.Fail("a secondary ray sees the lights themselves, which are also counted directly")
						}
					}
				}
				l := onlyCall(c, "indirect ray", s.lfi)
				if l == nil {
					return
				}
				s.startsNear(c, "the indirect ray", w.start(l.Depth), true)
				ok := false
				for _, cr := range w.callsTo(cosN) {
					if c.Bool(cr.Guard) && c.Eq(cr.Res, w.dir(l.Depth)) {
						ok = true
						c.Expect("normal of the hemisphere of indirect light", w.argOfType(cr, w.vecT()), n)
						u, v := cr.Args[0], cr.Args[1]
						if len(u.name) < 2 || len(v.name) < 2 || u.name[0] == v.name[0] || u.name[1:] != v.name[1:] {
							c.Fail("the indirect direction is not chosen with a fresh pair of random numbers")
						}
					}
				}
				if !ok {
					c.Fail("the direction of the indirect ray is not cosine-distributed")
				}
				c.Expect("colour", got, w.cmul(refl, w.vadd(sum, l.Res)))
			})
		})
	}
	for no := 0; no <= 3; no++ {
		no := no
		r.Rule(fmt.Sprintf("Occlude with %d objects", no), "", func(w *W) {
			var objs []*V
			var hits []*V
			rp, rv := w.ray()
			for i := 0; i < no; i++ {
				o := w.foreign(fmt.Sprintf("o%d", i))
				objs = append(objs, o.v)
				hits = append(hits, w.hitOf(o, rv))
			}
			w.nanT(hits...)
			light := w.foreign("lightobj")
			lt := w.g.Sym("light", w.p.Type("tracer", "Light"))
			w.handlers["invoke:Object"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return light.v, true }
			s := w.scene(w.I("depth"), []*V{lt}, objs)
			att := func(h *V) *V { return w.g.expand("filter", w.colT(), h) }
			w.handlers["invoke:Filter"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
				h, bg := w.argOfType(cr, w.hitT()), w.argOfType(cr, w.colT())
				return w.cmul(bg, att(h)), true
			}
			ln, orig := w.F("len"), w.col("orig")
			got := w.method("tracer", "Scene", "Occlude", s, rp, ln, orig)
			tt := w.p.Type("tracer", "TransparentMaterial")
			w.All(func(c *Case) {
				want := orig
				black := false
				for _, h := range hits {
					t := w.hf(h, "T")
					if !c.Bool(w.positive(t)) || !c.Bool(w.lt(t, ln)) {
						continue
					}
					if c.Bool(w.g.Fn("is:"+types.TypeString(tt, nil), boolT(), w.hf(h, "Material"))) {
						want = w.cmul(want, att(h))
					} else {
						black = true
					}
				}
				if black {
					want = w.g.Zero(w.colT())
				}
				c.Expect("light that passes", got, want)
			})
		})
	}
	for _, media := range []int{0, 1} {
		media := media
		for _, on := range []int{0, 17, 18, 35} {
			on := on
			r.Rule(fmt.Sprintf("scene of 18 objects and 18 lights, with %d media: number %d is hit", media, on), "", func(w *W) { largeScene(w, media, on) })
		}
	}
	for _, fn := range []string{"LightField", "LightFieldIndirect"} {
		for _, k := range [][2]int{{0, 1}, {1, 1}, {1, 2}, {2, 1}} {
			fn, no, nl := fn, k[0], k[1]
			r.Rule(fmt.Sprintf("%s with %d objects and %d lights", fn, no, nl), "", func(w *W) {
				rp, rv := w.ray()
				var objs, lights, hits []*V
				byLight := map[*V]*V{}
				for i := 0; i < no; i++ {
					o := w.foreign(fmt.Sprintf("o%d", i))
					objs = append(objs, o.v)
					hits = append(hits, w.hitOf(o, rv))
				}
				for i := 0; i < nl; i++ {
					o := w.foreign(fmt.Sprintf("lo%d", i))
					l := w.g.Sym(fmt.Sprintf("light%d", i), w.p.Type("tracer", "Light"))
					byLight[l] = o.v
					lights = append(lights, l)
					hits = append(hits, w.hitOf(o, rv))
				}
				w.nanT(hits...)
				w.handlers["invoke:Object"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
					o := byLight[cr.Recv]
					return o, o != nil
				}
				s := w.scene(w.I("depth"), lights, objs)
				ctx := w.ctx()
				col := w.method("tracer", "Scene", fn, s, ctx, rp)
				calls := w.callsTo("invoke:Shade")
				w.All(func(c *Case) {
					w.notAtLimit(c, w.I("depth"))
					best := -1
					for i, h := range hits {
						if c.Bool(w.positive(w.hf(h, "T"))) && (best < 0 || c.Bool(w.lt(w.hf(h, "T"), w.hf(hits[best], "T")))) {
							best = i
						}
					}
					if best < 0 {
						c.Expect("colour when nothing is hit", col, w.g.Zero(w.colT()))
						return
					}
					for i, h := range hits { // no ties
						if i != best && c.Bool(w.g.Cmp("==", w.hf(h, "T"), w.hf(hits[best], "T"))) {
							return
						}
					}
					if best >= no && fn == "LightFieldIndirect" {
						c.Expect("colour of a light in an indirect ray", col, w.g.Zero(w.colT()))
						return
					}
					for _, cr := range calls {
						if c.Bool(cr.Guard) && c.Key(cr.Recv) == c.Key(w.hf(hits[best], "Material")) && c.Eq(col, cr.Res) {
							return
						}
					}
					c.Fail("the colour is not that of the material that was hit")
				})
			})
		}
	}
}

func checkC17(r *R) {
	fog := func(name string, mk func(w *W, h *V) *V, scatter bool) {
		for _, hk := range []string{"finite", "infinite"} {
			for _, tk := range []string{"a hit", "no hit"} {
				for _, dk := range []string{"up", "down", "horizontal"} {
					hk, tk, dk := hk, tk, dk
					r.Rule(fmt.Sprintf("%s, height %s, ray %s with %s", name, hk, dk, tk), "", func(w *W) {
						checkFog(w, name, mk, scatter, hk == "infinite", tk == "no hit", dk)
					})
				}
			}
		}
		r.Rule(name+" leaves secondary rays alone", "", func(w *W) {
			s := w.shading(nil)
			orig := w.col("orig")
			got := w.invoke(mk(w, w.F("height")), "Filter", w.colT(), s.ctx, s.scene, s.rp, w.F("tmax"), orig)
			w.All(func(c *Case) {
				c.Pos(w.sub(w.I("ctx.CurrentRecursionDepth"), w.g.Int(1)))
				c.Expect("colour", got, orig)
			})
		})
	}
	fog("ExpFog", func(w *W, h *V) *V { return w.call("tracer/media", "ExpFog", w.F("density"), w.col("ambient"), h) }, false)
	fog("Fog", func(w *W, h *V) *V { return w.call("tracer/media", "Fog", w.F("density"), h, w.g.Int(2)) }, true)
	for nm := 0; nm <= 2; nm++ {
		nm := nm
		r.Rule(fmt.Sprintf("LightField applies %d media", nm), "", func(w *W) {
			o := w.foreign("o")
			rp, rv := w.ray()
			h := w.hitOf(o, rv)
			var ms []*V
			for i := 0; i < nm; i++ {
				ms = append(ms, w.g.Sym(fmt.Sprintf("m%d", i), w.p.Type("tracer", "Medium")))
			}
			type app struct {
				cr    *CallRec
				depth *V
				tmax  *V
			}
			var apps []app
			ct := w.p.Type("tracer", "Ctx")
			w.handlers["invoke:Filter"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
				cx := w.ctxArg(st, cr)
				apps = append(apps, app{cr, w.field(cx, ct, "CurrentRecursionDepth"), w.argOfType(cr, types.Typ[types.Float64])})
				return w.cmul(w.argOfType(cr, w.colT()), w.g.expand("filtered", w.colT(), cr.Recv)), true
			}
			sc := w.call("tracer", "NewSceneWithMedia", w.I("depth"), w.slice(w.p.Type("tracer", "Medium"), ms...), w.slice(w.p.Type("tracer", "Light")), w.slice(w.p.Type("tracer", "Object"), o.v))
			got := w.method("tracer", "Scene", "LightField", sc, w.ctx(), rp)
			calls := w.callsTo("invoke:Shade")
			w.All(func(c *Case) {
				w.notAtLimit(c, w.I("depth"))
				want := w.g.Zero(w.colT())
				hit := c.Bool(w.positive(w.hf(h, "T")))
				if hit {
					sh := onlyCall(c, "shading", calls)
					if sh == nil {
						return
					}
					want = sh.Res
				}
				for _, m := range ms {
					want = w.cmul(want, w.g.expand("filtered", w.colT(), m))
				}
				c.Expect("colour", got, want)
				for _, a := range apps {
					if !c.Bool(a.cr.Guard) {
						continue
					}
					c.Expect("recursion depth seen by the medium", a.depth, w.g.Add(w.I("ctx.CurrentRecursionDepth"), w.g.Int(1)))
					if hit {
						c.Expect("end of the ray", a.tmax, w.hf(h, "T"))
					} else {
						c.Expect("end of the ray", a.tmax, w.infV())
					}
				}
			})
		})
	}
}

// ctxArg is the content of the context passed to a call.
func (w *W) ctxArg(st *State, cr *CallRec) *V {
	ct := w.p.Type("tracer", "Ctx")
	for i, a := range cr.Raw {
		if i < len(cr.Sig) && types.Identical(cr.Sig[i], types.NewPointer(ct)) {
			return w.load(st, a, ct)
		}
	}
	panic(undecided("call to " + cr.Name + " has no context"))
}

// black reports whether a colour is zero in this case; it splits the case if needed.
func (w *W) black(c *Case, col *V) bool {
	for _, x := range col.args {
		if !c.Bool(w.g.Cmp("==", x, w.num(0))) {
			return false
		}
	}
	return true
}

func (w *W) infV() *V { return w.num(math.Inf(1)) }

func checkFog(w *W, name string, mk func(w *W, h *V) *V, scatter, infH, infT bool, dirK string) {
	d, st := w.vec("d"), w.vec("s")
	if dirK == "horizontal" {
		d = aggSet(w.g, d, []int{1}, w.num(0))
	}
	height, tmax := w.F("height"), w.F("tmax")
	if infH {
		height = w.infV()
	}
	if infT {
		tmax = w.infV()
	}
	rp, rv := w.mkray(st, d)
	ctx := w.ctx()
	light := w.g.Sym("light", w.p.Type("tracer", "Light"))
	lights := []*V{light}
	scene := w.scene(w.I("depth"), lights, nil)
	u := w.F("u1")
	w.handlers[ctxName+"Ray"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		return it.newObj(st, "pooled ray", w.rayT(), w.g.Zero(w.rayT())), true
	}
	w.handlers[ctxName+"PutRay"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		return w.g.mk(&V{K: KTuple, typ: types.NewTuple()}), true
	}
	w.handlers[ctxName+"Generate2"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		f := types.Typ[types.Float64]
		return w.g.mk(&V{K: KTuple, typ: types.NewTuple(types.NewVar(0, nil, "", f), types.NewVar(0, nil, "", f)), args: []*V{u, w.F("v1")}}), true
	}
	var smp, occ []*CallRec
	lp, li := w.vec("lpos"), w.col("I")
	w.handlers["invoke:Sample"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		smp = append(smp, cr)
		return w.g.mk(&V{K: KTuple, typ: types.NewTuple(types.NewVar(0, nil, "", w.vecT()), types.NewVar(0, nil, "", w.colT())), args: []*V{lp, li}}), true
	}
	att := w.col("att")
	w.handlers[scnName+"Occlude"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		occ = append(occ, cr)
		return w.cmul(w.argOfType(cr, w.colT()), att), true
	}
	orig := w.col("orig")
	got := w.invoke(mk(w, height), "Filter", w.colT(), ctx, scene, rp, tmax, orig)
	den := w.F("density")
	w.All(func(c *Case) {
		c.Pos(den)
		if !infT {
			c.Pos(tmax)
		}
		c.NonNeg(u)
		c.Pos(w.sub(w.num(1), u))
		c.Assume(w.g.Cmp("==", w.I("ctx.CurrentRecursionDepth"), w.g.Int(1)))
		dy := d.args[1]
		switch dirK {
		case "up":
			c.Pos(dy)
		case "down":
			c.Pos(w.g.Neg(dy))
		}
		w.noPanic(c)
		// the part of the ray between 0 and tmax below the height of the fog
		from, to := w.num(0), tmax
		if !infH {
			if c.Bool(w.g.Cmp("==", height, st.args[1])) || dirK != "horizontal" && !infT && c.Bool(w.g.Cmp("==", w.mul(tmax, dy), w.sub(height, st.args[1]))) {
				c.Skip() // no volume: nothing to tell apart
			}
			above := c.Bool(w.lt(height, st.args[1]))
			cross := w.div(w.sub(height, st.args[1]), dy)
			switch {
			case dirK == "horizontal":
				if above {
					to = from
				}
			case dirK == "up":
				if above {
					to = from
				} else if infT || c.Bool(w.lt(cross, tmax)) {
					to = cross
				}
			case dirK == "down":
				if above {
					from = cross
					if !infT && !c.Bool(w.lt(cross, tmax)) {
						from, to = w.num(0), w.num(0)
					}
				}
			}
		}
		ln := w.sub(to, from)
		trans := w.fn1("exp", w.g.Neg(w.mul(ln, den)))
		if to == w.infV() {
			trans = w.num(0)
		}
		if !scatter {
			c.Expect("colour", got, w.vadd(w.cscale(trans, orig), w.cscale(w.sub(w.num(1), trans), w.col("ambient"))))
			return
		}
		if w.black(c, li) {
			c.Expect("colour without light", got, w.cscale(trans, orig))
			return
		}
		c.Expect("colour", got, w.vadd(w.cscale(trans, orig), w.cscale(w.sub(w.num(1), trans), w.cmul(li, att))))
		sm, oc := onlyCall(c, "sample of the light", smp), onlyCall(c, "test of the light's visibility", occ)
		if sm == nil || oc == nil {
			return
		}
		p := w.argOfType(sm, w.vecT())
		delta := w.vsub(lp, p)
		c.Pos(w.dot(delta, delta))
		or := w.argOfType(oc, w.rayT())
		c.Expect("start of the ray to the light", w.start(or), p)
		c.Expect("direction of the ray to the light", w.dir(or), w.vscale(w.div(w.num(1), w.vlen(delta)), delta))
		c.Expect("length of the ray to the light", w.argOfType(oc, types.Typ[types.Float64]), w.vlen(delta))
	})
	_ = rv
}

// largeScene: of many objects and lights one is hit, behind a medium that does nothing.
func largeScene(w *W, media, on int) {
	const n = 18
	rp, rv := w.ray()
	hit := w.sym("h", w.hitT())
	w.nanT(hit)
	var objs, lights []*V
	byLight := map[*V]*V{}
	for i := 0; i < 2*n; i++ {
		o := w.foreign(fmt.Sprintf("o%d", i))
		o.hit = func(st *State, ray *V) *V { return w.missRec() }
		if i == on {
			o.hit = func(st *State, ray *V) *V { return hit }
		}
		if i < n {
			objs = append(objs, o.v)
			continue
		}
		l := w.g.Sym(fmt.Sprintf("light%d", i-n), w.lightT())
		byLight[l] = o.v
		lights = append(lights, l)
	}
	w.handlers["invoke:Object"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		o := byLight[cr.Recv]
		return o, o != nil
	}
	mt := w.p.Type("tracer", "Medium")
	fog := w.g.Sym("medium", mt)
	att := w.g.expand("filter", w.colT(), hit)
	w.handlers["invoke:Filter"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		if cr.Recv == fog {
			return w.argOfType(cr, w.colT()), true
		}
		return w.cmul(w.argOfType(cr, w.colT()), att), true
	}
	var s *V
	if media == 0 {
		s = w.scene(w.I("depth"), lights, objs)
	} else {
		s = w.call("tracer", "NewSceneWithMedia", w.I("depth"), w.slice(mt, fog), w.slice(w.lightT(), lights...), w.slice(w.p.Type("tracer", "Object"), objs...))
	}
	_ = rv
	ls := w.method("tracer", "Scene", "Lights", s)
	ln := w.F("len")
	orig := w.col("orig")
	occl := w.method("tracer", "Scene", "Occlude", s, rp, ln, orig)
	tt := w.p.Type("tracer", "TransparentMaterial")
	w.All(func(c *Case) {
		w.notAtLimit(c, w.I("depth"))
		if !c.Bool(w.g.Cmp("==", w.Interp.lenOf(ls), w.g.Int(n))) {
			c.Fail("the scene has %s lights instead of %d", c.Show(w.Interp.lenOf(ls)), n)
			return
		}
		t := w.hf(hit, "T")
		want := orig
		if on < n && c.Bool(w.positive(t)) && c.Bool(w.lt(t, ln)) {
			want = w.g.Zero(w.colT())
			if c.Bool(w.g.Fn("is:"+types.TypeString(tt, nil), boolT(), w.hf(hit, "Material"))) {
				want = w.cmul(orig, att)
			}
		}
		c.Expect("light that passes", occl, want)
	})
	for _, fn := range []string{"LightField", "LightFieldIndirect"} {
		w.Calls = nil
		col := w.method("tracer", "Scene", fn, s, w.ctx(), rp)
		calls := w.callsTo("invoke:Shade")
		w.All(func(c *Case) {
			w.notAtLimit(c, w.I("depth"))
			if !c.Bool(w.positive(w.hf(hit, "T"))) || on >= n && fn == "LightFieldIndirect" {
				c.Expect(fn, col, w.g.Zero(w.colT()))
				return
			}
			for _, cr := range calls {
				if c.Bool(cr.Guard) && w.shadedAs(c, cr, hit) && c.Key(cr.Recv) == c.Key(w.hf(hit, "Material")) && c.Eq(col, cr.Res) {
					return
				}
			}
			c.Fail("%s: the colour is not that of the only hit", fn)
		})
	}
}
