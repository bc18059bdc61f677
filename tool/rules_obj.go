package main

import (
	"fmt"
	"go/types"
	"math"
)

const objPkg = "tracer/objects"

// ---------------------------------------------------------------- helpers

func (w *W) ifaceT() types.Type { return w.p.Type(objPkg, "Interface") }
func (w *W) hitT() types.Type   { return w.p.Type("tracer", "HitRecord") }
func (w *W) rayT() types.Type   { return w.p.Type("tracer", "Ray") }
func (w *W) bbT() types.Type    { return w.p.Type(objPkg, "BoundingBox") }
func (w *W) matT() types.Type   { return w.p.Type("tracer", "Material") }
func boolT() types.Type         { return types.Typ[types.Bool] }

// fobj is a foreign object: an arbitrary implementation of objects.Interface.
type fobj struct {
	v      *V
	bounds *V
	hit    func(st *State, ray *V) *V // nil: a function of the ray
	inside func(p *V) *V              // nil: a predicate on points
}

// foreign declares an arbitrary object.
func (w *W) foreign(name string) *fobj {
	if w.fobjs == nil {
		w.fobjs = map[*V]*fobj{}
		w.handlers["invoke:Bounds"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			if f := w.fobjs[cr.Recv]; f != nil && f.bounds != nil {
				return f.bounds, true
			}
			return nil, false
		}
		w.handlers["invoke:Intersect"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			if f := w.fobjs[cr.Recv]; f != nil && f.hit != nil {
				return f.hit(st, cr.Args[0]), true
			}
			return nil, false
		}
		w.handlers["invoke:Inside"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			if f := w.fobjs[cr.Recv]; f != nil && f.inside != nil {
				return f.inside(cr.Args[0]), true
			}
			return nil, false
		}
	}
	f := &fobj{v: w.g.Sym(name, w.ifaceT())}
	w.fobjs[f.v] = f
	return f
}

// hitOf is the hit record of a foreign object for the given ray contents.
func (w *W) hitOf(o *fobj, ray *V) *V {
	if o.hit != nil {
		return o.hit(w.st, ray)
	}
	return w.g.expand("invoke:Intersect", w.hitT(), o.v, ray)
}
func (w *W) insideOf(o *fobj, p *V) *V {
	if o.inside != nil {
		return o.inside(p)
	}
	return w.g.expand("invoke:Inside", boolT(), o.v, p)
}

func (w *W) hf(h *V, f string) *V { return w.field(h, w.hitT(), f) }

// ray allocates a ray with symbolic start and direction.
func (w *W) ray() (ptr, val *V) {
	val = w.sym("r", w.rayT())
	return w.box(val), val
}
func (w *W) mkray(s, d *V) (ptr, val *V) {
	val = w.g.Zero(w.rayT())
	val = w.setField(val, w.rayT(), "Start", s)
	val = w.setField(val, w.rayT(), "Dir", d)
	return w.box(val), val
}
func (w *W) start(r *V) *V { return w.field(r, w.rayT(), "Start") }
func (w *W) dir(r *V) *V   { return w.field(r, w.rayT(), "Dir") }
func (w *W) along(r, t *V) *V {
	return w.vadd(w.start(r), w.vscale(t, w.dir(r)))
}

func (w *W) mkbb(min, max *V) *V {
	b := w.g.Zero(w.bbT())
	b = w.setField(b, w.bbT(), "Min", min)
	return w.setField(b, w.bbT(), "Max", max)
}
func (w *W) cvec(x, y, z float64) *V { return w.mkvec(w.num(x), w.num(y), w.num(z)) }
func (w *W) infBB() *V {
	i := math.Inf(1)
	return w.mkbb(w.cvec(-i, -i, -i), w.cvec(i, i, i))
}
func (w *W) bbMin(b *V) *V { return w.field(b, w.bbT(), "Min") }
func (w *W) bbMax(b *V) *V { return w.field(b, w.bbT(), "Max") }

// bbHas is the condition that a closed box contains a point.
func (w *W) bbHas(b, p *V) *V {
	r := w.g.True
	for i := 0; i < 3; i++ {
		r = w.and(r, w.le(w.bbMin(b).args[i], p.args[i]), w.le(p.args[i], w.bbMax(b).args[i]))
	}
	return r
}

func (w *W) intersect(o, ray *V) *V       { return w.invoke(o, "Intersect", w.hitT(), ray) }
func (w *W) insideO(o, p *V) *V           { return w.invoke(o, "Inside", boolT(), p) }
func (w *W) boundsO(o *V) *V              { return w.invoke(o, "Bounds", w.bbT()) }
func (w *W) objf(name string, a ...*V) *V { return w.call(objPkg, name, a...) }
func (w *W) tree(os ...*V) *V             { return w.objf("Tree", w.slice(w.ifaceT(), os...)) }
func (w *W) mat(name string) *V           { return w.g.Sym(name, w.matT()) }

// miss is a record with T == 0.
func (w *W) missRec() *V { return w.g.Zero(w.hitT()) }

// positive: T > 0 (false for NaN).
func (w *W) positive(t *V) *V { return w.lt(w.num(0), t) }

// nearest checks that rec is the hit with smallest positive T of the candidates,
// or not a hit if there is none.
func (w *W) nearest(c *Case, rec *V, cand []*V) {
	var pos []*V
	for _, h := range cand {
		if c.Bool(w.positive(w.hf(h, "T"))) {
			pos = append(pos, h)
		}
	}
	t := w.hf(rec, "T")
	if len(pos) == 0 {
		if c.Bool(w.positive(t)) {
			c.Fail("nothing is hit in front of the ray, but a hit is reported at T=%s", c.Show(t))
		}
		return
	}
	if !c.Bool(w.positive(t)) {
		c.Fail("a hit in front of the ray is lost (T=%s)", c.Show(t))
		return
	}
	for _, h := range pos {
		if c.Eq(rec, h) {
			for _, o := range pos {
				if !c.Bool(w.le(w.hf(h, "T"), w.hf(o, "T"))) {
					c.Fail("the hit at T=%s is selected, but there is one nearer at T=%s", c.Show(t), c.Show(w.hf(o, "T")))
					return
				}
			}
			return
		}
	}
	c.Fail("the reported hit %s is not the record of any object", c.Show(rec))
}

func (w *W) nanT(hs ...*V) {
	for _, h := range hs {
		w.mayNaN(w.hf(h, "T"))
	}
}

// rayConstDir allocates a ray with symbolic start and a fixed direction.
func (w *W) rayConstDir() (ptr, val *V) {
	return w.mkray(w.vec("s"), w.cvec(0.5, -0.25, 2))
}

// farT: hits are not farther away than the backdrop.
func (w *W) farT(c *Case, hs ...*V) {
	for _, h := range hs {
		if c.Bool(w.lt(w.num(1e99), w.hf(h, "T"))) {
			c.Skip()
		}
	}
}

// ---------------------------------------------------------------- C08

func init() {
	register("C08", 20, "value-graph analysis: order-exhaustive selection", "Scene, tree, union and the two-candidate helpers are evaluated on arbitrary objects whose hit records are unconstrained (T may be NaN, zero, negative, any order); in every case of signs and orderings the selected record must be that of the smallest positive T, whole.", checkC08)
	register("C09", 20, "value-graph analysis: hit/miss correspondence", "Every wrapper, combination and tree is evaluated around arbitrary objects; a miss (T zero, negative or NaN) must come out as a T that is not positive, a wrapper must report the wrapped object's T unchanged.", checkC09)
}

func checkC08(r *R) {
	r.Shared(checkC26, "no hit is missed", "is missed")
	r.Rule("FrontT", "", func(w *W) {
		a, b := w.F("a"), w.F("b")
		w.mayNaN(a, b)
		t := w.call("tracer", "FrontT", a, b)
		w.All(func(c *Case) {
			pa, pb := c.Bool(w.positive(a)), c.Bool(w.positive(b))
			switch {
			case pa && pb:
				c.Expect("FrontT", t, w.g.Ite(w.lt(a, b), a, b))
			case pa:
				c.Expect("FrontT", t, a)
			case pb:
				c.Expect("FrontT", t, b)
			default:
				if c.Bool(w.positive(t)) {
					c.Fail("FrontT is positive")
				}
			}
		})
	})
	r.Rule("Frontmost", "", func(w *W) {
		a, b := w.sym("a", w.hitT()), w.sym("b", w.hitT())
		w.nanT(a, b)
		got := w.call("tracer", "Frontmost", w.box(a), w.box(b))
		w.All(func(c *Case) { w.nearest(c, got, []*V{a, b}) })
	})
	treeRule := func(n int, idx []int) {
		r.Rule(fmt.Sprintf("Tree of %d objects, hits in %v", n, idx), "", func(w *W) {
			var os []*V
			var cand []*V
			rp, rv := w.rayConstDir()
			on := map[int]bool{}
			for _, i := range idx {
				on[i] = true
			}
			for i := 0; i < n; i++ {
				o := w.foreign(fmt.Sprintf("o%d", i))
				o.bounds = w.infBB()
				if !on[i] {
					o.hit = func(st *State, ray *V) *V { return w.missRec() }
				} else {
					cand = append(cand, w.hitOf(o, rv))
				}
				os = append(os, o.v)
			}
			w.nanT(cand...)
			got := w.intersect(w.tree(os...), rp)
			w.All(func(c *Case) { w.farT(c, cand...); w.nearest(c, got, cand) })
		})
	}
	treeRule(1, []int{0})
	treeRule(2, []int{0, 1})
	treeRule(3, []int{0, 1, 2})
	treeRule(4, []int{0, 1, 2, 3})
	for _, n := range []int{8, 9, 16} {
		for _, ix := range [][]int{{0, 1, 2}, {0, n / 2, n - 1}, {n/2 - 1, n / 2, n/2 + 1}, {n - 3, n - 2, n - 1}, {1, n / 3, n - 2}} {
			treeRule(n, ix)
		}
	}
	r.Rule("Or of disjoint objects", "", func(w *W) {
		w.Cut, w.MaxSym = true, 1
		a, b := w.foreign("a"), w.foreign("b")
		no := func(p *V) *V { return w.g.False }
		a.inside, b.inside = no, no
		rp, rv := w.ray()
		cand := []*V{w.hitOf(a, rv), w.hitOf(b, rv)}
		w.nanT(cand...)
		got := w.intersect(w.objf("Or", a.v, b.v), rp)
		w.All(func(c *Case) {
			w.noTrunc(c)
			w.nearest(c, got, cand)
		})
	})
	for _, fn := range []string{"LightField", "LightFieldIndirect"} {
		for n := 0; n <= 3; n++ {
			fn, n := fn, n
			r.Rule(fmt.Sprintf("%s with %d objects", fn, n), "", func(w *W) {
				var os []*V
				var cand []*V
				rp, rv := w.ray()
				for i := 0; i < n; i++ {
					o := w.foreign(fmt.Sprintf("o%d", i))
					cand = append(cand, w.hitOf(o, rv))
					os = append(os, o.v)
				}
				w.nanT(cand...)
				s := w.scene(w.I("depth"), nil, os)
				ctx := w.ctx()
				col := w.method("tracer", "Scene", fn, s, ctx, rp)
				calls := w.callsTo("invoke:Shade")
				w.All(func(c *Case) {
					w.notAtLimit(c, w.I("depth"))
					var best *V
					for _, h := range cand {
						if c.Bool(w.positive(w.hf(h, "T"))) && (best == nil || c.Bool(w.lt(w.hf(h, "T"), w.hf(best, "T")))) {
							best = h
						}
					}
					if best == nil {
						c.Expect("colour when nothing is hit", col, w.g.Zero(w.colT()))
						return
					}
					// several objects may be hit at the same T
					var alt []*V
					for _, h := range cand {
						if h == best || c.Bool(w.g.Cmp("==", w.hf(h, "T"), w.hf(best, "T"))) {
							alt = append(alt, h)
						}
					}
					for _, h := range alt {
						for _, cr := range calls {
							if !c.Bool(cr.Guard) || c.Key(cr.Recv) != c.Key(w.hf(h, "Material")) {
								continue
							}
							if w.shadedAs(c, cr, h) && c.Eq(col, cr.Res) {
								return
							}
						}
					}
					c.Fail("the colour is not that of the nearest hit (T=%s), with its own material, normal and local coordinates", c.Show(w.hf(best, "T")))
				})
			})
		}
	}
}

// shadedAs reports whether a call to Shade got the coordinates of hit h.
func (w *W) shadedAs(c *Case, cr *CallRec, h *V) bool {
	hc := w.argOfType(cr, w.p.Type("tracer", "HitCoords"))
	t := w.p.Type("tracer", "HitCoords")
	n := w.hf(h, "Normal")
	return c.Eq(w.field(hc, t, "T"), w.hf(h, "T")) && c.Eq(w.field(hc, t, "Local"), w.hf(h, "Local")) &&
		c.Eq(w.field(hc, t, "Normal"), w.vscale(w.div(w.num(1), w.vlen(n)), n))
}

// argOfType finds the argument of the given type.
// argOfType is the argument of a call with type t or *t.
func (w *W) argOfType(cr *CallRec, t types.Type) *V {
	for i, a := range cr.Args {
		if i >= len(cr.Sig) {
			break
		}
		st := cr.Sig[i]
		if types.Identical(st, t) || types.Identical(st, types.NewPointer(t)) {
			return a
		}
	}
	panic(undecided(fmt.Sprint("call to ", cr.Name, " has no argument of type ", t.String(), " in ", cr.Sig)))
}

func (w *W) callsTo(name string) []*CallRec {
	var r []*CallRec
	for _, c := range w.Calls {
		if c.Name == name {
			r = append(r, c)
		}
	}
	return r
}

func (w *W) noTrunc(c *Case) {
	for _, t := range w.TruncPC {
		if c.Bool(t) {
			c.Skip()
		}
	}
}

// scene builds a Scene from objects and lights.
func (w *W) scene(depth *V, lights []*V, objs []*V) *V {
	lt := w.p.Type("tracer", "Light")
	ot := w.p.Type("tracer", "Object")
	return w.call("tracer", "NewScene", depth, w.slice(lt, lights...), w.slice(ot, objs...))
}

// ctx allocates an arbitrary context.
func (w *W) ctx() *V {
	return w.box(w.sym("ctx", w.p.Type("tracer", "Ctx")))
}
func (w *W) ctxDepth(ctx *V) *V {
	t := w.p.Type("tracer", "Ctx")
	return w.field(w.get(ctx, t), t, "CurrentRecursionDepth")
}
func (w *W) notAtLimit(c *Case, depth *V) {
	cd := w.I("ctx.CurrentRecursionDepth")
	c.NonNeg(cd)
	c.Pos(w.sub(depth, cd))
}

// ---------------------------------------------------------------- C09

func checkC09(r *R) {
	r.Shared(checkC26, "hits lie on the surface", "Triangle:")
	r.Shared(checkC27, "missed beside its faces", "Disk")
	wrap := func(name string, mk func(w *W, o *V) *V) {
		r.Rule(name, "", func(w *W) {
			o := w.foreign("o")
			o.bounds = w.infBB()
			rp, rv := w.rayConstDir()
			h := w.hitOf(o, rv)
			w.nanT(h)
			got := w.intersect(mk(w, o.v), rp)
			w.All(func(c *Case) {
				w.farT(c, h)
				if c.Bool(w.positive(w.hf(h, "T"))) {
					c.Expect("T of the hit", w.hf(got, "T"), w.hf(h, "T"))
				} else if c.Bool(w.positive(w.hf(got, "T"))) {
					c.Fail("the wrapped object is missed, but a hit is reported at T=%s", c.Show(w.hf(got, "T")))
				}
			})
		})
	}
	wrap("Not", func(w *W, o *V) *V { return w.objf("Not", o) })
	wrap("Hollow", func(w *W, o *V) *V { return w.objf("Hollow", o) })
	wrap("WithMaterial", func(w *W, o *V) *V { return w.objf("WithMaterial", w.mat("m"), o) })
	wrap("Remap", func(w *W, o *V) *V {
		f := w.p.Func(objPkg, "Remap")
		return w.objf("Remap", o, w.g.Sym("remap", f.Params[1].Type()))
	})
	wrap("Bounded", func(w *W, o *V) *V { return w.objf("Bounded", o) })
	wrap("Tree", func(w *W, o *V) *V { return w.tree(o) })
	wrap("Tree in Tree", func(w *W, o *V) *V { return w.tree(w.tree(o)) })
	wrap("WithMaterial of Tree of Bounded", func(w *W, o *V) *V {
		return w.objf("WithMaterial", w.mat("m"), w.tree(w.objf("Bounded", o)))
	})
	wrap("Not of Tree", func(w *W, o *V) *V { return w.objf("Not", w.tree(o)) })
	wrap("Transformed", func(w *W, o *V) *V {
		// an identity-like transform keeps the ray: only hit or miss matters here
		return w.objf("Transformed", o, w.call("geom", "UnitTransform"))
	})
	all := func(name string, n int, mk func(w *W, os []*V) *V) {
		r.Rule(name, "", func(w *W) {
			w.Cut, w.MaxSym = true, 1
			var os, hs []*V
			rp, rv := w.rayConstDir()
			for i := 0; i < n; i++ {
				o := w.foreign(fmt.Sprintf("o%d", i))
				o.bounds = w.infBB()
				os = append(os, o.v)
				hs = append(hs, w.hitOf(o, rv))
			}
			w.nanT(hs...)
			got := w.intersect(mk(w, os), rp)
			w.All(func(c *Case) {
				for _, h := range hs {
					if c.Bool(w.positive(w.hf(h, "T"))) {
						c.Skip()
					}
				}
				w.noTrunc(c)
				if c.Bool(w.positive(w.hf(got, "T"))) {
					c.Fail("no part is hit, but a hit is reported at T=%s", c.Show(w.hf(got, "T")))
				}
			})
		})
	}
	for _, n := range []int{2, 3, 5, 7} {
		all(fmt.Sprintf("Tree of %d", n), n, func(w *W, os []*V) *V { return w.tree(os...) })
	}
	all("And", 2, func(w *W, os []*V) *V { return w.objf("And", os[0], os[1]) })
	all("Or", 2, func(w *W, os []*V) *V { return w.objf("Or", os[0], os[1]) })
	all("Difference", 2, func(w *W, os []*V) *V { return w.objf("Difference", os[0], os[1]) })
	all("Restrict", 2, func(w *W, os []*V) *V { return w.objf("Restrict", os[0], os[1]) })
	all("Or of Trees", 4, func(w *W, os []*V) *V {
		return w.objf("Or", w.tree(os[0], os[1]), w.tree(os[2], os[3]))
	})
	for _, n := range []int{8, 9, 15, 16, 30} {
		n := n
		r.Rule(fmt.Sprintf("Tree of %d, all missed", n), "", func(w *W) {
			rp, rv := w.rayConstDir()
			var os []*V
			h := []*V{}
			for i := 0; i < n; i++ {
				o := w.foreign(fmt.Sprintf("o%d", i))
				o.bounds = w.infBB()
				if i%5 != 0 {
					k := i
					o.hit = func(st *State, ray *V) *V {
						return w.setField(w.missRec(), w.hitT(), "T", w.num([]float64{0, -1, 0, math.NaN(), 0}[k%5]))
					}
				} else if len(h) < 4 {
					h = append(h, w.hitOf(o, rv))
				} else {
					o.hit = func(st *State, ray *V) *V { return w.missRec() }
				}
				os = append(os, o.v)
			}
			w.nanT(h...)
			got := w.intersect(w.tree(os...), rp)
			w.All(func(c *Case) {
				for _, x := range h {
					if c.Bool(w.positive(w.hf(x, "T"))) {
						c.Skip()
					}
				}
				if c.Bool(w.positive(w.hf(got, "T"))) {
					c.Fail("no object is hit, but a hit is reported at T=%s", c.Show(w.hf(got, "T")))
				}
			})
		})
	}
}
