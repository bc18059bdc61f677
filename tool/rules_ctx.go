package main

import (
	"fmt"
	"go/token"
	"go/types"
)

func init() {
	register("C03", 20, "ownership (typestate) analysis on the value graph", "Every material, medium, camera and image function is evaluated with an arbitrary ray, hit and scene. Rays taken from the pool are tracked: on each path every one must be put back exactly once (or handed to the caller, for cameras), not be loaded, stored or passed on afterwards, and no other ray be put. The pool itself is evaluated for every history of up to six get and put operations.", checkC03)
	register("C04", 8, "value-graph analysis with linear integer domain", "Light field evaluation is executed for an arbitrary depth limit and recursion depth: no intersection, shading or filtering is reachable at the limit, everything nested runs one level deeper, and every path restores the depth. Every other function given a context must leave the depth alone.", checkC04)
}

// poolRay is a ray taken from the pool.
type poolRay struct {
	obj   *Obj
	guard *V
	pos   token.Pos
}
type poolUse struct {
	ptr, guard *V
	pos        token.Pos
	seq        int
	what       string
}

// pool tracks the rays of a context.
type pool struct {
	w    *W
	n    int
	acq  []*poolRay
	puts []*poolUse
	uses []*poolUse
}

// collect sorts out what was logged.
func (p *pool) collect() {
	p.acq, p.puts, p.uses = nil, nil, nil
	for _, l := range p.w.Log {
		switch l := l.(type) {
		case *poolRay:
			p.acq = append(p.acq, l)
		case *poolUse:
			if l.what == "put back" {
				p.puts = append(p.puts, l)
			} else {
				p.uses = append(p.uses, l)
			}
		}
	}
}

func (w *W) pool() *pool {
	p := &pool{w: w}
	w.LogUses = true
	w.handlers[ctxName+"Ray"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		return p.get(st, cr, w.g.Zero(w.rayT())), true
	}
	w.handlers[ctxName+"PutRay"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		it.Log = append(it.Log, &poolUse{cr.Raw[len(cr.Raw)-1], cr.Guard, cr.Pos, cr.Seq, "put back"})
		return w.g.mk(&V{K: KTuple, typ: types.NewTuple()}), true
	}
	return p
}

func (p *pool) get(st *State, cr *CallRec, content *V) *V {
	w := p.w
	p.n++
	v := w.newObj(st, fmt.Sprintf("ray%d", p.n), w.rayT(), content)
	w.Log = append(w.Log, &poolRay{v.obj, cr.Guard, cr.Pos})
	return v
}

// use records that a call gets a ray.
func (p *pool) use(cr *CallRec) {
	for i, a := range cr.Raw {
		if i < len(cr.Sig) && types.Identical(cr.Sig[i], types.NewPointer(p.w.rayT())) {
			p.w.Log = append(p.w.Log, &poolUse{a, cr.Guard, cr.Pos, cr.Seq, "passed to " + cr.Name})
		}
	}
}

// track makes the named calls record their use of rays in addition to their handlers.
func (p *pool) track(names ...string) {
	for _, n := range names {
		h := p.w.handlers[n]
		p.w.handlers[n] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			p.use(cr)
			if h == nil {
				return nil, false
			}
			return h(it, st, cr)
		}
	}
}

// check verifies the ownership discipline; returned is the ray given to the caller, if any.
func (p *pool) check(returned *V, assume func(c *Case)) {
	w := p.w
	p.collect()
	on := func(c *Case, g *V) bool { return g == nil || c.Bool(g) }
	obj := func(c *Case, v *V) *Obj {
		if v = c.Resolve(v); v.K == KPtr {
			return v.obj
		}
		return nil
	}
	all := append([]*poolUse{}, p.uses...)
	for _, u := range w.Uses {
		what := "read"
		if u.Store {
			what = "written"
		}
		all = append(all, &poolUse{u.Ptr, u.Guard, u.Pos, u.Seq, what})
	}
	// Uses before the first release need not be looked at.
	first := int(^uint(0) >> 1)
	for _, u := range p.puts {
		if u.seq < first {
			first = u.seq
		}
	}
	keep := all[:0]
	for _, u := range all {
		if u.seq > first {
			keep = append(keep, u)
		}
	}
	all = keep
	mine := map[*Obj]bool{}
	for _, a := range p.acq {
		mine[a.obj] = true
	}
	if len(p.acq) > 0 {
		p.escapes(mine)
	}
	var refs func(v *V) bool
	refs = func(v *V) bool {
		if v.K == KIte {
			return refs(v.args[1]) || refs(v.args[2])
		}
		return v.K == KPtr && mine[v.obj]
	}
	w.oblige(len(p.acq))
	w.All(func(c *Case) {
		if assume != nil {
			assume(c)
		}
		for _, t := range w.TruncPC {
			if c.Bool(t) {
				c.Skip()
			}
		}
		var back *Obj
		if returned != nil {
			back = obj(c, returned)
			if back == nil || !mine[back] {
				c.Fail("the returned ray does not come from the pool")
			}
		}
		put := map[*Obj]*poolUse{}
		for _, u := range p.puts {
			if !on(c, u.guard) {
				continue
			}
			o := obj(c, u.ptr)
			if o == nil || !mine[o] {
				c.Fail("%s: a ray that was not taken from the pool is put back", w.p.Pos(u.pos))
				return
			}
			if q := put[o]; q != nil {
				c.Fail("%s: the ray is put back, after it was put back at %s", w.p.Pos(u.pos), w.p.Pos(q.pos))
				return
			}
			put[o] = u
			if o == back {
				c.Fail("%s: the ray that is returned has been put back", w.p.Pos(u.pos))
			}
		}
		for _, a := range p.acq {
			if put[a.obj] == nil && a.obj != back && on(c, a.guard) {
				c.Fail("%s: the ray taken from the pool is never put back", w.p.Pos(a.pos))
			}
		}
		for _, u := range all {
			if !refs(u.ptr) || !on(c, u.guard) {
				continue
			}
			if q := put[obj(c, u.ptr)]; q != nil && u.seq > q.seq {
				c.Fail("%s: a ray is %s after it was put back at %s", w.p.Pos(u.pos), u.what, w.p.Pos(q.pos))
			}
		}
	})
}

type shader struct {
	name string
	mk   func(w *W) *V
}

// allMaterials are the materials of the library, with arbitrary parameters.
func allMaterials() []shader {
	tex := func(w *W) *V { return w.g.Sym("tex", w.p.Type("texture", "Texture")) }
	return []shader{
		{"Reflective", func(w *W) *V { return w.call(matPkg, "Reflective", w.col("c")) }},
		{"ReflectFresnel", func(w *W) *V { return w.call(matPkg, "ReflectFresnel", w.F("n"), w.mat("m")) }},
		{"Refractive", func(w *W) *V { return w.call(matPkg, "Refractive", w.F("n")) }},
		{"Refractive2", func(w *W) *V { return w.call(matPkg, "Refractive2", w.F("n1"), w.F("n2")) }},
		{"Matte", func(w *W) *V { return w.call(matPkg, "Matte", tex(w)) }},
		{"Flat", func(w *W) *V { return w.call(matPkg, "Flat", tex(w)) }},
		{"Transparent", func(w *W) *V { return w.call(matPkg, "Transparent", tex(w), w.g.Sym("useRec", boolT())) }},
		{"Blend", func(w *W) *V { return w.call(matPkg, "Blend", w.F("a"), w.mat("A"), w.F("b"), w.mat("B")) }},
		{"Shiny", func(w *W) *V { return w.call(matPkg, "Shiny", tex(w), w.F("a")) }},
		{"TwoSided", func(w *W) *V { return w.call(matPkg, "TwoSided", w.mat("A"), w.mat("B")) }},
		{"Blend of glass and mirror", func(w *W) *V {
			return w.call(matPkg, "Blend", w.F("a"), w.call(matPkg, "Refractive", w.F("n")), w.F("b"), w.call(matPkg, "ReflectFresnel", w.F("n"), w.mat("m")))
		}},
		{"BlendMap", func(w *W) *V {
			f := w.p.Func(matPkg, "BlendMap")
			return w.iface(f.Signature.Results().At(0).Type(), w.call(matPkg, "BlendMap", tex(w), w.mat("A"), w.call(matPkg, "Reflective", w.col("c"))))
		}},
	}
}

var allMedia = []shader{
	{"ExpFog", func(w *W) *V {
		return w.call("tracer/media", "ExpFog", w.F("density"), w.col("ambient"), w.F("height"))
	}},
	{"Fog", func(w *W) *V { return w.call("tracer/media", "Fog", w.F("density"), w.F("height"), w.I("numLight")) }},
}

// allCameras are the cameras of the library.
func allCameras() []shader {
	return []shader{
		{"Projective", func(w *W) *V { return w.call(camPkg, "Projective", w.F("fov")) }},
		{"ProjectiveAperture", func(w *W) *V { return w.call(camPkg, "ProjectiveAperture", w.F("fov"), w.F("ap"), w.F("focus")) }},
		{"EnvironmentMap", func(w *W) *V { return w.call(camPkg, "EnvironmentMap") }},
		{"Isometric", func(w *W) *V { return w.call(camPkg, "Isometric", w.g.Int(1), w.F("size")) }},
		{"Transform", func(w *W) *V {
			cam := w.g.Sym("cam", w.cameraT())
			return w.call(camPkg, "Transform", cam, w.sym("m", w.p.Type("geom", "Matrix")), w.vec("t"))
		}},
	}
}

// escapes reports objects older than the pooled rays that refer to them in the end.
func (p *pool) escapes(mine map[*Obj]bool) {
	w := p.w
	first := p.acq[0].obj.id
	for _, a := range p.acq {
		if a.obj.id < first {
			first = a.obj.id
		}
	}
	var has func(v *V, depth int) bool
	has = func(v *V, depth int) bool {
		switch v.K {
		case KPtr:
			return mine[v.obj]
		case KIte:
			return depth < 20 && (has(v.args[1], depth+1) || has(v.args[2], depth+1))
		case KAgg:
			for _, a := range v.args {
				if has(a, depth+1) {
					return true
				}
			}
		}
		return false
	}
	w.oblige(1)
	for o, v := range w.st.mem {
		if o.id < first && has(v, 0) {
			w.fail("a ray from the pool is kept in %s", o.name)
		}
	}
}

func checkC03(r *R) {
	r.anyNaN = true
	mats := allMaterials()
	for _, m := range mats {
		m := m
		for _, nl := range []int{0, 1, 2, 4} {
			nl := nl
			if nl > 0 && m.name != "Matte" && m.name != "Shiny" {
				continue
			}
			name := m.name
			if nl > 0 {
				name += fmt.Sprintf(", %d lights", nl)
			}
			r.Rule(name, "", func(w *W) {
				var lights []*V
				for i := 0; i < nl; i++ {
					lights = append(lights, w.g.Sym(fmt.Sprintf("light%d", i), w.lightT()))
				}
				scene := w.scene(w.I("depth"), lights, nil)
				s := w.shading(scene)
				p := w.pool()
				mat := m.mk(w)
				w.handlers["invoke:Sample"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
					return w.g.mk(&V{K: KTuple, typ: w.posColT(), args: []*V{w.g.expand("lpos", w.vecT(), cr.Recv), w.g.expand("lint", w.colT(), cr.Recv)}}), true
				}
				w.handlers[scnName+"Occlude"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
					return w.g.expand("occl", w.colT(), w.argOfType(cr, w.rayT())), true
				}
				p.track(scnName+"LightField", scnName+"LightFieldIndirect", scnName+"Occlude", "invoke:Shade", "invoke:Filter", "invoke:Intersect")
				s.shade(mat)
				p.check(nil, nil)
			})
		}
	}
	for _, m := range allMedia {
		n, mk := m.name, m.mk
		for _, nl := range []int{0, 1, 2, 4} {
			nl := nl
			r.Rule(fmt.Sprintf("%s, %d lights", n, nl), "", func(w *W) {
				var lights []*V
				for i := 0; i < nl; i++ {
					lights = append(lights, w.g.Sym(fmt.Sprintf("light%d", i), w.lightT()))
				}
				scene := w.scene(w.I("depth"), lights, nil)
				w.random()
				p := w.pool()
				m := mk(w)
				w.handlers["invoke:Sample"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
					return w.g.mk(&V{K: KTuple, typ: w.posColT(), args: []*V{w.g.expand("lpos", w.vecT(), cr.Recv), w.g.expand("lint", w.colT(), cr.Recv)}}), true
				}
				w.handlers[scnName+"Occlude"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
					return w.g.expand("occl", w.colT(), w.argOfType(cr, w.rayT())), true
				}
				p.track(scnName+"LightField", scnName+"LightFieldIndirect", scnName+"Occlude", "invoke:Shade", "invoke:Filter", "invoke:Intersect")
				ctx := w.ctx()
				rp, _ := w.ray()
				w.invoke(m, "Filter", w.colT(), ctx, scene, rp, w.F("tmax"), w.col("orig"))
				p.check(nil, func(c *Case) {
					c.Pos(w.I("ctx.CurrentRecursionDepth"))
					c.Pos(w.F("tmax"), w.F("density"))
				})
			})
		}
	}
	// Cameras give the ray to the caller.
	cams := allCameras()
	foreign := func(w *W, p *pool) {
		w.handlers["invoke:RayFrom"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			return p.get(st, cr, w.sym("camray", w.rayT())), true
		}
	}
	camT := func(w *W, c *V) *V {
		return w.iface(w.p.Func(camPkg, "Transform").Signature.Results().At(0).Type(), c)
	}
	for _, cm := range cams {
		cm := cm
		r.Rule("Camera "+cm.name, "", func(w *W) {
			w.random()
			cam := cm.mk(w)
			p := w.pool()
			foreign(w, p)
			u, v := w.F("u"), w.F("v")
			res := w.invoke(camT(w, cam), "RayFrom", types.NewPointer(w.rayT()), w.ctx(), u, v)
			p.check(res, func(c *Case) { w.unitIval(c, u, v) })
		})
		r.Rule("ImageFunc with camera "+cm.name, "", func(w *W) {
			w.random()
			cam := cm.mk(w)
			o := w.foreign("o")
			scene := w.scene(w.I("depth"), nil, []*V{o.v})
			f := w.method("tracer", "Scene", "ImageFunc", scene, camT(w, cam))
			p := w.pool()
			foreign(w, p)
			p.track("invoke:Shade", "invoke:Filter")
			u, v := w.F("u"), w.F("v")
			w.callFV(f, w.colT(), w.ctx(), u, v)
			if p.collect(); len(p.acq) == 0 {
				w.fail("no ray is obtained")
			}
			p.check(nil, func(c *Case) { w.unitIval(c, u, v) })
		})
	}
	// The pool: every history of gets and puts.
	for n := 1; n <= 6; n++ {
		for bits := 0; bits < 1<<uint(n); bits++ {
			n, bits := n, bits
			out := 0
			ok := true
			name := ""
			for i := 0; i < n; i++ {
				if bits>>uint(i)&1 == 0 {
					out++
					name += "G"
				} else {
					out--
					name += "P"
				}
				ok = ok && out >= 0
			}
			if !ok || bits>>uint(n-1)&1 != 0 && n < 6 {
				continue
			}
			for _, lifo := range []bool{true, false} {
				lifo := lifo
				r.Rule(fmt.Sprintf("pool history %s lifo=%v", name, lifo), "", func(w *W) {
					ctx := w.call("tracer", "NewCtx", w.g.Int(1))
					var live []*V
					for i := 0; i < n; i++ {
						if bits>>uint(i)&1 == 0 {
							p := w.method("tracer", "Ctx", "Ray", ctx)
							if p.K != KPtr {
								w.fail("the pool returns %v", p)
								return
							}
							for _, q := range live {
								if p == q {
									w.fail("a ray that is still in use is handed out again")
								}
							}
							w.Same("ray from the pool", w.get(p, w.rayT()), w.g.Zero(w.rayT()))
							w.Interp.store(w.st, p, w.sym(fmt.Sprintf("dirty%d", i), w.rayT()), w.rayT())
							live = append(live, p)
							continue
						}
						k := 0
						if lifo {
							k = len(live) - 1
						}
						w.method("tracer", "Ctx", "PutRay", ctx, live[k])
						live = append(append([]*V{}, live[:k]...), live[k+1:]...)
					}
					w.oblige(1)
				})
			}
		}
	}
}

func checkC04(r *R) {
	r.anyNaN = true
	for _, m := range []string{"LightField", "LightFieldIndirect"} {
		for nm := 0; nm <= 2; nm++ {
			for _, set := range []string{"empty", "object", "object and light", "two objects"} {
				m, nm, set := m, nm, set
				r.Rule(fmt.Sprintf("%s, %s, %d media", m, set, nm), "", func(w *W) {
					depth := w.I("depth")
					var objs, lights, media []*V
					if set != "empty" {
						objs = append(objs, w.foreign("o").v)
					}
					if set == "two objects" {
						objs = append(objs, w.foreign("p").v)
					}
					if set == "object and light" {
						l := w.g.Sym("l", w.lightT())
						lo := w.foreign("lo")
						w.handlers["invoke:Object"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return lo.v, true }
						lights = append(lights, l)
					}
					for i := 0; i < nm; i++ {
						media = append(media, w.g.Sym(fmt.Sprintf("medium%d", i), w.p.Type("tracer", "Medium")))
					}
					scene := w.call("tracer", "NewSceneWithMedia", depth, w.slice(w.p.Type("tracer", "Medium"), media...), w.slice(w.lightT(), lights...), w.slice(w.p.Type("tracer", "Object"), objs...))
					ctx := w.ctx()
					d0 := w.ctxDepth(ctx)
					type ev struct {
						cr *CallRec
						d  *V
					}
					var evs []ev
					ct := w.p.Type("tracer", "Ctx")
					for _, n := range []string{"Shade", "Filter", "Intersect"} {
						n := n
						h := w.handlers["invoke:"+n]
						w.handlers["invoke:"+n] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
							e := ev{cr: cr}
							if n != "Intersect" {
								e.d = w.field(w.ctxArg(st, cr), ct, "CurrentRecursionDepth")
							}
							evs = append(evs, e)
							if h == nil {
								return nil, false
							}
							return h(it, st, cr)
						}
					}
					rp, _ := w.ray()
					got := w.method("tracer", "Scene", m, scene, ctx, rp)
					nsh := 0
					for _, e := range evs {
						e := e
						if e.cr.Name == "invoke:Shade" {
							nsh++
						}
						w.All(func(c *Case) {
							c.NonNeg(d0, w.sub(depth, d0))
							if e.cr.Guard != nil {
								c.Assume(e.cr.Guard)
							}
							if c.Bool(w.g.Cmp("==", depth, d0)) {
								c.Fail("%s is reached at the depth limit", e.cr.Name)
								return
							}
							if e.d != nil {
								c.Expect("depth during "+e.cr.Name, e.d, w.g.Add(d0, w.g.Int(1)))
								if !c.Bool(w.le(e.d, depth)) {
									c.Fail("%s runs at a depth beyond the limit", e.cr.Name)
								}
							}
						})
					}
					if set != "empty" && (nsh == 0 || len(evs) < nsh+nm+1) {
						w.fail("no shading or filtering takes place")
					}
					w.All(func(c *Case) {
						c.NonNeg(d0, w.sub(depth, d0))
						w.noPanic(c)
						c.Expect("depth after the call", w.ctxDepth(ctx), d0)
						if c.Bool(w.g.Cmp("==", depth, d0)) {
							for i, x := range got.args {
								c.Expect(fmt.Sprintf("channel %d at the limit", i), x, w.num(0))
							}
						}
					})
				})
			}
		}
	}
	levelRules(r)
	r.Rule("initialised context", "", func(w *W) {
		ctx := w.call("tracer", "NewCtx", w.g.Int(1))
		w.method("tracer", "Ctx", "Init", ctx, w.I("pixel"), w.I("pass"))
		w.Same("depth of a context between pixels", w.ctxDepth(ctx), w.num(0))
	})
	r.Rule("new context", "", func(w *W) {
		w.Same("initial depth", w.ctxDepth(w.call("tracer", "NewCtx", w.g.Int(1))), w.num(0))
	})
	r.Rule("depth limit of a scene", "", func(w *W) {
		n := w.I("n")
		st := w.p.Type("tracer", "Scene")
		for _, s := range []*V{w.scene(n, nil, nil), w.call("tracer", "NewSceneWithMedia", n, w.slice(w.p.Type("tracer", "Medium")), w.slice(w.lightT()), w.slice(w.p.Type("tracer", "Object")))} {
			w.Same("limit", w.field(w.get(s, st), st, "RecursionDepth"), n)
		}
	})
}

// levelRules: materials, media, cameras and lights leave the depth alone, so that
// every nested evaluation counts.
func levelRules(r *R) {
	nested := []string{scnName + "LightField", scnName + "LightFieldIndirect", "invoke:Shade", "invoke:Filter", "invoke:Sample", "invoke:RayFrom"}
	run := func(w *W, what string, call func(ctx *V)) {
		type ev struct {
			cr *CallRec
			d  *V
		}
		ctx := w.ctx()
		d0 := w.ctxDepth(ctx)
		ct := w.p.Type("tracer", "Ctx")
		var evs []ev
		for _, n := range nested {
			h := w.handlers[n]
			w.handlers[n] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
				for i := range cr.Raw {
					if i < len(cr.Sig) && types.Identical(cr.Sig[i], types.NewPointer(ct)) {
						evs = append(evs, ev{cr, w.field(w.ctxArg(st, cr), ct, "CurrentRecursionDepth")})
						break
					}
				}
				if h == nil {
					return nil, false
				}
				return h(it, st, cr)
			}
		}
		call(ctx)
		w.oblige(1 + len(evs))
		if d := w.ctxDepth(ctx); d != d0 {
			w.All(func(c *Case) { c.Expect("depth after "+what, d, d0) })
		}
		for _, e := range evs {
			e := e
			if e.d == d0 {
				continue
			}
			w.All(func(c *Case) {
				if e.cr.Guard != nil {
					c.Assume(e.cr.Guard)
				}
				c.Expect("depth during "+e.cr.Name+" within "+what, e.d, d0)
			})
		}
	}
	lit := func(w *W) *V {
		w.handlers["invoke:Sample"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			return w.g.mk(&V{K: KTuple, typ: w.posColT(), args: []*V{w.g.expand("lpos", w.vecT(), cr.Recv), w.g.expand("lint", w.colT(), cr.Recv)}}), true
		}
		w.handlers[scnName+"Occlude"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			return w.g.expand("occl", w.colT(), w.argOfType(cr, w.rayT())), true
		}
		return w.scene(w.I("depth"), []*V{w.g.Sym("light0", w.lightT()), w.g.Sym("light1", w.lightT())}, nil)
	}
	for _, m := range allMaterials() {
		m := m
		r.Rule("depth within "+m.name, "", func(w *W) {
			s := w.shading(lit(w))
			w.pool()
			mat := m.mk(w)
			run(w, "Shade", func(ctx *V) { s.ctx = ctx; s.shade(mat) })
		})
	}
	for _, m := range allMedia {
		m := m
		r.Rule("depth within "+m.name, "", func(w *W) {
			scene := lit(w)
			w.random()
			w.pool()
			md := m.mk(w)
			rp, _ := w.ray()
			run(w, "Filter", func(ctx *V) { w.invoke(md, "Filter", w.colT(), ctx, scene, rp, w.F("tmax"), w.col("orig")) })
		})
	}
	lights := []shader{
		{"RectangleLight", func(w *W) *V { return w.call(lightPkg, "RectangleLight", w.col("b"), w.F("w"), w.F("h"), w.vec("c")) }},
		{"DiskLight", func(w *W) *V { return w.call(lightPkg, "DiskLight", w.col("b"), w.F("d"), w.vec("c")) }},
		{"SunLight", func(w *W) *V { return w.call(lightPkg, "SunLight", w.col("b"), w.F("d"), w.F("yaw"), w.F("pitch")) }},
		{"PointLight", func(w *W) *V { return w.call(lightPkg, "PointLight", w.col("b"), w.vec("c")) }},
		{"Transformed light", func(w *W) *V {
			p, _ := w.tr("t")
			return w.call(lightPkg, "Transformed", w.call(lightPkg, "DiskLight", w.col("b"), w.F("d"), w.vec("c")), p)
		}},
	}
	for _, m := range lights {
		m := m
		r.Rule("depth within "+m.name, "", func(w *W) {
			w.random()
			w.pool()
			l := m.mk(w)
			run(w, "Sample", func(ctx *V) { w.invoke(l, "Sample", w.posColT(), ctx, w.vec("p")) })
		})
	}
	for _, m := range allCameras() {
		m := m
		r.Rule("depth within camera "+m.name, "", func(w *W) {
			w.random()
			cam := m.mk(w)
			p := w.pool()
			w.handlers["invoke:RayFrom"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
				return p.get(st, cr, w.sym("camray", w.rayT())), true
			}
			run(w, "RayFrom", func(ctx *V) {
				w.invoke(w.iface(w.p.Func(camPkg, "Transform").Signature.Results().At(0).Type(), cam), "RayFrom", types.NewPointer(w.rayT()), ctx, w.F("u"), w.F("v"))
			})
		})
		r.Rule("depth within ImageFunc with camera "+m.name, "", func(w *W) {
			w.random()
			cam := w.iface(w.p.Func(camPkg, "Transform").Signature.Results().At(0).Type(), m.mk(w))
			f := w.method("tracer", "Scene", "ImageFunc", w.scene(w.I("depth"), nil, nil), cam)
			p := w.pool()
			w.handlers["invoke:RayFrom"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
				return p.get(st, cr, w.sym("camray", w.rayT())), true
			}
			w.handlers[scnName+"LightField"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
				return w.col("light"), true
			}
			run(w, "ImageFunc", func(ctx *V) { w.callFV(f, w.colT(), ctx, w.F("u"), w.F("v")) })
		})
	}
}

// callFV calls a function value.
func (w *W) callFV(f *V, rt types.Type, args ...*V) *V {
	if f.K != KFunc {
		panic(undecided("call of " + f.String()))
	}
	r, ok := w.callFn(nil, w.st, f.fn, args, f.args, rt, 0)
	if !ok {
		panic(undecided("function value never returns"))
	}
	return r
}

func init() {
	register("C02", 40, "value-graph and effect analysis", "Every object type and wrapper is intersected with an arbitrary ray (nested objects are arbitrary too): in every case, each component of the caller's ray must afterwards be the very value it held before, and no store may reach an object that existed before the call, other than the ray. Inside and Bounds may not store to any such object at all.", checkC02)
}

// inputStores lists the stores since a mark that reach objects created before it.
type mark struct{ obj, use int }

func (w *W) mark() mark {
	w.LogUses = true
	o := w.g.NewObj("mark", types.Typ[types.Int], nil)
	return mark{o.id, len(w.Uses)}
}
func (w *W) noStores(m mark, what string, allowed ...*V) {
	var old func(p *V) *V
	old = func(p *V) *V {
		switch p.K {
		case KIte:
			if r := old(p.args[1]); r != nil {
				return r
			}
			return old(p.args[2])
		case KPtr:
			for _, a := range allowed {
				if a.K == KPtr && a.obj == p.obj {
					return nil
				}
			}
			if p.obj.id < m.obj {
				return p
			}
			return nil
		case KNil:
			return nil
		}
		return p
	}
	w.oblige(1)
	for _, u := range w.Uses[m.use:] {
		if !u.Store || old(u.Ptr) == nil {
			continue
		}
		u := u
		w.All(func(c *Case) {
			if u.Guard != nil {
				c.Assume(u.Guard)
			}
			p := c.Resolve(u.Ptr)
			if q := old(p); q != nil {
				c.Fail("%s: %s stores to %s, which existed before the call", w.p.Pos(u.Pos), what, p)
			}
		})
	}
}

// unchanged requires each component of a value to be the very same as before.
func (w *W) sameBits(c *Case, what string, got, was *V) {
	got = c.Resolve(got)
	if got == was {
		return
	}
	if got.K == KAgg && was.K == KAgg && len(got.args) == len(was.args) {
		for i := range got.args {
			w.sameBits(c, fmt.Sprintf("%s[%d]", what, i), got.args[i], was.args[i])
		}
		return
	}
	c.Fail("%s is %s instead of the original %s", what, c.Show(got), c.Show(was))
}

func checkC02(r *R) {
	r.anyNaN = true
	type mk struct {
		name string
		cut  bool
		f    func(w *W) *V
	}
	fo := func(w *W, n string) *V { return w.foreign(n).v }
	inf := func(w *W, n string) *V { o := w.foreign(n); o.bounds = w.infBB(); return o.v }
	list := []mk{
		{"Backdrop", false, func(w *W) *V { return w.objf("Backdrop", w.mat("m")) }},
		{"Bounded", false, func(w *W) *V { return w.objf("Bounded", fo(w, "o")) }},
		{"Box", false, func(w *W) *V { return w.objf("Box", w.mat("m"), w.F("w"), w.F("h"), w.F("d"), w.vec("c")) }},
		{"BoxWithBounds", false, func(w *W) *V { return w.objf("BoxWithBounds", w.mat("m"), w.vec("min"), w.vec("max")) }},
		{"And", true, func(w *W) *V { return w.objf("And", fo(w, "a"), fo(w, "b")) }},
		{"Or", true, func(w *W) *V { return w.objf("Or", fo(w, "a"), fo(w, "b")) }},
		{"Restrict", true, func(w *W) *V { return w.objf("Restrict", fo(w, "a"), fo(w, "b")) }},
		{"Difference", true, func(w *W) *V { return w.objf("Difference", fo(w, "a"), fo(w, "b")) }},
		{"Not", false, func(w *W) *V { return w.objf("Not", fo(w, "a")) }},
		{"Hollow", false, func(w *W) *V { return w.objf("Hollow", fo(w, "a")) }},
		{"And of Transformed", true, func(w *W) *V {
			return w.objf("And", w.objf("Translated", fo(w, "a"), w.vec("t")), fo(w, "b"))
		}},
		{"Transformed And", true, func(w *W) *V {
			return w.objf("Translated", w.objf("And", inf(w, "a"), inf(w, "b")), w.vec("t"))
		}},
		{"IsoSurface", true, func(w *W) *V {
			f := w.p.Func(objPkg, "IsoSurface")
			return w.objf("IsoSurface", w.mat("m"), w.F("dx"), w.F("dy"), w.F("dz"), w.g.Sym("f", f.Params[len(f.Params)-1].Type()))
		}},
		{"Triangle", false, func(w *W) *V { return w.objf("Triangle", w.mat("m"), w.vec("a"), w.vec("b"), w.vec("c")) }},
		{"Rectangle", false, func(w *W) *V { return w.objf("Rectangle", w.mat("m"), w.F("w"), w.F("d"), w.vec("c")) }},
		{"RectangleWithVertices", false, func(w *W) *V { return w.objf("RectangleWithVertices", w.mat("m"), w.vec("a"), w.vec("b"), w.vec("c")) }},
		{"Disk", false, func(w *W) *V { return w.objf("Disk", w.mat("m"), w.F("d"), w.vec("c")) }},
		{"Sphere", false, func(w *W) *V { return w.objf("Sphere", w.mat("m"), w.F("d"), w.vec("c")) }},
		{"Cylinder", false, func(w *W) *V { return w.objf("Cylinder", w.mat("m"), w.F("d"), w.F("h"), w.vec("c")) }},
		{"CylinderDir", false, func(w *W) *V { return w.objf("CylinderDir", w.mat("m"), w.g.Int(2), w.F("d"), w.F("h"), w.vec("c")) }},
		{"CylinderWithCaps", true, func(w *W) *V { return w.objf("CylinderWithCaps", w.mat("m"), w.F("d"), w.F("h"), w.vec("c")) }},
		{"Remap", false, func(w *W) *V {
			f := w.p.Func(objPkg, "Remap")
			return w.objf("Remap", fo(w, "o"), w.g.Sym("remap", f.Params[1].Type()))
		}},
		{"Transformed", false, func(w *W) *V { p, _ := w.tr("t"); return w.objf("Transformed", inf(w, "o"), p) }},
		{"Transformed twice", false, func(w *W) *V {
			p, _ := w.tr("t")
			q, _ := w.tr("q")
			return w.objf("Transformed", w.objf("Transformed", inf(w, "o"), p), q)
		}},
		{"Translated", false, func(w *W) *V { return w.objf("Translated", fo(w, "o"), w.vec("t")) }},
		{"WithMaterial", false, func(w *W) *V { return w.objf("WithMaterial", w.mat("m"), fo(w, "o")) }},
		{"WithMaterial of Tree", false, func(w *W) *V { return w.objf("WithMaterial", w.mat("m"), w.tree(inf(w, "o"), inf(w, "p"))) }},
		{"Transformed Tree", false, func(w *W) *V { p, _ := w.tr("t"); return w.objf("Transformed", w.tree(inf(w, "o"), inf(w, "p")), p) }},
		{"Translated Bounded", false, func(w *W) *V { return w.objf("Translated", w.objf("Bounded", fo(w, "o")), w.vec("t")) }},
	}
	for _, n := range []int{1, 2, 3, 5, 8} {
		n := n
		list = append(list, mk{fmt.Sprintf("Tree of %d", n), false, func(w *W) *V {
			var os []*V
			for i := 0; i < n; i++ {
				os = append(os, inf(w, fmt.Sprintf("o%d", i)))
			}
			return w.tree(os...)
		}})
	}
	for _, m := range list {
		m := m
		r.Rule(m.name+": Intersect", "", func(w *W) {
			o := m.f(w)
			rp, rv := w.ray()
			if m.cut {
				w.Cut, w.MaxSym = true, 2
			}
			mk := w.mark()
			w.intersect(o, rp)
			w.noStores(mk, "Intersect", rp)
			after := w.get(rp, w.rayT())
			w.oblige(6)
			if after == rv {
				return // in every case
			}
			w.All(func(c *Case) {
				w.noTrunc(c)
				w.sameBits(c, "Start", w.start(after), w.start(rv))
				w.sameBits(c, "Dir", w.dir(after), w.dir(rv))
			})
		})
		r.Rule(m.name+": Inside and Bounds", "", func(w *W) {
			o := m.f(w)
			if m.cut {
				w.Cut, w.MaxSym = true, 2
			}
			mk := w.mark()
			w.tryInvoke(o, "Inside", boolT(), w.vec("p"))
			w.tryInvoke(o, "Bounds", w.bbT())
			w.noStores(mk, "Inside or Bounds")
		})
	}
	lights := []mk{
		{"RectangleLight", false, func(w *W) *V { return w.call(lightPkg, "RectangleLight", w.col("b"), w.F("w"), w.F("h"), w.vec("c")) }},
		{"DiskLight", false, func(w *W) *V { return w.call(lightPkg, "DiskLight", w.col("b"), w.F("d"), w.vec("c")) }},
		{"SunLight", false, func(w *W) *V { return w.call(lightPkg, "SunLight", w.col("b"), w.F("d"), w.F("yaw"), w.F("pitch")) }},
		{"PointLight", false, func(w *W) *V { return w.call(lightPkg, "PointLight", w.col("b"), w.vec("c")) }},
		{"Transformed light", false, func(w *W) *V {
			p, _ := w.tr("t")
			return w.call(lightPkg, "Transformed", w.call(lightPkg, "DiskLight", w.col("b"), w.F("d"), w.vec("c")), p)
		}},
	}
	objT := r.p.Type("tracer", "Object")
	for _, m := range lights {
		m := m
		r.Rule("Object of "+m.name, "", func(w *W) {
			l := m.f(w)
			o := w.invoke(l, "Object", objT)
			rp, rv := w.ray()
			mk := w.mark()
			w.intersect(o, rp)
			w.noStores(mk, "Intersect", rp)
			after := w.get(rp, w.rayT())
			w.oblige(6)
			if after != rv {
				w.All(func(c *Case) {
					w.sameBits(c, "Start", w.start(after), w.start(rv))
					w.sameBits(c, "Dir", w.dir(after), w.dir(rv))
				})
			}
		})
	}
	for _, f := range []string{"LightField", "LightFieldIndirect", "Occlude"} {
		f := f
		r.Rule("Scene."+f, "", func(w *W) {
			l := w.g.Sym("l", w.lightT())
			lo := fo(w, "lo")
			w.handlers["invoke:Object"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return lo, true }
			scene := w.scene(w.I("depth"), []*V{l}, []*V{w.objf("Translated", inf(w, "o"), w.vec("t")), fo(w, "p")})
			ctx := w.ctx()
			rp, rv := w.ray()
			mk := w.mark()
			if f == "Occlude" {
				w.method("tracer", "Scene", f, scene, rp, w.F("len"), w.col("orig"))
			} else {
				w.method("tracer", "Scene", f, scene, ctx, rp)
			}
			w.noStores(mk, f, rp, ctx)
			after := w.get(rp, w.rayT())
			w.oblige(6)
			if after != rv {
				w.All(func(c *Case) {
					w.sameBits(c, "Start", w.start(after), w.start(rv))
					w.sameBits(c, "Dir", w.dir(after), w.dir(rv))
				})
			}
		})
	}
}
