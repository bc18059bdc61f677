package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

func init() {
	register("C24", 20, "value-graph analysis with linear integer domain", "InitDefaults, View.ApplyTo, Spec.Scene and Spec.ImageFunc are evaluated for an arbitrary specification and view (every sign of every setting): each field of the result must be the setting of the user, or the documented default when that was unset; the HTTP handlers are evaluated for an arbitrary decoded view.", checkC24)
}

func (w *W) specT() types.Type { return w.p.Type("api", "Spec") }
func (w *W) viewT() types.Type { return w.p.Type("api", "View") }

// apiObj wraps an object as the api does.
func (w *W) apiObj(o *V) *V {
	t := w.p.Type("api", "Object")
	return w.g.Agg(t, o)
}

// anySpec is a specification with the given objects, lights and media, and otherwise arbitrary.
func (w *W) anySpec(objs, lights, media []*V) *V {
	t := w.specT()
	s := w.sym("spec", t)
	set := func(f string, v *V) { s = w.setField(s, t, f, v) }
	set("Objects", w.slice(w.p.Type("api", "Object"), objs...))
	set("Lights", w.slice(w.lightT(), lights...))
	set("Media", w.slice(w.p.Type("tracer", "Medium"), media...))
	return s
}

func (w *W) sameElems(c *Case, what string, got, want *V) {
	a, b := w.elems(c.Resolve(got)), w.elems(c.Resolve(want))
	if len(a) != len(b) {
		c.Fail("%s: %d instead of %d elements", what, len(a), len(b))
		return
	}
	for i := range a {
		c.Expect(fmt.Sprintf("%s[%d]", what, i), a[i], b[i])
	}
}

// keptSpec requires the fields of a specification other than the listed ones to be unchanged.
func (w *W) keptSpec(c *Case, got, was *V, except ...string) {
	t := w.specT().Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		n := t.Field(i).Name()
		skip := false
		for _, e := range except {
			skip = skip || e == n
		}
		if skip {
			continue
		}
		g, f := w.field(got, w.specT(), n), w.field(was, w.specT(), n)
		if _, ok := t.Field(i).Type().Underlying().(*types.Slice); ok {
			w.sameElems(c, n, g, f)
			continue
		}
		c.Expect(n, g, f)
	}
}

// defaulted checks that unset settings got their defaults and the others were kept.
func (w *W) defaulted(c *Case, got, was *V, camera bool) {
	f := func(n string) (g, s *V) { return w.field(got, w.specT(), n), w.field(was, w.specT(), n) }
	zero := w.num(0)
	for _, n := range []string{"Recursion", "NumPass"} {
		g, s := f(n)
		if c.Bool(w.g.Cmp("==", s, zero)) {
			if !c.Bool(w.g.Cmp("<", zero, g)) {
				c.Fail("%s is not filled in: %s", n, c.Show(g))
			}
		} else {
			c.Expect(n, g, s)
		}
	}
	if camera {
		g, s := f("Camera")
		if c.Bool(w.g.Cmp("==", s, w.g.Nil(w.cameraT()))) {
			if c.Bool(w.g.Cmp("==", g, w.g.Nil(w.cameraT()))) {
				c.Fail("Camera is not filled in")
			}
		} else {
			c.Expect("Camera", g, s)
		}
	}
	W, w0 := f("Width")
	H, h0 := f("Height")
	wz, hz := c.Bool(w.g.Cmp("==", w0, zero)), c.Bool(w.g.Cmp("==", h0, zero))
	if !wz {
		c.Expect("Width", W, w0)
	}
	if !hz {
		c.Expect("Height", H, h0)
	}
	if wz || hz {
		// 16:9, up to rounding of the dimension that is computed
		d := w.sub(w.mul(w.g.Int(9), W), w.mul(w.g.Int(16), H))
		lim := 16
		if wz {
			lim = 9
		}
		if wz && hz {
			lim = 1
		}
		if !c.Bool(w.lt(d, w.g.Int(lim))) || !c.Bool(w.lt(w.g.Int(-lim), d)) {
			c.Fail("aspect ratio of %s x %s is not 16:9", c.Show(W), c.Show(H))
		}
		if !c.Bool(w.lt(zero, W)) || !c.Bool(w.lt(zero, H)) {
			c.Fail("empty image: %s x %s", c.Show(W), c.Show(H))
		}
	}
}

func (w *W) specSettings(c *Case, s *V) {
	for _, n := range []string{"Recursion", "NumPass", "Width", "Height"} {
		c.NonNeg(w.field(s, w.specT(), n))
	}
}

func checkC24(r *R) {
	debug := []string{"DebugNormals", "DebugIsometricFOV", "DebugIsometricDir"}
	initD := func(w *W, s *V) (after *V) {
		p := w.box(s)
		w.method("api", "Spec", "InitDefaults", p)
		return w.get(p, w.specT())
	}
	things := func(w *W) (objs, lights, media []*V) {
		objs = []*V{w.apiObj(w.foreign("o").v), w.apiObj(w.foreign("p").v)}
		lights = []*V{w.g.Sym("l0", w.lightT()), w.g.Sym("l1", w.lightT())}
		media = []*V{w.g.Sym("m0", w.p.Type("tracer", "Medium"))}
		return
	}
	r.Rule("defaults", "", func(w *W) {
		s := w.anySpec(things(w))
		mk := w.mark()
		p := w.box(s)
		mk.obj++
		w.method("api", "Spec", "InitDefaults", p)
		got := w.get(p, w.specT())
		w.All(func(c *Case) {
			w.specSettings(c, s)
			c.Assume(w.g.Cmp("==", w.field(s, w.specT(), "DebugNormals"), w.num(0)))
			c.Assume(w.g.Cmp("==", w.field(s, w.specT(), "DebugIsometricFOV"), w.num(0)))
			w.noPanic(c)
			w.defaulted(c, got, s, true)
			w.keptSpec(c, got, s, "Recursion", "NumPass", "Camera", "Width", "Height")
		})
	})
	r.Rule("isometric debug camera", "", func(w *W) {
		s := w.anySpec(things(w))
		f := func(n string) *V { return w.field(s, w.specT(), n) }
		for d := 0; d < 3; d++ {
			s := w.setField(s, w.specT(), "DebugIsometricDir", w.g.Int(d))
			got := initD(w, s)
			ray := w.invoke(w.resolveIn(w.field(got, w.specT(), "Camera"), func(c *Case) {
				c.NonZero(f("DebugIsometricFOV"))
			}), "RayFrom", types.NewPointer(w.rayT()), w.ctx(), w.F("u"), w.F("v"))
			cam := w.call(camPkg, "Isometric", w.g.Int(d), f("DebugIsometricFOV"))
			want := w.invoke(w.iface(w.p.Func(camPkg, "Isometric").Signature.Results().At(0).Type(), cam), "RayFrom", types.NewPointer(w.rayT()), w.ctx(), w.F("u"), w.F("v"))
			g, e := w.get(ray, w.rayT()), w.get(want, w.rayT())
			w.All(func(c *Case) {
				w.specSettings(c, s)
				c.NonZero(f("DebugIsometricFOV"))
				c.Assume(w.g.Cmp("==", f("DebugNormals"), w.num(0)))
				w.defaulted(c, got, s, false)
				w.keptSpec(c, got, s, append([]string{"Recursion", "NumPass", "Camera", "Width", "Height"}, debug...)...)
				c.Expect("ray", g, e)
			})
		}
	})

	for mode := 1; mode <= 2; mode++ {
		mode := mode
		r.Rule(fmt.Sprintf("normals debug mode %d", mode), "", func(w *W) {
			o := w.foreign("o")
			objs := []*V{w.apiObj(w.objf("Backdrop", w.mat("bm"))), w.apiObj(o.v), w.apiObj(w.foreign("p").v)}
			_, lights, media := things(w)
			s := w.anySpec(objs, lights, media)
			s = w.setField(s, w.specT(), "DebugNormals", w.g.Int(mode))
			mk := w.mark()
			p := w.box(s)
			w.method("api", "Spec", "InitDefaults", p)
			w.noStores(mk, "InitDefaults")
			got := w.get(p, w.specT())
			var list []*V
			w.All(func(c *Case) {
				w.specSettings(c, s)
				c.Assume(w.g.Cmp("==", w.field(s, w.specT(), "DebugIsometricFOV"), w.num(0)))
				w.noPanic(c)
				except := []string{"NumPass", "Camera", "Width", "Height", "Objects", "Media", "Recursion"}
				if mode == 2 {
					x := w.setField(got, w.specT(), "Recursion", w.field(s, w.specT(), "Recursion"))
					x = w.setField(x, w.specT(), "NumPass", w.field(got, w.specT(), "NumPass"))
					if c.Bool(w.g.Cmp("==", w.field(s, w.specT(), "Recursion"), w.num(0))) {
						x = w.setField(x, w.specT(), "Recursion", w.num(1))
					}
					w.defaulted(c, x, s, true)
				} else {
					w.defaulted(c, got, s, true)
				}
				w.keptSpec(c, got, s, except...)
				list = w.elems(c.Resolve(w.field(got, w.specT(), "Objects")))
				if len(list) != len(objs) {
					c.Fail("%d instead of %d objects", len(list), len(objs))
				}
			})
			if w.bad {
				return
			}
			rp, _ := w.ray()
			for i := range objs {
				was := w.intersect(objs[i].args[0], rp)
				is := w.intersect(list[i].args[0], rp)
				w.All(func(c *Case) {
					c.Expect(fmt.Sprintf("distance to object %d", i), w.hf(is, "T"), w.hf(was, "T"))
				})
			}
		})
	}
	r.Rule("view applied to a specification", "", func(w *W) {
		s := w.anySpec(things(w))
		cam, ray := w.foreignCamera()
		s = w.setField(s, w.specT(), "Camera", cam)
		v := w.sym("view", w.viewT())
		vf := func(n string) *V { return w.field(v, w.viewT(), n) }
		mk := w.mark()
		got := w.method("api", "View", "ApplyTo", v, s)
		w.noStores(mk, "ApplyTo")
		assume := func(c *Case) {
			w.specSettings(c, s)
			c.NonNeg(vf("Width"), vf("Height"))
			c.Assume(w.g.Cmp("==", vf("DebugNormals"), w.num(0)))
			c.Assume(w.g.Not(vf("DebugIsometric")))
		}
		cm := w.resolveIn(w.field(got, w.specT(), "Camera"), assume)
		rt := w.invoke(cm, "RayFrom", types.NewPointer(w.rayT()), w.ctx(), w.F("u"), w.F("v"))
		r1 := w.get(rt, w.rayT())
		rot := w.get(w.call("geom", "YawPitchRoll", vf("CamYaw"), vf("CamPitch"), w.num(0)), w.p.Type("geom", "AffineTransform"))
		w.All(func(c *Case) {
			assume(c)
			c.Expect("position", w.start(r1), w.vadd(w.affDir(rot, w.start(ray)), vf("CamPos")))
			c.Expect("direction", w.dir(r1), w.affDir(rot, w.dir(ray)))
			was := w.setField(s, w.specT(), "Width", vf("Width"))
			was = w.setField(was, w.specT(), "Height", vf("Height"))
			w.defaulted(c, got, was, false)
			w.keptSpec(c, got, was, append([]string{"Recursion", "NumPass", "Camera", "Width", "Height"}, debug...)...)
			for _, n := range []string{"DebugNormals", "DebugIsometricFOV"} {
				c.Expect(n, w.field(got, w.specT(), n), w.num(0))
			}
		})
	})
	r.Rule("view with isometric projection", "", func(w *W) {
		s := w.anySpec(things(w))
		v := w.sym("view", w.viewT())
		vf := func(n string) *V { return w.field(v, w.viewT(), n) }
		v = w.setField(v, w.viewT(), "DebugIsometric", w.g.True)
		v = w.setField(v, w.viewT(), "DebugNormals", w.num(0))
		for d := 0; d < 3; d++ {
			v := w.setField(v, w.viewT(), "DebugIsometricDir", w.g.Int(d))
			got := w.method("api", "View", "ApplyTo", v, s)
			assume := func(c *Case) {
				w.specSettings(c, s)
				c.NonNeg(vf("Width"), vf("Height"))
				c.NonZero(vf("DebugIsometricFOV"))
			}
			cm := w.resolveIn(w.field(got, w.specT(), "Camera"), assume)
			ray := w.invoke(cm, "RayFrom", types.NewPointer(w.rayT()), w.ctx(), w.F("u"), w.F("v"))
			cam := w.call(camPkg, "Isometric", w.g.Int(d), vf("DebugIsometricFOV"))
			want := w.invoke(w.iface(w.p.Func(camPkg, "Isometric").Signature.Results().At(0).Type(), cam), "RayFrom", types.NewPointer(w.rayT()), w.ctx(), w.F("u"), w.F("v"))
			g, e := w.get(ray, w.rayT()), w.get(want, w.rayT())
			w.All(func(c *Case) {
				assume(c)
				c.Expect("ray", g, e)
				was := w.setField(s, w.specT(), "Width", vf("Width"))
				was = w.setField(was, w.specT(), "Height", vf("Height"))
				w.defaulted(c, got, was, false)
				w.keptSpec(c, got, was, append([]string{"Recursion", "NumPass", "Camera", "Width", "Height"}, debug...)...)
			})
		}
	})
	for mode := 0; mode <= 2; mode++ {
		mode := mode
		r.Rule(fmt.Sprintf("view with debug mode %d", mode), "", func(w *W) {
			objs, lights, media := things(w)
			s := w.anySpec(objs, lights, media)
			v := w.sym("view", w.viewT())
			v = w.setField(v, w.viewT(), "DebugNormals", w.g.Int(mode))
			got := w.method("api", "View", "ApplyTo", v, s)
			rp, _ := w.ray()
			list := w.elems(w.field(got, w.specT(), "Objects"))
			w.oblige(len(objs))
			if len(list) != len(objs) {
				w.fail("%d instead of %d objects", len(list), len(objs))
				return
			}
			for i := range objs {
				is, was := w.intersect(list[i].args[0], rp), w.intersect(objs[i].args[0], rp)
				w.All(func(c *Case) {
					c.Expect(fmt.Sprintf("distance to object %d", i), w.hf(is, "T"), w.hf(was, "T"))
					m, o := w.hf(is, "Material"), w.hf(was, "Material")
					if same := c.Eq(m, o); same != (mode == 0) && c.Bool(w.lt(w.num(0), w.hf(is, "T"))) {
						c.Fail("material of object %d in debug mode %d: %s", i, mode, c.Show(m))
					}
				})
			}
		})
	}
	for no := 0; no <= 3; no++ {
		for nl := 0; nl <= 2; nl++ {
			for nm := 0; nm <= 2; nm++ {
				no, nl, nm := no, nl, nm
				r.Rule(fmt.Sprintf("scene of %d objects, %d lights, %d media", no, nl, nm), "", func(w *W) {
					var objs, lights, media, all []*V
					for i := 0; i < no; i++ {
						o := w.foreign(fmt.Sprintf("o%d", i))
						objs = append(objs, w.apiObj(o.v))
						all = append(all, o.v)
					}
					lobj := map[*V]*V{}
					for i := 0; i < nl; i++ {
						l := w.g.Sym(fmt.Sprintf("l%d", i), w.lightT())
						lights = append(lights, l)
						lobj[l] = w.foreign(fmt.Sprintf("lo%d", i)).v
						all = append(all, lobj[l])
					}
					w.handlers["invoke:Object"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return lobj[cr.Recv], lobj[cr.Recv] != nil }
					for i := 0; i < nm; i++ {
						media = append(media, w.g.Sym(fmt.Sprintf("m%d", i), w.p.Type("tracer", "Medium")))
					}
					s := w.anySpec(objs, lights, media)
					mk := w.mark()
					sp := w.box(s)
					mk.obj++
					scene := w.method("api", "Spec", "Scene", sp)
					w.noStores(mk, "Scene")
					ls := w.elems(w.method("tracer", "Scene", "Lights", scene))
					if fmt.Sprint(ls) != fmt.Sprint(lights) {
						w.fail("the lights of the scene are %v instead of %v", ls, lights)
					}
					depth := w.field(s, w.specT(), "Recursion")
					ctx, d0 := w.ctxDepth2()
					rp, _ := w.ray()
					cnt := func(name string, of *V) (n int) {
						for _, cr := range w.callsTo(name) {
							if cr.Recv == of {
								n++
							}
						}
						return
					}
					w.method("tracer", "Scene", "LightField", scene, ctx, rp)
					w.All(func(c *Case) {
						c.NonNeg(d0)
						c.Pos(w.sub(depth, d0))
						for _, o := range all {
							if cnt("invoke:Intersect", o) == 0 {
								c.Fail("%s is not intersected", o)
							}
						}
						for _, m := range media {
							if n := cnt("invoke:Filter", m); n != 1 {
								c.Fail("%s is applied %d times", m, n)
							}
						}
					})
					w.Calls = nil
					w.method("tracer", "Scene", "Occlude", scene, rp, w.F("len"), w.col("c"))
					for _, o := range all[:no] {
						if cnt("invoke:Intersect", o) == 0 {
							w.fail("shadow rays do not intersect %s", o)
						}
					}
					// the image function passes the coordinates on to the camera
					w.Calls = nil
					cam, ray := w.foreignCamera()
					w.Interp.store(w.st, sp, w.setField(s, w.specT(), "Camera", cam), w.specT())
					lf := w.handlers[scnName+"LightField"]
					w.handlers[scnName+"LightField"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
						return w.g.expand("LF", w.colT(), w.argOfType(cr, w.rayT())), true
					}
					f := w.method("api", "Spec", "ImageFunc", sp)
					u, v := w.F("u"), w.F("v")
					got := w.callFV(f, w.colT(), ctx, u, v)
					w.handlers[scnName+"LightField"] = lf
					w.Same("colour", got, w.g.expand("LF", w.colT(), ray))
					for _, cr := range w.callsTo("invoke:RayFrom") {
						k := len(cr.Args)
						w.Same("u", cr.Args[k-2], u)
						w.Same("v", cr.Args[k-1], v)
					}
				})
			}
		}
	}

	for _, what := range []string{"/preview", "/bake"} {
		for n := 1; n <= 2; n++ {
			for mode := 0; mode <= 1; mode++ {
				what, n, mode := what, n, mode
				r.Rule(fmt.Sprintf("request %d of %s, debug mode %d", n, what, mode), "", func(w *W) {
					s := w.anySpec(things(w))
					cam, _ := w.foreignCamera()
					s = w.setField(s, w.specT(), "Camera", cam)
					ctx := w.ctx()
					u, v := w.F("u"), w.F("v")
					// what an image function shows
					colour := func(it *Interp, st *State, f *V) *V {
						old := w.st
						w.st = st
						defer func() { w.st = old }()
						return w.callFV(f, w.colT(), ctx, u, v)
					}
					w.handlers[scnName+"LightField"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
						scT := w.p.Type("tracer", "Scene")
						old := w.st
						w.st = st
						defer func() { w.st = old }()
						sc := w.get(cr.Raw[0], scT)
						args := []*V{w.argOfType(cr, w.rayT()), w.field(sc, scT, "RecursionDepth")}
						t := scT.Underlying().(*types.Struct)
						for i := 0; i < t.NumFields(); i++ {
							if _, ok := t.Field(i).Type().Underlying().(*types.Slice); ok {
								for _, e := range w.elems(w.field(sc, scT, t.Field(i).Name())) {
									if e.K != KIface {
										args = append(args, e)
									}
								}
								args = append(args, w.num(0))
							}
						}
						return w.g.expand("LF", w.colT(), args...), true
					}
					w.handlers["invoke:Object"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
						return w.g.expand("lightObject", w.p.Type("tracer", "Object"), cr.Recv), true
					}
					sv := w.server(s)
					sv.view = w.sym("view1", w.viewT())
					set := func(f string, x *V) { sv.view = w.setField(sv.view, w.viewT(), f, x) }
					debugMode := func() {
						set("DebugNormals", w.num(0))
						set("DebugIsometric", w.g.Bool(mode == 1))
						set("DebugIsometricDir", w.g.Int(1))
						if mode == 1 {
							set("DebugIsometricFOV", w.num(1.5))
						}
					}
					debugMode()
					type made struct {
						col, w, h, aa *V
						req           int
					}
					req := 1
					views := map[int]*V{}
					mk := map[*V]made{}
					type run struct {
						guard *V
						s     *V
						pos   token.Pos
					}
					var runs []run
					samp := func(f, v int) Handler {
						return func(it *Interp, st *State, cr *CallRec) (*V, bool) {
							a := cr.Raw
							m := made{colour(it, st, a[f]), a[v], a[v+1], a[v+2], req}
							p := w.g.Fn("sampler", types.NewPointer(w.p.Type("tracer", "Sampler")), m.col.args[0], m.w, m.h, m.aa)
							mk[p] = m
							if f == 0 && v == 2 {
								it.Log = append(it.Log, run{cr.Guard, p, cr.Pos})
								return w.g.Fresh("image", w.p.Type("imagef", "Image")), true
							}
							return p, true
						}
					}
					w.handlers[mod+"tracer.Uniform"] = samp(0, 2)
					w.handlers[mod+"tracer.NewSampler"] = samp(0, 1)
					for _, m := range []string{"Sample", "SampleWithCancel"} {
						w.handlers["(*"+mod+"tracer.Sampler)."+m] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
							it.Log = append(it.Log, run{cr.Guard, cr.Raw[0], cr.Pos})
							return w.g.mk(&V{K: KTuple, typ: types.NewTuple()}), true
						}
					}
					w.handlers["(*"+mod+"tracer.Sampler).Image"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
						return w.g.Fresh("image", w.p.Type("imagef", "Image")), true
					}
					for i := 1; i <= n; i++ {
						if i == 2 {
							w.Log = nil
							sv.view = w.sym("view2", w.viewT())
							debugMode()
						}
						req, views[i] = i, sv.view
						sv.request(what)
					}
					for _, l := range w.Log {
						if l, ok := l.(run); ok {
							runs = append(runs, l)
						}
					}
					if len(runs) == 0 {
						w.fail("no image is rendered")
					}
					want := map[int]*V{}
					for i, v := range views {
						applied := w.box(w.method("api", "View", "ApplyTo", w.box(v), s))
						want[i] = colour(w.Interp, w.st, w.method("api", "Spec", "ImageFunc", applied))
					}
					for _, rn := range runs {
						rn := rn
						w.where = w.p.Pos(rn.pos)
						w.All(func(c *Case) {
							if rn.guard != nil {
								c.Assume(rn.guard)
							}
							m, ok := mk[c.Resolve(rn.s)]
							if !ok {
								c.Fail("unknown sampler %s", c.Show(rn.s))
								return
							}
							vf := func(n string) *V { return w.field(views[m.req], w.viewT(), n) }
							c.Expect("image", m.col, want[m.req])
							c.Expect("width", m.w, vf("Width"))
							c.Expect("height", m.h, vf("Height"))
							c.Expect("anti-aliasing", m.aa, vf("AntiAlias"))
							if m.req != n && !w.sameView(c, views[m.req], sv.view) {
								c.Fail("the image of another view is rendered")
							}
						})
					}
				})
			}
		}
	}
}

type httpServer struct {
	w       *W
	handler map[string]*V
	view    *V
}

func apiName(recv, m string) string {
	return "(" + recv[:strings.Count(recv, "*")] + mod + "api." + strings.TrimPrefix(recv, "*") + ")." + m
}

// server evaluates Serve up to the registration of its handlers.
func (w *W) server(spec *V) *httpServer {
	s := &httpServer{w: w, handler: map[string]*V{}}
	w.handlers["(*net/http.ServeMux).Handle"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		if cr.Raw[1].K == KStr {
			s.handler[cr.Raw[1].name] = cr.Raw[2]
		}
		return w.g.mk(&V{K: KTuple, typ: types.NewTuple()}), true
	}
	w.handlers["(*net/http.ServeMux).HandleFunc"] = w.handlers["(*net/http.ServeMux).Handle"]
	w.handlers["(*encoding/json.Decoder).Decode"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		p := cr.Raw[1]
		if p.K == KIface {
			p = p.args[0]
		}
		w.Interp.store(st, p, s.view, w.viewT())
		return w.g.Sym("decodeError", cr.Sig[1]), true
	}
	w.call("api", "Serve", w.g.Sym("addr", types.Typ[types.String]), spec)
	return s
}

// request evaluates the handler of a path.
func (s *httpServer) request(path string) {
	w := s.w
	h := s.handler[path]
	if h == nil {
		panic(anchorErr("no handler is registered for " + path))
	}
	rt := types.NewTuple()
	rw := w.g.Sym("rw", types.NewInterfaceType(nil, nil))
	req := w.g.Sym("req", h.typ)
	if h.K == KFunc {
		w.callFV(h, rt, rw, req)
		return
	}
	w.invoke(h, "ServeHTTP", rt, rw, req)
}

// resolveIn picks the alternative of a value that holds under an assumption.
func (w *W) resolveIn(v *V, assume func(c *Case)) *V {
	var r *V
	w.All(func(c *Case) {
		assume(c)
		x := c.Resolve(v)
		if r != nil && r != x {
			panic(undecided("value depends on the case: " + v.String()))
		}
		r = x
	})
	return r
}

func (w *W) ctxDepth2() (ctx, d *V) {
	ctx = w.ctx()
	return ctx, w.ctxDepth(ctx)
}

// sameView reports whether two views are known to be equal.
func (w *W) sameView(c *Case, a, b *V) bool {
	if a.K == KAgg {
		for i := range a.args {
			if !w.sameView(c, a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	if isBoolType(a.typ) {
		return c.Bool(a) == c.Bool(b)
	}
	return c.Eq(a, b)
}
