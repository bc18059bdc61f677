package main

import (
	"fmt"
	"go/types"
	"math"
)

func init() {
	register("C11", 15, "value-graph analysis of the marching loops and membership predicates", "Membership of each combination is compared with the boolean combination of the operands' predicates for arbitrary points. The marching loops are unfolded (bounded number of steps, for arbitrary operands); a reported hit must be one operand's own record of an intersection on the original ray, satisfy the membership condition at exactly that point, and a candidate that satisfies it must not be skipped.", checkC11)
	register("C14", 14, "value-graph analysis with polynomial normal forms", "Transformed objects, lights and cameras are evaluated around arbitrary ones with symbolic transforms; the ray, point or target handed to the original must map back onto the given one by the forward transform (identity of rational functions), and the outcome must be the original's, forward transformed.", checkC14)
	register("C10", 30, "value-graph analysis with sign and order domain", "For every constructor and combination: each point of the parts' boxes (resp. each possible hit or inside point) is shown to lie in the reported box by deriving the signs of the differences; an object hit at some T>0 inside its box must be hit through every wrapper that culls by box, in all sign cases of the direction.", checkC10)
}

// ---------------------------------------------------------------- C11

func checkC11(r *R) {
	in := func(name string, mk func(w *W, a, b *V) *V, want func(w *W, a, b *V) *V) {
		r.Rule("Inside "+name, "", func(w *W) {
			a, b := w.foreign("a"), w.foreign("b")
			a.bounds, b.bounds = w.infBB(), w.infBB()
			p := w.vec("p")
			got := w.insideO(mk(w, a.v, b.v), p)
			ia, ib := w.insideOf(a, p), w.insideOf(b, p)
			w.All(func(c *Case) {
				if c.Bool(got) != c.Bool(want(w, ia, ib)) {
					c.Fail("%s: insideness differs from the boolean combination (inside a: %v, inside b: %v, result: %v)", name, c.Bool(ia), c.Bool(ib), c.Bool(got))
				}
			})
		})
	}
	and := func(w *W, a, b *V) *V { return w.and(a, b) }
	in("And", func(w *W, a, b *V) *V { return w.objf("And", a, b) }, and)
	in("Restrict", func(w *W, a, b *V) *V { return w.objf("Restrict", a, b) }, and)
	in("Or", func(w *W, a, b *V) *V { return w.objf("Or", a, b) }, func(w *W, a, b *V) *V { return w.or(a, b) })
	in("Tree", func(w *W, a, b *V) *V { return w.tree(a, b) }, func(w *W, a, b *V) *V { return w.or(a, b) })
	in("Difference", func(w *W, a, b *V) *V { return w.objf("Difference", a, b) }, func(w *W, a, b *V) *V { return w.and(a, w.g.Not(b)) })
	in("Not", func(w *W, a, b *V) *V { return w.objf("Not", a) }, func(w *W, a, b *V) *V { return w.g.Not(a) })
	in("Hollow", func(w *W, a, b *V) *V { return w.objf("Hollow", a) }, func(w *W, a, b *V) *V { return w.g.False })
	in("WithMaterial", func(w *W, a, b *V) *V { return w.objf("WithMaterial", w.mat("m"), a) }, func(w *W, a, b *V) *V { return a })
	in("Remap", func(w *W, a, b *V) *V {
		f := w.p.Func(objPkg, "Remap")
		return w.objf("Remap", a, w.g.Sym("remap", f.Params[1].Type()))
	}, func(w *W, a, b *V) *V { return a })
	in("Bounded", func(w *W, a, b *V) *V { return w.objf("Bounded", a) }, func(w *W, a, b *V) *V { return a })
	in("Not And", func(w *W, a, b *V) *V { return w.objf("Not", w.objf("And", a, b)) }, func(w *W, a, b *V) *V { return w.g.Not(w.and(a, b)) })
	for _, n := range []int{8, 9, 17} {
		n := n
		r.Rule(fmt.Sprintf("Inside Tree of %d", n), "", func(w *W) {
			var os []*V
			p := w.vec("p")
			want := w.g.False
			for i := 0; i < n; i++ {
				o := w.foreign(fmt.Sprintf("o%d", i))
				o.bounds = w.infBB()
				os = append(os, o.v)
				want = w.or(want, w.insideOf(o, p))
			}
			got := w.insideO(w.tree(os...), p)
			w.All(func(c *Case) {
				if c.Bool(got) != c.Bool(want) {
					c.Fail("insideness of a tree differs from that of its members")
				}
			})
		})
	}
	r.Rule("Not flips the normal", "", func(w *W) {
		a := w.foreign("a")
		rp, rv := w.ray()
		h := w.hitOf(a, rv)
		got := w.intersect(w.objf("Not", a.v), rp)
		w.Same("record of Not", got, w.setField(h, w.hitT(), "Normal", w.vscale(w.num(-1), w.hf(h, "Normal"))))
	})
	r.Rule("Hollow keeps the surface", "", func(w *W) {
		a := w.foreign("a")
		rp, rv := w.ray()
		w.Same("record of Hollow", w.intersect(w.objf("Hollow", a.v), rp), w.hitOf(a, rv))
	})
	// marching
	march := func(name, ctor string, sides func(a, b *fobj) [][2]*fobj, want bool) {
		r.Rule(name, "", func(w *W) {
			w.Cut, w.MaxIter = true, 3
			a, b := w.foreign("a"), w.foreign("b")
			rp, rv := w.ray()
			got := w.intersect(w.objf(ctor, a.v, b.v), rp)
			calls := w.callsTo("invoke:Intersect")
			ok := func(c *Case, other *fobj, p *V) bool {
				return c.Bool(w.insideOf(other, p)) == want
			}
			w.All(func(c *Case) {
				w.noTrunc(c)
				t := w.hf(got, "T")
				hit := c.Bool(w.positive(t))
				p := w.along(rv, t)
				found := false
				for _, s := range sides(a, b) {
					for _, cr := range calls {
						if cr.Recv != s[0].v || !c.Bool(cr.Guard) {
							continue
						}
						rec := cr.Res
						if !c.Bool(w.positive(w.hf(rec, "T"))) {
							continue
						}
						cr0 := cr.Args[0]
						if !c.Eq(w.dir(cr0), w.dir(rv)) {
							c.Fail("an operand is intersected in an other direction")
							return
						}
						q := w.along(cr0, w.hf(rec, "T"))
						if hit && !found && c.Eq(w.hf(rec, "Normal"), w.hf(got, "Normal")) && c.Eq(w.hf(rec, "Material"), w.hf(got, "Material")) &&
							c.Eq(w.hf(rec, "Local"), w.hf(got, "Local")) && c.Eq(p, q) && ok(c, s[1], q) {
							found = true
						}
						// nothing that qualifies is nearer
						if !hit {
							if ok(c, s[1], q) {
								c.Fail("a qualifying intersection of an operand was found, but a miss is reported")
								return
							}
						}
					}
				}
				if hit && !found {
					c.Fail("the reported hit %s is not an operand's own intersection along the ray that satisfies the membership condition", c.Show(got))
				}
				// the first intersection of each operand on the ray itself
				for _, s := range sides(a, b) {
					h := w.hitOf(s[0], rv)
					if c.Bool(w.positive(w.hf(h, "T"))) && ok(c, s[1], w.along(rv, w.hf(h, "T"))) {
						if !hit || !c.Bool(w.le(t, w.hf(h, "T"))) {
							c.Fail("the first intersection of an operand qualifies, but the result is not at or before it")
						}
					}
				}
			})
		})
	}
	both := func(a, b *fobj) [][2]*fobj { return [][2]*fobj{{a, b}, {b, a}} }
	march("And", "And", both, true)
	march("Or", "Or", both, false)
	march("Restrict", "Restrict", func(a, b *fobj) [][2]*fobj { return [][2]*fobj{{a, b}} }, true)
	// the march goes on until the operand is missed: every step starts just beyond the previous hit
	steps := func(name, ctor string, want bool) {
		r.Rule(name, "", func(w *W) {
			w.Cut, w.MaxIter = true, 3
			a, b := w.foreign("a"), w.foreign("b")
			b.hit = func(st *State, ray *V) *V { return w.missRec() }
			rp, rv := w.ray()
			got := w.intersect(w.objf(ctor, a.v, b.v), rp)
			w.nsteps(ctor, a, b, rv, got, want)
		})
	}
	steps("And marches on", "And", true)
	steps("Restrict marches on", "Restrict", true)
	steps("Or marches on", "Or", false)
}

// nsteps: an operand whose intersections from successive starts are t1 (not
// qualifying) and t2 (qualifying) is hit at the second one. The second start may
// lie anywhere between the first hit and twice the marching offset beyond it.
func (w *W) nsteps(ctor string, a, b *fobj, rv, got *V, want bool) {
	var calls []*CallRec
	for _, cr := range w.callsTo("invoke:Intersect") {
		if cr.Recv == a.v {
			calls = append(calls, cr)
		}
	}
	if len(calls) < 3 {
		w.fail("%s does not look beyond the first intersection of an operand (%d intersections along a path)", ctor, len(calls))
		return
	}
	w.All(func(c *Case) {
		w.noTrunc(c)
		h1 := w.hitOf(a, rv)
		p1 := w.along(rv, w.hf(h1, "T"))
		c.Assume(w.positive(w.hf(h1, "T")))
		if c.Bool(w.insideOf(b, p1)) == want {
			c.Skip()
		}
		// the next intersection, wherever it started, must have been looked for
		n := 0
		var last *CallRec
		off := w.num(0)
		for _, cr := range calls {
			if !c.Bool(cr.Guard) {
				continue
			}
			n++
			if last != nil {
				// start of this step = previous start + (T+delta) dir with 0 < delta small
				d := w.vsub(w.start(cr.Args[0]), w.start(last.Args[0]))
				k := w.div(d.args[0], w.dir(rv).args[0])
				c.NonZero(w.dir(rv).args[0], w.dir(rv).args[1], w.dir(rv).args[2])
				for i := 1; i < 3; i++ {
					c.Expect("step along the ray", w.div(d.args[i], w.dir(rv).args[i]), k)
				}
				delta := w.sub(k, w.hf(last.Res, "T"))
				if s, ok := c.Sign(delta); !ok || s <= 0 {
					c.Fail("the march does not step beyond the previous intersection")
				}
				if s, ok := c.Sign(w.sub(w.num(1e-3), delta)); !ok || s < 0 {
					c.Fail("the march skips part of the ray")
				}
				off = w.add(off, k)
			}
			last = cr
		}
		if n < 2 {
			c.Fail("%s stops at the first intersection of an operand although it does not qualify", ctor)
			return
		}
		// the last step was a miss or is the result
		t := w.hf(last.Res, "T")
		if c.Bool(w.positive(t)) {
			q := w.along(last.Args[0], t)
			if c.Bool(w.insideOf(b, q)) == want {
				c.Expect("T of the later intersection", w.hf(got, "T"), w.add(off, t))
			}
		} else if c.Bool(w.positive(w.hf(got, "T"))) {
			c.Fail("reports a hit although the march found none")
		}
	})
}

// ---------------------------------------------------------------- C14

// affine applies a transform value (fields A, B) as documented.
func (w *W) affPoint(v, x *V) *V {
	return w.vadd(w.matVec(w.field(v, v.typ, "A"), x), w.field(v, v.typ, "B"))
}
func (w *W) affDir(v, x *V) *V { return w.matVec(w.field(v, v.typ, "A"), x) }

func checkC14(r *R) {
	one := func(name string, mk func(w *W, o *V) (obj *V, fwd, fdir func(x *V) *V)) {
		r.Rule("Intersect "+name, "", func(w *W) {
			o := w.foreign("o")
			o.bounds = w.infBB()
			rp, rv := w.ray()
			obj, fwd, fdir := mk(w, o.v)
			w.Calls = nil
			got := w.intersect(obj, rp)
			calls := w.callsTo("invoke:Intersect")
			w.All(func(c *Case) {
				c.NonZero(w.dir(rv).args...)
				n := 0
				for _, cr := range calls {
					if cr.Recv != o.v || !c.Bool(cr.Guard) {
						continue
					}
					in := cr.Args[0]
					c.Expect("start of the ray seen by the original, transformed forward", fwd(w.start(in)), w.start(rv))
					c.Expect("direction of the ray seen by the original, transformed forward", fdir(w.dir(in)), w.dir(rv))
					w.farT(c, cr.Res)
					if !c.Bool(w.positive(w.hf(cr.Res, "T"))) {
						if c.Bool(w.positive(w.hf(got, "T"))) {
							c.Fail("the original is missed, but a hit is reported")
						}
						return
					}
					n++
					h := cr.Res
					for _, f := range []string{"T", "Local", "Material"} {
						c.Expect(f, w.hf(got, f), w.hf(h, f))
					}
					w.parallel(c, "normal", w.hf(got, "Normal"), fdir(w.hf(h, "Normal")))
				}
				if n != 1 {
					c.Fail("the original object is intersected %d times", n)
				}
			})
		})
		r.Rule("Inside "+name, "", func(w *W) {
			o := w.foreign("o")
			o.bounds = w.infBB()
			obj, fwd, _ := mk(w, o.v)
			w.Calls = nil
			p := w.vec("p")
			got := w.insideO(obj, p)
			calls := w.callsTo("invoke:Inside")
			w.All(func(c *Case) {
				n := 0
				for _, cr := range calls {
					if !c.Bool(cr.Guard) {
						continue
					}
					n++
					c.Expect("point seen by the original, transformed forward", fwd(cr.Args[0]), p)
					if c.Bool(got) != c.Bool(cr.Res) {
						c.Fail("insideness differs from that of the original")
					}
				}
				if n == 0 {
					c.Fail("the original object is not consulted")
				}
			})
		})
	}
	one("Transformed", func(w *W, o *V) (*V, func(x *V) *V, func(x *V) *V) {
		t, v := w.tr("t")
		return w.objf("Transformed", o, t), func(x *V) *V { return w.affPoint(v, x) }, func(x *V) *V { return w.affDir(v, x) }
	})
	one("Translated", func(w *W, o *V) (*V, func(x *V) *V, func(x *V) *V) {
		d := w.vec("d")
		return w.objf("Translated", o, d), func(x *V) *V { return w.vadd(x, d) }, func(x *V) *V { return x }
	})
	one("Transformed twice", func(w *W, o *V) (*V, func(x *V) *V, func(x *V) *V) {
		// a rotation about z with scaling, then a general rotation about y with translation
		t1, v1 := w.planar("p", 2)
		t2, v2 := w.planar("q", 1)
		return w.objf("Transformed", w.objf("Transformed", o, t1), t2),
			func(x *V) *V { return w.affPoint(v2, w.affPoint(v1, x)) },
			func(x *V) *V { return w.affDir(v2, w.affDir(v1, x)) }
	})
	one("Transformed three times", func(w *W, o *V) (*V, func(x *V) *V, func(x *V) *V) {
		t1, v1 := w.planar("p", 2)
		d := w.vec("d")
		t3, v3 := w.planar("q", 0)
		return w.objf("Transformed", w.objf("Translated", w.objf("Transformed", o, t1), d), t3),
			func(x *V) *V { return w.affPoint(v3, w.vadd(w.affPoint(v1, x), d)) },
			func(x *V) *V { return w.affDir(v3, w.affDir(v1, x)) }
	})
	one("Transformed wrapper of Transformed", func(w *W, o *V) (*V, func(x *V) *V, func(x *V) *V) {
		t1, v1 := w.planar("p", 2)
		d := w.vec("d")
		return w.objf("Translated", w.tree(w.objf("Transformed", o, t1)), d),
			func(x *V) *V { return w.vadd(w.affPoint(v1, x), d) },
			func(x *V) *V { return w.affDir(v1, x) }
	})
	checkC14Rest(r)
}

// parallel: a and b are the same up to a positive factor (normals need not be unit).
func (w *W) parallel(c *Case, what string, a, b *V) {
	if c.Eq(a, b) {
		return
	}
	zero := w.cvec(0, 0, 0)
	if !c.Eq(w.cross(a, b), zero) {
		c.Fail("%s: %s is not parallel to %s", what, c.Show(a), c.Show(b))
		return
	}
	if s, ok := c.Sign(w.dot(a, b)); !ok || s < 0 {
		c.Fail("%s: %s points opposite to %s", what, c.Show(a), c.Show(b))
	}
}

// planar is a rotation about a main axis combined with a uniform scale and a
// translation, all symbolic: the matrix (x -y; y x) has arbitrary x, y.
func (w *W) planar(name string, axis int) (ptr, val *V) {
	t := w.p.Type("geom", "AffineTransform")
	v := w.sym(name, t)
	x, y, z := w.F(name+".x"), w.F(name+".y"), w.F(name+".z")
	m := w.field(v, t, "A")
	n := [3][3]*V{}
	for i := range n {
		for j := range n[i] {
			n[i][j] = w.num(0)
		}
	}
	i, j := (axis+1)%3, (axis+2)%3
	n[i][i], n[i][j], n[j][i], n[j][j], n[axis][axis] = x, y, w.g.Neg(y), x, z
	rows := []*V{}
	for k := range n {
		rows = append(rows, w.g.Agg(m.args[k].typ, n[k][0], n[k][1], n[k][2]))
	}
	v = w.setField(v, t, "A", w.g.Agg(m.typ, rows...))
	return w.box(v), v
}

// ---------------------------------------------------------------- C10

func checkC10(r *R) {
	// boxes of combinations
	comb := func(name string, mk func(w *W, a, b *V) *V, cond func(w *W, ina, inb *V) *V) {
		r.Rule("box "+name, "", func(w *W) {
			a, b := w.foreign("a"), w.foreign("b")
			a.bounds, b.bounds = w.sym("A", w.bbT()), w.sym("B", w.bbT())
			p := w.vec("p")
			bb := w.boundsO(mk(w, a.v, b.v))
			for i := 0; i < 3; i++ {
				i := i
				// per axis: independent
				has := func(box *V) *V {
					return w.and(w.le(w.bbMin(box).args[i], p.args[i]), w.le(p.args[i], w.bbMax(box).args[i]))
				}
				w.All(func(c *Case) {
					c.Assume(w.le(w.bbMin(a.bounds).args[i], w.bbMax(a.bounds).args[i]))
					c.Assume(w.le(w.bbMin(b.bounds).args[i], w.bbMax(b.bounds).args[i]))
					c.Assume(cond(w, has(a.bounds), has(b.bounds)))
					if !c.Bool(has(bb)) {
						c.Fail("a point of the object may lie outside of its box [%s, %s] along axis %d", c.Show(w.bbMin(bb).args[i]), c.Show(w.bbMax(bb).args[i]), i)
					}
				})
			}
		})
	}
	and := func(w *W, a, b *V) *V { return w.and(a, b) }
	or := func(w *W, a, b *V) *V { return w.or(a, b) }
	fst := func(w *W, a, b *V) *V { return a }
	all := func(w *W, a, b *V) *V { return w.g.True }
	comb("And", func(w *W, a, b *V) *V { return w.objf("And", a, b) }, and)
	comb("Or", func(w *W, a, b *V) *V { return w.objf("Or", a, b) }, or)
	comb("Restrict", func(w *W, a, b *V) *V { return w.objf("Restrict", a, b) }, and)
	comb("Difference", func(w *W, a, b *V) *V { return w.objf("Difference", a, b) }, fst)
	comb("Not", func(w *W, a, b *V) *V { return w.objf("Not", a) }, all)
	comb("Hollow", func(w *W, a, b *V) *V { return w.objf("Hollow", a) }, fst)
	comb("Bounded", func(w *W, a, b *V) *V { return w.objf("Bounded", a) }, fst)
	comb("WithMaterial", func(w *W, a, b *V) *V { return w.objf("WithMaterial", w.mat("m"), a) }, fst)
	comb("Remap", func(w *W, a, b *V) *V {
		f := w.p.Func(objPkg, "Remap")
		return w.objf("Remap", a, w.g.Sym("remap", f.Params[1].Type()))
	}, fst)
	comb("Tree", func(w *W, a, b *V) *V { return w.tree(a, b) }, or)
	comb("Or of Tree and And", func(w *W, a, b *V) *V { return w.objf("Or", w.tree(a), w.objf("And", b, b)) }, or)
	comb("Translated", func(w *W, a, b *V) *V {
		return w.objf("Translated", w.objf("Translated", a, w.vec("d")), w.vscale(w.num(-1), w.vec("d")))
	}, fst)
	comb("Backdrop", func(w *W, a, b *V) *V { return w.objf("Backdrop", w.mat("m")) }, all)
	// trees larger than one leaf: the moved object may be anywhere in the list
	for _, n := range []int{8, 15} {
		for _, k := range []int{0, 3, n/2 - 1, n / 2, n - 1} {
			n, k := n, k
			r.Rule(fmt.Sprintf("box Tree of %d, object %d", n, k), "", func(w *W) {
				var os []*V
				var a *fobj
				for i := 0; i < n; i++ {
					o := w.foreign(fmt.Sprintf("o%d", i))
					o.bounds = w.mkbb(w.cvec(0, 0, 0), w.cvec(1, 1, 1))
					if i == k {
						o.bounds = w.sym("A", w.bbT())
						a = o
					}
					os = append(os, o.v)
				}
				bb := w.boundsO(w.tree(os...))
				for i := 0; i < 3; i++ {
					w.All(func(c *Case) {
						c.Assume(w.le(w.bbMin(a.bounds).args[i], w.bbMax(a.bounds).args[i]))
						for _, in := range []*V{w.bbMin(a.bounds).args[i], w.bbMax(a.bounds).args[i], w.num(0), w.num(1)} {
							if !c.Bool(w.and(w.le(w.bbMin(bb).args[i], in), w.le(in, w.bbMax(bb).args[i]))) {
								c.Fail("the box of a tree does not contain the box of a member along axis %d", i)
							}
						}
					})
				}
			})
		}
	}
	r.Rule("box Tree, single precision", "", func(w *W) {
		w.F32 = true
		a := w.foreign("a")
		a.bounds = w.sym("A", w.bbT())
		bb := w.boundsO(w.tree(a.v))
		for i := 0; i < 3; i++ {
			w.All(func(c *Case) {
				lo, hi := w.bbMin(a.bounds).args[i], w.bbMax(a.bounds).args[i]
				c.Assume(w.le(lo, hi))
				w.roundFacts(c, lo, hi)
				if !c.Bool(w.le(w.bbMin(bb).args[i], lo)) {
					c.Fail("rounding moves the lower bound up along axis %d: %s", i, c.Show(w.bbMin(bb).args[i]))
				}
				if !c.Bool(w.le(hi, w.bbMax(bb).args[i])) {
					c.Fail("rounding moves the upper bound down along axis %d: %s", i, c.Show(w.bbMax(bb).args[i]))
				}
			})
		}
	})
	// transformed boxes
	tbox := func(name string, mk func(w *W, o *V) (*V, func(x *V) *V)) {
		r.Rule("box "+name, "", func(w *W) {
			o := w.foreign("o")
			a, d, f := w.vec("a"), w.vec("w"), w.vec("f")
			b := w.vadd(a, d)
			o.bounds = w.mkbb(a, b)
			p := w.vadd(a, w.vmap2(f, d, w.g.Mul))
			obj, fwd := mk(w, o.v)
			bb := w.boundsO(obj)
			q := fwd(p)
			for i := 0; i < 3; i++ {
				i := i
				w.All(func(c *Case) {
					for j := 0; j < 3; j++ {
						c.NonNeg(d.args[j], f.args[j], w.sub(w.num(1), f.args[j]))
					}
					// the point is a convex combination: give the products of the known signs
					w.spanFacts(c, fwd, a, d, f, i)
					if !c.Bool(w.le(w.bbMin(bb).args[i], q.args[i])) || !c.Bool(w.le(q.args[i], w.bbMax(bb).args[i])) {
						c.Fail("a transformed point may lie outside of the box along axis %d", i)
					}
				})
			}
		})
	}
	tbox("Transformed", func(w *W, o *V) (*V, func(x *V) *V) {
		t, v := w.tr("t")
		return w.objf("Transformed", o, t), func(x *V) *V { return w.affPoint(v, x) }
	})
	tbox("Transformed twice", func(w *W, o *V) (*V, func(x *V) *V) {
		t1, v1 := w.planar("p", 2)
		d := w.vec("d")
		return w.objf("Translated", w.objf("Transformed", o, t1), d), func(x *V) *V { return w.vadd(w.affPoint(v1, x), d) }
	})
	for k := 0; k < 4; k++ {
		k := k
		r.Rule(fmt.Sprintf("box Transformed of an unbounded object %d", k), "", func(w *W) {
			o := w.foreign("o")
			inf := math.Inf(1)
			o.bounds = []*V{w.infBB(), w.mkbb(w.cvec(-1, -1, -1), w.cvec(1, inf, 1)), w.mkbb(w.cvec(-inf, -1, -1), w.cvec(1, 2, 1)), w.mkbb(w.cvec(0, 0, -inf), w.cvec(1, 1, inf))}[k]
			t, v := w.planar("t", 1)
			bb := w.boundsO(w.objf("Transformed", o.v, t))
			p := w.mkvec(w.F("px"), w.F("py"), w.F("pz"))
			q := w.affPoint(v, p)
			for i := 0; i < 3; i++ {
				w.All(func(c *Case) {
					if k > 0 {
						// finite sides: stay away from large numbers, the infinite ones matter here
						for j := 0; j < 3; j++ {
							c.Assume(w.and(w.le(w.bbMin(o.bounds).args[j], p.args[j]), w.le(p.args[j], w.bbMax(o.bounds).args[j])))
						}
					}
					if !c.Bool(w.le(w.bbMin(bb).args[i], q.args[i])) || !c.Bool(w.le(q.args[i], w.bbMax(bb).args[i])) {
						c.Fail("a transformed point may lie outside of the box along axis %d", i)
					}
				})
			}
		})
	}
	checkC10Cull(r)
	checkC10Prim(r)
}

// roundFacts states what conversion to single precision guarantees.
func (w *W) roundFacts(c *Case, xs ...*V) {
	f32 := types.Typ[types.Float32]
	for _, x := range xs {
		f := w.g.Fn("f32", f32, x)
		c.NonNeg(w.sub(x, w.g.expand("math.Nextafter32", f32, f, w.num(math.Inf(-1)))))
		c.NonNeg(w.sub(w.g.expand("math.Nextafter32", f32, f, w.num(math.Inf(1))), x))
	}
}

// spanFacts adds products of non-negative quantities: for M = d(fwd)/dx_j:
// 0 <= f_j, 0 <= 1-f_j, 0 <= w_j and the sign of M.
func (w *W) spanFacts(c *Case, fwd func(x *V) *V, a, d, f *V, i int) {
	o := fwd(w.cvec(0, 0, 0)).args[i]
	for j := 0; j < 3; j++ {
		e := []float64{0, 0, 0}
		e[j] = 1
		m := w.sub(fwd(w.cvec(e[0], e[1], e[2])).args[i], o)
		s, _ := c.Sign(m)
		if s == 0 {
			continue
		}
		wj, fj := d.args[j], f.args[j]
		k := w.num(float64(s))
		c.Fact(w.mul(k, m, wj, fj), sPos|sZer)
		c.Fact(w.mul(k, m, wj, w.sub(w.num(1), fj)), sPos|sZer)
		c.Fact(w.mul(k, m, wj), sPos|sZer)
	}
}
