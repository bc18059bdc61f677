package main

import (
	"fmt"
	"go/types"
	"math"
)

func init() {
	register("C22", 30, "value-graph analysis with linear integer domain", "Every texture lookup is evaluated for an image of arbitrary size W x H and arbitrary coordinates, including NaN and infinities: all index operations on the path must be in range (also for one-pixel images), no panic reachable, and the result must be the nearest pixel, respectively the bilinear mean of the four neighbours.", checkC22)
}

// arbImage is an image of W x H arbitrary pixels; rows(c) states that all rows have length W.
func (w *W) arbImage(name string) (img, W, H *V, assume func(c *Case)) {
	img = w.sym(name, w.p.Type("imagef", "Image"))
	H = w.lenOf(img)
	W = w.rowLen(img, w.num(0))
	return img, W, H, func(c *Case) {
		c.Pos(W, H)
		c.Assume(w.g.Cmp("<=", w.num(1), W))
		c.Assume(w.g.Cmp("<=", w.num(1), H))
	}
}

// pixel is the colour at row j, column i of an arbitrary image.
func (w *W) row(img, j *V) *V {
	base, off, _, _ := w.sliceParts(img)
	return w.load(w.st, w.ptrSel(w.st, base, nil, Sel{Idx: w.g.Add(off, j)}), elemOf(img.typ))
}
func (w *W) rowLen(img, j *V) *V { return w.lenOf(w.row(img, j)) }
func (w *W) pixel(img, i, j *V) *V {
	r := w.row(img, j)
	base, off, _, _ := w.sliceParts(r)
	return w.load(w.st, w.ptrSel(w.st, base, nil, Sel{Idx: w.g.Add(off, i)}), w.colT())
}

// idxSafe requires all index operations so far to be in range, given that the
// rows of img have length W; and no reachable panic.
func (w *W) idxSafe(what string, img, W *V, assume func(c *Case)) {
	for _, ix := range w.Idx {
		ix := ix
		w.All(func(c *Case) {
			assume(c)
			if ix.Guard != nil {
				c.Assume(ix.Guard)
			}
			w.inRange(c, what, ix, img, W)
		})
	}
	w.noPanicIn(what, assume)
}

func (w *W) noPanicIn(what string, assume func(c *Case)) {
	for _, p := range w.Panics {
		p := p
		w.All(func(c *Case) {
			assume(c)
			if p.Guard == nil || c.Bool(p.Guard) {
				c.Fail("%s: panics (%s)", what, w.p.Pos(p.Pos))
			}
		})
	}
}

func (w *W) inRange(c *Case, what string, ix *IdxRec, img, W *V) {
	if nf := c.Norm(ix.Idx); nf.special != 0 {
		c.Fail("%s: index is not a number (%s)", what, w.p.Pos(ix.Pos))
		return
	}
	if ix.Len != nil && W != nil {
		// rows of the image have length W
		if l := c.Resolve(ix.Len); l.K == KFn && l.name == "len" && len(l.args) == 1 {
			if e := l.args[0]; e.K == KFn && len(e.args) == 1 && c.Eq(w.rowLen(img, e.args[0]), l) {
				c.Assume(w.g.Cmp("==", l, W))
			}
		}
	}
	if ix.Kind == "make" {
		if c.Bool(w.g.Cmp("<", ix.Idx, w.num(0))) {
			c.Fail("%s: negative length (%s)", what, w.p.Pos(ix.Pos))
		}
		return
	}
	if c.Bool(w.g.Cmp("<", ix.Idx, w.num(0))) || ix.Len != nil && !c.Bool(w.g.Cmp("<", ix.Idx, ix.Len)) {
		if ix.Kind != "index" && ix.Len != nil && c.Eq(ix.Idx, ix.Len) {
			return
		}
		c.Fail("%s: index %s out of range [0,%s) (%s)", what, c.Show(ix.Idx), c.Show(ix.Len), w.p.Pos(ix.Pos))
	}
}

func (w *W) inf(s int) *V { return w.g.Num(math.Inf(s)) }

func checkC22(r *R) {
	nonFinite := func(w *W) [][2]*V {
		u, v := w.F("u"), w.F("v")
		un, vn := w.F("un"), w.F("vn")
		w.mayNaN(un, vn)
		return [][2]*V{{w.inf(1), v}, {w.inf(-1), v}, {u, w.inf(1)}, {u, w.inf(-1)}, {un, v}, {u, vn}, {un, vn}, {w.inf(1), vn}, {un, w.inf(-1)}, {w.inf(-1), w.inf(1)}}
	}
	near := func(w *W) (t, img, W, H *V, assume func(c *Case)) {
		img, W, H, assume = w.arbImage("img")
		t = w.call("texture", "Nearest", img)
		return
	}
	bili := func(f string) func(w *W) (t, img, W, H *V, assume func(c *Case)) {
		return func(w *W) (t, img, W, H *V, assume func(c *Case)) {
			img, W, H, assume = w.arbImage("img")
			w.handlers[mod+"imagef.MustLoad"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return img, true }
			w.handlers[mod+"imagef.Load"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
				res := w.p.Func("imagef", "Load").Signature.Results()
				return w.g.mk(&V{K: KTuple, typ: res, args: []*V{img, w.g.mk(&V{K: KNil, typ: res.At(1).Type()})}}), true
			}
			t = w.call("texture", f, w.g.Sym("file", types.Typ[types.String]))
			return
		}
	}
	for _, k := range []struct {
		name string
		mk   func(w *W) (t, img, W, H *V, assume func(c *Case))
	}{{"Nearest", near}, {"MustLoad", bili("MustLoad")}, {"HeightMap", bili("HeightMap")}} {
		k := k
		for i := 0; i < 11; i++ {
			i := i
			name := k.name + " is total"
			if i > 0 {
				name = fmt.Sprintf("%s is total: non-finite coordinates %d", k.name, i)
			}
			r.Rule(name, "", func(w *W) {
				t, img, W, _, assume := k.mk(w)
				u, v := w.F("u"), w.F("v")
				if i > 0 {
					u, v = nonFinite(w)[i-1][0], nonFinite(w)[i-1][1]
				}
				if _, ok := w.tryInvoke(t, "At", w.colT(), w.mkvec(u, v, w.F("x"))); !ok {
					w.fail("the lookup never returns")
				}
				w.idxSafe("lookup", img, W, func(c *Case) {
					assume(c)
					// products of the coordinates with the non-negative W-1, H-1
					for _, x := range []*V{u, v} {
						if x.K != KNum {
							for _, n := range []*V{W, w.lenOf(img)} {
								w.facMono(c, x, n)
							}
						}
					}
				})
			})
		}
	}
	r.Rule("Nearest is the closest pixel", "", func(w *W) {
		t, img, W, H, assume := near(w)
		u, v := w.F("u"), w.F("v")
		got := w.invoke(t, "At", w.colT(), w.mkvec(u, v, w.F("x")))
		one := w.num(1)
		w.All(func(c *Case) {
			assume(c)
			c.NonNeg(u, v, w.sub(one, u), w.sub(one, v))
			for _, p := range [][2]*V{{u, W}, {v, H}} {
				c.Fact(w.mul(p[0], w.sub(p[1], one)), sPos|sZer)
				c.Fact(w.mul(w.sub(one, p[0]), w.sub(p[1], one)), sPos|sZer)
			}
			g := c.Resolve(got)
			e := c.Resolve(g.args[0])
			if e.K != KFn || len(e.args) != 2 {
				c.Fail("not a pixel of the image: %s", c.Show(got))
				return
			}
			J, I := e.args[0], e.args[1]
			c.Expect("pixel", got, w.pixel(img, I, J))
			for _, p := range [][3]*V{{u, W, I}, {v, H, J}} {
				d := w.sub(w.mul(p[0], w.sub(p[1], one)), p[2])
				if !c.Bool(w.le(w.mul(d, w.num(2)), one)) || !c.Bool(w.le(w.num(-1), w.mul(d, w.num(2)))) {
					c.Fail("pixel index %s is not the one closest to %s", c.Show(p[2]), c.Show(p[0]))
				}
			}
		})
	})
	for _, f := range []string{"MustLoad", "HeightMap"} {
		f := f
		r.Rule(f+" interpolates between the four neighbours", "", func(w *W) {
			t, img, W, H, assume := bili(f)(w)
			u, v := w.F("u"), w.F("v")
			got := w.invoke(t, "At", w.colT(), w.mkvec(u, v, w.F("x")))
			one := w.num(1)
			w.All(func(c *Case) {
				assume(c)
				c.NonNeg(u, v)
				c.Pos(w.sub(one, u), w.sub(one, v))
				for _, p := range [][2]*V{{u, W}, {v, H}} {
					c.Fact(w.mul(p[0], w.sub(p[1], one)), sPos|sZer)
					if c.Bool(w.g.Cmp("<", one, p[1])) {
						c.Fact(w.mul(w.sub(one, p[0]), w.sub(p[1], one)), sPos)
					}
				}
				X, Y := w.mul(u, w.sub(W, one)), w.mul(v, w.sub(H, one))
				x0, y0 := w.g.Fn("trunc", types.Typ[types.Int], X), w.g.Fn("trunc", types.Typ[types.Int], Y)
				x1, y1 := w.add(x0, one), w.add(y0, one)
				// a single row or column has no second neighbour (its weight is 0)
				if c.Eq(W, one) {
					x1 = x0
				}
				if c.Eq(H, one) {
					y1 = y0
				}
				x, y := w.sub(X, x0), w.sub(Y, y0)
				var want []*V
				for k := 0; k < 3; k++ {
					f := func(i, j *V) *V { return w.pixel(img, i, j).args[k] }
					mx, my := w.sub(one, x), w.sub(one, y)
					want = append(want, w.add(w.mul(f(x0, y0), mx, my), w.mul(f(x1, y0), x, my), w.mul(f(x0, y1), mx, y), w.mul(f(x1, y1), x, y)))
				}
				c.Expect("colour", got, w.mkcol(want[0], want[1], want[2]))
			})
		})
	}
	// panned and scaled textures
	under := func(w *W) (t *V, at func(u, v *V) *V) {
		t = w.g.Sym("tex", w.p.Type("texture", "Texture"))
		return t, func(u, v *V) *V { return w.g.expand("invoke:At", w.colT(), t, w.mkvec(u, v, w.num(0))) }
	}
	for _, two := range []string{"At", "AtUV"} {
		two := two
		look := func(w *W, t, u, v *V) *V {
			if two == "AtUV" {
				return w.invoke(t, "AtUV", w.colT(), u, v)
			}
			return w.invoke(t, "At", w.colT(), w.mkvec(u, v, w.F("p2")))
		}
		r.Rule("Pan shifts the texture: "+two, "", func(w *W) {
			t, at := under(w)
			u, v, du, dv := w.F("u"), w.F("v"), w.F("du"), w.F("dv")
			got := look(w, w.call("texture", "Pan", t, du, dv), u, v)
			w.Same("panned colour", got, at(w.sub(u, du), w.sub(v, dv)))
		})
		r.Rule("ScaleUV magnifies the texture: "+two, "", func(w *W) {
			t, at := under(w)
			u, v, a, b := w.F("u"), w.F("v"), w.F("a"), w.F("b")
			got := look(w, w.call("texture", "ScaleUV", t, a, b), u, v)
			w.Same("scaled colour", got, at(w.div(u, a), w.div(v, b)), func(c *Case) { c.NonZero(a, b) })
		})
	}
	r.Rule("panned and scaled", "", func(w *W) {
		t, at := under(w)
		u, v, a, b, du, dv := w.F("u"), w.F("v"), w.F("a"), w.F("b"), w.F("du"), w.F("dv")
		p := w.call("texture", "Pan", w.call("texture", "ScaleUV", t, a, b), du, dv)
		got := w.invoke(p, "At", w.colT(), w.mkvec(u, v, w.F("z")))
		w.Same("colour", got, at(w.div(w.sub(u, du), a), w.div(w.sub(v, dv), b)), func(c *Case) { c.NonZero(a, b) })
	})
}

// facMono tells the sign of x*(n-1) when that of x is known.
func (w *W) facMono(c *Case, x, n *V) {
	one := w.num(1)
	m := w.sub(n, one)
	f := w.sub(x, w.fn1("trunc", x))
	s, ok := c.Sign(x)
	if !ok {
		return
	}
	big := c.Bool(w.g.Cmp("<", one, n))
	strict := sPos | sZer
	if big {
		strict = sPos
	}
	switch {
	case s > 0:
		c.Fact(w.mul(x, m), sPos|sZer)
		c.Fact(w.mul(f, m), sPos|sZer)
		c.Fact(w.mul(w.sub(one, f), m), strict)
	case s < 0:
		c.Fact(w.mul(x, m), sNeg|sZer)
		c.Fact(w.mul(f, m), sNeg|sZer)
		c.Fact(w.mul(w.add(one, f), m), strict)
	}
}
