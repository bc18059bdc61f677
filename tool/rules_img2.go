package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C18", 20, "value-graph analysis with sign and order domain", "The conversion curves are evaluated for an arbitrary channel value on each side of every threshold; the colour and image encoders for images of several sizes with arbitrary pixels, collecting everything they write, in order.", checkC18)
	register("C30", 20, "value-graph analysis with polynomial normal forms", "The convolution is evaluated for arbitrary images, kernels (of several sizes), amplitudes and thresholds, in every case of a channel being below or above the threshold; every pixel of the result must equal the input plus the normalised, clipped convolution.", checkC30)
}

const knee = 0.0031308

func (w *W) pow(a, b *V) *V { return w.g.Fn("pow", types.Typ[types.Float64], a, b) }

// lits makes an image of given size with arbitrary pixels.
func (w *W) image(name string, nx, ny int) (*V, [][]*V) { return w.imageOne(name, nx, ny, -1) }

// imageOne makes an image of which one pixel is arbitrary and the others are
// constant and below 1/2; if one is negative, all pixels are arbitrary.
func (w *W) imageOne(name string, nx, ny, one int) (*V, [][]*V) {
	it := w.p.Type("imagef", "Image")
	var rows []*V
	var px [][]*V
	for y := 0; y < ny; y++ {
		var r []*V
		for x := 0; x < nx; x++ {
			if i := y*nx + x; one >= 0 && i != one {
				v := w.num(float64(i%7)/16 - 1.0/16)
				r = append(r, w.mkcol(v, w.num(0.25), w.num(0)))
				continue
			}
			r = append(r, w.col(fmt.Sprintf("%s[%d][%d]", name, y, x)))
		}
		px = append(px, r)
		rows = append(rows, w.slice(w.colT(), r...))
	}
	s := w.slice(elemOf(it), rows...)
	return w.g.mk(&V{K: KSlice, args: s.args, typ: it}), px
}

// pixels reads an image of constant size.
func (w *W) pixels(img *V) (r [][]*V) {
	for _, row := range w.elems(img) {
		r = append(r, w.elems(row))
	}
	return
}

// writer records everything that is written to an io.Writer, directly or
// through fmt and bufio.
type writer struct {
	w   *W
	v   *V
	out []*V // bytes (KFn or KNum of type byte), or formatted operands
	bad string
}

func (w *W) writer() *writer {
	wr := &writer{w: w}
	errT := types.Universe.Lookup("error").Type()
	noErr := w.g.mk(&V{K: KNil, typ: errT})
	tuple := func(n *V) *V {
		return w.g.mk(&V{K: KTuple, typ: types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Int]), types.NewVar(0, nil, "", errT)), args: []*V{n, noErr}})
	}
	bytes := func(s *V, st *State) []*V {
		old := w.st
		w.st = st
		defer func() { w.st = old }()
		if s.K == KStr {
			return []*V{s}
		}
		return w.elems(s)
	}
	write := func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		b := cr.Raw[len(cr.Raw)-1]
		wr.out = append(wr.out, bytes(b, st)...)
		return tuple(w.lenOf(b)), true
	}
	w.handlers["invoke:Write"] = write
	w.handlers["(*bufio.Writer).Write"] = write
	w.handlers["(*bufio.Writer).WriteString"] = write
	w.handlers["io.WriteString"] = write
	oneByte := func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		wr.out = append(wr.out, cr.Raw[len(cr.Raw)-1])
		return noErr, true
	}
	w.handlers["(*bufio.Writer).WriteByte"] = oneByte
	w.handlers["(*bufio.Writer).Flush"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return noErr, true }
	put := func(be bool) Handler {
		return func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			b, x := cr.Raw[len(cr.Raw)-2], cr.Raw[len(cr.Raw)-1]
			u8 := types.Typ[types.Uint8]
			hi := w.g.Fn("toint:uint8", u8, w.g.op("shr", types.Typ[types.Uint16], x, w.g.Int(8)))
			lo := w.g.Fn("toint:uint8", u8, x)
			if !be {
				hi, lo = lo, hi
			}
			base, off, _, _ := w.sliceParts(b)
			it.store(st, w.ptrSel(st, base, nil, Sel{Idx: off}), hi, u8)
			it.store(st, w.ptrSel(st, base, nil, Sel{Idx: w.g.Add(off, w.g.Int(1))}), lo, u8)
			return w.g.mk(&V{K: KTuple, typ: types.NewTuple()}), true
		}
	}
	w.handlers["(encoding/binary.bigEndian).PutUint16"] = put(true)
	w.handlers["(encoding/binary.littleEndian).PutUint16"] = put(false)
	for _, n := range []string{"Fprint", "Fprintln", "Fprintf"} {
		n := n
		w.handlers["fmt."+n] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			args := cr.Raw[1:]
			if n == "Fprintf" {
				f := args[0]
				if f.K != KStr {
					wr.bad = "format is not constant"
					return nil, false
				}
				ops := bytes(args[1], st)
				k := 0
				for _, t := range strings.Fields(f.name) {
					if strings.HasPrefix(t, "%") {
						if k >= len(ops) || t != "%d" && t != "%v" && t != "%s" {
							wr.bad = "format " + f.name
							break
						}
						wr.out = append(wr.out, unwrap(ops[k]))
						k++
					} else {
						wr.out = append(wr.out, w.g.Str(t))
					}
				}
			} else if len(args) > 0 {
				for _, x := range bytes(args[0], st) {
					wr.out = append(wr.out, unwrap(x))
				}
			}
			return tuple(w.I(fmt.Sprintf("written%d", len(wr.out)))), true
		}
	}
	wr.v = w.g.Sym("writer", w.p.ssa.ImportedPackage("io").Type("Writer").Type())
	return wr
}

func unwrap(v *V) *V {
	if v.K == KIface {
		return v.args[0]
	}
	return v
}

// tokens lists the operands written, without white space.
func (wr *writer) tokens() (r []*V) {
	for _, x := range wr.out {
		if x.K == KStr {
			for _, t := range strings.Fields(x.name) {
				r = append(r, wr.w.g.Str(t))
			}
			continue
		}
		r = append(r, x)
	}
	return
}

func checkC18(r *R) {
	curve := func(w *W) (c, got *V) {
		c = w.F("c")
		return c, w.call("imagef/colorf", "LinearToSRGB", c)
	}
	r.Rule("LinearToSRGB:black", "", func(w *W) {
		c, got := curve(w)
		w.Same("encoded value", got, w.num(0), func(k *Case) { k.NonNeg(w.sub(w.num(0), c)) })
	})
	r.Rule("LinearToSRGB:linear-part", "", func(w *W) {
		c, got := curve(w)
		w.Same("encoded value", got, w.mul(w.num(12.92), c), func(k *Case) { k.Pos(c); k.NonNeg(w.sub(w.num(knee), c)) })
	})
	r.Rule("LinearToSRGB:curve", "", func(w *W) {
		c, got := curve(w)
		w.All(func(k *Case) {
			k.Pos(w.sub(c, w.num(knee)), w.sub(w.num(1), c))
			w.powRange(k, c)
			p := w.mul(w.num(1.055), w.pow(c, w.num(1/2.4)))
			if k.Eq(got, w.sub(p, w.num(0.055))) {
				return
			}
			// the deviation of the known finding, and nothing else
			q := w.sub(p, w.num(0.05))
			if k.Bool(w.lt(w.num(1), q)) {
				q = w.num(1)
			}
			if k.Eq(got, q) {
				k.Fail("the offset of the curve is 0.05 instead of 0.055")
				return
			}
			k.Expect("encoded value", got, w.sub(p, w.num(0.055)))
		})
	})
	r.Rule("LinearToSRGB:white", "", func(w *W) {
		c, got := curve(w)
		w.Same("encoded value", got, w.num(1), func(k *Case) { k.Pos(w.sub(c, w.num(1))) })
		w.Same("encoded full intensity", w.call("imagef/colorf", "LinearToSRGB", w.num(1)), w.num(1))
	})
	r.Rule("LinearToSRGB:infinite", "", func(w *W) {
		w.Same("encoded +Inf", w.call("imagef/colorf", "LinearToSRGB", w.inf(1)), w.num(1))
		w.Same("encoded -Inf", w.call("imagef/colorf", "LinearToSRGB", w.inf(-1)), w.num(0))
	})
	r.Rule("LinearToSRGB:range", "", func(w *W) {
		c, got := curve(w)
		w.All(func(k *Case) {
			s, _ := k.Sign(w.sub(c, w.num(1)))
			if s == 0 {
				k.Skip() // constant, see LinearToSRGB:white
			}
			if s < 0 && k.Bool(w.lt(w.num(knee), c)) {
				w.powRange(k, c)
			}
			if !k.Bool(w.le(w.num(0), got)) || !k.Bool(w.le(got, w.num(1))) {
				k.Fail("%s is not in [0,1]", k.Show(got))
			}
		})
	})
	r.Rule("SRGBToLinear", "", func(w *W) {
		s := w.F("s")
		got := w.call("imagef/colorf", "SRGBToLinear", s)
		w.All(func(k *Case) {
			k.NonNeg(s, w.sub(w.num(1), s))
			if k.Bool(w.le(s, w.num(0.04045))) {
				k.Expect("decoded value", got, w.div(s, w.num(12.92)))
			} else {
				k.Expect("decoded value", got, w.pow(w.div(w.add(s, w.num(0.055)), w.num(1.055)), w.num(2.4)))
			}
		})
	})

	// The encoders: the curve is now an arbitrary function with values in [0,1].
	enc := func(w *W) func(c *V) *V {
		w.handlers[mod+"imagef/colorf.LinearToSRGB"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			return w.fn1("L", cr.Raw[0]), true
		}
		return func(c *V) *V { return w.fn1("L", c) }
	}
	unitRange := func(w *W, k *Case, L func(*V) *V, cs ...*V) {
		for _, c := range cs {
			k.NonNeg(L(c), w.sub(w.num(1), L(c)))
		}
	}
	value := func(w *W, l *V) *V { return w.g.Fn("trunc", types.Typ[types.Int], w.mul(l, w.num(0xffff))) }
	r.Rule("Color.RGBA", "", func(w *W) {
		L := enc(w)
		col := w.col("c")
		got := w.method("imagef/colorf", "Color", "RGBA", col)
		for i, ch := range col.args {
			i, ch := i, ch
			w.All(func(k *Case) {
				unitRange(w, k, L, col.args...)
				g := w.plainInt(k, got.args[i])
				if g == nil || !k.Eq(g, value(w, L(ch))) {
					k.Fail("channel %d is %s instead of %s", i, k.Show(got.args[i]), k.Show(value(w, L(ch))))
				}
			})
		}
		w.Same("alpha", got.args[3], w.num(0xffff))
	})
	for _, s := range [][2]int{{1, 1}, {3, 2}, {2, 3}, {4, 1}, {1, 3}} {
		s := s
		size := fmt.Sprintf(" %dx%d", s[0], s[1])
		run := func(w *W, f string) (wr *writer, px [][]*V, L func(*V) *V) {
			L = enc(w)
			img, px := w.image("img", s[0], s[1])
			wr = w.writer()
			res := w.call("imagef/ppm", f, wr.v, img)
			w.All(func(k *Case) {
				for _, row := range px {
					for _, c := range row {
						unitRange(w, k, L, c.args...)
					}
				}
				if g := k.Resolve(res); g.K != KNil {
					k.Fail("an error is reported although every write succeeded: %s", k.Show(res))
				}
			})
			if wr.bad != "" {
				w.fail("%s", wr.bad)
			}
			return
		}
		header := func(w *W, magic string, t []*V) []*V {
			want := []*V{w.g.Str(magic), w.num(float64(s[0])), w.num(float64(s[1])), w.num(0xffff)}
			if len(t) < 4 {
				w.fail("incomplete header")
				return nil
			}
			for i, x := range want {
				if !(t[i].K == x.K && (x.K == KStr && t[i].name == x.name || x.K == KNum && t[i].num == x.num)) && !(t[i].K == KStr && x.K == KNum && t[i].name == fmt.Sprint(int(x.num))) {
					w.fail("header: %v instead of %v", t[i], x)
				}
			}
			return t[4:]
		}
		r.Rule("ppm.EncodeAscii16"+size, "", func(w *W) {
			wr, px, L := run(w, "EncodeAscii16")
			t := header(w, "P3", wr.tokens())
			if len(t) != s[0]*s[1]*3 {
				w.fail("%d values are written for %d pixels", len(t), s[0]*s[1])
				return
			}
			for i, x := range t {
				ch := px[i/3/s[0]][i/3%s[0]].args[i%3]
				w.All(func(k *Case) {
					unitRange(w, k, L, ch)
					g := w.plainInt(k, x)
					if g == nil || !k.Eq(g, value(w, L(ch))) {
						k.Fail("value %d of the body is %s instead of %s", i, k.Show(x), k.Show(value(w, L(ch))))
					}
				})
			}
		})
		r.Rule("ppm.Encode48BE"+size, "", func(w *W) {
			wr, px, L := run(w, "Encode48BE")
			t := header(w, "P6", wr.tokens())
			if len(t) != s[0]*s[1]*6 {
				w.fail("%d bytes are written for %d pixels", len(t), s[0]*s[1])
				return
			}
			for i := 0; i < len(t); i += 2 {
				ch := px[i/6/s[0]][i/6%s[0]].args[i/2%3]
				hi, lo := t[i], t[i+1]
				w.All(func(k *Case) {
					unitRange(w, k, L, ch)
					// the low byte is x mod 256, the high byte x/256
					x, ok := w.byteOf(k, lo, 0)
					y, ok2 := w.byteOf(k, hi, 8)
					if !ok || !ok2 || !k.Eq(x, value(w, L(ch))) || !k.Eq(y, value(w, L(ch))) {
						k.Fail("channel value %d of the body is written as bytes %s, %s instead of the big endian %s", i/2, k.Show(hi), k.Show(lo), k.Show(value(w, L(ch))))
					}
				})
			}
		})
	}
	r.Rule("Image.At and Bounds", "", func(w *W) {
		for _, s := range [][2]int{{3, 2}, {1, 4}} {
			img, px := w.image("img", s[0], s[1])
			b := w.method("imagef", "Image", "Bounds", img)
			for i, x := range []int{0, 0, s[0], s[1]} {
				if g := b.args[i/2].args[i%2]; g.K != KNum || int(g.num) != x {
					w.fail("Bounds: %v", b)
				}
				w.oblige(1)
			}
			for y := range px {
				for x := range px[y] {
					got := w.method("imagef", "Image", "At", img, w.g.Int(x), w.g.Int(y))
					w.Same(fmt.Sprintf("At(%d,%d)", x, y), unwrap(got), px[y][x])
				}
			}
		}
	})
	for _, lin := range []bool{true, false} {
		lin := lin
		r.Rule(fmt.Sprintf("imagef.Load given=%v", lin), "", func(w *W) {
			const nx, ny = 3, 2
			ip := w.p.ssa.ImportedPackage("image")
			rt := ip.Type("Rectangle").Type()
			pt := ip.Type("Point").Type()
			dec := w.g.Sym("decoded", ip.Type("Image").Type())
			errT := types.Universe.Lookup("error").Type()
			noErr := w.g.mk(&V{K: KNil, typ: errT})
			w.handlers["image.Decode"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
				return w.g.mk(&V{K: KTuple, typ: ip.Func("Decode").Signature.Results(), args: []*V{dec, w.g.Sym("format", types.Typ[types.String]), noErr}}), true
			}
			w.handlers["os.Open"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
				res := w.p.ssa.ImportedPackage("os").Func("Open").Signature.Results()
				return w.g.mk(&V{K: KTuple, typ: res, args: []*V{w.g.Sym("file", res.At(0).Type()), noErr}}), true
			}
			w.handlers["invoke:Bounds"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
				return w.g.Agg(rt, w.g.Agg(pt, w.g.Int(0), w.g.Int(0)), w.g.Agg(pt, w.g.Int(nx), w.g.Int(ny))), true
			}
			w.handlers["invoke:At"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
				return w.g.Sym(fmt.Sprintf("at(%v,%v)", cr.Raw[0], cr.Raw[1]), w.p.ssa.ImportedPackage("image/color").Type("Color").Type()), true
			}
			w.handlers["invoke:RGBA"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
				var a []*V
				var vs []*types.Var
				for _, n := range []string{"r", "g", "b", "a"} {
					a = append(a, w.g.Fn(cr.Recv.name+n, types.Typ[types.Uint32]))
					vs = append(vs, types.NewVar(0, nil, "", types.Typ[types.Uint32]))
				}
				return w.g.mk(&V{K: KTuple, typ: types.NewTuple(vs...), args: a}), true
			}
			var cs *V
			f := w.p.Func("imagef", "Load")
			if lin {
				cs = w.g.mk(&V{K: KFunc, fn: w.p.Func("imagef", "Linear"), typ: f.Params[1].Type()})
			} else {
				cs = w.g.mk(&V{K: KNil, typ: f.Params[1].Type()})
				w.handlers[mod+"imagef/colorf.SRGBToLinear"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
					return w.fn1("D", cr.Raw[0]), true
				}
			}
			res := w.call("imagef", "Load", w.g.Sym("name", types.Typ[types.String]), cs)
			if res.args[1].K != KNil {
				w.fail("an error is reported for a good file: %v", res.args[1])
				return
			}
			px := w.pixels(res.args[0])
			if len(px) != ny || len(px[0]) != nx {
				w.fail("the size of the image is wrong")
				return
			}
			for y := 0; y < ny; y++ {
				for x := 0; x < nx; x++ {
					var want []*V
					for _, n := range []string{"r", "g", "b"} {
						v := w.div(w.g.Fn(fmt.Sprintf("at(%d,%d)%s", x, ny-1-y, n), types.Typ[types.Uint32]), w.num(0xffff))
						if !lin {
							v = w.fn1("D", v)
						}
						want = append(want, v)
					}
					w.Same(fmt.Sprintf("pixel %d,%d", x, y), px[y][x], w.mkcol(want[0], want[1], want[2]))
				}
			}
		})
	}
}

// powRange: for a value strictly between the knee and 1.
func (w *W) powRange(k *Case, c *V) {
	p := w.pow(c, w.num(1/2.4))
	k.Pos(w.sub(p, w.num(0.0904)), w.sub(w.num(1), p))
}

// plainInt strips conversions of values that are known to fit.
func (w *W) plainInt(k *Case, v *V) *V {
	v = k.Resolve(v)
	for v.K == KFn && strings.HasPrefix(v.name, "toint:") {
		var hi float64
		switch v.name[6:] {
		case "uint8":
			hi = 1 << 8
		case "uint16":
			hi = 1 << 16
		case "uint32":
			hi = 1 << 32
		case "int32":
			hi = 1 << 31
		case "int16":
			hi = 1 << 15
		default:
			return nil
		}
		x := k.Resolve(v.args[0])
		t := x
		if !isIntT(x) {
			t = w.g.Fn("trunc", types.Typ[types.Int], x)
		}
		if !k.Bool(w.le(w.num(0), t)) || !k.Bool(w.lt(t, w.num(hi))) {
			return nil
		}
		v = k.Resolve(t)
	}
	return v
}

// byteOf matches v with the byte of some 16 bit value starting at a bit.
func (w *W) byteOf(k *Case, v *V, bit int) (*V, bool) {
	v = k.Resolve(v)
	if v.K == KFn && v.name == "toint:uint8" {
		v = k.Resolve(v.args[0])
	} else if bit == 0 {
		return nil, false
	}
	if v.K == KOp && v.name == "and" && v.args[1].K == KNum && v.args[1].num == 255 {
		v = k.Resolve(v.args[0])
	}
	if bit > 0 {
		if !(v.K == KOp && (v.name == "shr" && v.args[1].K == KNum && int(v.args[1].num) == bit || v.name == "quo" && v.args[1].K == KNum && v.args[1].num == 256)) {
			return nil, false
		}
		v = v.args[0]
	}
	x := w.plainInt(k, v)
	return x, x != nil
}

func checkC30(r *R) {
	re := func(w *W, x *V) *V { return w.g.Ite(w.lt(x, w.num(0)), w.num(0), x) }
	mean := func(w *W, c *V) *V { return w.div(w.add(w.add(c.args[0], c.args[1]), c.args[2]), w.num(3)) }
	// unchanged: reading the image again gives the original pixels
	unchanged := func(w *W, what string, img *V, px [][]*V) {
		got := w.pixels(img)
		for y := range px {
			for x := range px[y] {
				w.Same(fmt.Sprintf("%s (%d,%d) after the call", what, x, y), got[y][x], px[y][x])
			}
		}
	}
	// bright restricts the pixels that may be above the threshold to one.
	type conf struct{ w, h, kw, kh, one int }
	var confs []conf
	for _, c := range []conf{{1, 1, 1, 1, 0}, {1, 1, 3, 3, 0}, {2, 1, 3, 1, -1}, {1, 2, 1, 3, -1}} {
		confs = append(confs, c)
	}
	for i := 0; i < 12; i++ {
		confs = append(confs, conf{4, 3, 3, 3, i})
	}
	for i := 0; i < 6; i++ {
		confs = append(confs, conf{3, 2, 5, 3, i}, conf{2, 3, 1, 5, i})
	}
	for _, cf := range confs {
		cf := cf
		name := fmt.Sprintf("AddConvolution image %dx%d kernel %dx%d", cf.w, cf.h, cf.kw, cf.kh)
		if cf.one >= 0 {
			name += fmt.Sprintf(" bright pixel %d,%d", cf.one%cf.w, cf.one/cf.w)
		}
		r.Rule(name, "", func(w *W) {
			src, sp := w.imageOne("src", cf.w, cf.h, cf.one)
			dst, dp := w.image("dst", cf.w, cf.h)
			kern, kp := w.image("kern", cf.kw, cf.kh)
			amp, off := w.F("amplitude"), w.F("threshold")
			if cf.one >= 0 {
				off = w.num(0.5)
			}
			res := w.call("imagef/post", "AddConvolution", dst, src, kern, amp, off)
			unchanged(w, "source", src, sp)
			unchanged(w, "kernel", kern, kp)
			sum := w.num(0)
			for _, row := range kp {
				for _, c := range row {
					sum = w.add(sum, mean(w, c))
				}
			}
			got := w.pixels(res)
			if len(got) != cf.h || len(got[0]) != cf.w {
				w.fail("the size of the image is not kept")
				return
			}
			for y := range dp {
				for x := range dp[y] {
					for ch := 0; ch < 3; ch++ {
						y, x, ch := y, x, ch
						want := dp[y][x].args[ch]
						for sy := range sp {
							for sx := range sp[sy] {
								ky, kx := y-sy+cf.kh/2, x-sx+cf.kw/2
								if ky < 0 || kx < 0 || ky >= cf.kh || kx >= cf.kw || cf.one >= 0 && cf.one != sy*cf.w+sx {
									continue
								}
								ex := re(w, w.sub(sp[sy][sx].args[ch], off))
								want = w.add(want, w.mul(ex, w.div(w.mul(amp, kp[ky][kx].args[ch]), sum)))
							}
						}
						w.All(func(k *Case) {
							wt := want
							if k.Bool(w.g.Cmp("==", sum, w.num(0))) {
								wt = dp[y][x].args[ch]
							}
							k.Expect(fmt.Sprintf("pixel (%d,%d) channel %d", x, y, ch), got[y][x].args[ch], wt)
						})
					}
				}
			}
		})
	}
	for _, kn := range []string{"Gaussian", "Airy"} {
		for _, n := range []int{0, 1, 2} {
			kn, n := kn, n
			r.Rule(fmt.Sprintf("%s kernel of radius %d", kn, n), "", func(w *W) {
				width := w.F("width")
				px := w.pixels(w.call("imagef/post", kn, w.g.Int(n), width))
				s := len(px)
				if s%2 == 0 || s < 2*n+1 {
					w.fail("the kernel has %d rows", s)
					return
				}
				pos := func(k *Case) { k.Pos(width) }
				for y := range px {
					if len(px[y]) != s {
						w.fail("the kernel is not square")
						return
					}
					for x := range px[y] {
						w.Same(fmt.Sprintf("weight (%d,%d), mirrored in x", x, y), px[y][s-1-x], px[y][x], pos)
						w.Same(fmt.Sprintf("weight (%d,%d), mirrored in y", x, y), px[s-1-y][x], px[y][x], pos)
						w.Same(fmt.Sprintf("weight (%d,%d), transposed", x, y), px[x][y], px[y][x], pos)
					}
				}
				w.Same("centre", px[s/2][s/2], w.mkcol(w.num(1), w.num(1), w.num(1)), pos)
				if kn == "Gaussian" {
					for y := range px {
						for x := range px[y] {
							dx, dy := x-s/2, y-s/2
							v := w.fn1("exp", w.div(w.num(float64(-dx*dx-dy*dy)), w.mul(width, width)))
							w.Same(fmt.Sprintf("weight (%d,%d)", x, y), px[y][x], w.mkcol(v, v, v), pos)
						}
					}
				}
			})
		}
	}
	blooms := []struct {
		f, field string
		radius   float64
		size     int
	}{{"ApplyGaussianBloom", "Gaussian", 0.1, 3}, {"ApplyGaussianBloom", "Gaussian", 0.3, 5}, {"ApplyAiryBloom", "Airy", 0.1, 3}, {"ApplyAiryBloom", "Airy", 0.2, 5}, {"ApplyStarBloom", "Star", 4.5, 9}, {"ApplyStarBloom", "Star", 0.5, 3}, {"ApplyStarBloom", "Star", 2, 5}}
	for _, b := range blooms {
		b := b
		for _, ps := range []float64{1, 0.125} {
			ps := ps
			r.Rule(fmt.Sprintf("%s radius %v pixels, pixel size %v", b.f, b.radius, ps), "", func(w *W) {
				m := b.size / 2
				img, px := w.imageOne("img", b.size, b.size, m*b.size+m)
				amp, off := w.F("amplitude"), w.num(0.5)
				res := w.call("imagef/post", b.f, img, w.num(ps), w.num(b.radius*ps), amp, off)
				unchanged(w, "input", img, px)
				got := w.pixels(res)
				if len(got) != b.size || len(got[0]) != b.size {
					w.fail("the size of the image is not kept")
					return
				}
				dark := func(k *Case) {
					for ch := 0; ch < 3; ch++ {
						k.Pos(w.sub(px[m][m].args[ch], off))
					}
				}
				// The glow of a single bright pixel in the centre, of which no part is clipped.
				glow := func(y, x, ch int) *V {
					return w.div(w.sub(got[y][x].args[ch], px[y][x].args[ch]), w.sub(px[m][m].args[ch], off))
				}
				empty := b.field == "Star" && b.radius < 4
				total := w.num(0)
				for y := range px {
					for x := range px[y] {
						for ch := 0; ch < 3; ch++ {
							total = w.add(total, glow(y, x, ch))
							if empty {
								w.Same("pixel of an empty bloom", got[y][x].args[ch], px[y][x].args[ch])
								continue
							}
							for _, s := range [][2]int{{b.size - 1 - y, x}, {y, b.size - 1 - x}, {x, y}} {
								w.Same(fmt.Sprintf("glow at (%d,%d) channel %d and its mirror image", x, y, ch), glow(y, x, ch), glow(s[0], s[1], ch), dark)
							}
						}
					}
				}
				if !empty {
					w.Same("total weight", w.div(total, w.num(3)), amp, dark)
				}
				// storing into the result leaves the input alone
				rows := w.elems(res)
				base, o, _, _ := w.sliceParts(rows[0])
				w.Interp.store(w.st, w.ptrSel(w.st, base, nil, Sel{Idx: o}), w.mkcol(w.F("x"), w.F("x"), w.F("x")), w.colT())
				unchanged(w, "input (shared with the result)", img, px)
			})
		}
	}
	pt := func(w *W, set map[string][3]*V) *V {
		p := r.p.Type("imagef/post", "Params")
		bt := r.p.Type("imagef/post", "BloomParams")
		v := w.g.Zero(p)
		for f, x := range set {
			b := w.g.Zero(bt)
			for i, n := range []string{"Radius", "Amplitude", "Threshold"} {
				b = w.setField(b, bt, n, x[i])
			}
			v = w.setField(v, p, f, b)
		}
		return w.newObj(w.st, "params", p, v)
	}
	apply := func(w *W, img *V, ps *V, set map[string][3]*V) *V {
		return w.method("imagef/post", "Params", "ApplyTo", pt(w, set), img, ps)
	}
	eqImg := func(w *W, what string, a, b *V) {
		x, y := w.pixels(a), w.pixels(b)
		if len(x) != len(y) || len(x[0]) != len(y[0]) {
			w.fail("%s: the size differs", what)
			return
		}
		for j := range x {
			for i := range x[j] {
				w.Same(fmt.Sprintf("%s, pixel (%d,%d)", what, i, j), x[j][i], y[j][i])
			}
		}
	}
	r.Rule("Params: zero radius", "", func(w *W) {
		img, px := w.image("img", 2, 2)
		set := map[string][3]*V{}
		for _, f := range []string{"Gaussian", "Airy", "Star"} {
			set[f] = [3]*V{w.num(0), w.F(f + "amplitude"), w.F(f + "threshold")}
		}
		res := apply(w, img, w.F("pixelSize"), set)
		unchanged(w, "input", img, px)
		unchanged(w, "result", res, px)
	})
	for _, b := range blooms {
		b := b
		if b.radius == 2 || b.radius == 0.5 {
			continue
		}
		r.Rule(fmt.Sprintf("Params: %s radius %v", b.field, b.radius), "", func(w *W) {
			n := 1
			if b.field == "Star" {
				n = 4
			}
			img, px := w.image("img", n, 1)
			x := [3]*V{w.num(b.radius / 2), w.F("amplitude"), w.F("threshold")}
			res := apply(w, img, w.num(0.5), map[string][3]*V{b.field: x})
			unchanged(w, "input", img, px)
			eqImg(w, "result", res, w.call("imagef/post", b.f, img, w.num(0.5), x[0], x[1], x[2]))
		})
	}
}
