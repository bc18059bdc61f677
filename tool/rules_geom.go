package main

func init() {
	register("C12", 40, "value-graph analysis with polynomial normal forms", "Each vector, matrix and colour operation is translated from SSA to a gated value graph over symbolic components; the documented law is then an identity between normal forms (quotients of polynomials modulo sqrt(p)^2=p), decided for all real components.", checkC12)
	register("C13", 20, "value-graph analysis with polynomial normal forms", "Transform constructors and operations are translated to value graphs over fully symbolic matrices, vectors, axes and angles; composition, inverse, rotation and fixed-point laws are identities between normal forms (modulo sqrt(p)^2=p and sin^2+cos^2=1).", checkC13)
}

func checkC12(r *R) {
	vecOp := func(name string, f func(w *W)) { r.Rule(name, "", f) }
	vm := func(w *W, m string, recv *V, args ...*V) *V { return w.method("geom", "Vec", m, recv, args...) }
	vecOp("Vec.Add", func(w *W) {
		a, b := w.vec("a"), w.vec("b")
		w.Same("Add", vm(w, "Add", a, b), w.vadd(a, b))
	})
	vecOp("Vec.Sub", func(w *W) {
		a, b := w.vec("a"), w.vec("b")
		w.Same("Sub", vm(w, "Sub", a, b), w.vsub(a, b))
	})
	vecOp("Vec.MAdd", func(w *W) {
		a, b, s := w.vec("a"), w.vec("b"), w.F("s")
		w.Same("MAdd", vm(w, "MAdd", a, s, b), w.vadd(a, w.vscale(s, b)))
	})
	vecOp("Vec.Mul", func(w *W) {
		a, s := w.vec("a"), w.F("s")
		w.Same("Mul", vm(w, "Mul", a, s), w.vscale(s, a))
	})
	vecOp("Vec.Dot", func(w *W) {
		a, b := w.vec("a"), w.vec("b")
		w.Same("Dot", vm(w, "Dot", a, b), w.dot(a, b))
	})
	vecOp("Vec.Cross", func(w *W) {
		a, b := w.vec("a"), w.vec("b")
		w.Same("Cross", vm(w, "Cross", a, b), w.cross(a, b))
	})
	vecOp("Vec.Len", func(w *W) {
		a := w.vec("a")
		w.Same("Len2", vm(w, "Len2", a), w.dot(a, a))
		w.Same("Len", vm(w, "Len", a), w.vlen(a))
	})
	vecOp("Vec.Normalized", func(w *W) {
		a := w.vec("a")
		nz := func(c *Case) { c.Pos(w.dot(a, a)) }
		n := vm(w, "Normalized", a)
		w.Same("Normalized", n, w.vscale(w.div(w.num(1), w.vlen(a)), a), nz)
		p := w.box(a)
		f := w.p.Method("geom", "Vec", "Normalize")
		w.at(f)
		w.callF(f, p)
		w.Same("Normalize", w.get(p, w.vecT()), w.vscale(w.div(w.num(1), w.vlen(a)), a), nz)
	})
	vecOp("Vec.IsNaN", func(w *W) {
		a := w.vec("a")
		w.mayNaN(a.args...)
		got := vm(w, "IsNaN", a)
		w.Same("IsNaN", got, w.or(w.g.IsNaN(a.args[0]), w.g.IsNaN(a.args[1]), w.g.IsNaN(a.args[2])))
	})
	vecOp("TriangleNormal", func(w *W) {
		a, b, c := w.vec("a"), w.vec("b"), w.vec("c")
		n := w.cross(w.vsub(b, a), w.vsub(c, a))
		got := w.call("geom", "TriangleNormal", a, b, c)
		w.Same("TriangleNormal", got, w.vscale(w.div(w.num(1), w.vlen(n)), n))
	})
	vecOp("basis constants", func(w *W) {
		for i, nm := range []string{"Ex", "Ey", "Ez", "O"} {
			gl := w.p.Pkg("geom").Var(nm)
			if gl == nil {
				panic(anchorErr("geom." + nm))
			}
			got := w.get(w.g.Ptr(w.global(gl)), w.vecT())
			want := []float64{0, 0, 0}
			if i < 3 {
				want[i] = 1
			}
			w.Same(nm, got, w.mkvec(w.num(want[0]), w.num(want[1]), w.num(want[2])))
		}
	})
	M := func(w *W, m string, recv *V, args ...*V) *V { return w.method("geom", "Matrix", m, recv, args...) }
	vecOp("Matrix.MulVec", func(w *W) {
		m, v := w.sym("m", w.p.Type("geom", "Matrix")), w.vec("v")
		w.Same("MulVec", M(w, "MulVec", m, v), w.matVec(m, v))
	})
	vecOp("Matrix.Mulf", func(w *W) {
		m, s := w.sym("m", w.p.Type("geom", "Matrix")), w.F("s")
		got := M(w, "Mulf", m, s)
		for i := 0; i < 3; i++ {
			w.Same("Mulf", got.args[i], w.vscale(s, m.args[i]))
		}
	})
	vecOp("Matrix.Mul associates with MulVec", func(w *W) {
		t := w.p.Type("geom", "Matrix")
		a, b, v := w.sym("a", t), w.sym("b", t), w.vec("v")
		ab := M(w, "Mul", a, w.box(b))
		w.Same("(a*b)v == a(bv)", w.matVec(ab, v), w.matVec(a, w.matVec(b, v)))
	})
	vecOp("Matrix.Inverse", func(w *W) {
		t := w.p.Type("geom", "Matrix")
		a, v := w.sym("a", t), w.vec("v")
		inv := M(w, "Inverse", a)
		w.Same("a(a^-1 v) == v", w.matVec(a, w.matVec(inv, v)), v)
		w.Same("a^-1(a v) == v", w.matVec(inv, w.matVec(a, v)), v)
	})
	vecOp("UnitMatrix", func(w *W) {
		v := w.vec("v")
		w.Same("unit", w.matVec(w.call("geom", "UnitMatrix"), v), v)
	})
	vecOp("Ray.At", func(w *W) {
		ray := w.sym("r", w.p.Type("tracer", "Ray"))
		t := w.F("t")
		got := w.method("tracer", "Ray", "At", ray, t)
		s, d := w.field(ray, ray.typ, "Start"), w.field(ray, ray.typ, "Dir")
		w.Same("At", got, w.vadd(s, w.vscale(t, d)))
	})
	// util
	vecOp("util", func(w *W) {
		x, y, z := w.F("x"), w.F("y"), w.F("z")
		max := func(a, b *V) *V { return w.g.Ite(w.lt(a, b), b, a) }
		w.Same("Max", w.call("util", "Max", x, y), max(x, y))
		w.Same("Max3", w.call("util", "Max3", x, y, z), max(max(x, y), z))
		w.Same("Min", w.call("util", "Min", x, y), w.g.Ite(w.lt(x, y), x, y))
		w.Same("Re", w.call("util", "Re", x), max(x, w.num(0)))
		w.Same("Sqr", w.call("util", "Sqr", x), w.mul(x, x))
		w.Same("Frac", w.call("util", "Frac", x), w.sub(x, w.fn1("floor", x)))
		pi := w.num(3.141592653589793)
		got := w.call("util", "Sin", x)
		w.Same("Sin", got, w.fn1("sin", x), func(c *Case) { c.NonZero(w.sub(x, pi), w.add(x, pi)) })
		w.Same("Sin(±pi)", got, w.num(0), func(c *Case) {
			c.AssumeSign(w.sub(w.mul(x, x), w.mul(pi, pi)), sZer)
			c.Assume(w.or(w.g.Cmp("==", x, pi), w.g.Cmp("==", x, w.g.Neg(pi))))
		})
		got = w.call("util", "Cos", x)
		h := w.div(pi, w.num(2))
		w.Same("Cos", got, w.fn1("cos", x), func(c *Case) { c.NonZero(w.sub(x, h), w.add(x, h)) })
		w.Same("Cos(±pi/2)", got, w.num(0), func(c *Case) { c.Assume(w.or(w.g.Cmp("==", x, h), w.g.Cmp("==", x, w.g.Neg(h)))) })
		got = w.call("util", "Sinc", x)
		w.Same("Sinc", w.mul(got, x), w.fn1("sin", x), func(c *Case) { c.NonZero(x) })
	})
	// colours
	C := func(w *W, m string, recv *V, args ...*V) *V {
		return w.method("imagef/colorf", "Color", m, recv, args...)
	}
	vecOp("Color", func(w *W) {
		a, b, s := w.col("a"), w.col("b"), w.F("s")
		w.Same("Add", C(w, "Add", a, b), w.vadd(a, b))
		w.Same("Mul", C(w, "Mul", a, s), w.vscale(s, a))
		w.Same("Mul3", C(w, "Mul3", a, b), w.vmap2(a, b, w.g.Mul))
		w.Same("MAdd", C(w, "MAdd", a, s, b), w.vadd(a, w.vscale(s, b)))
		pt := w.box(a)
		f := w.p.Method("imagef/colorf", "Color", "EV")
		_ = pt
		w.at(f)
		w.Same("EV(1)", w.callF(f, a, w.num(1)), w.vscale(w.num(2), a))
		w.Same("EV(0)", w.callF(f, a, w.num(0)), a)
		w.Same("EV(-1)", w.callF(f, a, w.num(-1)), w.vscale(w.num(0.5), a))
	})
}

// matVec is the documented matrix-vector product (columns are stored as rows).
func (w *W) matVec(m, v *V) *V {
	r := make([]*V, 3)
	for i := range r {
		r[i] = w.add(w.mul(m.args[0].args[i], v.args[0]), w.mul(m.args[1].args[i], v.args[1]), w.mul(m.args[2].args[i], v.args[2]))
	}
	return w.g.Agg(w.vecT(), r...)
}

func (w *W) tr(name string) (ptr, val *V) {
	t := w.p.Type("geom", "AffineTransform")
	val = w.sym(name, t)
	return w.box(val), val
}

func checkC13(r *R) {
	tp := func(w *W, t, x *V) *V { return w.method("geom", "AffineTransform", "TransformPoint", t, x) }
	td := func(w *W, t, x *V) *V { return w.method("geom", "AffineTransform", "TransformDir", t, x) }
	T := func(w *W, m string, recv *V, args ...*V) *V {
		return w.method("geom", "AffineTransform", m, recv, args...)
	}
	r.Rule("TransformPoint", "", func(w *W) {
		t, v := w.tr("t")
		x := w.vec("x")
		A, B := w.field(v, v.typ, "A"), w.field(v, v.typ, "B")
		w.Same("TransformPoint", tp(w, t, x), w.vadd(w.matVec(A, x), B))
		w.Same("TransformDir", td(w, t, x), w.matVec(A, x))
	})
	r.Rule("Before", "", func(w *W) {
		s, _ := w.tr("s")
		t, _ := w.tr("t")
		x := w.vec("x")
		c := T(w, "Before", t, s)
		w.Same("t.Before(s) applies t first", tp(w, c, x), tp(w, s, tp(w, t, x)))
		w.Same("t.Before(s) on directions", td(w, c, x), td(w, s, td(w, t, x)))
	})
	r.Rule("After", "", func(w *W) {
		s, _ := w.tr("s")
		t, _ := w.tr("t")
		x := w.vec("x")
		c := T(w, "After", t, s)
		w.Same("t.After(s) applies s first", tp(w, c, x), tp(w, t, tp(w, s, x)))
		w.Same("t.After(s) on directions", td(w, c, x), td(w, t, td(w, s, x)))
	})
	r.Rule("ComposeLR", "", func(w *W) {
		a, _ := w.tr("a")
		b, _ := w.tr("b")
		d, _ := w.tr("c")
		x := w.vec("x")
		ptr := a
		f := w.p.Func("geom", "ComposeLR")
		elem := elemOf(f.Params[0].Type())
		_ = ptr
		c3 := w.call("geom", "ComposeLR", w.slice(elem, a, b, d))
		w.Same("ComposeLR(a,b,c)", tp(w, c3, x), tp(w, d, tp(w, b, tp(w, a, x))))
		w.Same("ComposeLR(a,b,c) on directions", td(w, c3, x), td(w, d, td(w, b, td(w, a, x))))
		c1 := w.call("geom", "ComposeLR", w.slice(elem, a))
		w.Same("ComposeLR(a)", tp(w, c1, x), tp(w, a, x))
		c0 := w.call("geom", "ComposeLR", w.slice(elem))
		w.Same("ComposeLR()", tp(w, c0, x), x)
	})
	r.Rule("Inverse", "", func(w *W) {
		t, _ := w.tr("t")
		x := w.vec("x")
		inv := T(w, "Inverse", t)
		w.Same("inverse undoes the transform (points)", tp(w, inv, tp(w, t, x)), x)
		w.Same("the transform undoes its inverse (points)", tp(w, t, tp(w, inv, x)), x)
		w.Same("inverse undoes the transform (directions)", td(w, inv, td(w, t, x)), x)
	})
	r.Rule("UnitTransform", "", func(w *W) {
		x := w.vec("x")
		u := w.call("geom", "UnitTransform")
		w.Same("unit transform", tp(w, u, x), x)
	})
	r.Rule("Translate", "", func(w *W) {
		x, d := w.vec("x"), w.vec("d")
		t := w.call("geom", "Translate", d)
		w.Same("translated point", tp(w, t, x), w.vadd(x, d))
		w.Same("translated direction", td(w, t, x), x)
	})
	r.Rule("Scale", "", func(w *W) {
		x, o, s := w.vec("x"), w.vec("o"), w.F("s")
		t := w.call("geom", "Scale", o, s)
		w.Same("scaled point", tp(w, t, x), w.vadd(o, w.vscale(s, w.vsub(x, o))))
		w.Same("scaled direction", td(w, t, x), w.vscale(s, x))
	})
	r.Rule("WithOrigin", "", func(w *W) {
		t, _ := w.tr("t")
		x, o := w.vec("x"), w.vec("o")
		c := T(w, "WithOrigin", t, o)
		w.Same("re-centred transform", tp(w, c, x), w.vadd(tp(w, t, w.vsub(x, o)), o))
		w.Same("re-centred directions", td(w, c, x), td(w, t, x))
	})
	r.Rule("MapBaseTo", "", func(w *W) {
		o, x, y, z := w.vec("o"), w.vec("x"), w.vec("y"), w.vec("z")
		t := w.call("geom", "MapBaseTo", o, x, y, z)
		e := func(i int) *V {
			a := []*V{w.num(0), w.num(0), w.num(0)}
			if i >= 0 {
				a[i] = w.num(1)
			}
			return w.mkvec(a[0], a[1], a[2])
		}
		for i, want := range []*V{o, x, y, z} {
			w.Same("image of base vector", tp(w, t, e(i-1)), want)
		}
	})
	// Rodrigues' formula is the specification of a counter-clockwise rotation.
	rod := func(w *W, u, x, a *V) *V {
		c, s := w.fn1("cos", a), w.fn1("sin", a)
		return w.vadd(w.vadd(w.vscale(c, x), w.vscale(s, w.cross(u, x))), w.vscale(w.mul(w.dot(u, x), w.sub(w.num(1), c)), u))
	}
	generic := func(w *W, a *V) func(c *Case) {
		return func(c *Case) {
			pi := w.num(3.141592653589793)
			h := w.div(pi, w.num(2))
			c.NonZero(w.sub(a, pi), w.add(a, pi), w.sub(a, h), w.add(a, h))
		}
	}
	r.Rule("Rotate", "", func(w *W) {
		o, ax, x, a := w.vec("o"), w.vec("u"), w.vec("x"), w.F("angle")
		t := w.call("geom", "Rotate", o, ax, a)
		u := w.vscale(w.div(w.num(1), w.vlen(ax)), ax)
		asm := func(c *Case) { generic(w, a)(c); c.Pos(w.dot(ax, ax)) }
		w.Same("rotated point", tp(w, t, x), w.vadd(o, rod(w, u, w.vsub(x, o), a)), asm)
		w.Same("rotated direction", td(w, t, x), rod(w, u, x, a), asm)
	})
	for i, nm := range []string{"Pitch", "Yaw", "Roll"} {
		i, nm := i, nm
		r.Rule(nm, "", func(w *W) {
			x, a := w.vec("x"), w.F("angle")
			e := []*V{w.num(0), w.num(0), w.num(0)}
			e[i] = w.num(1)
			u := w.mkvec(e[0], e[1], e[2])
			t := w.call("geom", nm, a)
			w.Same(nm, tp(w, t, x), rod(w, u, x, a), generic(w, a))
		})
	}
	r.Rule("YawPitchRoll", "", func(w *W) {
		x, a, b, c := w.vec("x"), w.F("yaw"), w.F("pitch"), w.F("roll")
		t := w.call("geom", "YawPitchRoll", a, b, c)
		ex := w.mkvec(w.num(1), w.num(0), w.num(0))
		ey := w.mkvec(w.num(0), w.num(1), w.num(0))
		ez := w.mkvec(w.num(0), w.num(0), w.num(1))
		w.Same("YawPitchRoll", tp(w, t, x), rod(w, ey, rod(w, ex, rod(w, ez, x, c), b), a),
			generic(w, a), generic(w, b), generic(w, c))
	})
}
