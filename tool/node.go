package main

// Hash-consed value graph: the abstract values of the value-graph analysis.

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KNum   Kind = iota // numeric constant (num)
	KStr               // string constant (name)
	KBool              // boolean constant (num 0/1)
	KNil               // nil of some pointer-like type
	KFn                // opaque term: name(args...); no args: a symbol
	KOp                // arithmetic: + - * / neg, quo rem and or xor shl shr andnot
	KCmp               // < <= == on numbers or references
	KNot               //
	KAnd               //
	KOr                //
	KIte               // cond, a, b
	KAgg               // struct or array value
	KPtr               // obj + path
	KSlice             // args: base pointer(to array), off, len, cap
	KIface             // dynamic type + value
	KFunc              // function + bindings
	KTuple             //
	KStore             // array update: arr, idx, val
	KZero              // zero array of unknown length
)

type Sel struct {
	Field int // if Idx == nil
	Idx   *V
}

type V struct {
	K    Kind
	id   int
	num  float64
	name string
	typ  types.Type
	args []*V
	obj  *Obj
	path []Sel
	fn   *ssa.Function
}

// Obj is an abstract memory object.
type Obj struct {
	id   int
	name string
	typ  types.Type
	init *V // initial contents (for symbolic objects)
	site ssa.Value
}

type Graph struct {
	tab   map[string]*V
	n     int
	nobj  int
	tstr  map[types.Type]string
	True  *V
	False *V
	fresh int
}

func NewGraph() *Graph {
	g := &Graph{tab: map[string]*V{}, tstr: map[types.Type]string{}}
	g.True = g.mk(&V{K: KBool, num: 1, typ: types.Typ[types.Bool]})
	g.False = g.mk(&V{K: KBool, num: 0, typ: types.Typ[types.Bool]})
	return g
}

func (g *Graph) typeStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	s, ok := g.tstr[t]
	if !ok {
		s = types.TypeString(t, nil)
		g.tstr[t] = s
	}
	return s
}

func (g *Graph) mk(v *V) *V {
	poll()
	var b strings.Builder
	b.WriteByte(byte('A' + v.K))
	switch v.K {
	case KNum, KBool:
		b.WriteString(strconv.FormatFloat(v.num, 'g', -1, 64))
		if math.Signbit(v.num) && v.num == 0 {
			v.num = 0
			b.Reset()
			b.WriteByte(byte('A' + v.K))
			b.WriteString("0")
		}
	case KStr, KFn, KOp, KCmp:
		b.WriteString(v.name)
	case KNil, KIface, KZero:
		b.WriteString(g.typeStr(v.typ))
	case KAgg:
		b.WriteString(strconv.Itoa(len(v.args)))
	case KPtr:
		fmt.Fprintf(&b, "%d", v.obj.id)
		for _, s := range v.path {
			if s.Idx != nil {
				fmt.Fprintf(&b, "[%d]", s.Idx.id)
			} else {
				fmt.Fprintf(&b, ".%d", s.Field)
			}
		}
	case KFunc:
		fmt.Fprintf(&b, "%p", v.fn)
	}
	for _, a := range v.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if o, ok := g.tab[k]; ok {
		return o
	}
	g.n++
	v.id = g.n
	g.tab[k] = v
	return v
}

func (g *Graph) Num(x float64) *V    { return g.mk(&V{K: KNum, num: x, typ: types.Typ[types.Float64]}) }
func (g *Graph) Int(x int) *V        { return g.mk(&V{K: KNum, num: float64(x), typ: types.Typ[types.Int]}) }
func (g *Graph) Str(s string) *V     { return g.mk(&V{K: KStr, name: s, typ: types.Typ[types.String]}) }
func (g *Graph) Nil(t types.Type) *V { return g.mk(&V{K: KNil, typ: t}) }
func (g *Graph) Bool(b bool) *V {
	if b {
		return g.True
	}
	return g.False
}

// Sym returns the scalar symbol with the given name.
func (g *Graph) Sym(name string, t types.Type) *V { return g.mk(&V{K: KFn, name: name, typ: t}) }
func (g *Graph) F(name string) *V                 { return g.Sym(name, types.Typ[types.Float64]) }
func (g *Graph) I(name string) *V                 { return g.Sym(name, types.Typ[types.Int]) }
func (g *Graph) Fn(name string, t types.Type, args ...*V) *V {
	return g.mk(&V{K: KFn, name: name, typ: t, args: args})
}
func (g *Graph) Fresh(name string, t types.Type) *V {
	g.fresh++
	return g.expand(fmt.Sprintf("%s#%d", name, g.fresh), t)
}
func (g *Graph) Agg(t types.Type, a ...*V) *V { return g.mk(&V{K: KAgg, typ: t, args: a}) }

// Vec3 makes a three component vector of the given type.
func (g *Graph) Vec3(t types.Type, x, y, z *V) *V { return g.Agg(t, x, y, z) }

func (g *Graph) NewObj(name string, t types.Type, init *V) *Obj {
	g.nobj++
	return &Obj{id: g.nobj, name: name, typ: t, init: init}
}
func (g *Graph) Ptr(o *Obj, path ...Sel) *V { return g.mk(&V{K: KPtr, obj: o, path: path, typ: nil}) }

const maxAgg = 64

// expand makes an opaque value of type t: aggregates element-wise, leafs as name(args...).
func (g *Graph) expand(name string, t types.Type, args ...*V) *V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := make([]*V, u.NumFields())
		for i := range a {
			a[i] = g.expand(name+"."+u.Field(i).Name(), u.Field(i).Type(), args...)
		}
		return g.Agg(t, a...)
	case *types.Array:
		if u.Len() <= maxAgg {
			a := make([]*V, u.Len())
			for i := range a {
				a[i] = g.expand(fmt.Sprintf("%s[%d]", name, i), u.Elem(), args...)
			}
			return g.Agg(t, a...)
		}
	case *types.Tuple:
		a := make([]*V, u.Len())
		for i := range a {
			a[i] = g.expand(fmt.Sprintf("%s/%d", name, i), u.At(i).Type(), args...)
		}
		return g.mk(&V{K: KTuple, args: a, typ: t})
	}
	return g.Fn(name, t, args...)
}

// Zero is the zero value of type t.
func (g *Graph) Zero(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return g.False
		case u.Info()&types.IsNumeric != 0:
			return g.mk(&V{K: KNum, num: 0, typ: t})
		case u.Info()&types.IsString != 0:
			return g.Str("")
		}
		return g.Nil(t)
	case *types.Struct:
		a := make([]*V, u.NumFields())
		for i := range a {
			a[i] = g.Zero(u.Field(i).Type())
		}
		return g.Agg(t, a...)
	case *types.Array:
		if u.Len() <= maxAgg {
			a := make([]*V, u.Len())
			for i := range a {
				a[i] = g.Zero(u.Elem())
			}
			return g.Agg(t, a...)
		}
		return g.mk(&V{K: KZero, typ: u.Elem()})
	case *types.Tuple:
		a := make([]*V, u.Len())
		for i := range a {
			a[i] = g.Zero(u.At(i).Type())
		}
		return g.mk(&V{K: KTuple, args: a, typ: t})
	}
	return g.Nil(t)
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (g *Graph) op(name string, t types.Type, args ...*V) *V {
	return g.mk(&V{K: KOp, name: name, args: args, typ: t})
}
func (g *Graph) numT(x float64, t types.Type) *V { return g.mk(&V{K: KNum, num: x, typ: t}) }

func (g *Graph) Add(a, b *V) *V {
	if a.K == KStr && b.K == KStr {
		return g.Str(a.name + b.name)
	}
	if a.typ != nil {
		if bt, ok := a.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			return g.Fn("strcat", a.typ, a, b)
		}
	}
	if a.K == KNum && b.K == KNum {
		return g.numT(a.num+b.num, a.typ)
	}
	if a.K == KNum && a.num == 0 {
		return b
	}
	if b.K == KNum && b.num == 0 {
		return a
	}
	return g.op("+", a.typ, a, b)
}
func (g *Graph) Sub(a, b *V) *V {
	if a.K == KNum && b.K == KNum {
		return g.numT(a.num-b.num, a.typ)
	}
	if b.K == KNum && b.num == 0 {
		return a
	}
	if a == b && !mayInf(a) {
		return g.numT(0, a.typ)
	}
	return g.op("-", a.typ, a, b)
}
func mayInf(a *V) bool { return a.K == KNum && (math.IsInf(a.num, 0) || math.IsNaN(a.num)) }
func (g *Graph) Neg(a *V) *V {
	if a.K == KNum {
		return g.numT(-a.num, a.typ)
	}
	return g.op("neg", a.typ, a)
}
func (g *Graph) Mul(a, b *V) *V {
	if a.K == KNum && b.K == KNum {
		return g.numT(a.num*b.num, a.typ)
	}
	for i := 0; i < 2; i++ {
		if a.K == KNum && a.num == 0 {
			return a
		}
		if a.K == KNum && a.num == 1 {
			return b
		}
		a, b = b, a
	}
	return g.op("*", a.typ, a, b)
}
func (g *Graph) Div(a, b *V) *V {
	if a.K == KNum && b.K == KNum {
		return g.numT(a.num/b.num, a.typ)
	}
	if b.K == KNum && b.num == 1 {
		return a
	}
	return g.op("/", a.typ, a, b)
}

// Not, And, Or simplify locally.
func (g *Graph) Not(a *V) *V {
	switch a.K {
	case KBool:
		return g.Bool(a.num == 0)
	case KNot:
		return a.args[0]
	}
	return g.mk(&V{K: KNot, args: []*V{a}, typ: types.Typ[types.Bool]})
}
func (g *Graph) And(a, b *V) *V {
	if a == g.False || b == g.False {
		return g.False
	}
	if a == g.True || a == b {
		return b
	}
	if b == g.True {
		return a
	}
	if a == g.Not(b) {
		return g.False
	}
	return g.mk(&V{K: KAnd, args: []*V{a, b}, typ: types.Typ[types.Bool]})
}
func (g *Graph) Or(a, b *V) *V {
	if a == g.True || b == g.True {
		return g.True
	}
	if a == g.False || a == b {
		return b
	}
	if b == g.False {
		return a
	}
	if a == g.Not(b) {
		return g.True
	}
	return g.mk(&V{K: KOr, args: []*V{a, b}, typ: types.Typ[types.Bool]})
}

func (g *Graph) Ite(c, a, b *V) *V {
	if c == g.True {
		return a
	}
	if c == g.False {
		return b
	}
	if a == b {
		return a
	}
	if c.K == KNot {
		return g.Ite(c.args[0], b, a)
	}
	if (a.K == KBool || b.K == KBool) || (a.typ != nil && a.typ == types.Typ[types.Bool] && b.typ == a.typ) {
		return g.Or(g.And(c, a), g.And(g.Not(c), b))
	}
	if a.K == KAgg && b.K == KAgg && len(a.args) == len(b.args) || a.K == KTuple && b.K == KTuple && len(a.args) == len(b.args) {
		r := make([]*V, len(a.args))
		for i := range r {
			r[i] = g.Ite(c, a.args[i], b.args[i])
		}
		t := a.typ
		if t == nil {
			t = b.typ
		}
		return g.mk(&V{K: a.K, typ: t, args: r})
	}
	// ite(c, ite(c, x, y), b) = ite(c, x, b)
	if a.K == KIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.K == KIte && b.args[0] == c {
		b = b.args[2]
	}
	t := a.typ
	if t == nil {
		t = b.typ
	}
	return g.mk(&V{K: KIte, args: []*V{c, a, b}, typ: t})
}

// Cmp makes a comparison; op is one of < <= > >= == !=.
func (g *Graph) Cmp(op string, a, b *V) *V {
	switch op {
	case ">":
		return g.Cmp("<", b, a)
	case ">=":
		return g.Cmp("<=", b, a)
	case "!=":
		return g.Not(g.Cmp("==", a, b))
	}
	if a.K == KIte && op == "==" && !isNumeric(a) {
		return g.Ite(a.args[0], g.Cmp(op, a.args[1], b), g.Cmp(op, a.args[2], b))
	}
	if b.K == KIte && op == "==" && !isNumeric(b) {
		return g.Ite(b.args[0], g.Cmp(op, a, b.args[1]), g.Cmp(op, a, b.args[2]))
	}
	if a.K == KNum && b.K == KNum {
		switch op {
		case "<":
			return g.Bool(a.num < b.num)
		case "<=":
			return g.Bool(a.num <= b.num)
		case "==":
			return g.Bool(a.num == b.num)
		}
	}
	if a.K == KStr && b.K == KStr && op == "==" {
		return g.Bool(a.name == b.name)
	}
	if a.K == KAgg && b.K == KAgg && op == "==" {
		r := g.True
		for i := range a.args {
			r = g.And(r, g.Cmp("==", a.args[i], b.args[i]))
		}
		return r
	}
	if op == "==" && (a.typ != nil && a.typ.Underlying() == types.Typ[types.Bool] || a.K == KBool || b.K == KBool) {
		return g.Or(g.And(a, b), g.And(g.Not(a), g.Not(b)))
	}
	if isRef(a) || isRef(b) { // references
		if op == "==" {
			if a == b {
				return g.True
			}
			if defRef(a) && defRef(b) {
				if a.K == KIface && b.K == KIface && g.typeStr(a.typ) == g.typeStr(b.typ) {
					return g.Cmp("==", a.args[0], b.args[0])
				}
				return g.False
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
		return g.mk(&V{K: KCmp, name: "ref==", args: []*V{a, b}, typ: types.Typ[types.Bool]})
	}
	if a == b {
		if op == "<" {
			return g.False
		}
		if isInt(a.typ) {
			return g.True
		}
		return g.Not(g.IsNaN(a))
	}
	if op == "==" && a.id > b.id {
		a, b = b, a
	}
	return g.mk(&V{K: KCmp, name: op, args: []*V{a, b}, typ: types.Typ[types.Bool]})
}

func (g *Graph) IsNaN(a *V) *V {
	if a.K == KNum {
		return g.Bool(math.IsNaN(a.num))
	}
	return g.Fn("isnan", types.Typ[types.Bool], a)
}

func isNumeric(a *V) bool {
	if a.typ == nil {
		return false
	}
	b, ok := a.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func isRef(a *V) bool {
	switch a.K {
	case KNil, KPtr, KSlice, KIface, KFunc:
		return true
	case KFn, KIte:
		if a.typ == nil {
			return false
		}
		switch a.typ.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Interface, *types.Signature, *types.Map, *types.Chan:
			return true
		case *types.Basic:
			return a.typ.Underlying().(*types.Basic).Kind() == types.String || a.typ.Underlying().(*types.Basic).Kind() == types.UnsafePointer
		}
	}
	return false
}
func defRef(a *V) bool {
	switch a.K {
	case KNil, KPtr, KSlice, KIface, KFunc:
		return true
	}
	return false
}

func (v *V) String() string {
	return v.str(0)
}
func (v *V) str(d int) string {
	if d > 6 {
		return "…"
	}
	j := func(sep string) string {
		var s []string
		for _, a := range v.args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, sep)
	}
	switch v.K {
	case KNum:
		return strconv.FormatFloat(v.num, 'g', 8, 64)
	case KStr:
		return strconv.Quote(v.name)
	case KBool:
		return strconv.FormatBool(v.num != 0)
	case KNil:
		return "nil"
	case KFn:
		if len(v.args) == 0 {
			return v.name
		}
		return v.name + "(" + j(", ") + ")"
	case KOp:
		if len(v.args) == 1 {
			return v.name + "(" + j("") + ")"
		}
		return "(" + j(" "+v.name+" ") + ")"
	case KCmp:
		return "(" + j(" "+v.name+" ") + ")"
	case KNot:
		return "!" + j("")
	case KAnd:
		return "(" + j(" && ") + ")"
	case KOr:
		return "(" + j(" || ") + ")"
	case KIte:
		return "(" + v.args[0].str(d+1) + " ? " + v.args[1].str(d+1) + " : " + v.args[2].str(d+1) + ")"
	case KAgg, KTuple:
		return "{" + j(", ") + "}"
	case KPtr:
		s := "&" + v.obj.name
		for _, p := range v.path {
			if p.Idx != nil {
				s += "[" + p.Idx.str(d+1) + "]"
			} else {
				s += "." + strconv.Itoa(p.Field)
			}
		}
		return s
	case KSlice:
		return "slice(" + j(", ") + ")"
	case KIface:
		return "iface(" + types.TypeString(v.typ, func(p *types.Package) string { return p.Name() }) + ": " + j(", ") + ")"
	case KFunc:
		return "func " + v.fn.String()
	case KStore:
		return "store(" + j(", ") + ")"
	case KZero:
		return "zeros"
	}
	return "?"
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
