package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file computes, bottom up over the call graph, which memory of its
// arguments a function may write to, and which of its arguments what it returns
// refers to. Memory is named by where a function got it from: a parameter (level
// 0: what the parameter itself points to; level 1: anything further on), a
// captured variable, a package variable, or the place where it was allocated.

type memKind byte

const (
	mParam memKind = iota
	mFree
	mGlobal
	mFresh
)

type atom struct {
	kind  memKind
	idx   int // parameter
	level int
	site  ssa.Value // allocation or package variable
}

type atoms map[atom]bool

func (a atoms) add(b atoms) bool {
	ch := false
	for x := range b {
		if !a[x] {
			a[x] = true
			ch = true
		}
	}
	return ch
}

// wr is a write to memory a function did not allocate.
type wr struct {
	in  ssa.Instruction
	via *ssa.Function
}

type summary struct {
	writes  map[atom]wr
	results []atoms        // roots of the results: parameters, captured and package variables
	fresh   []bool         // whether a result may be newly allocated
	content []atoms        // what newly allocated results refer to
	stores  map[atom]atoms // what is stored in memory of parameters
}

type modFn struct {
	f       *ssa.Function
	pts     map[ssa.Value]atoms
	content map[ssa.Value]atoms // of memory allocated here
	sum     *summary
	callees map[ssa.CallInstruction][]*ssa.Function
	asg     map[*ssa.UnOp][]ssa.Value
}

type modref struct {
	p    *Prog
	own  *owner
	fns  map[*ssa.Function]*modFn
	list []*modFn
	ch   bool
}

func newModref(p *Prog) *modref {
	m := &modref{p: p, fns: map[*ssa.Function]*modFn{}}
	var all []*ssa.Function
	for _, f := range p.funcs {
		if inScope(f) {
			all = append(all, f)
		}
	}
	m.own = newOwner(p, all...)
	for f := range m.own.reach {
		if len(f.Blocks) == 0 || !(inScope(f) || isWrapper(f)) {
			continue
		}
		n := f.Signature.Results().Len()
		s := &summary{writes: map[atom]wr{}, stores: map[atom]atoms{}, fresh: make([]bool, n)}
		for i := 0; i < n; i++ {
			s.results = append(s.results, atoms{})
			s.content = append(s.content, atoms{})
		}
		mf := &modFn{f: f, pts: map[ssa.Value]atoms{}, content: map[ssa.Value]atoms{}, sum: s, callees: map[ssa.CallInstruction][]*ssa.Function{}, asg: map[*ssa.UnOp][]ssa.Value{}}
		m.fns[f] = mf
		m.list = append(m.list, mf)
	}
	sort.Slice(m.list, func(i, j int) bool {
		a, b := m.list[i].f, m.list[j].f
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	for i := 0; ; i++ {
		m.ch = false
		for _, f := range m.list {
			m.visit(f)
		}
		if !m.ch {
			return m
		}
		if i > 200 {
			panic(undecided("no fixed point of memory effects"))
		}
	}
}

func (m *modref) set(f *modFn, v ssa.Value, a atoms) {
	if len(a) == 0 {
		return
	}
	if f.pts[v] == nil {
		f.pts[v] = atoms{}
	}
	if f.pts[v].add(a) {
		m.ch = true
	}
}

// get returns the memory a value refers to.
func (m *modref) get(f *modFn, v ssa.Value) atoms {
	if !refs(v.Type()) || isStr(v.Type()) {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return atoms{atom{kind: mGlobal, site: x}: true}
	case *ssa.Parameter:
		for i, p := range f.f.Params {
			if p == x {
				return atoms{atom{kind: mParam, idx: i}: true}
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.f.FreeVars {
			if p == x {
				return atoms{atom{kind: mFree, idx: i}: true}
			}
		}
	}
	return f.pts[v]
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// load returns what memory refers to.
func (m *modref) load(f *modFn, a atoms) atoms {
	out := atoms{}
	for x := range a {
		switch x.kind {
		case mFresh:
			out.add(f.content[x.site])
		default:
			x.level = 1
			out[x] = true
		}
	}
	return out
}

func (m *modref) store(f *modFn, in ssa.Instruction, via *ssa.Function, to, val atoms) {
	for x := range to {
		if x.kind == mFresh {
			m.fill(f, x.site, val)
			continue
		}
		if _, ok := f.sum.writes[x]; !ok {
			f.sum.writes[x] = wr{in, via}
			m.ch = true
		}
		if len(val) > 0 {
			if f.sum.stores[x] == nil {
				f.sum.stores[x] = atoms{}
			}
			if f.sum.stores[x].add(m.outer(f, val)) {
				m.ch = true
			}
		}
	}
}

// outer replaces memory allocated by a function by what it refers to.
func (m *modref) outer(f *modFn, a atoms) atoms {
	out, seen := atoms{}, atoms{}
	var walk func(a atoms)
	walk = func(a atoms) {
		for x := range a {
			if seen[x] {
				continue
			}
			seen[x] = true
			if x.kind == mFresh {
				walk(f.content[x.site])
			} else {
				out[x] = true
			}
		}
	}
	walk(a)
	return out
}

func (m *modref) fill(f *modFn, site ssa.Value, val atoms) {
	if f.content[site] == nil {
		f.content[site] = atoms{}
	}
	if f.content[site].add(val) {
		m.ch = true
	}
}

func (m *modref) fresh(f *modFn, v ssa.Value, content atoms) {
	m.set(f, v, atoms{atom{kind: mFresh, site: v}: true})
	m.fill(f, v, content)
}

func (m *modref) visit(f *modFn) {
	for _, b := range f.f.Blocks {
		for _, in := range b.Instrs {
			m.instr(f, in)
		}
	}
}

func (m *modref) instr(f *modFn, in ssa.Instruction) {
	get := func(v ssa.Value) atoms { return m.get(f, v) }
	switch x := in.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		m.fresh(f, x.(ssa.Value), nil)
	case *ssa.MakeClosure:
		c := atoms{}
		for _, b := range x.Bindings {
			c.add(get(b))
		}
		m.fresh(f, x, c)
	case *ssa.Phi:
		for _, e := range x.Edges {
			m.set(f, x, get(e))
		}
	case *ssa.FieldAddr:
		m.set(f, x, get(x.X))
	case *ssa.IndexAddr:
		m.set(f, x, get(x.X))
	case *ssa.Slice:
		m.set(f, x, get(x.X))
	case *ssa.ChangeType:
		m.set(f, x, get(x.X))
	case *ssa.ChangeInterface:
		m.set(f, x, get(x.X))
	case *ssa.MakeInterface:
		m.set(f, x, get(x.X))
	case *ssa.TypeAssert:
		m.set(f, x, get(x.X))
	case *ssa.Convert:
		if refs(x.X.Type()) {
			m.set(f, x, get(x.X))
		}
	case *ssa.SliceToArrayPointer:
		m.set(f, x, get(x.X))
	case *ssa.Field:
		if refs(x.Type()) {
			m.set(f, x, get(x.X))
		}
	case *ssa.Index:
		if refs(x.Type()) {
			m.set(f, x, get(x.X))
		}
	case *ssa.Lookup:
		m.set(f, x, m.load(f, get(x.X)))
	case *ssa.Range:
		m.set(f, x, get(x.X))
	case *ssa.Next:
		m.set(f, x, m.load(f, get(x.Iter)))
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Call); !ok && refs(x.Type()) {
			m.set(f, x, f.pts[x.Tuple])
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && refs(x.Type()) {
			if vs := f.assigned(x); vs != nil {
				for _, v := range vs {
					m.set(f, x, get(v))
				}
				return
			}
			m.set(f, x, m.load(f, get(x.X)))
		}
		if x.Op == token.ARROW && refs(x.Type()) {
			m.set(f, x, m.load(f, get(x.X)))
		}
	case *ssa.Store:
		m.store(f, x, nil, get(x.Addr), get(x.Val))
	case *ssa.MapUpdate:
		v := atoms{}
		v.add(get(x.Key))
		v.add(get(x.Value))
		m.store(f, x, nil, get(x.Map), v)
	case *ssa.Send:
		for a := range get(x.Chan) {
			if a.kind == mFresh {
				m.fill(f, a.site, get(x.X))
			}
		}
	case *ssa.Return:
		for i, r := range x.Results {
			for a := range get(r) {
				if a.kind == mFresh {
					if !f.sum.fresh[i] {
						f.sum.fresh[i] = true
						m.ch = true
					}
					if f.sum.content[i].add(m.outer(f, f.content[a.site])) {
						m.ch = true
					}
				} else if f.sum.results[i].add(atoms{a: true}) {
					m.ch = true
				}
			}
		}
	case ssa.CallInstruction:
		m.call(f, x)
	}
}

func (m *modref) call(f *modFn, in ssa.CallInstruction) {
	c := in.Common()
	val, _ := in.(*ssa.Call)
	get := func(v ssa.Value) atoms { return m.get(f, v) }
	// result sets what result i refers to.
	result := func(i int, a atoms) {
		if val == nil || len(a) == 0 {
			return
		}
		if c.Signature().Results().Len() == 1 {
			m.set(f, val, a)
			return
		}
		for _, r := range *val.Referrers() {
			if x, ok := r.(*ssa.Extract); ok && x.Index == i {
				m.set(f, x, a)
			}
		}
	}
	freshResult := func(i int, content atoms) {
		if val == nil {
			return
		}
		result(i, atoms{atom{kind: mFresh, site: val}: true})
		ct := atoms{atom{kind: mFresh, site: val}: true}
		ct.add(content)
		m.fill(f, val, ct)
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			el, more := atoms{}, atoms{}
			if elemRefs(c.Args[0].Type()) {
				el = m.load(f, get(c.Args[0]))
				if len(c.Args) > 1 {
					more = m.load(f, get(c.Args[1]))
				}
				el.add(more)
			}
			if !clipped(c.Args[0]) {
				m.store(f, in, nil, get(c.Args[0]), more)
				result(0, get(c.Args[0]))
			}
			m.fresh(f, val, el)
		case "copy":
			src := atoms{}
			if elemRefs(c.Args[1].Type()) {
				src = m.load(f, get(c.Args[1]))
			}
			m.store(f, in, nil, get(c.Args[0]), src)
		case "delete", "clear":
			m.store(f, in, nil, get(c.Args[0]), nil)
		}
		return
	}
	args := argsOf(c)
	fs, ok := f.callees[in]
	if !ok {
		fs, _ = m.own.callees(in)
		f.callees[in] = fs
	}
	for _, g := range fs {
		mg := m.fns[g]
		if mg == nil {
			m.lib(f, in, g, args, freshResult, result)
			continue
		}
		// translate
		var tr func(as atoms) atoms
		tr = func(as atoms) atoms {
			out := atoms{}
			for a := range as {
				var base atoms
				switch a.kind {
				case mParam:
					if a.idx < len(args) {
						base = get(args[a.idx])
					}
				case mFree:
					if mc, ok := c.Value.(*ssa.MakeClosure); ok && a.idx < len(mc.Bindings) {
						base = get(mc.Bindings[a.idx])
					} else {
						base = m.load(f, get(c.Value))
					}
				case mGlobal:
					out[a] = true
					continue
				}
				if a.level == 1 {
					base = m.deep(f, base)
				}
				out.add(base)
			}
			return out
		}
		for a, w := range mg.sum.writes {
			_ = w
			m.store(f, in, g, tr(atoms{a: true}), tr(mg.sum.stores[a]))
		}
		for i := range mg.sum.results {
			result(i, tr(mg.sum.results[i]))
			if mg.sum.fresh[i] {
				freshResult(i, tr(mg.sum.content[i]))
			}
		}
	}
}

// assigned returns the values that a field (or variable) may have when it is
// read, if the function itself assigned it on every path that leads there, and
// nil otherwise.
func (f *modFn) assigned(ld *ssa.UnOp) []ssa.Value {
	if vs, ok := f.asg[ld]; ok {
		return vs
	}
	f.asg[ld] = nil
	var base ssa.Value
	field := -1
	switch a := ld.X.(type) {
	case *ssa.FieldAddr:
		base, field = a.X, a.Field
	case *ssa.Alloc:
		base = a
	}
	switch base.(type) {
	case *ssa.Parameter, *ssa.Alloc, *ssa.FreeVar:
	default:
		return nil
	}
	var vs []ssa.Value
	var sts, whole []ssa.Instruction
	for _, b := range f.f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == base {
					whole = append(whole, in)
				}
				if q, ok := in.Addr.(*ssa.FieldAddr); ok && q.X == base && q.Field == field || field < 0 && in.Addr == base {
					vs = append(vs, in.Val)
					sts = append(sts, in)
				} else if ok && field < 0 && q.X == base {
					return nil
				}
			case ssa.CallInstruction:
				for _, a := range argsOf(in.Common()) {
					if a == base {
						return nil
					}
				}
			case *ssa.MakeClosure:
				for _, a := range in.Bindings {
					if a == base {
						return nil
					}
				}
			}
		}
	}
	if len(sts) == 0 {
		return nil
	}
	if field >= 0 {
		for _, w := range whole {
			for _, s := range sts {
				if !precedes(w, s) {
					return nil
				}
			}
		}
	}
	if !passes(f.f, nil, ld, func(in ssa.Instruction) bool {
		for _, s := range sts {
			if in == s {
				return true
			}
		}
		return false
	}) {
		return nil
	}
	f.asg[ld] = vs
	return vs
}

// elemRefs reports whether the elements of a slice refer to memory.
func elemRefs(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && refs(s.Elem()) && !isStr(s.Elem())
}

// deep returns all that memory refers to, directly or not.
func (m *modref) deep(f *modFn, a atoms) atoms {
	out := atoms{}
	var walk func(a atoms)
	walk = func(a atoms) {
		for x := range a {
			if out[x] {
				continue
			}
			out[x] = true
			if x.kind == mFresh {
				walk(f.content[x.site])
			}
		}
	}
	walk(m.load(f, a))
	return out
}

// clipped reports whether appending to a slice always copies it, or whether it
// is nil.
func clipped(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		return x.Max != nil && x.High != nil && (x.Max == x.High || sameLen(x.Max, x.High) || constEq(x.Max, x.High))
	case *ssa.Const:
		return true
	}
	return false
}

func constEq(a, b ssa.Value) bool {
	x, ok := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok && ok2 && x.Value != nil && y.Value != nil && x.Int64() == y.Int64()
}

func sameLen(a, b ssa.Value) bool {
	l := func(v ssa.Value) ssa.Value {
		if c, ok := v.(*ssa.Call); ok {
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				return c.Call.Args[0]
			}
		}
		return nil
	}
	return l(a) != nil && l(a) == l(b)
}

// lib applies the effect of a library function.
func (m *modref) lib(f *modFn, in ssa.CallInstruction, g *ssa.Function, args []ssa.Value, freshResult func(int, atoms), result func(int, atoms)) {
	n := fnName(g)
	if k := strings.Index(n, "["); k > 0 {
		n = n[:k]
	}
	all := atoms{}
	for _, a := range args {
		all.add(m.get(f, a))
	}
	switch n {
	case "slices.Clone", "maps.Clone", "slices.Concat", "slices.Repeat", "slices.Sorted", "slices.Collect", "slices.SortedFunc":
		freshResult(0, m.load(f, all))
		return
	case "slices.Clip":
		result(0, all)
		return
	case "slices.Contains", "slices.Index", "slices.IndexFunc", "slices.ContainsFunc", "slices.Equal", "slices.Max", "slices.Min", "slices.MaxFunc", "slices.MinFunc", "slices.BinarySearch", "slices.BinarySearchFunc", "slices.IsSorted", "slices.IsSortedFunc", "maps.Keys", "maps.Values", "slices.Values", "slices.All", "slices.Backward", "sort.SliceIsSorted", "sort.IsSorted":
		for i := 0; i < g.Signature.Results().Len(); i++ {
			result(i, m.load(f, all))
		}
		return
	case "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse", "slices.Delete", "slices.Insert", "slices.Compact", "slices.DeleteFunc", "slices.Replace":
		m.store(f, in, g, m.get(f, args[0]), nil)
		result(0, m.get(f, args[0]))
		return
	case "reflect.Swapper":
		m.store(f, in, g, m.get(f, args[0]), nil)
		return
	}
	if streams(n) {
		for i := 0; i < g.Signature.Results().Len(); i++ {
			freshResult(i, all)
		}
		return
	}
	ws, _ := libEffect(n, len(args))
	for _, i := range ws {
		if i < len(args) && !stdStream(args[i]) {
			m.store(f, in, g, m.get(f, args[i]), nil)
		}
	}
	if strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "strconv.") {
		return
	}
	for i := 0; i < g.Signature.Results().Len(); i++ {
		freshResult(i, all)
	}
}

// streams tells library functions that read what they are given, and write to
// nothing but streams.
func streams(n string) bool {
	for _, p := range []string{"image/png.Encode", "image/jpeg.Encode", "image.Decode", "bufio.New", "encoding/gob.New", "encoding/json.New", "(*encoding/gob.Encoder)", "(*encoding/json.Encoder)", "bytes.New", "net/http.", "(*net/http."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// chain describes where a write happens.
func (m *modref) chain(f *modFn, a atom) string {
	var l []string
	for i := 0; i < 12; i++ {
		w, ok := f.sum.writes[a]
		if !ok {
			break
		}
		l = append(l, m.p.Pos(w.in.Pos()))
		g := m.fns[w.via]
		if g == nil {
			break
		}
		// the write in the callee that led to it
		var next *atom
		var ks []atom
		for k := range g.sum.writes {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		c := w.in.(ssa.CallInstruction)
		args := argsOf(c.Common())
		for i := range ks {
			k := ks[i]
			if k.kind == mParam && k.idx < len(args) {
				b := m.get(f, args[k.idx])
				if k.level == 1 {
					b = m.deep(f, b)
				}
				if b[a] {
					next = &k
					break
				}
			}
		}
		if next == nil {
			break
		}
		f, a = g, *next
	}
	return strings.Join(l, " > ")
}
