package main

// Translation of functions (go/ssa) to the value graph: a forward dataflow
// analysis that computes, for every SSA value and memory cell, a gated
// expression in terms of the inputs. Branches are merged with their gates, calls
// are inlined, loops with constant trip count are expanded and other loops are
// replaced by one generic iteration over havocked state.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	pc     []*V
	mem    map[*Obj]*V
	env    map[ssa.Value]*V
	defers []deferRec
}

type deferRec struct {
	call *ssa.CallCommon
	fn   *V
	args []*V
	pos  token.Pos
}

func (s *State) clone() *State {
	n := &State{pc: append([]*V(nil), s.pc...), mem: make(map[*Obj]*V, len(s.mem)), env: make(map[ssa.Value]*V, len(s.env)), defers: s.defers}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

// CallRec records a call that was not inlined.
type CallRec struct {
	Name  string
	Recv  *V
	Args  []*V         // with value pointees replaced by their contents
	Raw   []*V         // as passed
	Sig   []types.Type // static types of the parameters
	Res   *V
	Guard *V
	Pos   token.Pos
	Fn    *ssa.Function // caller
	Loops []*LoopRec
	Depth *V // handler-defined
	Seq   int
}

// LoopRec records a loop that was replaced by a generic iteration.
type LoopRec struct {
	Fn    *ssa.Function
	Pos   token.Pos
	Head  *ssa.BasicBlock
	Phis  []*PhiRec
	Mem   []*MemRec
	Entry *V // guard
	Stay  *V // condition under which the body is executed (gate of the back edges)
}
type PhiRec struct {
	Name            string
	Init, Sym, Next *V
}
type MemRec struct {
	Obj             *Obj
	Path            []int
	Init, Sym, Next *V
}

// IdxRec is an index or slice obligation.
type IdxRec struct {
	Idx, Len *V
	Guard    *V
	Pos      token.Pos
	Fn       *ssa.Function
	Kind     string
	Loops    []*LoopRec
}

type PanicRec struct {
	Guard *V
	Pos   token.Pos
	Fn    *ssa.Function
	Val   *V
}

type StoreRec struct {
	Ptr, Val *V
	Guard    *V
	Pos      token.Pos
	Fn       *ssa.Function
	Loops    []*LoopRec
}

// UseRec records a load or store through a pointer.
type UseRec struct {
	Ptr, Guard *V
	Pos        token.Pos
	Seq        int
	Store      bool
}

func (it *Interp) use(st *State, p *V, pos token.Pos, store bool) {
	if it.LogUses {
		it.seq++
		it.Uses = append(it.Uses, &UseRec{p, it.conj(st.pc), pos, it.seq, store})
	}
}

type Handler func(it *Interp, st *State, cr *CallRec) (res *V, ok bool)

type Interp struct {
	p         *Prog
	g         *Graph
	handlers  map[string]Handler
	Calls     []*CallRec
	Loops     []*LoopRec
	Idx       []*IdxRec
	Panics    []*PanicRec
	Stores    []*StoreRec
	LogStores bool
	LogUses   bool
	Uses      []*UseRec
	Log       []interface{} // records of handlers
	Sends     []*CallRec
	Gos       []*CallRec
	MaxSym    int  // symbolic iterations before a loop is generalised (or cut)
	Cut       bool // cut instead of generalising
	Truncated []string
	TruncPC   []*V // path conditions of truncated loops
	MaxIter   int  // with Cut: iterations of counted loops with other exits
	Concrete  bool // do not assume that unknown interface values are of foreign types
	RunGo     bool
	Recovered *V   // result of recover()
	F32       bool // keep float32 conversions
	stack     []*ssa.Function
	loops     []*LoopRec
	deref     map[int]*Obj
	globals   map[*ssa.Global]*Obj
	inits     map[*ssa.Package]*State
	wto       map[*ssa.Function][]wtoElem
	steps     int
	seq       int
	Inlined   map[*ssa.Function]int
	NoInline  map[string]bool
	Methods   map[string]Handler // by method name, whatever the receiver
	cnt       map[string]int
	initing   map[*ssa.Package]bool
}

func NewInterp(p *Prog, g *Graph) *Interp {
	it := &Interp{p: p, g: g, handlers: map[string]Handler{}, deref: map[int]*Obj{}, globals: map[*ssa.Global]*Obj{},
		inits: map[*ssa.Package]*State{}, wto: map[*ssa.Function][]wtoElem{}, Inlined: map[*ssa.Function]int{}, NoInline: map[string]bool{}, Methods: map[string]Handler{}, cnt: map[string]int{}, initing: map[*ssa.Package]bool{}}
	stdHandlers(it)
	return it
}

func NewState() *State {
	return &State{mem: map[*Obj]*V{}, env: map[ssa.Value]*V{}}
}

type frame struct {
	it   *Interp
	fn   *ssa.Function
	pend map[*ssa.BasicBlock][]inc
	rets []retState
	loop []*wtoElem
}
type inc struct {
	from *ssa.BasicBlock
	st   *State
}
type retState struct {
	st  *State
	val *V
}

// ---------------------------------------------------------------- WTO

type wtoElem struct {
	b      *ssa.BasicBlock
	loop   bool
	body   []wtoElem
	set    map[*ssa.BasicBlock]bool
	guided *bool
}

func (it *Interp) order(fn *ssa.Function) []wtoElem {
	if w, ok := it.wto[fn]; ok {
		return w
	}
	dfn := map[*ssa.BasicBlock]int{}
	num := 0
	var stack []*ssa.BasicBlock
	const inf = math.MaxInt32
	var visit func(v *ssa.BasicBlock, part *[]wtoElem) int
	component := func(v *ssa.BasicBlock) wtoElem {
		e := wtoElem{b: v, loop: true, set: map[*ssa.BasicBlock]bool{v: true}, guided: new(bool)}
		var body []wtoElem
		for _, s := range v.Succs {
			if dfn[s] == 0 {
				visit(s, &body)
			}
		}
		e.body = body
		var coll func(l []wtoElem)
		coll = func(l []wtoElem) {
			for _, x := range l {
				e.set[x.b] = true
				coll(x.body)
			}
		}
		coll(body)
		return e
	}
	visit = func(v *ssa.BasicBlock, part *[]wtoElem) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := num
		loop := false
		for _, s := range v.Succs {
			var min int
			if dfn[s] == 0 {
				min = visit(s, part)
			} else {
				min = dfn[s]
			}
			if min <= head {
				head = min
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			e := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for e != v {
					dfn[e] = 0
					e = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				c := component(v)
				*part = append([]wtoElem{c}, *part...)
			} else {
				*part = append([]wtoElem{{b: v}}, *part...)
			}
		}
		return head
	}
	var list []wtoElem
	visit(fn.Blocks[0], &list)
	it.wto[fn] = list
	return list
}

// ---------------------------------------------------------------- calling

func (it *Interp) Call(fn *ssa.Function, st *State, args ...*V) *V {
	r, out := it.exec(fn, st, args, nil)
	if out == nil {
		panic(undecided("call of " + fn.String() + " never returns"))
	}
	st.mem = out.mem
	return r
}

// exec evaluates fn; the returned state is nil if it never returns.
func (it *Interp) exec(fn *ssa.Function, st *State, args, bind []*V) (*V, *State) {
	if len(fn.Blocks) == 0 {
		panic(undecided("no body: " + fn.String()))
	}
	rec := 0
	for _, f := range it.stack {
		if f == fn {
			rec++
		}
	}
	if rec > 12 || len(it.stack) > 80 {
		panic(undecided("recursion too deep in " + fn.String()))
	}
	it.Inlined[fn]++
	it.stack = append(it.stack, fn)
	saveLoops := it.loops
	defer func() { it.stack = it.stack[:len(it.stack)-1]; it.loops = saveLoops }()

	fr := &frame{it: it, fn: fn, pend: map[*ssa.BasicBlock][]inc{}}
	in := &State{pc: append([]*V(nil), st.pc...), mem: make(map[*Obj]*V, len(st.mem)), env: map[ssa.Value]*V{}}
	for k, v := range st.mem {
		in.mem[k] = v
	}
	if len(args) != len(fn.Params) {
		panic(undecided(fmt.Sprintf("%s: %d arguments for %d parameters", fn, len(args), len(fn.Params))))
	}
	for i, p := range fn.Params {
		in.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			in.env[p] = bind[i]
		}
	}
	fr.pend[fn.Blocks[0]] = []inc{{nil, in}}
	fr.runList(it.order(fn))
	if len(fr.rets) == 0 {
		return nil, nil
	}
	rets := append([]retState(nil), fr.rets...)
	for len(rets) > 1 {
		bi, bj, best := 0, 1, -1
		for i := range rets {
			for j := i + 1; j < len(rets); j++ {
				if n := commonPC(rets[i].st, rets[j].st); n > best {
					bi, bj, best = i, j, n
				}
			}
		}
		a, r := rets[bi], rets[bj]
		cond, pc := it.mergeCond(a.st, r.st)
		mem := it.mergeMem(cond, a.st.mem, r.st.mem)
		var v *V
		if a.val != nil && r.val != nil {
			v = it.g.Ite(cond, a.val, r.val)
		}
		rets[bi] = retState{&State{pc: pc, mem: mem}, v}
		rets = append(rets[:bj], rets[bj+1:]...)
	}
	acc := rets[0]
	acc.st.pc = st.pc
	return acc.val, acc.st
}

func (it *Interp) conj(l []*V) *V {
	r := it.g.True
	for _, c := range l {
		r = it.g.And(r, c)
	}
	return r
}

// mergeCond returns the gate selecting a over b, and the merged path condition.
func (it *Interp) mergeCond(a, b *State) (*V, []*V) {
	k := 0
	for k < len(a.pc) && k < len(b.pc) && a.pc[k] == b.pc[k] {
		k++
	}
	sa, sb := a.pc[k:], b.pc[k:]
	pre := append([]*V(nil), a.pc[:k]...)
	ga, gb := it.conj(sa), it.conj(sb)
	g := it.g
	// shorter gate preferred: if b's gate is simpler use its negation
	cond := ga
	if len(sb) < len(sa) {
		cond = g.Not(gb)
	}
	// first differing conjunct complementary: it alone selects
	if len(sa) > 0 && len(sb) > 0 && sa[0] == g.Not(sb[0]) {
		cond = sa[0]
		ra, rb := it.conj(sa[1:]), it.conj(sb[1:])
		var or *V
		switch {
		case ra == rb:
			or = ra
		case ra == g.True:
			or = g.Or(sa[0], rb)
		case rb == g.True:
			or = g.Or(sb[0], ra)
		default:
			or = g.Or(g.And(sa[0], ra), g.And(sb[0], rb))
		}
		if or != g.True {
			pre = append(pre, or)
		}
		return cond, pre
	}
	if or := g.Or(ga, gb); or != g.True {
		pre = append(pre, or)
	}
	return cond, pre
}

func (it *Interp) content(st map[*Obj]*V, o *Obj) *V {
	if v, ok := st[o]; ok {
		return v
	}
	return o.init
}

func (it *Interp) mergeMem(cond *V, a, b map[*Obj]*V) map[*Obj]*V {
	r := make(map[*Obj]*V, len(a))
	for o, x := range a {
		y, ok := b[o]
		if !ok {
			y = o.init
		}
		if y == nil {
			y = x
		}
		r[o] = it.mergeVal(cond, x, y)
	}
	for o, y := range b {
		if _, ok := a[o]; ok {
			continue
		}
		x := o.init
		if x == nil {
			x = y
		}
		r[o] = it.mergeVal(cond, x, y)
	}
	return r
}

func (it *Interp) mergeVal(cond, x, y *V) *V {
	if x == y {
		return x
	}
	if (x.K == KStore || y.K == KStore || x.K == KZero || y.K == KZero) && !(x.K == KAgg && y.K == KAgg) {
		// arrays: keep symbolic
		return it.g.Ite(cond, x, y)
	}
	return it.g.Ite(cond, x, y)
}

func (fr *frame) mergeAt(b *ssa.BasicBlock) *State {
	ins := fr.pend[b]
	delete(fr.pend, b)
	if len(ins) == 0 {
		return nil
	}
	it := fr.it
	// phis first, per incoming edge
	var phis []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	for _, in := range ins {
		if len(phis) == 0 || in.from == nil {
			continue
		}
		idx := -1
		for k, p := range b.Preds {
			if p == in.from {
				idx = k
			}
		}
		vals := make([]*V, len(phis))
		for k, p := range phis {
			vals[k] = it.val(in.st, p.Edges[idx])
		}
		for k, p := range phis {
			in.st.env[p] = vals[k]
		}
	}
	states := make([]*State, len(ins))
	for i, in := range ins {
		states[i] = in.st
	}
	// Merge the states that parted last first, so that path conditions cancel.
	for len(states) > 1 {
		bi, bj, best := 0, 1, -1
		for i := range states {
			for j := i + 1; j < len(states); j++ {
				if n := commonPC(states[i], states[j]); n > best {
					bi, bj, best = i, j, n
				}
			}
		}
		states[bi] = fr.merge2(states[bi], states[bj])
		states = append(states[:bj], states[bj+1:]...)
	}
	return states[0]
}

func commonPC(a, b *State) int {
	k := 0
	for k < len(a.pc) && k < len(b.pc) && a.pc[k] == b.pc[k] {
		k++
	}
	return k
}

func (fr *frame) merge2(a, b *State) *State {
	it := fr.it
	cond, pc := it.mergeCond(a, b)
	env := make(map[ssa.Value]*V, len(a.env))
	for k, x := range a.env {
		if y, ok := b.env[k]; ok {
			env[k] = it.g.Ite(cond, x, y)
		} else {
			env[k] = x
		}
	}
	for k, y := range b.env {
		if _, ok := a.env[k]; !ok {
			env[k] = y
		}
	}
	if len(a.defers) != len(b.defers) {
		panic(undecided("conditional defer in " + fr.fn.String()))
	}
	return &State{pc: pc, env: env, mem: it.mergeMem(cond, a.mem, b.mem), defers: a.defers}
}

func (fr *frame) runList(l []wtoElem) {
	for i := range l {
		e := &l[i]
		if len(fr.pend[e.b]) == 0 {
			continue
		}
		if e.loop {
			fr.runLoop(e)
		} else {
			st := fr.mergeAt(e.b)
			fr.runBlock(e.b, st)
		}
	}
}

type snapshot struct {
	calls, loops, idx, panics, stores, sends, gos, rets, trunc, uses, log int
	pend                                                                  map[*ssa.BasicBlock][]inc
	seq                                                                   int
	cnt                                                                   map[string]int
}

func (fr *frame) snap() snapshot {
	it := fr.it
	p := map[*ssa.BasicBlock][]inc{}
	for b, l := range fr.pend {
		for _, i := range l {
			p[b] = append(p[b], inc{i.from, i.st.clone()})
		}
	}
	c := map[string]int{}
	for k, v := range it.cnt {
		c[k] = v
	}
	return snapshot{len(it.Calls), len(it.Loops), len(it.Idx), len(it.Panics), len(it.Stores), len(it.Sends), len(it.Gos), len(fr.rets), len(it.Truncated), len(it.Uses), len(it.Log), p, it.seq, c}
}
func (fr *frame) restore(s snapshot) {
	it := fr.it
	it.Calls = it.Calls[:s.calls]
	it.Loops = it.Loops[:s.loops]
	it.Idx = it.Idx[:s.idx]
	it.Panics = it.Panics[:s.panics]
	it.Stores = it.Stores[:s.stores]
	it.Sends = it.Sends[:s.sends]
	it.Gos = it.Gos[:s.gos]
	it.Truncated = it.Truncated[:s.trunc]
	it.Uses = it.Uses[:s.uses]
	it.Log = it.Log[:s.log]
	fr.rets = fr.rets[:s.rets]
	it.seq = s.seq
	it.cnt = map[string]int{}
	for k, v := range s.cnt {
		it.cnt[k] = v
	}
	fr.pend = map[*ssa.BasicBlock][]inc{}
	for b, l := range s.pend {
		for _, i := range l {
			fr.pend[b] = append(fr.pend[b], inc{i.from, i.st.clone()})
		}
	}
}

func (fr *frame) runLoop(e *wtoElem) {
	it := fr.it
	st := fr.mergeAt(e.b)
	if st == nil {
		return
	}
	entry := st.clone()
	sn := fr.snap()
	saveGuided := *e.guided
	defer func() { *e.guided = saveGuided }()
	fr.loop = append(fr.loop, e)
	defer func() { fr.loop = fr.loop[:len(fr.loop)-1] }()
	sym := 0
	for iter := 0; ; iter++ {
		if iter > 3000 {
			panic(undecided("loop too long in " + fr.fn.String()))
		}
		*e.guided = false
		fr.runBlock(e.b, st)
		fr.runList(e.body)
		st = fr.mergeAt(e.b)
		if st == nil {
			return
		}
		if !*e.guided {
			sym++
		}
		if it.Cut && it.MaxIter > 0 && iter+1 > it.MaxIter {
			it.Truncated = append(it.Truncated, fmt.Sprintf("%s: loop followed for %d iterations", it.p.Pos(e.b.Instrs[0].Pos()), iter+1))
			it.TruncPC = append(it.TruncPC, it.conj(st.pc))
			return
		}
		if sym > it.MaxSym {
			if it.Cut {
				it.Truncated = append(it.Truncated, fmt.Sprintf("%s: loop followed for %d iterations", it.p.Pos(e.b.Instrs[0].Pos()), sym))
				it.TruncPC = append(it.TruncPC, it.conj(st.pc))
				return
			}
			break
		}
	}
	// generic iteration
	var phis []*ssa.Phi
	for _, i := range e.b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	hphi := map[*ssa.Phi]bool{}
	type leaf struct {
		o    *Obj
		path string
	}
	hmem := map[leaf][]int{}
	it.cnt["loop"]++
	for round := 0; ; round++ {
		if round > 8 {
			panic(undecided("loop summary does not stabilise in " + fr.fn.String()))
		}
		fr.restore(sn)
		st := entry.clone()
		it.cnt["loopid"]++
		name := fmt.Sprintf("loop%d", it.cnt["loopid"])
		lr := &LoopRec{Fn: fr.fn, Head: e.b, Entry: it.conj(entry.pc)}
		for _, in := range e.b.Instrs {
			if in.Pos().IsValid() {
				lr.Pos = in.Pos()
				break
			}
		}
		for _, p := range phis {
			if hphi[p] {
				s := it.g.expand(fmt.Sprintf("%s.%s.%s", name, p.Comment, p.Name()), p.Type())
				lr.Phis = append(lr.Phis, &PhiRec{Name: p.Comment, Init: entry.env[p], Sym: s})
				st.env[p] = s
			}
		}
		var lf []leaf
		for l := range hmem {
			lf = append(lf, l)
		}
		sort.Slice(lf, func(i, j int) bool {
			if lf[i].o.id != lf[j].o.id {
				return lf[i].o.id < lf[j].o.id
			}
			return lf[i].path < lf[j].path
		})
		for _, l := range lf {
			c := it.content(st.mem, l.o)
			if os.Getenv("VT_LOOP") != "" {
				fmt.Println("loop leaf", fr.fn, l.o.name, l.path, c, l.o.init)
			}
			old := aggGet(c, hmem[l])
			t := old.typ
			if old.K == KZero {
				t = types.NewSlice(old.typ)
			}
			if t == nil {
				panic(undecided("loop summary: untyped memory"))
			}
			s := it.g.expand(fmt.Sprintf("%s.%s%s", name, l.o.name, l.path), t)
			st.mem[l.o] = aggSet(it.g, c, hmem[l], s)
			lr.Mem = append(lr.Mem, &MemRec{Obj: l.o, Path: hmem[l], Init: old, Sym: s})
		}
		start := st.clone()
		saved := it.loops
		it.loops = append(append([]*LoopRec(nil), it.loops...), lr)
		fr.runBlock(e.b, st)
		fr.runList(e.body)
		back := fr.mergeAt(e.b)
		it.loops = saved
		grew := false
		if back != nil {
			for _, p := range phis {
				nx := back.env[p]
				if !hphi[p] && nx != start.env[p] {
					hphi[p] = true
					grew = true
				}
			}
			for o, y := range back.mem {
				x, ok := start.mem[o]
				if !ok {
					x = o.init
				}
				if x == nil || x == y {
					continue
				}
				aggDiff(x, y, nil, func(path []int) {
					l := leaf{o, fmt.Sprint(path)}
					if _, ok := hmem[l]; !ok {
						hmem[l] = append([]int(nil), path...)
						grew = true
					}
				})
			}
			k := len(entry.pc)
			if k <= len(back.pc) {
				lr.Stay = it.conj(back.pc[k:])
			}
		}
		if grew {
			continue
		}
		if back != nil {
			i := 0
			for _, p := range phis {
				if hphi[p] {
					lr.Phis[i].Next = back.env[p]
					i++
				}
			}
			for _, m := range lr.Mem {
				m.Next = aggGet(it.content(back.mem, m.Obj), m.Path)
			}
		}
		it.Loops = append(it.Loops, lr)
		return
	}
}

func aggGet(v *V, path []int) *V {
	for _, i := range path {
		v = v.args[i]
	}
	return v
}
func aggSet(g *Graph, v *V, path []int, x *V) *V {
	if len(path) == 0 {
		return x
	}
	a := append([]*V(nil), v.args...)
	a[path[0]] = aggSet(g, a[path[0]], path[1:], x)
	return g.mk(&V{K: v.K, typ: v.typ, args: a})
}
func aggDiff(x, y *V, path []int, f func([]int)) {
	if x == y {
		return
	}
	if x.K == KAgg && y.K == KAgg && len(x.args) == len(y.args) {
		for i := range x.args {
			aggDiff(x.args[i], y.args[i], append(path[:len(path):len(path)], i), f)
		}
		return
	}
	f(path)
}

// ---------------------------------------------------------------- blocks

func (fr *frame) push(from, to *ssa.BasicBlock, st *State) {
	fr.pend[to] = append(fr.pend[to], inc{from, st})
}

func (fr *frame) runBlock(b *ssa.BasicBlock, st *State) {
	if st == nil {
		return
	}
	it := fr.it
	g := it.g
	for _, in := range b.Instrs {
		it.steps++
		poll()
		if it.steps > 6000000 {
			panic(undecided("analysis budget exceeded"))
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			cond := it.val(st, in.Cond)
			for _, c := range st.pc {
				if c == cond {
					cond = g.True
					break
				}
				if c == g.Not(cond) {
					cond = g.False
					break
				}
			}
			if cond.K == KBool {
				for _, l := range fr.loop {
					if l.set[b.Succs[0]] != l.set[b.Succs[1]] {
						*l.guided = true
					}
				}
				if cond == g.True {
					fr.push(b, b.Succs[0], st)
				} else {
					fr.push(b, b.Succs[1], st)
				}
				return
			}
			s2 := st.clone()
			st.pc = addPC(g, st.pc, cond)
			s2.pc = addPC(g, s2.pc, g.Not(cond))
			fr.push(b, b.Succs[0], st)
			fr.push(b, b.Succs[1], s2)
			return
		case *ssa.Jump:
			fr.push(b, b.Succs[0], st)
			return
		case *ssa.Return:
			var v *V
			switch len(in.Results) {
			case 0:
			case 1:
				v = it.val(st, in.Results[0])
			default:
				a := make([]*V, len(in.Results))
				for i, r := range in.Results {
					a[i] = it.val(st, r)
				}
				v = g.mk(&V{K: KTuple, args: a, typ: fr.fn.Signature.Results()})
			}
			fr.rets = append(fr.rets, retState{st, v})
			return
		case *ssa.Panic:
			it.Panics = append(it.Panics, &PanicRec{it.conj(st.pc), in.Pos(), fr.fn, it.val(st, in.X)})
			return
		default:
			if !it.instr(fr, st, in) {
				return // never continues
			}
		}
	}
}

func addPC(g *Graph, pc []*V, c *V) []*V {
	if c.K == KAnd {
		return addPC(g, addPC(g, pc, c.args[0]), c.args[1])
	}
	return append(pc[:len(pc):len(pc)], c)
}

// val returns the abstract value of an SSA value.
func (it *Interp) val(st *State, v ssa.Value) *V {
	if x, ok := st.env[v]; ok {
		return x
	}
	switch v := v.(type) {
	case *ssa.Const:
		return it.constant(v)
	case *ssa.Global:
		return it.g.Ptr(it.global(v))
	case *ssa.Function:
		return it.g.mk(&V{K: KFunc, fn: v, typ: v.Type()})
	case *ssa.Builtin:
		return it.g.Sym("builtin:"+v.Name(), v.Type())
	}
	panic(undecided(fmt.Sprintf("undefined value %s in %s", v.Name(), v.Parent())))
}

func (it *Interp) constant(c *ssa.Const) *V {
	g := it.g
	if c.Value == nil {
		return g.Zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return g.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return g.Str(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		f, _ := constant.Float64Val(c.Value)
		return g.numT(f, c.Type())
	}
	return g.Fresh("const", c.Type())
}

// global returns the object of a package variable, with the value that package
// initialisation gives it, if nothing else writes it.
func (it *Interp) global(v *ssa.Global) *Obj {
	if o, ok := it.globals[v]; ok {
		return o
	}
	elem := v.Type().(*types.Pointer).Elem()
	o := it.g.NewObj(v.RelString(nil), elem, it.g.expand("global:"+v.RelString(nil), elem))
	it.globals[v] = o
	if v.Pkg == nil || !strings.HasPrefix(v.Pkg.Pkg.Path(), modPath) {
		return o
	}
	if it.p.globalWritten(v) {
		return o
	}
	if it.initing[v.Pkg] {
		return o
	}
	st := it.pkgInit(v.Pkg)
	if c, ok := st.mem[o]; ok {
		o.init = c
	} else {
		o.init = it.g.Zero(elem)
	}
	return o
}

func (it *Interp) pkgInit(pkg *ssa.Package) *State {
	if st, ok := it.inits[pkg]; ok {
		return st
	}
	it.initing[pkg] = true
	st := NewState()
	// all variables of the package start as zero
	for _, m := range pkg.Members {
		if gl, ok := m.(*ssa.Global); ok {
			st.mem[it.global(gl)] = it.g.Zero(gl.Type().(*types.Pointer).Elem())
		}
	}
	saveStack, saveLoops := it.stack, it.loops
	it.stack, it.loops = nil, nil
	calls, stores, idx, pan := it.Calls, it.Stores, it.Idx, it.Panics
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(undecided); ok {
					for o := range st.mem {
						st.mem[o] = o.init
					}
					return
				}
				panic(e)
			}
		}()
		_, out := it.exec(pkg.Func("init"), st, nil, nil)
		if out != nil {
			st = out
		}
	}()
	it.Calls, it.Stores, it.Idx, it.Panics = calls, stores, idx, pan
	it.stack, it.loops = saveStack, saveLoops
	for o, c := range st.mem { // objects allocated by init keep their contents
		if c != nil {
			o.init = c
		}
	}
	it.inits[pkg] = st
	it.initing[pkg] = false
	return st
}

// globalWritten reports whether a variable is stored to (or its address
// escapes) outside of package initialisation.
func (p *Prog) globalWritten(v *ssa.Global) bool {
	for _, f := range p.funcs {
		if f.Name() == "init" && f.Pkg == v.Pkg && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(v) {
						continue
					}
					if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(v) {
						return true
					}
				}
			}
		}
	}
	return false
}

// mapIte applies f to the alternatives of v.
func (it *Interp) mapIte(v *V, f func(*V) *V) *V {
	if v.K != KIte {
		return f(v)
	}
	memo := map[*V]*V{} // the conditional is a DAG
	var walk func(v *V) *V
	walk = func(v *V) *V {
		r, ok := memo[v]
		if !ok {
			if v.K == KIte {
				r = it.g.Ite(v.args[0], walk(v.args[1]), walk(v.args[2]))
			} else {
				r = f(v)
			}
			memo[v] = r
		}
		return r
	}
	return walk(v)
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

// objOf returns the object an opaque pointer points to.
func (it *Interp) objOf(v *V, elem types.Type) *Obj {
	if o, ok := it.deref[v.id]; ok {
		return o
	}
	var init *V
	if v.K == KFn {
		init = it.g.expand("*"+v.name, elem, v.args...)
	} else {
		init = it.g.expand(fmt.Sprintf("*v%d", v.id), elem)
	}
	o := it.g.NewObj("*"+v.String(), elem, init)
	it.deref[v.id] = o
	return o
}

// sliceParts returns pointer to the array, offset, length and capacity.
func (it *Interp) sliceParts(v *V) (base, off, ln, cp *V) {
	g := it.g
	switch v.K {
	case KSlice:
		return v.args[0], v.args[1], v.args[2], v.args[3]
	case KNil:
		return nil, g.Int(0), g.Int(0), g.Int(0)
	}
	elem := elemOf(v.typ)
	o, ok := it.deref[v.id]
	if !ok {
		arrT := types.NewSlice(elem)
		nm := v.name
		if v.K != KFn {
			nm = fmt.Sprintf("v%d", v.id)
		}
		o = g.NewObj("elems("+nm+")", arrT, g.mk(&V{K: KFn, name: "elems:" + nm, typ: arrT, args: v.args}))
		it.deref[v.id] = o
	}
	return g.Ptr(o), g.Int(0), g.Fn("len", types.Typ[types.Int], v), g.Fn("cap", types.Typ[types.Int], v)
}

func (it *Interp) load(st *State, p *V, elem types.Type) *V {
	return it.mapIte(p, func(p *V) *V {
		switch p.K {
		case KPtr:
			return it.loadPath(it.content(st.mem, p.obj), p.path)
		case KFn:
			return it.content(st.mem, it.objOf(p, elem))
		case KNil:
			return it.g.expand("nilderef", elem)
		}
		panic(undecided("load through " + p.String()))
	})
}

func (it *Interp) loadPath(c *V, path []Sel) *V {
	g := it.g
	for k, s := range path {
		if c.K == KIte {
			return it.mapIte(c, func(x *V) *V { return it.loadPath(x, path[k:]) })
		}
		if s.Idx == nil {
			if c.K != KAgg {
				panic(undecided("field of " + c.String()))
			}
			c = c.args[s.Field]
			continue
		}
		c = it.loadIdx(c, s.Idx)
	}
	_ = g
	return c
}

func (it *Interp) loadIdx(c, idx *V) *V {
	g := it.g
	switch c.K {
	case KIte:
		return it.mapIte(c, func(x *V) *V { return it.loadIdx(x, idx) })
	case KAgg:
		if idx.K == KNum {
			i := int(idx.num)
			if i < 0 || i >= len(c.args) {
				return g.expand("oob", elemOfAgg(c))
			}
			return c.args[i]
		}
		if idx.K == KIte {
			return it.mapIte(idx, func(x *V) *V { return it.loadIdx(c, x) })
		}
		if len(c.args) == 0 {
			return g.expand("oob", elemOfAgg(c))
		}
		if len(c.args) > 70 {
			panic(undecided("symbolic index into a large array"))
		}
		r := c.args[len(c.args)-1]
		for i := len(c.args) - 2; i >= 0; i-- {
			r = g.Ite(g.Cmp("==", idx, g.Int(i)), c.args[i], r)
		}
		return r
	case KZero:
		return g.Zero(c.typ)
	case KStore:
		cond := it.idxEq(c.args[1], idx)
		return g.Ite(cond, c.args[2], it.loadIdxLazy(cond, c.args[0], idx, c.args[2]))
	case KFn:
		return g.expand(c.name+"[]", elemOf(c.typ), append(append([]*V(nil), c.args...), idx)...)
	}
	panic(undecided("index of " + c.String()))
}
func (it *Interp) loadIdxLazy(cond, arr, idx, def *V) *V {
	if cond == it.g.True {
		return def
	}
	return it.loadIdx(arr, idx)
}
func elemOfAgg(c *V) types.Type {
	if e := elemOf(c.typ); e != nil {
		return e
	}
	return types.Typ[types.Int]
}

func (it *Interp) idxEq(a, b *V) *V {
	if a == b {
		return it.g.True
	}
	return it.g.Cmp("==", a, b)
}

func (it *Interp) storePath(c *V, path []Sel, v *V) *V {
	g := it.g
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if c.K == KIte && c.args[1].K == KAgg {
		return g.Ite(c.args[0], it.storePath(c.args[1], path, v), it.storePath(c.args[2], path, v))
	}
	if s.Idx == nil {
		if c.K != KAgg {
			panic(undecided("store to field of " + c.String()))
		}
		a := append([]*V(nil), c.args...)
		a[s.Field] = it.storePath(a[s.Field], path[1:], v)
		return g.mk(&V{K: KAgg, typ: c.typ, args: a})
	}
	if c.K == KAgg && s.Idx.K == KNum {
		i := int(s.Idx.num)
		if i < 0 || i >= len(c.args) {
			return c
		}
		a := append([]*V(nil), c.args...)
		a[i] = it.storePath(a[i], path[1:], v)
		return g.mk(&V{K: KAgg, typ: c.typ, args: a})
	}
	if c.K == KAgg && len(c.args) <= 64 {
		a := append([]*V(nil), c.args...)
		for i := range a {
			a[i] = g.Ite(g.Cmp("==", s.Idx, g.Int(i)), it.storePath(a[i], path[1:], v), a[i])
		}
		return g.mk(&V{K: KAgg, typ: c.typ, args: a})
	}
	var nv *V
	if len(path) > 1 {
		nv = it.storePath(it.loadIdx(c, s.Idx), path[1:], v)
	} else {
		nv = v
	}
	if c.K == KStore && c.args[1] == s.Idx {
		c = c.args[0]
	}
	t := c.typ
	if c.K == KZero {
		t = types.NewSlice(c.typ)
	}
	return g.mk(&V{K: KStore, typ: t, args: []*V{c, s.Idx, nv}})
}

func (it *Interp) store(st *State, p, v *V, elem types.Type) {
	switch p.K {
	case KPtr:
		st.mem[p.obj] = it.storePath(it.content(st.mem, p.obj), p.path, v)
	case KFn:
		st.mem[it.objOf(p, elem)] = v
	case KIte:
		s1, s2 := &State{mem: map[*Obj]*V{}}, &State{mem: map[*Obj]*V{}}
		for k, x := range st.mem {
			s1.mem[k] = x
			s2.mem[k] = x
		}
		it.store(s1, p.args[1], v, elem)
		it.store(s2, p.args[2], v, elem)
		st.mem = it.mergeMem(p.args[0], s1.mem, s2.mem)
	case KNil:
	default:
		panic(undecided("store through " + p.String()))
	}
}

func (it *Interp) newObj(st *State, name string, t types.Type, init *V) *V {
	o := it.g.NewObj(name, t, nil)
	st.mem[o] = init
	return it.g.Ptr(o)
}

// ptrField returns the address of a part of what p points to.
func (it *Interp) ptrSel(st *State, p *V, elem types.Type, s Sel) *V {
	return it.mapIte(p, func(p *V) *V {
		switch p.K {
		case KPtr:
			return it.g.Ptr(p.obj, append(p.path[:len(p.path):len(p.path)], s)...)
		case KFn:
			return it.g.Ptr(it.objOf(p, elem), s)
		case KNil:
			o := it.g.NewObj("nil", elem, it.g.expand("nilderef", elem))
			return it.g.Ptr(o, s)
		}
		panic(undecided("address of part of " + p.String()))
	})
}

// ---------------------------------------------------------------- instructions

func (it *Interp) instr(fr *frame, st *State, in ssa.Instruction) bool {
	g := it.g
	set := func(v ssa.Value, x *V) {
		if x == nil {
			panic(undecided("no value for " + v.String()))
		}
		st.env[v] = x
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		it.cnt["alloc"]++
		set(in, it.newObj(st, in.Comment, t, g.Zero(t)))
	case *ssa.Store:
		p := it.val(st, in.Addr)
		v := it.val(st, in.Val)
		if it.LogStores {
			it.Stores = append(it.Stores, &StoreRec{p, v, it.conj(st.pc), in.Pos(), fr.fn, it.loops})
		}
		it.use(st, p, in.Pos(), true)
		it.store(st, p, v, elemOf(in.Addr.Type()))
	case *ssa.UnOp:
		x := it.val(st, in.X)
		switch in.Op {
		case token.MUL:
			it.use(st, x, in.Pos(), false)
			set(in, it.load(st, x, elemOf(in.X.Type())))
		case token.SUB:
			set(in, g.Neg(x))
		case token.NOT:
			set(in, g.Not(x))
		case token.ARROW:
			it.cnt["recv"]++
			it.seq++
			cr := &CallRec{Name: "recv", Recv: x, Sig: []types.Type{in.Type()}, Guard: it.conj(st.pc), Pos: in.Pos(), Fn: fr.fn, Loops: it.loops, Seq: it.seq}
			if h := it.handlers["recv"]; h != nil {
				if r, ok := h(it, st, cr); ok {
					set(in, r)
					return true
				}
			}
			set(in, g.expand(fmt.Sprintf("recv%d", it.cnt["recv"]), in.Type()))
			cr.Res = st.env[in]
			it.Calls = append(it.Calls, cr)
		default:
			set(in, g.op("^", in.Type(), x))
		}
	case *ssa.BinOp:
		set(in, it.binop(in.Op, it.val(st, in.X), it.val(st, in.Y), in.X.Type(), in.Type()))
	case *ssa.FieldAddr:
		set(in, it.ptrSel(st, it.val(st, in.X), elemOf(in.X.Type()), Sel{Field: in.Field}))
	case *ssa.Field:
		set(in, it.mapIte(it.val(st, in.X), func(x *V) *V {
			if x.K != KAgg {
				panic(undecided("field of " + x.String()))
			}
			return x.args[in.Field]
		}))
	case *ssa.IndexAddr:
		idx := it.val(st, in.Index)
		x := it.val(st, in.X)
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			arr := pt.Elem().Underlying().(*types.Array)
			it.oblige(fr, st, "index", idx, g.Int(int(arr.Len())), in.Pos())
			set(in, it.ptrSel(st, x, pt.Elem(), Sel{Idx: idx}))
			return true
		}
		set(in, it.mapIte(x, func(x *V) *V {
			base, off, ln, _ := it.sliceParts(x)
			it.oblige(fr, st, "index", idx, ln, in.Pos())
			if base == nil {
				o := g.NewObj("nilslice", elemOf(in.X.Type()), g.expand("nilelem", elemOf(in.X.Type())))
				return g.Ptr(o)
			}
			return it.ptrSel(st, base, nil, Sel{Idx: g.Add(off, idx)})
		}))
	case *ssa.Index:
		x, idx := it.val(st, in.X), it.val(st, in.Index)
		if arr, ok := in.X.Type().Underlying().(*types.Array); ok {
			it.oblige(fr, st, "index", idx, g.Int(int(arr.Len())), in.Pos())
			set(in, it.loadIdx(x, idx))
		} else {
			it.oblige(fr, st, "index", idx, g.Fn("strlen", types.Typ[types.Int], x), in.Pos())
			set(in, g.Fn("stridx", in.Type(), x, idx))
		}
	case *ssa.Slice:
		set(in, it.slice(fr, st, in))
	case *ssa.Convert:
		set(in, it.convert(st, it.val(st, in.X), in.X.Type(), in.Type()))
	case *ssa.ChangeType:
		x := it.val(st, in.X)
		set(in, x)
	case *ssa.ChangeInterface:
		set(in, it.val(st, in.X))
	case *ssa.MakeInterface:
		x := it.val(st, in.X)
		set(in, g.mk(&V{K: KIface, typ: in.X.Type(), args: []*V{x}}))
	case *ssa.MakeClosure:
		var b []*V
		for _, x := range in.Bindings {
			b = append(b, it.val(st, x))
		}
		set(in, g.mk(&V{K: KFunc, fn: in.Fn.(*ssa.Function), args: b, typ: in.Type()}))
	case *ssa.MakeSlice:
		n, c := it.val(st, in.Len), it.val(st, in.Cap)
		elem := elemOf(in.Type())
		it.oblige(fr, st, "make", n, nil, in.Pos())
		var init *V
		if c.K == KNum && c.num <= 4096 {
			a := make([]*V, int(c.num))
			for i := range a {
				a[i] = g.Zero(elem)
			}
			init = g.Agg(types.NewSlice(elem), a...)
		} else {
			init = g.mk(&V{K: KZero, typ: elem})
		}
		p := it.newObj(st, "make@"+it.p.Pos(in.Pos()), types.NewSlice(elem), init)
		set(in, g.mk(&V{K: KSlice, args: []*V{p, g.Int(0), n, c}, typ: in.Type()}))
	case *ssa.MakeMap:
		set(in, it.newMapObj(st, in.Type()))
	case *ssa.MakeChan:
		sz := it.val(st, in.Size)
		p := it.newObj(st, "chan", in.Type(), g.Sym("chan", in.Type()))
		it.Calls = append(it.Calls, &CallRec{Name: "makechan", Args: []*V{sz}, Raw: []*V{sz}, Res: p, Guard: it.conj(st.pc), Pos: in.Pos(), Fn: fr.fn, Loops: it.loops})
		set(in, p)
	case *ssa.MapUpdate:
		it.mapUpdate(st, it.val(st, in.Map), it.val(st, in.Key), it.val(st, in.Value))
	case *ssa.Lookup:
		x, k := it.val(st, in.X), it.val(st, in.Index)
		if isStringT(in.X.Type()) {
			it.oblige(fr, st, "index", k, g.Fn("strlen", types.Typ[types.Int], x), in.Pos())
			set(in, g.Fn("stridx", in.Type(), x, k))
		} else {
			if r := it.mapLookup(st, x, k, in.X.Type().Underlying().(*types.Map).Elem(), in.CommaOk, in.Type()); r != nil {
				set(in, r)
				return true
			}
			it.cnt["lookup"]++
			set(in, g.expand(fmt.Sprintf("lookup%d", it.cnt["lookup"]), in.Type(), x, k))
		}
	case *ssa.Range:
		if r := it.mapRange(st, it.val(st, in.X)); r != nil {
			set(in, r)
			return true
		}
		it.cnt["range"]++
		set(in, g.Fn(fmt.Sprintf("range%d", it.cnt["range"]), in.X.Type(), it.val(st, in.X)))
	case *ssa.Next:
		if r := it.mapNext(st, it.val(st, in.Iter), in.Type()); r != nil {
			set(in, r)
			return true
		}
		it.cnt["next"]++
		set(in, g.expand(fmt.Sprintf("next%d", it.cnt["next"]), in.Type()))
	case *ssa.Extract:
		x := it.val(st, in.Tuple)
		set(in, it.mapIte(x, func(x *V) *V {
			if x.K != KTuple {
				panic(undecided("extract from " + x.String()))
			}
			return x.args[in.Index]
		}))
	case *ssa.TypeAssert:
		set(in, it.typeAssert(fr, st, in))
	case *ssa.Call:
		r, ok := it.call(fr, st, &in.Call, in.Type(), in.Pos())
		if !ok {
			return false
		}
		if r == nil {
			r = g.mk(&V{K: KTuple, typ: types.NewTuple()})
		}
		set(in, r)
	case *ssa.Defer:
		fv, args := it.callArgs(st, &in.Call)
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], deferRec{&in.Call, fv, args, in.Pos()})
	case *ssa.RunDefers:
		d := st.defers
		st.defers = nil
		for i := len(d) - 1; i >= 0; i-- {
			res := d[i].call.Signature().Results()
			_, ok := it.callV(fr, st, d[i].call, d[i].fn, d[i].args, res, d[i].pos)
			if !ok {
				return false
			}
		}
	case *ssa.Go:
		fv, args := it.callArgs(st, &in.Call)
		it.seq++
		it.Gos = append(it.Gos, &CallRec{Name: "go", Recv: fv, Args: args, Raw: args, Guard: it.conj(st.pc), Pos: in.Pos(), Fn: fr.fn, Loops: it.loops, Seq: it.seq})
		if it.RunGo {
			_, ok := it.callV(fr, st, &in.Call, fv, args, in.Call.Signature().Results(), in.Pos())
			return ok
		}
	case *ssa.Send:
		ch, x := it.val(st, in.Chan), it.val(st, in.X)
		it.seq++
		it.Sends = append(it.Sends, &CallRec{Name: "send", Recv: ch, Args: []*V{x}, Raw: []*V{x}, Guard: it.conj(st.pc), Pos: in.Pos(), Fn: fr.fn, Loops: it.loops, Seq: it.seq})
	case *ssa.Select:
		it.cnt["select"]++
		set(in, g.expand(fmt.Sprintf("select%d", it.cnt["select"]), in.Type()))
	case *ssa.SliceToArrayPointer:
		x := it.val(st, in.X)
		base, _, _, _ := it.sliceParts(x)
		set(in, base)
	case *ssa.MultiConvert:
		set(in, it.val(st, in.X))
	default:
		panic(undecided(fmt.Sprintf("instruction %T", in)))
	}
	return true
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (it *Interp) oblige(fr *frame, st *State, kind string, idx, ln *V, pos token.Pos) {
	if idx.K == KNum && ln != nil && ln.K == KNum && idx.num >= 0 && idx.num < ln.num {
		return
	}
	if idx.K == KNum && ln == nil && idx.num >= 0 {
		return
	}
	it.Idx = append(it.Idx, &IdxRec{idx, ln, it.conj(st.pc), pos, fr.fn, kind, it.loops})
}

func (it *Interp) binop(op token.Token, x, y *V, xt, rt types.Type) *V {
	g := it.g
	switch op {
	case token.ADD:
		return g.Add(x, y)
	case token.SUB:
		return g.Sub(x, y)
	case token.MUL:
		return g.Mul(x, y)
	case token.QUO:
		if isInt(xt) {
			return it.intOp("quo", x, y, rt)
		}
		return g.Div(x, y)
	case token.REM:
		return it.intOp("rem", x, y, rt)
	case token.AND:
		return it.intOp("and", x, y, rt)
	case token.OR:
		return it.intOp("or", x, y, rt)
	case token.XOR:
		return it.intOp("xor", x, y, rt)
	case token.SHL:
		return it.intOp("shl", x, y, rt)
	case token.SHR:
		return it.intOp("shr", x, y, rt)
	case token.AND_NOT:
		return it.intOp("andnot", x, y, rt)
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStringT(xt) && op != token.EQL && op != token.NEQ {
			return g.Fn("strcmp"+op.String(), types.Typ[types.Bool], x, y)
		}
		return g.Cmp(op.String(), x, y)
	}
	panic(undecided("operator " + op.String()))
}

func (it *Interp) intOp(name string, x, y *V, t types.Type) *V {
	g := it.g
	if x.K == KNum && y.K == KNum {
		a, b := int64(x.num), int64(y.num)
		switch name {
		case "quo":
			if b != 0 {
				return g.numT(float64(a/b), t)
			}
		case "rem":
			if b != 0 {
				return g.numT(float64(a%b), t)
			}
		case "and":
			return g.numT(float64(a&b), t)
		case "or":
			return g.numT(float64(a|b), t)
		case "xor":
			return g.numT(float64(a^b), t)
		case "shl":
			return g.numT(float64(a<<uint(b)), t)
		case "shr":
			return g.numT(float64(a>>uint(b)), t)
		case "andnot":
			return g.numT(float64(a&^b), t)
		}
	}
	if name == "quo" && y.K == KNum && y.num == 1 {
		return x
	}
	return g.op(name, t, x, y)
}

func basicOf(v *V) (*types.Basic, bool) {
	if v.typ == nil {
		return nil, false
	}
	b, ok := v.typ.Underlying().(*types.Basic)
	return b, ok
}

func intRange(b *types.Basic) (lo, hi float64, ok bool) {
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -2147483648, 2147483647, true
	case types.Int, types.Int64:
		return -9.2e18, 9.2e18, true
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 4294967295, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 1.8e19, true
	}
	return 0, 0, false
}

func (it *Interp) convert(st *State, x *V, from, to types.Type) *V {
	g := it.g
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
		fi, ti := fb.Info()&types.IsInteger != 0, tb.Info()&types.IsInteger != 0
		switch {
		case !fi && !ti:
			if it.F32 && tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
				if x.K == KNum && (math.IsInf(x.num, 0) || float64(float32(x.num)) == x.num) {
					return x
				}
				return g.Fn("f32", to, x)
			}
			return x
		case fi && !ti:
			if x.K == KNum {
				return g.numT(x.num, to)
			}
			return x
		case !fi && ti:
			if x.K == KNum {
				return g.numT(math.Trunc(x.num), to)
			}
			lo, hi, _ := intRange(tb)
			if lo > -1e18 || hi < 1e18 {
				return g.Fn(fmt.Sprintf("toint:%s", types.Typ[tb.Kind()].Name()), to, x)
			}
			return g.Fn("trunc", to, x)
		default:
			lo, hi, _ := intRange(tb)
			if x.K == KNum {
				if x.num >= lo && x.num <= hi {
					return g.numT(x.num, to)
				}
			} else {
				flo, fhi, _ := intRange(fb)
				if xb, ok := basicOf(x); ok && x.K == KFn {
					if l, h, ok := intRange(xb); ok {
						flo, fhi = l, h // result of a narrower type
					}
				}
				if flo >= lo && fhi <= hi {
					return x
				}
				if tb.Kind() == types.Uint && lo == 0 && fb.Kind() == types.Int {
					return x // shift counts etc.
				}
			}
			return g.Fn("toint:"+types.Typ[tb.Kind()].Name(), to, x)
		}
	}
	if isStringT(from) && isStringT(to) {
		return x
	}
	it.cnt["conv"]++
	return g.expand("convert:"+types.TypeString(to, nil), to, x)
}

func (it *Interp) slice(fr *frame, st *State, in *ssa.Slice) *V {
	g := it.g
	x := it.val(st, in.X)
	var lo, hi, mx *V
	if in.Low != nil {
		lo = it.val(st, in.Low)
	} else {
		lo = g.Int(0)
	}
	if in.High != nil {
		hi = it.val(st, in.High)
	}
	if in.Max != nil {
		mx = it.val(st, in.Max)
	}
	if isStringT(in.X.Type()) {
		n := it.lenOf(x)
		if hi == nil {
			hi = n
		}
		it.oblige(fr, st, "slicehi", hi, g.Add(n, g.Int(1)), in.Pos())
		it.oblige(fr, st, "slicelo", lo, g.Add(hi, g.Int(1)), in.Pos())
		if x.K == KStr && lo.K == KNum && hi.K == KNum && 0 <= lo.num && lo.num <= hi.num && int(hi.num) <= len(x.name) {
			return g.Str(x.name[int(lo.num):int(hi.num)])
		}
		return g.Fn("substr", in.Type(), x, lo, hi)
	}
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		n := g.Int(int(pt.Elem().Underlying().(*types.Array).Len()))
		if hi == nil {
			hi = n
		}
		p := x
		if p.K == KFn {
			p = g.Ptr(it.objOf(p, pt.Elem()))
		}
		return g.mk(&V{K: KSlice, args: []*V{p, lo, g.Sub(hi, lo), g.Sub(n, lo)}, typ: in.Type()})
	}
	return it.mapIte(x, func(x *V) *V {
		if x.K == KNil {
			return x
		}
		base, off, ln, cp := it.sliceParts(x)
		h := hi
		if h == nil {
			h = ln
		}
		c := cp
		if mx != nil {
			c = mx
		}
		it.oblige(fr, st, "slicehi", h, g.Add(cp, g.Int(1)), in.Pos())
		it.oblige(fr, st, "slicelo", lo, g.Add(h, g.Int(1)), in.Pos())
		if lo.K == KNum && lo.num == 0 && h == ln && mx == nil {
			return x
		}
		return g.mk(&V{K: KSlice, args: []*V{base, g.Add(off, lo), g.Sub(h, lo), g.Sub(c, lo)}, typ: in.Type()})
	})
}

func (it *Interp) typeAssert(fr *frame, st *State, in *ssa.TypeAssert) *V {
	g := it.g
	x := it.val(st, in.X)
	iface, toIface := in.AssertedType.Underlying().(*types.Interface)
	var val func(x *V) (v, ok *V)
	val = func(x *V) (*V, *V) {
		switch x.K {
		case KIte:
			a, oka := val(x.args[1])
			b, okb := val(x.args[2])
			return g.Ite(x.args[0], a, b), g.Ite(x.args[0], oka, okb)
		case KNil:
			return g.Zero(in.AssertedType), g.False
		case KIface:
			if toIface {
				if types.Implements(x.typ, iface) {
					return x, g.True
				}
				return g.Zero(in.AssertedType), g.False
			}
			if types.Identical(x.typ, in.AssertedType) {
				return x.args[0], g.True
			}
			return g.Zero(in.AssertedType), g.False
		}
		if toIface && x.typ != nil {
			if xi, ok := x.typ.Underlying().(*types.Interface); ok && types.Implements(xi, iface) {
				return x, g.Not(g.Cmp("==", x, g.Nil(x.typ)))
			}
		}
		if !toIface && in.CommaOk && !it.Concrete {
			return g.Zero(in.AssertedType), g.False
		}
		ok := g.Fn("is:"+types.TypeString(in.AssertedType, nil), types.Typ[types.Bool], x)
		if toIface {
			return x, ok
		}
		return g.expand("as:"+types.TypeString(in.AssertedType, nil), in.AssertedType, x), ok
	}
	v, ok := val(x)
	if in.CommaOk {
		// the value is zero if not ok
		if ok.K != KBool {
			z := g.Zero(in.AssertedType)
			v = g.Ite(ok, v, z)
		}
		return g.mk(&V{K: KTuple, args: []*V{v, ok}, typ: in.Type()})
	}
	if ok != g.True {
		it.Panics = append(it.Panics, &PanicRec{g.And(it.conj(st.pc), g.Not(ok)), in.Pos(), fr.fn, nil})
	}
	return v
}

// ---------------------------------------------------------------- calls

func (it *Interp) callArgs(st *State, c *ssa.CallCommon) (fv *V, args []*V) {
	fv = it.val(st, c.Value)
	for _, a := range c.Args {
		args = append(args, it.val(st, a))
	}
	return
}

func (it *Interp) call(fr *frame, st *State, c *ssa.CallCommon, rt types.Type, pos token.Pos) (*V, bool) {
	fv, args := it.callArgs(st, c)
	return it.callV(fr, st, c, fv, args, rt, pos)
}

// fork evaluates two alternatives under a condition and merges them.
func (it *Interp) fork(st *State, cond *V, a, b func(s *State) (*V, bool)) (*V, bool) {
	s1, s2 := st.clone(), st.clone()
	s1.pc = addPC(it.g, s1.pc, cond)
	s2.pc = addPC(it.g, s2.pc, it.g.Not(cond))
	r1, ok1 := a(s1)
	r2, ok2 := b(s2)
	switch {
	case ok1 && ok2:
		st.mem = it.mergeMem(cond, s1.mem, s2.mem)
		if r1 == nil || r2 == nil {
			return nil, true
		}
		return it.g.Ite(cond, r1, r2), true
	case ok1:
		st.mem = s1.mem
		return r1, true
	case ok2:
		st.mem = s2.mem
		return r2, true
	}
	return nil, false
}

func (it *Interp) callV(fr *frame, st *State, c *ssa.CallCommon, fv *V, args []*V, rt types.Type, pos token.Pos) (*V, bool) {
	g := it.g
	if fv.K == KIte {
		return it.fork(st, fv.args[0],
			func(s *State) (*V, bool) { return it.callV(fr, s, c, fv.args[1], args, rt, pos) },
			func(s *State) (*V, bool) { return it.callV(fr, s, c, fv.args[2], args, rt, pos) })
	}
	if c.IsInvoke() {
		m := c.Method
		switch fv.K {
		case KIface:
			fn := it.p.MethodOf(fv.typ, m.Pkg(), m.Name())
			if fn == nil {
				panic(undecided("no method " + m.Name() + " on " + fv.String()))
			}
			return it.callFn(fr, st, fn, append([]*V{fv.args[0]}, args...), nil, rt, pos)
		case KNil:
			it.Panics = append(it.Panics, &PanicRec{it.conj(st.pc), pos, fr.fn, nil})
			return nil, false
		}
		return it.opaque(fr, st, "invoke:"+m.Name(), fv, args, rt, pos, sigParams(m.Signature()))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return it.builtin(fr, st, b.Name(), c, args, rt, pos)
	}
	if fv.K == KFunc {
		return it.callFn(fr, st, fv.fn, args, fv.args, rt, pos)
	}
	if fv.K == KNil {
		it.Panics = append(it.Panics, &PanicRec{it.conj(st.pc), pos, fr.fn, nil})
		return nil, false
	}
	_ = g
	return it.opaque(fr, st, "call", fv, args, rt, pos, sigParams(c.Signature()))
}

func fnName(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok && fn.Synthetic == "" {
		return o.FullName()
	}
	return fn.String()
}

func (it *Interp) callFn(fr *frame, st *State, fn *ssa.Function, args, bind []*V, rt types.Type, pos token.Pos) (*V, bool) {
	name := fnName(fn)
	it.seq++
	cr := &CallRec{Name: name, Raw: args, Args: args, Sig: fnParams(fn), Guard: nil, Pos: pos, Loops: it.loops, Seq: it.seq}
	if fr != nil {
		cr.Fn = fr.fn
	}
	if h := it.handlers[name]; h != nil {
		cr.Guard = it.conj(st.pc)
		cr.Args = it.snapshots(st, args)
		if r, ok := h(it, st, cr); ok {
			cr.Res = r
			return r, true
		}
	}
	if h := it.Methods[fn.Name()]; h != nil && fn.Signature.Recv() != nil {
		cr.Guard = it.conj(st.pc)
		cr.Args = it.snapshots(st, args)
		if r, ok := h(it, st, cr); ok {
			cr.Res = r
			return r, true
		}
	}
	if len(fn.Blocks) == 0 || !it.p.inModule(fn) && !isWrapper(fn) || it.NoInline[name] {
		if name == "init" || strings.HasSuffix(name, ".init") {
			return nil, true
		}
		return it.opaque(fr, st, name, nil, args, rt, pos, fnParams(fn))
	}
	if fn.Name() == "init" && fr != nil && fr.fn.Name() == "init" {
		return nil, true // other package's initialisation
	}
	r, out := it.exec(fn, st, args, bind)
	if out == nil {
		return nil, false
	}
	st.mem = out.mem
	return r, true
}

func isWrapper(fn *ssa.Function) bool { return fn.Synthetic != "" && fn.Pkg == nil }

// snapshots replaces pointers to plain values by those values.
func (it *Interp) snapshots(st *State, args []*V) []*V {
	r := make([]*V, len(args))
	for i, a := range args {
		r[i] = it.snapshotV(st, a)
	}
	return r
}
func (it *Interp) snapshotV(st *State, a *V) *V {
	if a.K == KIte {
		if isNumeric(a) {
			return a
		}
		return it.mapIte(a, func(x *V) *V { return it.snapshotV(st, x) })
	}
	if a.K == KPtr {
		c := it.loadPath(it.content(st.mem, a.obj), a.path)
		if plain(c, 0) {
			return c
		}
	}
	if a.K == KFn {
		if o, ok := it.deref[a.id]; ok {
			if c := it.content(st.mem, o); c != nil && plain(c, 0) {
				return c
			}
		}
	}
	return a
}

// plain reports whether a value is made of numbers only.
func plain(v *V, d int) bool {
	switch v.K {
	case KNum:
		return true
	case KAgg:
		for _, a := range v.args {
			if !plain(a, d+1) {
				return false
			}
		}
		return len(v.args) > 0
	case KIte:
		return isNumeric(v) || (d < 40 && plain(v.args[1], d+1) && plain(v.args[2], d+1))
	case KFn, KOp:
		return isNumeric(v)
	}
	return false
}

// opaque models a call whose body is unknown: a function of its arguments.
func (it *Interp) opaque(fr *frame, st *State, name string, recv *V, args []*V, rt types.Type, pos token.Pos, sig []types.Type) (*V, bool) {
	g := it.g
	it.seq++
	cr := &CallRec{Name: name, Recv: recv, Raw: args, Sig: sig, Guard: it.conj(st.pc), Pos: pos, Loops: it.loops, Seq: it.seq}
	if fr != nil {
		cr.Fn = fr.fn
	}
	cr.Args = it.snapshots(st, args)
	if h := it.handlers[name]; h != nil {
		if r, ok := h(it, st, cr); ok {
			cr.Res = r
			it.Calls = append(it.Calls, cr)
			return r, true
		}
	}
	all := cr.Args
	if recv != nil {
		all = append([]*V{recv}, all...)
	}
	var res *V
	if tp, ok := rt.(*types.Tuple); ok && tp.Len() == 0 {
		res = g.mk(&V{K: KTuple, typ: rt})
	} else if len(all) == 0 || impure(name) {
		it.cnt["op:"+name]++
		res = g.expand(fmt.Sprintf("%s#%d", name, it.cnt["op:"+name]), rt)
	} else {
		res = g.expand(name, rt, all...)
	}
	cr.Res = res
	it.Calls = append(it.Calls, cr)
	return res, true
}

func (it *Interp) lenOf(v *V) *V {
	return it.mapIte(v, func(v *V) *V {
		switch v.K {
		case KSlice:
			return v.args[2]
		case KNil:
			return it.g.Int(0)
		case KStr:
			return it.g.Int(len(v.name))
		}
		if v.typ != nil && isStringT(v.typ) {
			return it.g.Fn("strlen", types.Typ[types.Int], v)
		}
		return it.g.Fn("len", types.Typ[types.Int], v)
	})
}

func (it *Interp) builtin(fr *frame, st *State, name string, c *ssa.CallCommon, args []*V, rt types.Type, pos token.Pos) (*V, bool) {
	g := it.g
	switch name {
	case "len":
		if at, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
			return g.Int(int(at.Len())), true
		}
		if _, ok := c.Args[0].Type().Underlying().(*types.Chan); ok { // changes all the time
			it.seq++
			return g.Fn(fmt.Sprintf("len(chan)#%d", it.seq), types.Typ[types.Int], args[0]), true
		}
		return it.lenOf(args[0]), true
	case "cap":
		return it.mapIte(args[0], func(v *V) *V { _, _, _, cp := it.sliceParts(v); return cp }), true
	case "append":
		return it.append(st, args[0], args[1], rt, pos)
	case "copy":
		return it.copy(st, args[0], args[1]), true
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if name == "min" {
				r = g.Ite(g.Cmp("<", a, r), a, r)
			} else {
				r = g.Ite(g.Cmp("<", r, a), a, r)
			}
		}
		return r, true
	case "close", "print", "println", "delete", "clear":
		it.seq++
		it.Calls = append(it.Calls, &CallRec{Name: "builtin:" + name, Args: args, Raw: args, Guard: it.conj(st.pc), Pos: pos, Fn: fr.fn, Loops: it.loops, Seq: it.seq})
		return nil, true
	case "recover":
		if it.Recovered != nil {
			return it.Recovered, true
		}
		return g.Nil(rt), true
	case "ssa:wrapnilchk":
		return args[0], true
	}
	panic(undecided("builtin " + name))
}

func (it *Interp) append(st *State, s, e *V, rt types.Type, pos token.Pos) (*V, bool) {
	g := it.g
	if s.K == KIte {
		return it.fork(st, s.args[0],
			func(x *State) (*V, bool) { return it.append(x, s.args[1], e, rt, pos) },
			func(x *State) (*V, bool) { return it.append(x, s.args[2], e, rt, pos) })
	}
	if e.K == KIte {
		return it.fork(st, e.args[0],
			func(x *State) (*V, bool) { return it.append(x, s, e.args[1], rt, pos) },
			func(x *State) (*V, bool) { return it.append(x, s, e.args[2], rt, pos) })
	}
	elem := elemOf(rt)
	base, off, ln, cp := it.sliceParts(s)
	var ebase, eoff, eln *V
	if e.typ != nil && isStringT(e.typ) || e.K == KStr {
		it.cnt["append"]++
		return g.expand(fmt.Sprintf("append%d", it.cnt["append"]), rt, s, e), true
	}
	ebase, eoff, eln, _ = it.sliceParts(e)
	if eln.K == KNum && eln.num == 0 {
		return s, true
	}
	get := func(b, o *V, i int) *V {
		return it.load(st, it.ptrSel(st, b, nil, Sel{Idx: g.Add(o, g.Int(i))}), elem)
	}
	if ln.K == KNum && eln.K == KNum && (cp.K == KNum || base == nil) {
		n, m := int(ln.num), int(eln.num)
		var ev []*V
		for i := 0; i < m; i++ {
			ev = append(ev, get(ebase, eoff, i))
		}
		if base != nil && n+m <= int(cp.num) {
			for i, v := range ev {
				it.store(st, it.ptrSel(st, base, nil, Sel{Idx: g.Add(off, g.Int(n+i))}), v, elem)
			}
			return g.mk(&V{K: KSlice, args: []*V{base, off, g.Int(n + m), cp}, typ: rt}), true
		}
		var a []*V
		for i := 0; i < n; i++ {
			a = append(a, get(base, off, i))
		}
		a = append(a, ev...)
		p := it.newObj(st, "append@"+it.p.Pos(pos), types.NewSlice(elem), g.Agg(types.NewSlice(elem), a...))
		return g.mk(&V{K: KSlice, args: []*V{p, g.Int(0), g.Int(n + m), g.Int(n + m)}, typ: rt}), true
	}
	// symbolic length: functional copy
	var content *V
	if base == nil {
		content = g.mk(&V{K: KZero, typ: elem})
		off = g.Int(0)
	} else {
		content = it.load(st, base, types.NewSlice(elem))
	}
	newLen := g.Add(ln, eln)
	if eln.K == KNum && off.K == KNum && off.num == 0 && content.K != KAgg {
		for i := 0; i < int(eln.num); i++ {
			content = it.storePath(content, []Sel{{Idx: g.Add(ln, g.Int(i))}}, get(ebase, eoff, i))
		}
	} else {
		it.cnt["append"]++
		content = g.mk(&V{K: KFn, name: fmt.Sprintf("appended%d", it.cnt["append"]), typ: types.NewSlice(elem), args: []*V{content, off, ln, e}})
	}
	p := it.newObj(st, "append@"+it.p.Pos(pos), types.NewSlice(elem), content)
	it.cnt["cap"]++
	return g.mk(&V{K: KSlice, args: []*V{p, g.Int(0), newLen, g.Fn(fmt.Sprintf("cap%d", it.cnt["cap"]), types.Typ[types.Int])}, typ: rt}), true
}

func (it *Interp) copy(st *State, d, s *V) *V {
	g := it.g
	if d.K == KIte || s.K == KIte {
		panic(undecided("copy of conditional slice"))
	}
	dn, sn := it.lenOf(d), it.lenOf(s)
	if dn.K == KNum && sn.K == KNum {
		n := int(math.Min(dn.num, sn.num))
		if n == 0 {
			return g.Int(0)
		}
		db, do, _, _ := it.sliceParts(d)
		sb, so, _, _ := it.sliceParts(s)
		elem := elemOf(d.typ)
		var vals []*V
		for i := 0; i < n; i++ {
			vals = append(vals, it.load(st, it.ptrSel(st, sb, nil, Sel{Idx: g.Add(so, g.Int(i))}), elem))
		}
		for i, v := range vals {
			it.store(st, it.ptrSel(st, db, nil, Sel{Idx: g.Add(do, g.Int(i))}), v, elem)
		}
		return g.Int(n)
	}
	db, do, _, _ := it.sliceParts(d)
	n := g.Ite(g.Cmp("<", dn, sn), dn, sn)
	if db == nil || db.K != KPtr {
		return n
	}
	elem := elemOf(d.typ)
	var src *V = s
	if s.typ == nil || !isStringT(s.typ) {
		if sb, so, _, _ := it.sliceParts(s); sb != nil {
			src = it.load(st, sb, types.NewSlice(elem))
			if so.K == KNum && so.num == 0 && do.K == KNum && do.num == 0 && len(db.path) == 0 && dn == sn {
				// whole contents
				st.mem[db.obj] = src
				return n
			}
		}
	}
	it.cnt["copy"]++
	nc := g.mk(&V{K: KFn, name: fmt.Sprintf("copied%d", it.cnt["copy"]), typ: types.NewSlice(elem), args: []*V{src}})
	it.store(st, db, nc, types.NewSlice(elem))
	return n
}

// ---------------------------------------------------------------- library models

func stdHandlers(it *Interp) {
	it.handlers["(*sync.WaitGroup).Go"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		f := cr.Raw[1]
		none := it.g.mk(&V{K: KTuple, typ: types.NewTuple()})
		event := func(m string, args ...*V) {
			it.seq++
			if h := it.handlers["(*sync.WaitGroup)."+m]; h != nil {
				h(it, st, &CallRec{Name: "(*sync.WaitGroup)." + m, Raw: args, Args: args, Guard: it.conj(st.pc), Pos: cr.Pos, Fn: cr.Fn, Loops: it.loops, Seq: it.seq})
			}
		}
		event("Add", cr.Raw[0], it.g.Int(1))
		it.seq++
		it.Gos = append(it.Gos, &CallRec{Name: "go", Recv: f, Guard: it.conj(st.pc), Pos: cr.Pos, Fn: cr.Fn, Loops: it.loops, Seq: it.seq})
		if it.RunGo {
			if f.K != KFunc {
				panic(undecided("goroutine of an unknown function"))
			}
			if _, ok := it.callFn(nil, st, f.fn, nil, f.args, types.NewTuple(), cr.Pos); !ok {
				return none, true
			}
		}
		event("Done", cr.Raw[0])
		return none, true
	}
	g := it.g
	f64 := types.Typ[types.Float64]
	un := func(name string) Handler {
		return func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			return it.mapIteN(cr.Raw[0], func(x *V) *V {
				if x.K == KNum {
					if f, ok := mathFns[name]; ok {
						y := f(x.num)
						if math.Abs(y) < 1e-15 && (name == "sin" || name == "cos") {
							y = 0
						}
						return g.Num(y)
					}
				}
				return g.Fn(name, f64, x)
			}), true
		}
	}
	for _, n := range []string{"Sqrt", "Sin", "Cos", "Tan", "Exp", "Floor", "Ceil", "Atan", "Acos", "Asin", "Log", "Trunc", "Log2", "Round", "Cbrt", "J1", "Exp2", "Log10"} {
		it.handlers["math."+n] = un(strings.ToLower(n))
	}
	bin := func(name string, f func(a, b float64) float64) Handler {
		return func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			a, b := cr.Raw[0], cr.Raw[1]
			if a.K == KNum && b.K == KNum {
				return g.Num(f(a.num, b.num)), true
			}
			return g.Fn(name, f64, a, b), true
		}
	}
	it.handlers["math.Pow"] = bin("pow", math.Pow)
	it.handlers["math.Atan2"] = bin("atan2", math.Atan2)
	it.handlers["math.Mod"] = bin("mod", math.Mod)
	it.handlers["math.Hypot"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		a, b := cr.Raw[0], cr.Raw[1]
		return g.Fn("sqrt", f64, g.Add(g.Mul(a, a), g.Mul(b, b))), true
	}
	it.handlers["math.Abs"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		a := cr.Raw[0]
		return g.Ite(g.Cmp("<", a, g.Num(0)), g.Neg(a), a), true
	}
	it.handlers["math.Max"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		a, b := cr.Raw[0], cr.Raw[1]
		return g.Ite(g.IsNaN(a), a, g.Ite(g.IsNaN(b), b, g.Ite(g.Cmp("<", a, b), b, a))), true
	}
	it.handlers["math.Min"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		a, b := cr.Raw[0], cr.Raw[1]
		return g.Ite(g.IsNaN(a), a, g.Ite(g.IsNaN(b), b, g.Ite(g.Cmp("<", b, a), b, a))), true
	}
	it.handlers["math.IsNaN"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return g.IsNaN(cr.Raw[0]), true }
	it.handlers["math.NaN"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return g.Num(math.NaN()), true }
	it.handlers["math.Inf"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		s := cr.Raw[0]
		if s.K == KNum {
			if s.num >= 0 {
				return g.Num(math.Inf(1)), true
			}
			return g.Num(math.Inf(-1)), true
		}
		return nil, false
	}
	it.handlers["math.IsInf"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		x, s := cr.Raw[0], cr.Raw[1]
		pos, neg := g.Cmp("==", x, g.Num(math.Inf(1))), g.Cmp("==", x, g.Num(math.Inf(-1)))
		if s.K == KNum {
			switch {
			case s.num > 0:
				return pos, true
			case s.num < 0:
				return neg, true
			}
			return g.Or(pos, neg), true
		}
		return nil, false
	}
	it.handlers["math.Modf"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		x := cr.Raw[0]
		t := g.Fn("trunc", f64, x)
		return g.mk(&V{K: KTuple, args: []*V{t, g.Sub(x, t)}, typ: types.NewTuple(types.NewVar(0, nil, "", f64), types.NewVar(0, nil, "", f64))}), true
	}
	it.handlers["math.Copysign"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		a, b := cr.Raw[0], cr.Raw[1]
		abs := g.Ite(g.Cmp("<", a, g.Num(0)), g.Neg(a), a)
		return g.Ite(g.Cmp("<", b, g.Num(0)), g.Neg(abs), abs), true
	}
	it.handlers["math.Signbit"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		return g.Cmp("<", cr.Raw[0], g.Num(0)), true
	}
	it.handlers["math.Sincos"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		x := cr.Raw[0]
		return g.mk(&V{K: KTuple, args: []*V{g.Fn("sin", f64, x), g.Fn("cos", f64, x)}, typ: types.NewTuple(types.NewVar(0, nil, "", f64), types.NewVar(0, nil, "", f64))}), true
	}
	ipkg := it.p.ssa.ImportedPackage("image")
	if ipkg != nil && ipkg.Type("Rectangle") != nil {
		rt, pt := ipkg.Type("Rectangle").Type(), ipkg.Type("Point").Type()
		min := func(a, b *V) *V { return g.Ite(g.Cmp("<", b, a), b, a) }
		max := func(a, b *V) *V { return g.Ite(g.Cmp("<", b, a), a, b) }
		it.handlers["image.Rect"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			a := cr.Raw
			return g.Agg(rt, g.Agg(pt, min(a[0], a[2]), min(a[1], a[3])), g.Agg(pt, max(a[0], a[2]), max(a[1], a[3]))), true
		}
		it.handlers["image.Pt"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			return g.Agg(pt, cr.Raw...), true
		}
		comp := func(r *V, i int) *V {
			return it.mapIte(r, func(r *V) *V { return g.Sub(r.args[1].args[i], r.args[0].args[i]) })
		}
		it.handlers["(image.Rectangle).Dx"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return comp(cr.Raw[0], 0), true }
		it.handlers["(image.Rectangle).Dy"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return comp(cr.Raw[0], 1), true }
		it.handlers["(image.Rectangle).Size"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			return g.Agg(pt, comp(cr.Raw[0], 0), comp(cr.Raw[0], 1)), true
		}
		it.handlers["(image.Rectangle).Empty"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			return g.Or(g.Cmp("<=", comp(cr.Raw[0], 0), g.Int(0)), g.Cmp("<=", comp(cr.Raw[0], 1), g.Int(0))), true
		}
	}
	nop := func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		return g.mk(&V{K: KTuple, typ: types.NewTuple()}), true
	}
	for _, n := range []string{"sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "log.Println", "log.Printf", "log.Print"} {
		it.handlers[n] = nop
	}
}

// mapIteN maps over alternatives only if all are constants; else applies f to
// the whole value.
func (it *Interp) mapIteN(v *V, f func(*V) *V) *V { return f(v) }

func sigParams(s *types.Signature) (r []types.Type) {
	for i := 0; i < s.Params().Len(); i++ {
		r = append(r, s.Params().At(i).Type())
	}
	return r
}

func fnParams(fn *ssa.Function) (r []types.Type) {
	if fn.Signature.Recv() != nil {
		r = append(r, fn.Signature.Recv().Type())
	}
	return append(r, sigParams(fn.Signature)...)
}

// impure library functions give a new result at each call.
func impure(name string) bool {
	n := strings.TrimLeft(name, "(*")
	for _, p := range []string{"math/rand.", "time.", "os.", "io.", "bufio.", "runtime.", "net/", "crypto/", "sync", "encoding/"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- maps

// Maps made during the evaluation are objects whose content is emptymap or
// mapset(content, key, value).

func (it *Interp) newMapObj(st *State, t types.Type) *V {
	return it.newObj(st, "map", t, it.g.Sym("emptymap", t))
}

func (it *Interp) mapContent(st *State, m *V) *V {
	if m.K != KPtr || len(m.path) > 0 {
		return nil
	}
	return it.content(st.mem, m.obj)
}

func (it *Interp) mapUpdate(st *State, m, k, v *V) {
	if c := it.mapContent(st, m); c != nil {
		st.mem[m.obj] = it.g.mk(&V{K: KFn, name: "mapset", typ: c.typ, args: []*V{c, k, v}})
	}
}

// mapEntries lists the entries, oldest first; ok is false if they are not known.
func (it *Interp) mapEntries(c *V) (ks, vs []*V, ok bool) {
	if c == nil {
		return nil, nil, false
	}
	if c.K == KFn && c.name == "emptymap" {
		return nil, nil, true
	}
	if c.K != KFn || c.name != "mapset" {
		return nil, nil, false
	}
	ks, vs, ok = it.mapEntries(c.args[0])
	if !ok {
		return
	}
	for i, k := range ks {
		if k == c.args[1] {
			vs = append([]*V(nil), vs...)
			vs[i] = c.args[2]
			return ks, vs, true
		}
		if it.g.Cmp("==", k, c.args[1]) != it.g.False {
			return nil, nil, false
		}
	}
	return append(ks[:len(ks):len(ks)], c.args[1]), append(vs[:len(vs):len(vs)], c.args[2]), true
}

func (it *Interp) mapLookup(st *State, m, k *V, elem types.Type, commaOk bool, rt types.Type) *V {
	c := it.mapContent(st, m)
	if c == nil {
		return nil
	}
	g := it.g
	v, ok := it.mapFind(c, k, elem)
	if v == nil {
		return nil
	}
	if commaOk {
		return g.mk(&V{K: KTuple, typ: rt, args: []*V{v, ok}})
	}
	return v
}

func (it *Interp) mapFind(c, k *V, elem types.Type) (v, ok *V) {
	g := it.g
	switch {
	case c.K == KFn && c.name == "emptymap":
		return g.Zero(elem), g.False
	case c.K == KFn && c.name == "mapset":
		eq := g.Cmp("==", c.args[1], k)
		if eq == g.True {
			return c.args[2], g.True
		}
		v, ok = it.mapFind(c.args[0], k, elem)
		if v == nil || eq == g.False {
			return
		}
		return g.Ite(eq, c.args[2], v), g.Or(eq, ok)
	}
	return nil, nil
}

func (it *Interp) mapRange(st *State, m *V) *V {
	ks, vs, ok := it.mapEntries(it.mapContent(st, m))
	if !ok {
		return nil
	}
	t := types.NewSlice(types.Typ[types.Int])
	p := it.newObj(st, "iter", t, it.g.Int(0))
	return it.g.mk(&V{K: KFn, name: "mapiter", typ: t, args: append([]*V{p}, append(append([]*V(nil), ks...), vs...)...)})
}

func (it *Interp) mapNext(st *State, x *V, rt types.Type) *V {
	if x.K != KFn || x.name != "mapiter" {
		return nil
	}
	g := it.g
	o := x.args[0].obj
	i := it.content(st.mem, o)
	if i.K != KNum {
		panic(undecided("position in a map"))
	}
	n := (len(x.args) - 1) / 2
	k := int(i.num)
	tt := rt.(*types.Tuple)
	zero := func(t types.Type) *V {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return g.Int(0)
		}
		return g.Zero(t)
	}
	if k >= n {
		return g.mk(&V{K: KTuple, typ: rt, args: []*V{g.False, zero(tt.At(1).Type()), zero(tt.At(2).Type())}})
	}
	st.mem[o] = g.Int(k + 1)
	return g.mk(&V{K: KTuple, typ: rt, args: []*V{g.True, x.args[1+k], x.args[1+n+k]}})
}
