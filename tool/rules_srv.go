package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", 20, "typestate analysis of the server's lock and of bake admission over all paths, panics included", "Every HTTP handler is followed along all paths of its control flow graph, with its helpers inlined; any call that is not known to be harmless may also panic, upon which the deferred functions run. Checked are: the lock is free when a request ends, is never taken twice nor released when free; fields that requests write are accessed only with the lock held; the shared sampler is used only by a request that was admitted, that is, which changed some field, under the lock, from the value it tested to another, where every other critical section preserves that value, and every path of the admitted request restores it. A channel that a request closes must be the one that the bake listens to, must not be nil, and must be taken out of its field (or a flag changed) before the lock is released, so that it is not closed twice.", checkC21)
}

// aval is an abstract value: an unknown (identified by id), or a constant, an
// address, a closure, a comparison of an unknown with a constant, or a tuple.
type aval struct {
	id     int
	cst    string // constant, "" if unknown
	addr   string // "T.f": address of a field of a locked struct
	cell   *acell
	fn     *ssa.Function
	bind   []*aval
	cond   *aval // cond compared with want
	want   string
	neg    bool
	tup    []*aval
	field  string // field it was loaded from
	shared bool   // loaded from, or stored to, a guarded field
}
type acell struct{ name string }

type sdefer struct {
	c    *ssa.CallCommon
	fn   *aval
	args []*aval
	in   ssa.Instruction
}

type tokenF struct{ field, from, to string }

// sst is the state along a path.
type sst struct {
	held  map[string]bool
	fld   map[string]*aval
	ent   map[string]*aval // values at the start of the critical section
	known map[int]string   // unknowns that were tested
	cells map[*acell]*aval
	trans map[tokenF]bool // changes made by the critical sections so far
	own   bool            // admitted
	shut  map[*aval]bool  // channels that were closed
	rec   *bool           // recover() in the deferred function that runs
	trace []string
}

func (s *sst) clone() *sst {
	n := &sst{held: map[string]bool{}, fld: map[string]*aval{}, ent: map[string]*aval{}, known: map[int]string{}, cells: map[*acell]*aval{}, trans: map[tokenF]bool{}, shut: map[*aval]bool{}, own: s.own, rec: s.rec, trace: s.trace[:len(s.trace):len(s.trace)]}
	for k, v := range s.held {
		n.held[k] = v
	}
	for k, v := range s.fld {
		n.fld[k] = v
	}
	for k, v := range s.ent {
		n.ent[k] = v
	}
	for k, v := range s.known {
		n.known[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.trans {
		n.trans[k] = v
	}
	for k, v := range s.shut {
		n.shut[k] = v
	}
	return n
}

func (s *sst) value(v *aval) string {
	if v == nil {
		return ""
	}
	if v.cst != "" {
		return v.cst
	}
	if v.cond != nil {
		k := s.value(v.cond)
		if k == "" || k == "nonnil" && v.want != "nil" {
			return ""
		}
		eq := k == v.want
		if eq != v.neg {
			return "true"
		}
		return "false"
	}
	return s.known[v.id]
}

type sout struct {
	st    *sst
	res   *aval
	panic bool
}

type sframe struct {
	fn     *ssa.Function
	env    map[ssa.Value]*aval
	defers []sdefer
	visits map[*ssa.BasicBlock]int
	panicF bool
}

func (f *sframe) clone() *sframe {
	n := &sframe{fn: f.fn, env: map[ssa.Value]*aval{}, defers: f.defers[:len(f.defers):len(f.defers)], visits: map[*ssa.BasicBlock]int{}, panicF: f.panicF}
	for k, v := range f.env {
		n.env[k] = v
	}
	for k, v := range f.visits {
		n.visits[k] = v
	}
	return n
}

// srv explores the paths of the request handlers.
type srv struct {
	w       *W
	locks   map[string]string // struct type -> mutex field
	guarded map[string]bool   // fields written by requests
	tok     *tokenF
	cands   map[tokenF]bool
	uses    int
	bakes   []ssa.Instruction // calls that render, until cancelled
	bakeCh  map[string]bool   // fields with the channel given to them
	signals map[string]bool   // channels that requests close
	nilled  map[string]bool   // fields that requests set to nil
	n       int
	paths   int
	steps   int
	depth   int
	touch   map[*ssa.Function]bool
	errs    map[string]string
	fns     map[*ssa.Function]bool
	pkg     *types.Package
}

func (x *srv) fail(st *sst, in ssa.Instruction, f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	k := x.w.p.Pos(in.Pos()) + m
	if _, ok := x.errs[k]; !ok {
		t := st.trace
		if len(t) > 14 {
			t = t[len(t)-14:]
		}
		x.errs[k] = fmt.Sprintf("%s: %s; path: %s", x.w.p.Pos(in.Pos()), m, strings.Join(t, ", "))
	}
}

func (x *srv) unk() *aval { x.n++; return &aval{id: x.n} }

// lockedField returns "T.f" if v is the address of a field of a struct with a mutex.
func (x *srv) lockedField(fa *ssa.FieldAddr) string {
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	if _, ok := x.locks[t.String()]; !ok {
		return ""
	}
	return t.String() + "." + t.Underlying().(*types.Struct).Field(fa.Field).Name()
}

func typeOfField(f string) string { return f[:strings.LastIndex(f, ".")] }
func shortField(f string) string  { return f[strings.LastIndex(f, ".")+1:] }

func (x *srv) val(fr *sframe, st *sst, v ssa.Value) *aval {
	if a, ok := fr.env[v]; ok {
		return a
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if _, ok := v.Type().Underlying().(*types.Struct); ok {
				return x.unk()
			}
			return &aval{cst: "nil"}
		}
		if v.Value.Kind() == constant.Bool {
			return &aval{cst: v.Value.String()}
		}
		return &aval{cst: "=" + v.Value.ExactString()}
	case *ssa.Function:
		return &aval{fn: v}
	}
	a := x.unk()
	fr.env[v] = a
	return a
}

func (x *srv) exec(fn *ssa.Function, args, bind []*aval, st *sst) []sout {
	if x.depth > 20 {
		panic(undecided("recursion in " + fn.String()))
	}
	x.depth++
	defer func() { x.depth-- }()
	x.fns[fn] = true
	fr := &sframe{fn: fn, env: map[ssa.Value]*aval{}, visits: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			fr.env[p] = bind[i]
		}
	}
	return x.run(fr, st, fn.Blocks[0], nil, 0)
}

func (x *srv) enter(fr *sframe, st *sst, b, from *ssa.BasicBlock) []sout {
	if fr.visits[b] >= 2 {
		return nil // a further iteration reaches no new state
	}
	fr.visits[b]++
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
		}
	}
	vs := map[ssa.Value]*aval{}
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok && pi >= 0 {
			vs[p] = x.val(fr, st, p.Edges[pi])
		}
	}
	for k, v := range vs {
		fr.env[k] = v
	}
	return x.run(fr, st, b, from, 0)
}

// unwind runs the deferred functions of a frame, after a panic or a return.
func (x *srv) unwind(fr *sframe, st *sst, panicking bool, then func(st *sst, panicking bool) []sout) []sout {
	if len(fr.defers) == 0 {
		return then(st, panicking)
	}
	d := fr.defers[len(fr.defers)-1]
	f2 := fr.clone()
	f2.defers = f2.defers[:len(f2.defers)-1]
	st = st.clone()
	rec := false
	old := st.rec
	if panicking {
		st.rec = &rec
	} else {
		st.rec = nil
	}
	var r []sout
	for _, o := range x.callA(f2, st, d.c, d.fn, d.args, d.in) {
		still := panicking
		if o.st.rec != nil && *o.st.rec {
			still = false
		}
		o.st.rec = old
		r = append(r, x.unwind(f2, o.st, still || o.panic, then)...)
	}
	return r
}

func (x *srv) mayPanicInstr(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.TypeAssert:
		return !in.CommaOk
	case *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.SliceToArrayPointer, *ssa.MapUpdate:
		return true
	case *ssa.BinOp:
		return in.Op == token.QUO || in.Op == token.REM
	}
	return false
}

func (x *srv) run(fr *sframe, st *sst, b, from *ssa.BasicBlock, idx int) []sout {
	for i := idx; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > 2000000 {
			panic(undecided("too many paths"))
		}
		in := b.Instrs[i]
		panicOut := func(st *sst) []sout {
			return x.unwind(fr, st, true, func(st *sst, p bool) []sout { return []sout{{st, nil, p}} })
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.val(fr, st, in.Cond)
			var r []sout
			for k, want := range []string{"true", "false"} {
				s2 := st.clone()
				if v := s2.value(c); v != "" && v != want {
					continue
				}
				x.assume(s2, c, want)
				r = append(r, x.enter(fr.clone(), s2, b.Succs[k], b)...)
			}
			return r
		case *ssa.Jump:
			return x.enter(fr, st, b.Succs[0], b)
		case *ssa.Return:
			var a *aval
			if len(in.Results) == 1 {
				a = x.val(fr, st, in.Results[0])
			} else {
				a = &aval{}
				for _, r := range in.Results {
					a.tup = append(a.tup, x.val(fr, st, r))
				}
			}
			return []sout{{st, a, false}}
		case *ssa.RunDefers:
			next := i + 1
			ds := fr.clone()
			ds.defers = nil
			return x.unwind(fr, st, false, func(st *sst, p bool) []sout {
				if p {
					return []sout{{st, nil, true}}
				}
				return x.run(ds, st, b, from, next)
			})
		case *ssa.Panic:
			return panicOut(st)
		case *ssa.Defer:
			d := sdefer{c: &in.Call, in: in}
			if !in.Call.IsInvoke() {
				d.fn = x.val(fr, st, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.val(fr, st, a))
			}
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
		case *ssa.Call:
			var fv *aval
			if !in.Call.IsInvoke() {
				fv = x.val(fr, st, in.Call.Value)
			}
			var args []*aval
			for _, a := range in.Call.Args {
				args = append(args, x.val(fr, st, a))
			}
			outs := x.callA(fr, st, &in.Call, fv, args, in)
			var r []sout
			for _, o := range outs {
				f2 := fr
				if len(outs) > 1 {
					f2 = fr.clone()
				}
				if o.panic {
					r = append(r, x.unwind(f2, o.st, true, func(st *sst, p bool) []sout { return []sout{{st, nil, p}} })...)
					continue
				}
				f2.env[in] = o.res
				r = append(r, x.run(f2, o.st, b, from, i+1)...)
			}
			return r
		case *ssa.Go:
			// a goroutine is a request of its own
			fv := x.val(fr, st, in.Call.Value)
			if fv.fn != nil && x.touch[fv.fn] {
				s2 := x.start()
				s2.cells = st.clone().cells
				x.request(fv.fn, fv.bind, s2, in)
			}
		case *ssa.Send:
			x.blocking(st, in)
		case *ssa.Select:
			if in.Blocking {
				x.blocking(st, in)
			}
			fr.env[in] = x.unk()
		default:
			if x.mayPanicInstr(in) {
				s2, f2 := st.clone(), fr.clone()
				var r []sout
				r = append(r, x.unwind(f2, s2, true, func(st *sst, p bool) []sout { return []sout{{st, nil, p}} })...)
				x.instr(fr, st, in)
				return append(r, x.run(fr, st, b, from, i+1)...)
			}
			x.instr(fr, st, in)
		}
	}
	return nil
}

func (x *srv) blocking(st *sst, in ssa.Instruction) {
	for t, h := range st.held {
		if h {
			x.fail(st, in, "waits for a channel while holding the lock of %s", short(t))
		}
	}
}

func (x *srv) assume(st *sst, c *aval, want string) {
	if c.cond != nil {
		eq := (want == "true") != c.neg
		switch {
		case eq:
			x.learn(st, c.cond, c.want)
		case c.want == "nil":
			x.learn(st, c.cond, "nonnil")
		case c.want == "true":
			x.learn(st, c.cond, "false")
		case c.want == "false":
			x.learn(st, c.cond, "true")
		}
		return
	}
	x.learn(st, c, want)
}

func (x *srv) learn(st *sst, c *aval, v string) {
	if c.cond != nil {
		x.assume(st, c, v)
		return
	}
	if c.cst == "" {
		st.known[c.id] = v
	}
}

func (x *srv) instr(fr *sframe, st *sst, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		c := &acell{in.Comment}
		fr.env[in] = &aval{cell: c, cst: "nonnil"}
		z := x.unk()
		switch u := in.Type().(*types.Pointer).Elem().Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.Bool {
				z = &aval{cst: "false"}
			}
		case *types.Pointer, *types.Interface, *types.Chan, *types.Map, *types.Slice, *types.Signature:
			z = &aval{cst: "nil"}
		}
		st.cells[c] = z
	case *ssa.FieldAddr:
		if f := x.lockedField(in); f != "" {
			fr.env[in] = &aval{addr: f, cst: "nonnil"}
			return
		}
		// a field of a struct held in a guarded field is part of it
		a := x.val(fr, st, in.X)
		if a.addr != "" {
			fr.env[in] = a
			return
		}
		fr.env[in] = x.unk()
	case *ssa.IndexAddr:
		a := x.val(fr, st, in.X)
		if a.addr != "" {
			fr.env[in] = a
			return
		}
		fr.env[in] = x.unk()
	case *ssa.Store:
		a := x.val(fr, st, in.Addr)
		v := x.val(fr, st, in.Val)
		switch {
		case a.addr != "":
			x.access(st, in, a.addr, true)
			if v.cst == "" && v.cond == nil {
				v.shared = true
			}
			st.fld[a.addr] = v
			if _, ok := in.Addr.(*ssa.FieldAddr); !ok || x.lockedField(in.Addr.(*ssa.FieldAddr)) == "" {
				st.fld[a.addr] = x.unk()
			}
		case a.cell != nil:
			st.cells[a.cell] = v
		}
		if g, ok := in.Addr.(*ssa.Global); ok && !x.anyHeld(st) {
			x.fail(st, in, "package variable %s is written without holding a lock", g.Name())
		}
	case *ssa.MakeClosure:
		a := &aval{fn: in.Fn.(*ssa.Function), cst: "nonnil"}
		for _, b := range in.Bindings {
			a.bind = append(a.bind, x.val(fr, st, b))
		}
		fr.env[in] = a
	case *ssa.MakeChan, *ssa.MakeMap, *ssa.MakeSlice:
		fr.env[in.(ssa.Value)] = &aval{id: x.unk().id, cst: "nonnil"}
	case *ssa.UnOp:
		a := x.val(fr, st, in.X)
		switch in.Op {
		case token.MUL:
			switch {
			case a.addr != "":
				x.access(st, in, a.addr, false)
				v := st.fld[a.addr]
				if v == nil {
					v = x.unk()
					st.fld[a.addr] = v
				}
				if fa, ok := in.X.(*ssa.FieldAddr); !ok || x.lockedField(fa) == "" {
					v = x.unk()
				}
				if v.field == "" && x.guarded[a.addr] {
					v.field = a.addr
				}
				if v.cst == "" && v.cond == nil {
					v.shared = x.guarded[a.addr]
				}
				fr.env[in] = v
			case a.cell != nil:
				v := st.cells[a.cell]
				if v == nil {
					v = x.unk()
				}
				fr.env[in] = v
			default:
				fr.env[in] = x.unk()
			}
		case token.NOT:
			if v := st.value(a); v != "" {
				fr.env[in] = &aval{cst: map[string]string{"true": "false", "false": "true"}[v]}
			} else if a.cond != nil {
				fr.env[in] = &aval{cond: a.cond, want: a.want, neg: !a.neg}
			} else {
				fr.env[in] = &aval{cond: a, want: "false"}
			}
		case token.ARROW:
			x.blocking(st, in)
			fr.env[in] = x.unk()
		default:
			fr.env[in] = x.unk()
		}
	case *ssa.BinOp:
		fr.env[in] = x.unk()
		if in.Op == token.EQL || in.Op == token.NEQ {
			a, b := x.val(fr, st, in.X), x.val(fr, st, in.Y)
			neg := in.Op == token.NEQ
			va, vb := st.value(a), st.value(b)
			switch {
			case va != "" && vb != "":
				if va == vb && va != "nonnil" {
					fr.env[in] = &aval{cst: fmt.Sprint(!neg)}
				} else if va != vb && (va == "nil" || vb == "nil" || va == "true" || va == "false" || va[0] == '=' && vb[0] == '=') {
					fr.env[in] = &aval{cst: fmt.Sprint(neg)}
				}
			case b.cst != "" && b.cst != "nonnil":
				fr.env[in] = &aval{cond: a, want: b.cst, neg: neg}
			case a.cst != "" && a.cst != "nonnil":
				fr.env[in] = &aval{cond: b, want: a.cst, neg: neg}
			}
		}
	case *ssa.Extract:
		a := x.val(fr, st, in.Tuple)
		if in.Index < len(a.tup) {
			fr.env[in] = a.tup[in.Index]
		} else {
			fr.env[in] = x.unk()
		}
	case *ssa.ChangeType:
		fr.env[in] = x.val(fr, st, in.X)
	case *ssa.ChangeInterface:
		fr.env[in] = x.val(fr, st, in.X)
	case *ssa.MakeInterface:
		a := x.val(fr, st, in.X)
		fr.env[in] = &aval{id: a.id, cst: "nonnil", shared: a.shared}
	default:
		if v, ok := in.(ssa.Value); ok {
			fr.env[v] = x.unk()
		}
	}
}

func (x *srv) anyHeld(st *sst) bool {
	for _, h := range st.held {
		if h {
			return true
		}
	}
	return false
}

func (x *srv) access(st *sst, in ssa.Instruction, f string, write bool) {
	x.uses++
	if write {
		x.guarded[f] = true
	}
	if !x.guarded[f] || st.held[typeOfField(f)] {
		return
	}
	what := "read"
	if write {
		what = "written"
	}
	x.fail(st, in, "field %s, which requests share, is %s without holding the lock", shortField(f), what)
}

func (x *srv) lock(st *sst, in ssa.Instruction, t string) {
	st.trace = append(st.trace, "lock at "+x.w.p.Pos(in.Pos()))
	if st.held[t] {
		x.fail(st, in, "the lock is taken while it is held already")
	}
	st.held[t] = true
	// other requests may have run
	for f := range x.guarded {
		if typeOfField(f) != t {
			continue
		}
		v := x.unk()
		v.shared = true
		if x.tok != nil && st.own && f == x.tok.field {
			v = &aval{cst: x.tok.to}
		}
		st.fld[f] = v
		st.ent[f] = v
	}
}

// closeChan closes a channel: closing a nil channel, or one that is closed
// already, panics.
func (x *srv) closeChan(st *sst, a *aval, in ssa.Instruction) {
	x.uses++
	if st.shut[a] {
		x.fail(st, in, "closes a channel that this request closed already")
	}
	st.shut[a] = true
	if a.field != "" {
		x.signals[a.field] = true
	}
	for f := range x.guarded {
		if st.fld[f] != a {
			continue
		}
		x.signals[f] = true
		if x.nilled[f] && st.value(a) != "nonnil" {
			x.fail(st, in, "closes %s, which is nil when there is nothing to cancel", shortField(f))
		}
		if !st.held[typeOfField(f)] {
			x.fail(st, in, "closes %s without the lock, and leaves it for another request to close again", shortField(f))
		}
	}
}

// stillClosed reports a closed channel that stays in its field when the lock
// is released, unless a flag was changed that was tested before.
func (x *srv) stillClosed(st *sst, in ssa.Instruction, t string) {
	for f := range x.guarded {
		if typeOfField(f) != t || !st.shut[st.fld[f]] {
			continue
		}
		flag := false
		for g := range x.guarded {
			a, b := st.value(st.ent[g]), st.value(st.fld[g])
			if g != f && typeOfField(g) == t && a != "" && b != "" && a != b {
				flag = true
			}
		}
		if !flag {
			x.fail(st, in, "%s was closed and remains in place: the next request closes it again, and panics", shortField(f))
		}
	}
}

func (x *srv) unlock(st *sst, in ssa.Instruction, t string) {
	st.trace = append(st.trace, "unlock at "+x.w.p.Pos(in.Pos()))
	if !st.held[t] {
		x.fail(st, in, "the lock is released while it is not held")
	}
	x.stillClosed(st, in, t)
	st.held[t] = false
	for f := range x.guarded {
		if typeOfField(f) != t {
			continue
		}
		if st.value(st.fld[f]) == "nil" {
			x.nilled[f] = true
		}
		a, b := st.value(st.ent[f]), st.value(st.fld[f])
		if a != "" && b != "" && a != b {
			st.trans[tokenF{f, a, b}] = true
		}
	}
	if x.tok == nil || typeOfField(x.tok.field) != t {
		return
	}
	e, f := st.ent[x.tok.field], st.fld[x.tok.field]
	a, b := st.value(e), st.value(f)
	name := shortField(x.tok.field)
	switch {
	case st.own && b == x.tok.from:
		st.own = false
		st.trace = append(st.trace, "bake ended")
	case st.own && b == x.tok.to:
	case st.own:
		x.fail(st, in, "%s is set to an unknown value during a bake", name)
	case e == f || a == b && a != "":
	case a == x.tok.from && b == x.tok.to:
		st.own = true
		st.trace = append(st.trace, "bake admitted")
	case b == x.tok.from:
		x.fail(st, in, "%s is set to %s by a request that does not own the bake: another one may start while the sampler is in use", name, b)
	default:
		x.fail(st, in, "%s is set to %s without testing it first", name, b)
	}
}

// harmless lists library functions that do not panic.
func harmless(n string) bool {
	for _, p := range []string{"log.Print", "(*log.Logger).Print", "errors.New", "fmt.Errorf", "fmt.Sprint", "fmt.Print", "time.Now", "time.Since", "(time.", "(error).Error"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (x *srv) callA(fr *sframe, st *sst, c *ssa.CallCommon, fv *aval, args []*aval, in ssa.Instruction) []sout {
	one := func() []sout { return []sout{{st, x.unk(), false}} }
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "recover":
			if st.rec != nil && !*st.rec {
				r := true
				st.rec = &r
				return []sout{{st, &aval{cst: "nonnil"}, false}}
			}
			return []sout{{st, &aval{cst: "nil"}, false}}
		case "close":
			x.closeChan(st, args[0], in)
			if st.value(args[0]) == "nonnil" {
				return one()
			}
			return append([]sout{{st.clone(), nil, true}}, one()...)
		}
		return one()
	}
	var fn *ssa.Function
	var bind []*aval
	if fv != nil && fv.fn != nil {
		fn, bind = fv.fn, fv.bind
	}
	name := "a function value"
	if c.IsInvoke() {
		name = c.Method.FullName()
	} else if fn != nil {
		name = fnName(fn)
	}
	if strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex).") {
		f := ""
		if len(args) > 0 {
			f = args[0].addr
		}
		if f == "" {
			if fa, ok := c.Args[0].(*ssa.FieldAddr); ok {
				f = x.lockedField(fa)
			}
		}
		if f == "" {
			panic(undecided("lock at " + x.w.p.Pos(in.Pos()) + " is not a field"))
		}
		t := typeOfField(f)
		switch name[strings.LastIndex(name, ".")+1:] {
		case "Lock":
			x.lock(st, in, t)
			return one()
		case "Unlock":
			x.unlock(st, in, t)
			return one()
		case "TryLock":
			s2 := st.clone()
			x.lock(s2, in, t)
			return []sout{{st, &aval{cst: "false"}, false}, {s2, &aval{cst: "true"}, false}}
		}
		panic(undecided(name + " at " + x.w.p.Pos(in.Pos())))
	}
	if fn != nil && fn.Blocks != nil && (x.touch[fn] || isWrapper(fn) && x.touchesWrapped(fn)) {
		return x.exec(fn, args, bind, st)
	}
	if fn != nil && fn.Name() == "SampleWithCancel" && fnPkg(fn) != x.pkg {
		for _, a := range args {
			if a == nil {
				continue
			}
			for f := range x.guarded {
				if st.fld[f] == a || a.field == f {
					x.bakeCh[f] = true
				}
			}
		}
		x.bakes = append(x.bakes, in)
	}
	// a call of something else: it may use what it is given, and may panic
	all := args
	for i, a := range all {
		if a != nil && a.shared && i < len(c.Args) && exclusive(c.Args[i].Type()) {
			x.useShared(st, in, name)
		}
	}
	if c.IsInvoke() {
		if a := x.val(fr, st, c.Value); a.shared {
			x.useShared(st, in, name)
		}
	}
	res := x.unk()
	if rs := c.Signature().Results(); rs.Len() > 1 {
		for i := 0; i < rs.Len(); i++ {
			res.tup = append(res.tup, x.unk())
		}
	}
	if harmless(name) {
		if name == "errors.New" || name == "fmt.Errorf" {
			res = &aval{cst: "nonnil"}
		}
		return []sout{{st, res, false}}
	}
	s2 := st.clone()
	s2.trace = append(s2.trace, "panic in "+short(name)+" at "+x.w.p.Pos(in.Pos()))
	return []sout{{st, res, false}, {s2, nil, true}}
}

// exclusive reports whether values of a type must not be used concurrently.
func exclusive(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice:
		return true
	}
	return false
}

func (x *srv) useShared(st *sst, in ssa.Instruction, name string) {
	x.uses++
	if x.anyHeld(st) {
		return
	}
	if x.tok == nil {
		for t := range st.trans {
			x.cands[t] = true
		}
		if len(st.trans) == 0 {
			x.fail(st, in, "%s uses shared data without being admitted", short(name))
		}
		return
	}
	if !st.own {
		x.fail(st, in, "%s uses shared data, but the request has not been admitted (or has ended its bake already)", short(name))
	}
}

func (x *srv) touchesWrapped(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && x.touch[g] {
					return true
				}
			}
		}
	}
	return false
}

func (x *srv) start() *sst {
	return &sst{held: map[string]bool{}, fld: map[string]*aval{}, ent: map[string]*aval{}, known: map[int]string{}, cells: map[*acell]*aval{}, trans: map[tokenF]bool{}, shut: map[*aval]bool{}}
}

func (x *srv) request(fn *ssa.Function, bind []*aval, st *sst, at ssa.Instruction) {
	st.trace = append(st.trace, "request "+fn.String())
	for _, o := range x.exec(fn, nil, bind, st) {
		x.paths++
		last := at
		if last == nil {
			last = fn.Blocks[0].Instrs[0]
		}
		how := "returns"
		if o.panic {
			how = "panics"
		}
		if x.anyHeld(o.st) {
			x.fail(o.st, last, "%s %s while holding the lock", fn.Name(), how)
		}
		if x.tok != nil && o.st.own {
			x.fail(o.st, last, "%s %s, but %s remains %s: no bake will be admitted again", fn.Name(), how, shortField(x.tok.field), x.tok.to)
		}
	}
}

func checkC21(r *R) {
	r.Rule("lock and admission", "", func(w *W) {
		p := w.p
		pkg := p.Pkg("api").Pkg
		x := &srv{w: w, locks: map[string]string{}, guarded: map[string]bool{}, cands: map[tokenF]bool{}, touch: map[*ssa.Function]bool{}, errs: map[string]string{}, nilled: map[string]bool{}, bakeCh: map[string]bool{}, signals: map[string]bool{}, fns: map[*ssa.Function]bool{}, pkg: pkg}
		sc := pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if s, ok := tn.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					switch s.Field(i).Type().String() {
					case "sync.Mutex", "sync.RWMutex", "*sync.Mutex":
						x.locks[tn.Type().String()] = s.Field(i).Name()
					}
				}
			}
		}
		if len(x.locks) == 0 {
			w.fail("no struct of package api has a lock")
			return
		}
		// functions that access a locked struct, directly or through calls
		var fns []*ssa.Function
		for _, f := range p.funcs {
			if fnPkg(f) == pkg {
				fns = append(fns, f)
			}
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok && x.lockedField(fa) != "" {
						x.touch[f] = true
					}
				}
			}
		}
		for ch := true; ch; {
			ch = false
			for _, f := range fns {
				if x.touch[f] {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						var g *ssa.Function
						switch in := in.(type) {
						case ssa.CallInstruction:
							g = in.Common().StaticCallee()
						case *ssa.MakeClosure:
							g = in.Fn.(*ssa.Function)
						}
						if g != nil && (x.touch[g] || isWrapper(g) && x.touchesWrapped(g)) {
							x.touch[f], ch = true, true
						}
					}
				}
			}
		}
		// handlers: functions with a request argument
		var roots []*ssa.Function
		for _, f := range fns {
			if f.Synthetic != "" {
				continue
			}
			for i := 0; i < f.Signature.Params().Len(); i++ {
				if f.Signature.Params().At(i).Type().String() == "*net/http.Request" {
					roots = append(roots, f)
					x.touch[f] = true
				}
			}
		}
		if len(roots) < 3 {
			panic(anchorErr("request handlers of package api"))
		}
		o := newOwner(p, roots...)
		es, n, _ := o.effects()
		w.oblige(n)
		for _, e := range es {
			if strings.HasPrefix(e.why, "package variable") && !isSync(e.addr) {
				w.where = p.Pos(e.in.Pos()) + " " + e.in.Parent().String()
				w.fail("a request writes to %s, which concurrent requests share (reached by %s)", e.why, o.path(e.in.Parent()))
			}
		}
		all := func() {
			x.errs = map[string]string{}
			for _, f := range roots {
				x.request(f, nil, x.start(), nil)
			}
		}
		all() // finds the fields that are written
		all() // finds how requests are admitted
		w.oblige(x.uses + x.paths)
		base := x.errs
		best := base
		if len(x.cands) == 0 {
			if len(base) == 0 && x.uses == 0 {
				w.fail("no shared state found")
			}
		} else {
			var ts []tokenF
			for t := range x.cands {
				ts = append(ts, t)
			}
			sort.Slice(ts, func(i, j int) bool { return fmt.Sprint(ts[i]) < fmt.Sprint(ts[j]) })
			best = nil
			for i := range ts {
				x.tok = &ts[i]
				all()
				if best == nil || len(x.errs) < len(best) {
					best = x.errs
				}
			}
		}
		for f := range x.signals {
			w.oblige(1)
			if len(x.bakes) > 0 && !x.bakeCh[f] {
				w.where = p.Pos(x.bakes[0].Pos())
				w.fail("requests close %s, but that is not the channel that the bake listens to: it can not be cancelled", shortField(f))
			}
		}
		for f := range x.bakeCh {
			w.oblige(1)
			if len(x.signals) == 0 && x.chanField(f) {
				w.where = p.Pos(x.bakes[0].Pos())
				w.fail("the bake listens to %s, but no request closes it: it can not be cancelled", shortField(f))
			}
		}
		for f := range x.fns {
			w.Inlined[f]++
		}
		var ms []string
		for _, e := range best {
			ms = append(ms, e)
		}
		sort.Strings(ms)
		for _, e := range ms {
			if i := strings.Index(e, ": "); i > 0 {
				w.where = e[:i]
				e = e[i+2:]
			}
			w.fail("%s", e)
		}
	})
}

func (x *srv) chanField(f string) bool {
	for n := range x.locks {
		if n != typeOfField(f) {
			continue
		}
		tn, _ := x.pkg.Scope().Lookup(n[strings.LastIndex(n, ".")+1:]).(*types.TypeName)
		if tn == nil {
			return false
		}
		s := tn.Type().Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == shortField(f) {
				_, ok := s.Field(i).Type().Underlying().(*types.Chan)
				return ok
			}
		}
	}
	return false
}

// isSync reports whether a written value is a channel.
func isSync(v ssa.Value) bool {
	if v == nil {
		return false
	}
	_, ok := v.Type().Underlying().(*types.Chan)
	return ok
}
