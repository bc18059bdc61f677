package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", 60, "path-sensitive error and resource typestate over SSA", "For every call that yields an error, in the renderer, the server and the commands, all paths that follow are explored under the assumption that the error is not nil, through branches, merges, variables, helpers and deferred functions. Each must end with the function returning an error that is not nil, with a panic or a call that never returns, or, in an HTTP handler, with an error response. For every buffered writer that is created, every path on which the function may return without error must flush it after the last use and see the outcome; for every scanner, ask for its error; every file that was opened must be closed on every path.", checkC19)
}

// kinds of abstract values
const (
	kErr     = 'E' // the error being followed; not nil
	kNonNil  = 'N'
	kNil     = 'Z'
	kTrue    = 'T'
	kFalse   = 'F'
	kText    = 'D' // made from the error
	kRes     = 'R' // the resource being followed
	kUnknown = 0
)

var errT = types.Universe.Lookup("error").Type()

func isErrT(t types.Type) bool { return types.Identical(t, errT) }

// epath is the state of a path.
type epath struct {
	v     map[ssa.Value]byte
	cell  map[ssa.Value]byte
	orig  map[ssa.Value]ssa.Value // loads that still hold the value of a variable
	from  map[ssa.Value]ssa.Value // values that variables were assigned
	rep   byte                    // 'p' printed, 'h' sent as HTTP error
	done  bool                    // obligation met
	moved bool                    // handed to somebody else
	live  bool
	// the error was compared with nil
	tested bool
	defs   []*ssa.Defer
	trace  []string
}

func (s *epath) clone() *epath {
	n := *s
	n.v, n.cell, n.orig, n.from = map[ssa.Value]byte{}, map[ssa.Value]byte{}, map[ssa.Value]ssa.Value{}, map[ssa.Value]ssa.Value{}
	for k, x := range s.from {
		n.from[k] = x
	}
	for k, x := range s.v {
		n.v[k] = x
	}
	for k, x := range s.cell {
		n.cell[k] = x
	}
	for k, x := range s.orig {
		n.orig[k] = x
	}
	n.defs = s.defs[:len(s.defs):len(s.defs)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	return &n
}

func (s *epath) key(b *ssa.BasicBlock) string {
	var l []string
	for k, x := range s.v {
		l = append(l, k.Name()+string(rune(x)))
	}
	for k, x := range s.cell {
		l = append(l, "*"+k.Name()+string(rune(x)))
	}
	for k, x := range s.orig {
		l = append(l, k.Name()+"<"+x.Name())
	}
	for k, x := range s.from {
		l = append(l, k.Name()+"="+x.Name())
	}
	sort.Strings(l)
	return fmt.Sprint(b.Index, l, s.rep, s.done, s.moved, s.live, s.tested, len(s.defs))
}

// eout is how a function may end.
type eout struct {
	st      *epath
	noret   bool
	results []byte
	ret     *ssa.Return
}

// errs explores paths.
type errs struct {
	w     *W
	res   string // resource method that is due ("" when following an error)
	src   ssa.Instruction
	quiet bool // errors need not be followed beyond messages
	paths int
	noRet map[*ssa.Function]int
}

var neverReturn = map[string]bool{"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "log.Panic": true, "log.Panicf": true, "log.Panicln": true, "runtime.Goexit": true}

// noReturn reports whether a function never returns.
func (e *errs) noReturn(f *ssa.Function) bool {
	if neverReturn[fnName(f)] {
		return true
	}
	if !e.w.p.inModule(f) || len(f.Blocks) == 0 {
		return false
	}
	switch e.noRet[f] {
	case 1:
		return false
	case 2:
		return true
	}
	e.noRet[f] = 1
	seen := map[*ssa.BasicBlock]bool{}
	var ends func(b *ssa.BasicBlock) bool
	ends = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				if g := in.Call.StaticCallee(); g != nil && e.noReturn(g) {
					return true
				}
			case *ssa.Return:
				return false
			}
		}
		for _, s := range b.Succs {
			if !ends(s) {
				return false
			}
		}
		return true
	}
	if ends(f.Blocks[0]) && f.Recover == nil {
		e.noRet[f] = 2
		return true
	}
	return false
}

func isPrint(n string) bool {
	return strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "log.Print") || n == "log.Output" || strings.HasPrefix(n, "(*log.Logger).Print")
}

// addrOf returns the variable an address belongs to.
func addrOf(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.IndexAddr:
		return addrOf(x.X)
	}
	return v
}

func constKind(c *ssa.Const) byte {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Interface, *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Chan:
			return kNil
		}
		return kUnknown
	}
	if c.Value.Kind() == constant.Bool {
		if constant.BoolVal(c.Value) {
			return kTrue
		}
		return kFalse
	}
	return kUnknown
}

func (s *epath) kind(v ssa.Value) byte {
	if k, ok := s.v[v]; ok {
		return k
	}
	if c, ok := v.(*ssa.Const); ok {
		return constKind(c)
	}
	return kUnknown
}

func (s *epath) set(v ssa.Value, k byte) {
	delete(s.orig, v)
	for c, x := range s.from {
		if x == v {
			delete(s.from, c)
		}
	}
	if k == kUnknown {
		delete(s.v, v)
	} else {
		s.v[v] = k
	}
}

// know records what a branch tells about a value.
func (s *epath) know(v ssa.Value, k byte) {
	if o := s.kind(v); o != kUnknown && o != k {
		return
	}
	s.v[v] = k
	if c, ok := s.orig[v]; ok {
		s.cell[c] = k
		if x, ok := s.from[c]; ok && x != v {
			s.know(x, k)
		}
	}
	switch x := v.(type) {
	case *ssa.ChangeInterface:
		s.know(x.X, k)
	case *ssa.Extract:
		// the file of a failed call is nil
		if k == kNonNil && isErrT(x.Type()) {
			for _, r := range *x.Tuple.Referrers() {
				if y, ok := r.(*ssa.Extract); ok && y != x && s.v[y] == kRes {
					s.live = false
				}
			}
		}
	}
}

// branch returns the states of the two sides of a condition (nil if impossible).
func (e *errs) branch(s *epath, c ssa.Value) (t, f *epath) {
	switch s.kind(c) {
	case kTrue:
		return s, nil
	case kFalse:
		return nil, s
	}
	t, f = s.clone(), s.clone()
	t.v[c], f.v[c] = kTrue, kFalse
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			f, t = e.branch(s, x.X)
			return
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return
		}
		a, b := x.X, x.Y
		if s.kind(a) == kNil {
			a, b = b, a
		}
		eq, ne := t, f
		if x.Op == token.NEQ {
			eq, ne = f, t
		}
		if s.kind(b) == kNil {
			switch s.kind(a) {
			case kErr, kNonNil, kRes:
				ne.tested = ne.tested || s.kind(a) == kErr
				eq = nil
			case kNil:
				ne = nil
			default:
				eq.know(a, kNil)
				ne.know(a, kNonNil)
			}
		} else if s.kind(a) == kErr && e.expected(b) || s.kind(b) == kErr && e.expected(a) {
			eq = nil
		}
		if x.Op == token.NEQ {
			return ne, eq
		}
		return eq, ne
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && len(x.Call.Args) > 0 && s.kind(x.Call.Args[0]) == kErr {
			switch fnName(g) {
			case "errors.Is":
				if e.expected(x.Call.Args[1]) {
					t = nil
				}
			case "os.IsExist":
				if e.mkdir() {
					t = nil
				}
			}
		}
	}
	return
}

func (e *errs) mkdir() bool {
	c, ok := e.src.(ssa.CallInstruction)
	if !ok {
		return false
	}
	g := c.Common().StaticCallee()
	return g != nil && strings.HasPrefix(fnName(g), "os.Mkdir")
}

// expected tells errors that are no failure: the end of a file that is read
// piece by piece, or a directory that exists already.
func (e *errs) expected(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return false
	}
	switch g.String() {
	case "io.EOF":
		c, ok := e.src.(ssa.CallInstruction)
		if !ok {
			return false
		}
		n := ""
		if c.Common().IsInvoke() {
			n = c.Common().Method.Name()
		} else if g := c.Common().StaticCallee(); g != nil {
			n = g.Name()
		}
		return strings.HasPrefix(n, "Read")
	case "os.ErrExist":
		return e.mkdir()
	}
	return false
}

// run explores a function from an instruction (or from its start).
func (e *errs) run(f *ssa.Function, b *ssa.BasicBlock, k int, st *epath, depth int) (outs []eout) {
	seen := map[string]bool{}
	type item struct {
		b    *ssa.BasicBlock
		k    int
		from *ssa.BasicBlock
		st   *epath
	}
	work := []item{{b, k, nil, st}}
	steps := 0
next:
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if steps++; steps > 20000 {
			panic(undecided("too many paths in " + f.String()))
		}
		s := it.st
		if it.from != nil {
			// all phis read their operands before any is set
			var ps []*ssa.Phi
			var ks []byte
			for _, in := range it.b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, q := range it.b.Preds {
					if q == it.from {
						ps, ks = append(ps, p), append(ks, s.kind(p.Edges[i]))
						break
					}
				}
			}
			for i, p := range ps {
				s.set(p, ks[i])
			}
			key := s.key(it.b)
			if seen[key] {
				continue
			}
			seen[key] = true
			if p := it.b.Instrs[0].Pos(); p.IsValid() {
				s.trace = append(s.trace, e.w.p.Pos(p))
			}
		}
		// instructions may split the state
		states := []*epath{s}
		for _, in := range it.b.Instrs[it.k:] {
			var nxt []*epath
			for _, s := range states {
				r := e.step(f, in, s, depth)
				nxt = append(nxt, r...)
			}
			states = nxt
			if len(states) == 0 {
				e.paths++
				outs = append(outs, eout{noret: true})
				continue next
			}
			switch in := in.(type) {
			case *ssa.Return:
				for _, s := range states {
					var rs []byte
					for _, r := range in.Results {
						rs = append(rs, s.kind(r))
					}
					e.paths++
					outs = append(outs, eout{st: s, results: rs, ret: in})
				}
			case *ssa.Panic:
				e.paths++
				outs = append(outs, eout{noret: true})
			case *ssa.Jump:
				for _, s := range states {
					work = append(work, item{it.b.Succs[0], 0, it.b, s.clone()})
				}
			case *ssa.If:
				for _, s := range states {
					t, f := e.branch(s, in.Cond)
					if f != nil {
						work = append(work, item{it.b.Succs[1], 0, it.b, f.clone()})
					}
					if t != nil {
						work = append(work, item{it.b.Succs[0], 0, it.b, t.clone()})
					}
				}
			}
		}
	}
	return
}

func (e *errs) step(f *ssa.Function, in ssa.Instruction, s *epath, depth int) []*epath {
	one := []*epath{s}
	switch x := in.(type) {
	case *ssa.Phi:
	case *ssa.RunDefers:
		ds := s.defs
		s.defs = nil
		cur := one
		for i := len(ds) - 1; i >= 0; i-- {
			var nxt []*epath
			for _, s := range cur {
				nxt = append(nxt, e.call(f, ds[i], s, depth)...)
			}
			cur = nxt
		}
		return cur
	case *ssa.Defer:
		s.defs = append(s.defs, x)
		if e.res == "Close" && e.discharges(x, s, depth) {
			s.done = true
		}
	case *ssa.Go:
		for _, a := range x.Call.Args {
			if s.kind(a) == kRes {
				s.moved = true
			}
		}
	case *ssa.Call:
		return e.call(f, x, s, depth)
	case *ssa.Store:
		a := addrOf(x.Addr)
		k := s.kind(x.Val)
		switch a.(type) {
		case *ssa.Alloc, *ssa.Parameter, *ssa.FreeVar:
			if k == kUnknown {
				if a == x.Addr {
					delete(s.cell, a)
				}
			} else {
				s.cell[a] = k
			}
			for l, c := range s.orig {
				if c == a {
					delete(s.orig, l)
				}
			}
			delete(s.from, a)
			if a == x.Addr {
				s.from[a] = x.Val
			}
			if fv, ok := a.(*ssa.FreeVar); ok && (k == kErr || k == kRes) && e.kept(f, fv) {
				s.moved = true
			}
		default:
			if k == kErr && e.keptAddr(a) || k == kRes {
				s.moved = true
			}
		}
	case *ssa.Send:
		if k := s.kind(x.X); k == kErr || k == kRes {
			s.moved = true
		}
	case *ssa.MapUpdate:
		if k := s.kind(x.Value); k == kErr || k == kRes {
			s.moved = true
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := addrOf(x.X)
			k := s.cell[a]
			s.set(x, k)
			if a == x.X {
				s.orig[x] = a
			}
		case token.NOT:
			switch s.kind(x.X) {
			case kTrue:
				s.set(x, kFalse)
			case kFalse:
				s.set(x, kTrue)
			default:
				s.set(x, kUnknown)
			}
		default:
			s.set(x, kUnknown)
		}
	case *ssa.MakeInterface:
		k := s.kind(x.X)
		switch {
		case k == kRes || k == kText || k == kErr:
		case isErrT(x.Type()):
			k = kNonNil
		default:
			k = kUnknown
		}
		s.set(x, k)
	case *ssa.ChangeInterface:
		s.set(x, s.kind(x.X))
	case *ssa.ChangeType:
		s.set(x, s.kind(x.X))
	case *ssa.Slice:
		k := s.kind(x.X)
		if k == kUnknown {
			k = s.cell[addrOf(x.X)]
		}
		s.set(x, k)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			s.set(x, s.kind(x.X))
		} else {
			s.set(x, kUnknown)
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			s.set(x, s.kind(ta.X))
		} else if ok && s.kind(ta.X) == kErr && isErrT(ta.AssertedType) {
			s.set(x, kTrue)
		}
		// the results of calls were set by the call
	case *ssa.BinOp:
		k := byte(kUnknown)
		a, b := s.kind(x.X), s.kind(x.Y)
		if x.Op == token.ADD && (a == kText || b == kText) {
			k = kText
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			r := byte(0)
			non := func(k byte) bool { return k == kErr || k == kNonNil || k == kRes }
			if a == kNil && b == kNil {
				r = kTrue
			} else if a == kNil && non(b) || b == kNil && non(a) {
				r = kFalse
				s.tested = s.tested || a == kErr || b == kErr
			}
			if r != 0 && x.Op == token.NEQ {
				r = map[byte]byte{kTrue: kFalse, kFalse: kTrue}[r]
			}
			k = r
		}
		s.set(x, k)
	case *ssa.Alloc:
		delete(s.cell, x)
		delete(s.from, x)
		if pt, ok := x.Type().Underlying().(*types.Pointer); ok && isErrT(pt.Elem()) {
			s.cell[x] = kNil
		}
		s.set(x, kUnknown)
	case *ssa.MakeClosure:
		s.set(x, kUnknown)
	default:
		if v, ok := in.(ssa.Value); ok {
			s.set(v, kUnknown)
		}
	}
	return one
}

func argsOf(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

// call applies the effect of a call.
func (e *errs) call(f *ssa.Function, in ssa.CallInstruction, s *epath, depth int) []*epath {
	c := in.Common()
	val, _ := in.(*ssa.Call)
	setRes := func(s *epath, ks []byte) {
		if val == nil {
			return
		}
		s.set(val, kUnknown)
		if len(ks) == 1 {
			s.set(val, ks[0])
		}
		if val.Referrers() != nil {
			for _, r := range *val.Referrers() {
				if x, ok := r.(*ssa.Extract); ok {
					s.set(x, kUnknown)
					if x.Index < len(ks) {
						s.set(x, ks[x.Index])
					}
				}
			}
		}
	}
	name := ""
	g := c.StaticCallee()
	if g != nil {
		name = fnName(g)
	}
	args := argsOf(c)
	has := func(k byte) bool {
		for _, a := range args {
			if s.kind(a) == k {
				return true
			}
		}
		return false
	}
	// a call of the source again: its error is another one
	if e.res != "" && has(kRes) {
		m := ""
		if c.IsInvoke() {
			m = c.Method.Name()
		} else if g != nil && g.Signature.Recv() != nil && s.kind(args[0]) == kRes {
			m = g.Name()
		}
		if m == e.res {
			s.done = true
		} else if e.res == "Flush" && m != "Buffered" && m != "Available" && m != "Size" {
			s.done = false
		}
	}
	switch {
	case g != nil && e.noReturn(g) && !e.w.p.inModule(g):
		return nil
	case name == "errors.New" || name == "fmt.Errorf":
		k := byte(kNonNil)
		setRes(s, []byte{k})
		return []*epath{s}
	case name == "errors.Join":
		k := byte(kUnknown)
		if has(kErr) || has(kNonNil) {
			k = kNonNil
		}
		setRes(s, []byte{k})
		return []*epath{s}
	case strings.HasPrefix(name, "fmt.Sprint"):
		k := byte(kUnknown)
		if has(kErr) || has(kText) {
			k = kText
		}
		setRes(s, []byte{k})
		return []*epath{s}
	case c.IsInvoke() && c.Method.Name() == "Error" && s.kind(c.Value) == kErr:
		setRes(s, []byte{kText})
		return []*epath{s}
	case isPrint(name):
		if (has(kErr) || has(kText) || s.tested) && s.rep != 'h' {
			s.rep = 'p'
		}
		setRes(s, nil)
		return []*epath{s}
	case name == "net/http.Error" || c.IsInvoke() && c.Method.Name() == "WriteHeader":
		if n, ok := args[len(args)-1].(*ssa.Const); e.res == "" && (!ok || n.Value == nil || n.Int64() >= 400) {
			s.rep = 'h'
		}
		setRes(s, nil)
		return []*epath{s}
	}
	// helpers and closures are followed if they get at something
	var fn *ssa.Function
	var bind []ssa.Value
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		fn, bind = mc.Fn.(*ssa.Function), mc.Bindings
	} else if g != nil {
		fn = g
	}
	if fn != nil && e.w.p.inModule(fn) && len(fn.Blocks) > 0 {
		relevant := false
		n := &epath{v: map[ssa.Value]byte{}, cell: map[ssa.Value]byte{}, orig: map[ssa.Value]ssa.Value{}, from: map[ssa.Value]ssa.Value{}, rep: s.rep, done: s.done, moved: s.moved, live: s.live, tested: s.tested, trace: s.trace}
		back := map[ssa.Value]ssa.Value{}
		pass := func(p, a ssa.Value) {
			if k := s.kind(a); k != kUnknown {
				n.v[p] = k
				relevant = relevant || k == kErr || k == kNonNil || k == kRes || k == kText
			}
			if pt, ok := a.Type().Underlying().(*types.Pointer); ok && (isErrT(pt.Elem()) || s.cell[a] != 0) {
				switch a.(type) {
				case *ssa.Alloc, *ssa.FreeVar, *ssa.Parameter:
					back[p] = a
					n.cell[p] = s.cell[a]
					relevant = true
				}
			}
		}
		for i, a := range c.Args {
			if i < len(fn.Params) {
				pass(fn.Params[i], a)
			}
		}
		for i, b := range bind {
			pass(fn.FreeVars[i], b)
		}
		if relevant && depth < 6 {
			var res []*epath
			for _, o := range e.run(fn, fn.Blocks[0], 0, n, depth+1) {
				if o.noret {
					continue
				}
				q := s.clone()
				q.rep, q.done, q.moved, q.live, q.tested = o.st.rep, o.st.done, o.st.moved, o.st.live, o.st.tested
				for p, a := range back {
					if k := o.st.cell[p]; k != 0 {
						q.cell[a] = k
					} else {
						delete(q.cell, a)
					}
					delete(q.from, a)
					for l, c := range q.orig {
						if c == a {
							delete(q.orig, l)
						}
					}
				}
				setRes(q, o.results)
				res = append(res, q)
			}
			return dedupe(res, in)
		}
		if e.noReturn(fn) {
			return nil
		}
	} else if has(kRes) && e.res == "Close" && e.w.p.inModule(f) && g == nil && !c.IsInvoke() {
		// a function value may take over
		if _, ok := c.Value.(*ssa.Builtin); !ok {
			s.moved = true
		}
	}
	if in == e.src {
		// executed again
		setRes(s, nil)
		return []*epath{s}
	}
	setRes(s, nil)
	return []*epath{s}
}

func dedupe(l []*epath, in ssa.Instruction) (out []*epath) {
	seen := map[string]bool{}
	for _, s := range l {
		k := s.key(in.Block())
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return
}

// discharges reports whether a deferred call meets the obligation.
func (e *errs) discharges(d *ssa.Defer, s *epath, depth int) bool {
	n := s.clone()
	n.done = false
	for _, o := range e.call(d.Parent(), d, n, depth) {
		if !o.done {
			return false
		}
	}
	return true
}

// kept reports whether a captured variable is consulted by the function that owns it.
func (e *errs) kept(f *ssa.Function, fv *ssa.FreeVar) bool {
	par := f.Parent()
	if par == nil {
		return false
	}
	idx := -1
	for i, v := range f.FreeVars {
		if v == fv {
			idx = i
		}
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(f) || idx < 0 {
				continue
			}
			if v, ok := mc.Bindings[idx].(*ssa.FreeVar); ok {
				return e.kept(par, v)
			}
			if isResult(par, mc.Bindings[idx]) || consulted(mc.Bindings[idx]) {
				return true
			}
		}
	}
	return false
}

func consulted(addr ssa.Value) bool {
	if addr.Referrers() == nil {
		return false
	}
	for _, r := range *addr.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL && usedAsError(u) {
			return true
		}
	}
	return false
}

// usedAsError reports whether an error is returned, tested or passed on.
func usedAsError(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Return, *ssa.BinOp, ssa.CallInstruction:
			return true
		case *ssa.Phi:
			return true
		case ssa.Value:
			if usedAsError(r) {
				return true
			}
		}
	}
	return false
}

// keptAddr reports whether an error stored in memory is looked at somewhere.
func (e *errs) keptAddr(a ssa.Value) bool {
	switch a := a.(type) {
	case *ssa.Global:
		return true
	case *ssa.FieldAddr:
		for _, f := range e.w.p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						if q, ok := u.X.(*ssa.FieldAddr); ok && q.Field == a.Field && types.Identical(q.X.Type(), a.X.Type()) && usedAsError(u) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// errScope tells the functions whose error handling matters.
func errScope(f *ssa.Function) (lib, cmd bool) {
	q := fnPkg(f)
	if q == nil {
		return
	}
	s := strings.TrimPrefix(strings.TrimPrefix(q.Path(), modPath), "/")
	return inScope(f), strings.HasPrefix(s, "cmd/")
}

func lastErr(c *ssa.CallCommon) bool {
	rs := c.Signature().Results()
	return rs.Len() > 0 && isErrT(rs.At(rs.Len()-1).Type())
}

// std reports whether a value is standard output or standard error.
func stdStream(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			g, ok := x.X.(*ssa.Global)
			return ok && (g.String() == "os.Stdout" || g.String() == "os.Stderr")
		}
		return false
	}
}

// neverFails tells writers that hold everything in memory, or report later.
func neverFails(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		}
		switch types.TypeString(v.Type(), nil) {
		case "*bytes.Buffer", "*strings.Builder", "*bufio.Writer", "*text/tabwriter.Writer":
			return true
		}
		return false
	}
}

// exempt tells calls whose error says nothing about input or output.
func exempt(c *ssa.CallCommon) bool {
	m := ""
	if c.IsInvoke() {
		m = c.Method.Name()
	} else if g := c.StaticCallee(); g != nil {
		m = g.Name()
		n := fnName(g)
		switch {
		case strings.HasPrefix(n, "fmt.Print"):
			return true
		case strings.HasPrefix(n, "fmt.Fprint"):
			return stdStream(c.Args[0]) || neverFails(c.Args[0])
		case n == "io.WriteString":
			return stdStream(c.Args[0]) || neverFails(c.Args[0])
		case strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "(*strings.Builder).Write") || strings.HasPrefix(n, "(*bufio.Writer).Write"):
			return true
		}
	}
	return m == "Close"
}

func isHandler(f *ssa.Function) bool {
	for _, p := range f.Params {
		if types.TypeString(p.Type(), nil) == "net/http.ResponseWriter" {
			return true
		}
	}
	return false
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if g := c.StaticCallee(); g != nil {
		return fnName(g)
	}
	return c.Value.Name()
}

// after explores what follows a call, with a value of its result being of a kind.
func (e *errs) after(f *ssa.Function, in ssa.Instruction, v ssa.Value, k byte) []eout {
	st := &epath{v: map[ssa.Value]byte{v: k}, cell: map[ssa.Value]byte{}, orig: map[ssa.Value]ssa.Value{}, from: map[ssa.Value]ssa.Value{}, live: true}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok && d != in && precedes(d, in) {
				st.defs = append(st.defs, d)
			}
		}
	}
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in {
			return e.run(f, b, i+1, st, 0)
		}
	}
	return nil
}

// precedes reports whether a is executed on every path to b.
func precedes(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// errCell reports whether a deferred function ends with the error of the
// function that deferred it being set.
func (e *errs) errCell(f *ssa.Function, s *epath) bool {
	for _, fv := range f.FreeVars {
		if k := s.cell[fv]; (k == kNonNil || k == kErr) && e.kept(f, fv) {
			return true
		}
	}
	for _, p := range f.Params {
		if k := s.cell[p]; k == kErr || k == kNonNil {
			return true
		}
	}
	return false
}

func (e *errs) trail(s *epath) string {
	t := s.trace
	if len(t) > 6 {
		t = t[len(t)-6:]
	}
	if len(t) == 0 {
		return ""
	}
	return " (via " + strings.Join(t, ", ") + ")"
}

// failing checks the paths that follow an error.
func (e *errs) failing(f *ssa.Function, in ssa.Instruction, v ssa.Value, what string, cmd bool) {
	e.src = in
	for _, o := range e.after(f, in, v, kErr) {
		if o.noret || o.st.moved {
			continue
		}
		if isHandler(f) && o.st.rep == 'h' {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() > 0 && isErrT(rs.At(rs.Len()-1).Type()) {
			k := o.results[rs.Len()-1]
			if k == kErr || k == kNonNil {
				continue
			}
			e.w.fail("%s: when %s fails, %s may return %s as if it had not%s", e.w.p.Pos(in.Pos()), what, f.Name(), e.w.p.Pos(o.ret.Pos()), e.trail(o.st))
			return
		}
		if e.errCell(f, o.st) {
			continue
		}
		if (cmd || e.mkdir()) && o.st.rep == 'p' {
			continue
		}
		// a text made from the error
		if n := len(o.results); cmd && n > 0 && o.results[n-1] == kText {
			continue
		}
		// a helper that is given the error is judged where it is called
		e.w.fail("%s: when %s fails, %s goes on as if it had not%s", e.w.p.Pos(in.Pos()), what, f.Name(), e.trail(o.st))
		return
	}
}

func checkC19(r *R) {
	r.Rule("errors", "", func(w *W) {
		e := &errs{w: w, noRet: map[*ssa.Function]int{}}
		for _, f := range w.p.funcs {
			lib, cmd := errScope(f)
			if !lib && !cmd || f.Synthetic != "" {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					w.at(f)
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						if call, ok := in.(*ssa.Call); ok {
							w.oblige(1)
							w.Inlined[f]++
							e.failing(f, in, call, "the function that panicked", cmd)
						}
						continue
					}
					if !lastErr(c.Common()) || exempt(c.Common()) {
						continue
					}
					w.oblige(1)
					w.Inlined[f]++
					what := short(calleeName(c.Common()))
					call, ok := in.(*ssa.Call)
					if !ok {
						w.fail("%s: the error of %s is lost: the call is deferred or made by a goroutine of its own", w.p.Pos(in.Pos()), what)
						continue
					}
					var v ssa.Value = call
					if n := c.Common().Signature().Results().Len(); n > 1 {
						v = nil
						for _, x := range *call.Referrers() {
							if x, ok := x.(*ssa.Extract); ok && x.Index == n-1 {
								v = x
							}
						}
						if v == nil {
							v = call // ignored: no path can use it
							e.src = in
						}
					}
					e.failing(f, in, v, what, cmd)
				}
			}
		}
		w.cases += e.paths
	})
	due := func(rule, method, what string, makes func(n string) bool) {
		r.Rule(rule, "", func(w *W) {
			e := &errs{w: w, res: method, noRet: map[*ssa.Function]int{}}
			for _, f := range w.p.funcs {
				lib, cmd := errScope(f)
				if !lib && !cmd || f.Synthetic != "" {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						call, ok := in.(*ssa.Call)
						if !ok || call.Call.StaticCallee() == nil || !makes(fnName(call.Call.StaticCallee())) {
							continue
						}
						w.oblige(1)
						w.at(f)
						w.Inlined[f]++
						var v ssa.Value = call
						if _, ok := call.Type().(*types.Tuple); ok {
							v = nil
							for _, x := range *call.Referrers() {
								if x, ok := x.(*ssa.Extract); ok && x.Index == 0 {
									v = x
								}
							}
							if v == nil {
								w.fail("%s: what %s returns is never closed", w.p.Pos(in.Pos()), short(fnName(call.Call.StaticCallee())))
								continue
							}
						}
						e.src = in
						for _, o := range e.after(f, in, v, kRes) {
							if o.noret || o.st.done || o.st.moved || !o.st.live {
								continue
							}
							ret := false
							for _, k := range o.results {
								ret = ret || k == kRes
							}
							if ret {
								continue
							}
							rs := f.Signature.Results()
							if method != "Close" && rs.Len() > 0 && isErrT(rs.At(rs.Len()-1).Type()) {
								if k := o.results[rs.Len()-1]; k == kErr || k == kNonNil {
									continue
								}
							}
							w.fail("%s: %s without %s%s", w.p.Pos(o.ret.Pos()), f.Name()+" may return", what, e.trail(o.st))
							break
						}
					}
				}
			}
			w.oblige(1)
			w.cases += e.paths
		})
	}
	due("flushing", "Flush", "flushing what it wrote to the buffer", func(n string) bool { return strings.HasPrefix(n, "bufio.NewWriter") })
	due("scanning", "Err", "asking the scanner for an error", func(n string) bool { return n == "bufio.NewScanner" })
	due("closing", "Close", "closing the file", func(n string) bool {
		return n == "os.Open" || n == "os.Create" || n == "os.OpenFile" || n == "os.CreateTemp"
	})
}
