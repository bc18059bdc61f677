package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Termination: every loop has a ranking argument, every cycle of calls goes down
// the structure of an argument (size-change termination).

type natLoop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	latch  []*ssa.BasicBlock
}

func natLoops(f *ssa.Function) []*natLoop {
	m := map[*ssa.BasicBlock]*natLoop{}
	var r []*natLoop
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := m[s]
			if l == nil {
				l = &natLoop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				m[s] = l
				r = append(r, l)
			}
			l.latch = append(l.latch, b)
			st := []*ssa.BasicBlock{b}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				st = append(st, x.Preds...)
			}
		}
	}
	return r
}

// irreducible reports a cycle without a dominating head.
func irreducible(f *ssa.Function) bool {
	state := map[*ssa.BasicBlock]int{}
	bad := false
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if s.Dominates(b) {
				continue
			}
			switch state[s] {
			case 0:
				dfs(s)
			case 1:
				bad = true
			}
		}
		state[b] = 2
	}
	if len(f.Blocks) > 0 {
		dfs(f.Blocks[0])
	}
	return bad
}

func (l *natLoop) pos() token.Pos {
	best := token.NoPos
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && (!best.IsValid() || p < best) {
				best = p
			}
		}
	}
	return best
}

func (l *natLoop) has(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && (l.blocks[in.Block()] || in.Parent() != l.head.Parent())
}

// every reports whether b is on every way round the loop.
func (l *natLoop) every(b *ssa.BasicBlock) bool {
	if !l.blocks[b] {
		return false
	}
	for _, x := range l.latch {
		if !b.Dominates(x) {
			return false
		}
	}
	return true
}

type rel struct {
	x  ssa.Value
	op token.Token
	y  ssa.Value
}

type termer struct {
	p  *Prog
	o  *owner
	m  *modref
	lo map[ssa.Value]bool // in progress

	limit  ssa.Value                 // what the counter is known to be below
	inl    map[ssa.Value][]ssa.Value // results of calls, in terms of their arguments
	site   map[ssa.Value]*ssa.Call   // the call an inlined value came from
	inning map[*ssa.Function]bool
	boxes  map[string]bool // types of values in interfaces
}

func newTermer(p *Prog, o *owner) *termer {
	return &termer{p: p, o: o, m: newModref(p), lo: map[ssa.Value]bool{}, inl: map[ssa.Value][]ssa.Value{}, site: map[ssa.Value]*ssa.Call{}, inning: map[*ssa.Function]bool{}}
}

// results lists what a call to a helper may return, expressed in its arguments;
// nil if that is not possible.
func (t *termer) results(v ssa.Value) []ssa.Value {
	if r, ok := t.inl[v]; ok {
		return r
	}
	idx := 0
	c, ok := v.(*ssa.Call)
	if !ok {
		e, is := v.(*ssa.Extract)
		if !is {
			return nil
		}
		if c, ok = e.Tuple.(*ssa.Call); !ok {
			return nil
		}
		idx = e.Index
	}
	g := c.Common().StaticCallee()
	if g == nil || len(g.Blocks) == 0 || !t.p.inModule(g) || t.inning[g] || len(g.FreeVars) > 0 {
		return nil
	}
	t.inning[g] = true
	defer delete(t.inning, g)
	var r []ssa.Value
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || b == g.Recover {
			continue
		}
		if idx >= len(ret.Results) {
			r = nil
			break
		}
		x := t.clone(ret.Results[idx], g, c, 0)
		if x == nil {
			r = nil
			break
		}
		r = append(r, x)
	}
	t.inl[v] = r
	return r
}

// clone copies an expression of g with the arguments of call c filled in.
func (t *termer) clone(v ssa.Value, g *ssa.Function, c *ssa.Call, depth int) ssa.Value {
	if depth > 12 {
		return nil
	}
	sub := func(x ssa.Value) ssa.Value { return t.clone(x, g, c, depth+1) }
	done := func(x ssa.Value) ssa.Value { t.site[x] = c; return x }
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return v
	case *ssa.Parameter:
		for i, p := range g.Params {
			if p == v && i < len(c.Common().Args) {
				return c.Common().Args[i]
			}
		}
	case *ssa.BinOp:
		n := *v
		n.X, n.Y = sub(v.X), sub(v.Y)
		if n.X != nil && n.Y != nil {
			return done(&n)
		}
	case *ssa.UnOp:
		n := *v
		if n.X = sub(v.X); n.X != nil && v.Op != token.ARROW {
			return done(&n)
		}
	case *ssa.Convert:
		n := *v
		if n.X = sub(v.X); n.X != nil {
			return done(&n)
		}
	case *ssa.ChangeType:
		n := *v
		if n.X = sub(v.X); n.X != nil {
			return done(&n)
		}
	case *ssa.Field:
		n := *v
		if n.X = sub(v.X); n.X != nil {
			return done(&n)
		}
	case *ssa.FieldAddr:
		n := *v
		if n.X = sub(v.X); n.X != nil {
			return done(&n)
		}
	case *ssa.Index:
		n := *v
		n.X, n.Index = sub(v.X), sub(v.Index)
		if n.X != nil && n.Index != nil {
			return done(&n)
		}
	case *ssa.IndexAddr:
		n := *v
		n.X, n.Index = sub(v.X), sub(v.Index)
		if n.X != nil && n.Index != nil {
			return done(&n)
		}
	case *ssa.Slice:
		n := *v
		n.X = sub(v.X)
		ok := n.X != nil
		if v.Low != nil {
			n.Low = sub(v.Low)
			ok = ok && n.Low != nil
		}
		if v.High != nil {
			n.High = sub(v.High)
			ok = ok && n.High != nil
		}
		if ok && v.Max == nil {
			return done(&n)
		}
	case *ssa.Call:
		switch f := v.Common().Value.(type) {
		case *ssa.Builtin:
			if f.Name() != "len" && f.Name() != "cap" {
				return nil
			}
		case *ssa.Function:
			if f.String() != "math.Floor" && f.String() != "math.Trunc" {
				if r := t.results(v); len(r) == 1 {
					return sub(r[0])
				}
				return nil
			}
		default:
			return nil
		}
		n := *v
		n.Call.Args = nil
		for _, a := range v.Call.Args {
			x := sub(a)
			if x == nil {
				return nil
			}
			n.Call.Args = append(n.Call.Args, x)
		}
		return done(&n)
	case *ssa.Extract:
		if r := t.results(v); len(r) == 1 {
			return sub(r[0])
		}
	}
	return nil
}

// see looks through a helper with a single result.
func (t *termer) see(v ssa.Value) ssa.Value {
	for i := 0; i < 4; i++ {
		r := t.results(v)
		if len(r) != 1 {
			break
		}
		v = r[0]
	}
	return v
}

// block is where a value is evaluated, in its original function.
func (t *termer) block(v ssa.Instruction) *ssa.BasicBlock {
	if x, ok := v.(ssa.Value); ok {
		for t.site[x] != nil {
			v = t.site[x]
			x = t.site[x]
		}
	}
	return v.Block()
}

// guards lists what holds whenever the loop goes round.
func (t *termer) guards(l *natLoop) (rels []rel, bools []ssa.Value) {
	var bs []*ssa.BasicBlock
	for b := range l.blocks {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		if !l.every(b) || len(b.Instrs) == 0 {
			continue
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		yes, no := l.blocks[b.Succs[0]], l.blocks[b.Succs[1]]
		// a branch that leads only to the exit is as good as the exit
		if yes && !l.returns(b.Succs[0], b) {
			yes = false
		}
		if no && !l.returns(b.Succs[1], b) {
			no = false
		}
		if yes == no {
			continue
		}
		c, pos := i.Cond, yes
		for {
			if n, ok := c.(*ssa.UnOp); ok && n.Op == token.NOT {
				c, pos = n.X, !pos
				continue
			}
			break
		}
		for _, x := range t.conj(c, pos) {
			if x.op == token.ILLEGAL {
				if x.y == nil {
					bools = append(bools, x.x)
				}
				continue
			}
			rels = append(rels, x)
		}
	}
	return
}

// returns reports whether the loop can go round from block b without passing not.
func (l *natLoop) returns(b, not *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{not: true}
	st := []*ssa.BasicBlock{b}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == l.head {
			return true
		}
		if seen[x] || !l.blocks[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

// conj lists relations implied by a condition; conditions that are not
// comparisons come as {c, ILLEGAL, nil} if true.
func (t *termer) conj(c ssa.Value, pos bool) []rel {
	if n, ok := c.(*ssa.UnOp); ok && n.Op == token.NOT {
		return t.conj(n.X, !pos)
	}
	if b, ok := c.(*ssa.BinOp); ok {
		op := b.Op
		if !pos {
			fl := isFloat(b.X.Type())
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			default:
				return nil
			}
			if fl && op != token.NEQ && op != token.EQL {
				return nil // NaN
			}
		}
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			return []rel{{b.X, op, b.Y}}
		}
		return nil
	}
	if call, ok := c.(*ssa.Call); ok {
		g := call.Common().StaticCallee()
		if r := t.see(c); r != c {
			return t.conj(r, pos)
		}
		// a helper made of && or ||
		if g != nil && t.p.inModule(g) && !t.inning[g] && len(g.FreeVars) == 0 {
			t.inning[g] = true
			defer delete(t.inning, g)
			var rs []rel
			n := 0
			for _, b := range g.Blocks {
				ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok || b == g.Recover {
					continue
				}
				n++
				if len(ret.Results) != 1 {
					continue
				}
				if k, ok := ret.Results[0].(*ssa.Const); ok && k.Value != nil && constant.BoolVal(k.Value) != pos {
					n-- // not this way
					continue
				}
				rs = t.conj(ret.Results[0], pos)
				for d := b; d.Idom() != nil; d = d.Idom() {
					if iff, ok := d.Idom().Instrs[len(d.Idom().Instrs)-1].(*ssa.If); ok && len(d.Preds) == 1 {
						rs = append(rs, t.conj(iff.Cond, d.Idom().Succs[0] == d)...)
					}
				}
			}
			if n == 1 {
				var out []rel
				for _, r := range rs {
					if r.op == token.ILLEGAL {
						continue
					}
					if r.x, r.y = t.clone(r.x, g, call, 0), t.clone(r.y, g, call, 0); r.x != nil && r.y != nil {
						out = append(out, r)
					}
				}
				return out
			}
		}
	}
	// x && y && z
	if ph, ok := c.(*ssa.Phi); ok {
		at := -1
		for i, e := range ph.Edges {
			k, ok := e.(*ssa.Const)
			if ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != pos {
				continue // not this way
			}
			if at >= 0 {
				return nil
			}
			at = i
		}
		if at < 0 {
			return nil
		}
		pred := ph.Block().Preds[at]
		r := t.conj(ph.Edges[at], pos)
		if iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); ok {
			r = append(r, t.conj(iff.Cond, pred.Succs[0] == ph.Block())...)
		}
		for d := pred; d.Idom() != nil && d.Idom() != ph.Block() && !ph.Block().Dominates(d); d = d.Idom() {
			if iff, ok := d.Idom().Instrs[len(d.Idom().Instrs)-1].(*ssa.If); ok && len(d.Preds) == 1 {
				r = append(r, t.conj(iff.Cond, d.Idom().Succs[0] == d)...)
			}
		}
		return r
	}
	if pos {
		return []rel{{c, token.ILLEGAL, nil}}
	}
	return nil
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func constInt(v ssa.Value) (int64, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		if x := constant.ToInt(c.Value); x.Kind() == constant.Int {
			return constant.Int64Val(x)
		}
	}
	return 0, false
}
func constNum(v ssa.Value) (float64, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && (c.Value.Kind() == constant.Int || c.Value.Kind() == constant.Float) {
		f, _ := constant.Float64Val(c.Value)
		return f, true
	}
	return 0, false
}

// strip removes numeric conversions that keep the order, and looks through helpers.
func (t *termer) strip(v ssa.Value) ssa.Value {
	for {
		v = t.see(v)
		c, ok := v.(*ssa.Convert)
		if !ok || !isInteger(c.X.Type()) {
			return v
		}
		v = c.X
	}
}

// terminates returns why a loop ends, or "".
func (t *termer) terminates(f *ssa.Function, l *natLoop) string {
	rels, bools := t.guards(l)
	for _, r := range rels {
		if s := t.counted(l, r, rels); s != "" {
			return s
		}
	}
	for _, r := range rels {
		if s := t.bisected(l, r, rels); s != "" {
			return s
		}
	}
	for _, b := range bools {
		if e, ok := b.(*ssa.Extract); ok {
			switch x := e.Tuple.(type) {
			case *ssa.Next:
				return "range"
			case *ssa.UnOp:
				if x.Op == token.ARROW && e.Index == 1 {
					if t.closed(x.X, 0) {
						return "range over a channel that is closed"
					}
				}
			}
		}
		if c, ok := b.(*ssa.Call); ok && reads(c) {
			return "input consumed"
		}
	}
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		desc := true
		for i, e := range ph.Edges {
			if l.blocks[l.head.Preds[i]] {
				if r := t.derive(e, []ssa.Value{ph}, map[ssa.Value]bool{}); len(r) != 1 || r[0] != '2' {
					desc = false
				}
			}
		}
		if desc {
			return "goes down a structure"
		}
	}
	for b := range l.blocks {
		if !l.every(b) {
			continue
		}
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if reads(c) && t.failureLeaves(c, l) {
				return "input consumed"
			}
			if g := c.Common().StaticCallee(); g != nil && t.mustRead(g, 0) && t.resultLeaves(c, g, l) {
				return "input consumed"
			}
		}
	}
	return ""
}

// reads tells calls that consume input or fail.
func reads(c *ssa.Call) bool {
	g := c.Common().StaticCallee()
	if g == nil || g.Pkg == nil {
		return false
	}
	switch g.String() {
	case "(*bufio.Scanner).Scan", "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadLine", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadByte", "(*bufio.Reader).ReadRune", "(*bufio.Reader).ReadSlice", "io.ReadFull", "fmt.Fscan", "fmt.Fscanln", "fmt.Fscanf":
		return true
	}
	return false
}

// failureLeaves reports whether an error of a call always leaves the loop (or
// the function, if l is nil).
func (t *termer) failureLeaves(c *ssa.Call, l *natLoop) bool {
	for _, r := range *c.Referrers() {
		e, ok := r.(*ssa.Extract)
		if !ok || e.Type().String() != "error" {
			continue
		}
		for _, u := range *e.Referrers() {
			switch u := u.(type) {
			case *ssa.BinOp:
				if !isNilConst(u.X) && !isNilConst(u.Y) {
					continue
				}
				for _, q := range *u.Referrers() {
					i, ok := q.(*ssa.If)
					if !ok {
						continue
					}
					fail, good := i.Block().Succs[0], i.Block().Succs[1]
					if u.Op == token.EQL {
						fail, good = good, fail
					}
					_ = good
					if l != nil {
						if l.every(i.Block()) && (!l.blocks[fail] || !l.returns(fail, nil)) {
							return true
						}
					} else if !reachesReturnWithout(fail, e) && dominatesReturns(i.Block()) {
						return true
					}
				}
			case *ssa.Return:
				if l == nil {
					return true
				}
			case ssa.CallInstruction:
				g := u.Common().StaticCallee()
				if g == nil || (l != nil && !l.every(u.Block())) || (l == nil && !dominatesReturns(u.Block())) {
					continue
				}
				for i, a := range u.Common().Args {
					if a == ssa.Value(e) && i < len(g.Params) && panicsIfNotNil(g, g.Params[i]) {
						return true
					}
				}
			}
		}
	}
	return false
}

func isNilConst(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.IsNil() }

func dominatesReturns(b *ssa.BasicBlock) bool {
	for _, x := range b.Parent().Blocks {
		if len(x.Instrs) > 0 {
			if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && x != b.Parent().Recover && !b.Dominates(x) {
				return false
			}
		}
	}
	return true
}

// reachesReturnWithout reports whether a return that does not return e can be
// reached from b.
func reachesReturnWithout(b *ssa.BasicBlock, e ssa.Value) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{b}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if stops(x, 0) {
			continue
		}
		if r, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			has := false
			for _, v := range r.Results {
				if v == e || v.Type().String() == "error" && !isNilConst(v) {
					has = true
				}
			}
			if !has {
				return true
			}
		}
		st = append(st, x.Succs...)
	}
	return false
}

// panicsIfNotNil reports whether g never returns if p is not nil.
func panicsIfNotNil(g *ssa.Function, p *ssa.Parameter) bool {
	if len(g.Blocks) == 0 {
		return false
	}
	for _, u := range *p.Referrers() {
		b, ok := u.(*ssa.BinOp)
		if !ok || !(isNilConst(b.X) || isNilConst(b.Y)) {
			continue
		}
		for _, q := range *b.Referrers() {
			i, ok := q.(*ssa.If)
			if !ok || !dominatesReturns(i.Block()) {
				continue
			}
			fail := i.Block().Succs[0]
			if b.Op == token.EQL {
				fail = i.Block().Succs[1]
			}
			if neverReturns(fail, 0) {
				return true
			}
		}
	}
	return false
}

// neverReturns reports whether every path from b ends in a panic or exit.
func neverReturns(b *ssa.BasicBlock, depth int) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{b}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if stops(x, depth) {
			continue
		}
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok {
			return false
		}
		st = append(st, x.Succs...)
	}
	return true
}

// stops reports whether a block calls something that never returns.
func stops(x *ssa.BasicBlock, depth int) bool {
	for _, in := range x.Instrs {
		if c, ok := in.(*ssa.Call); ok {
			if g := c.Common().StaticCallee(); g != nil {
				switch {
				case g.String() == "os.Exit" || strings.HasPrefix(g.String(), "log.Fatal") || strings.HasPrefix(g.String(), "log.Panic"):
					return true
				case len(g.Blocks) > 0 && depth < 3 && g.Pkg == x.Parent().Pkg && neverReturns(g.Blocks[0], depth+1):
					return true
				}
			}
		}
	}
	return false
}

// mustRead reports whether g always consumes input before it returns.
func (t *termer) mustRead(g *ssa.Function, depth int) bool {
	if depth > 3 || len(g.Blocks) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		if !dominatesReturns(b) {
			continue
		}
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if reads(c) {
					return t.failureLeaves(c, nil)
				}
				if h := c.Common().StaticCallee(); h != nil && t.mustRead(h, depth+1) && t.resultLeaves(c, h, nil) {
					return true
				}
			}
		}
	}
	return false
}

// resultLeaves: if the callee reports its failure as an error, that has to leave the loop too.
func (t *termer) resultLeaves(c *ssa.Call, g *ssa.Function, l *natLoop) bool {
	res := g.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if res.At(i).Type().String() == "error" {
			return t.failureLeaves(c, l)
		}
	}
	return true
}

// closed reports whether a channel has been closed when it is ranged over.
func (t *termer) closed(v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.MakeChan:
		for _, r := range *v.Referrers() {
			if c, ok := r.(ssa.CallInstruction); ok {
				if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
					if _, d := r.(*ssa.Defer); d || dominatesReturns(r.Block()) {
						return true
					}
				}
				if g := c.Common().StaticCallee(); g != nil {
					for i, a := range c.Common().Args {
						if a == ssa.Value(v) && i < len(g.Params) && closes(g, g.Params[i]) {
							return true
						}
					}
				}
			}
			if s, ok := r.(*ssa.Store); ok && s.Val == ssa.Value(v) {
				if al, ok := s.Addr.(*ssa.Alloc); ok {
					for _, q := range *al.Referrers() {
						if ld, ok := q.(*ssa.UnOp); ok {
							for _, u := range *ld.Referrers() {
								if c, ok := u.(ssa.CallInstruction); ok {
									if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
										if _, d := u.(*ssa.Defer); d || dominatesReturns(u.Block()) {
											return true
										}
									}
								}
							}
						}
						if mc, ok := q.(*ssa.MakeClosure); ok {
							for i, bd := range mc.Bindings {
								fn := mc.Fn.(*ssa.Function)
								if bd == ssa.Value(al) && closesFree(fn, fn.FreeVars[i]) {
									return true
								}
							}
						}
					}
				}
			}
			if mc, ok := r.(*ssa.MakeClosure); ok {
				for i, bd := range mc.Bindings {
					fn := mc.Fn.(*ssa.Function)
					if bd == ssa.Value(v) && closesFree(fn, fn.FreeVars[i]) {
						return true
					}
				}
			}
		}
		return false
	case *ssa.ChangeType:
		return t.closed(v.X, depth)
	case *ssa.Call:
		g := v.Common().StaticCallee()
		if g == nil || len(g.Blocks) == 0 {
			return false
		}
		ok := false
		for _, b := range g.Blocks {
			if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
				if len(r.Results) != 1 || !t.closed(r.Results[0], depth+1) {
					return false
				}
				ok = true
			}
		}
		return ok
	case *ssa.Extract:
		return false
	case *ssa.UnOp:
		if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			n := 0
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
					if !t.closed(s.Val, depth+1) {
						return false
					}
					n++
				}
			}
			return n > 0
		}
		if fv, ok := v.X.(*ssa.FreeVar); ok && v.Op == token.MUL {
			return t.closedFree(fv, depth)
		}
		return false
	case *ssa.FreeVar:
		return t.closedFree(v, depth)
	case *ssa.Parameter:
		f := v.Parent()
		sites := t.o.sites[f]
		if len(sites) == 0 {
			return false
		}
		for _, s := range sites {
			for i, p := range f.Params {
				if p == v && (i >= len(s.args) || !t.closed(s.args[i], depth+1)) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func (t *termer) closedFree(fv *ssa.FreeVar, depth int) bool {
	f := fv.Parent()
	i := -1
	for k, x := range f.FreeVars {
		if x == fv {
			i = k
		}
	}
	cl := t.o.closers[f]
	for _, mc := range cl {
		b := mc.Bindings[i]
		if al, ok := b.(*ssa.Alloc); ok {
			n := 0
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
					if !t.closed(s.Val, depth+1) {
						return false
					}
					n++
				}
			}
			if n == 0 {
				return false
			}
			continue
		}
		if !t.closed(b, depth+1) {
			return false
		}
	}
	return len(cl) > 0
}

func closes(g *ssa.Function, p ssa.Value) bool {
	if p.Referrers() == nil {
		return false
	}
	for _, r := range *p.Referrers() {
		if c, ok := r.(ssa.CallInstruction); ok {
			if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "close" {
				if _, d := r.(*ssa.Defer); d || dominatesReturns(r.Block()) {
					return true
				}
			}
		}
	}
	return false
}
func closesFree(g *ssa.Function, fv *ssa.FreeVar) bool {
	if closes(g, fv) {
		return true
	}
	for _, r := range *fv.Referrers() {
		if ld, ok := r.(*ssa.UnOp); ok && closes(g, ld) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- counters

// counted: a strictly monotone integer is compared with something that does not
// run away from it.
func (t *termer) counted(l *natLoop, r rel, all []rel) string {
	x, y, op := t.strip(r.x), t.strip(r.y), r.op
	if !isInteger(x.Type()) || !isInteger(y.Type()) {
		return t.countedFloat(l, r)
	}
	for i := 0; i < 2; i++ {
		if base, off := t.header(l, x); op == token.LSS && base != nil && off == 0 && t.fixed(l, y) {
			t.limit = y
		}
		dx, okx := t.trend(l, x)
		t.limit = nil
		switch op {
		case token.LSS, token.LEQ:
			if okx && dx > 0 && t.notUp(l, y) {
				return "counter"
			}
		case token.GTR, token.GEQ:
			if okx && dx < 0 && t.notDown(l, y) {
				return "counter"
			}
			if t.shrinks(l, x) {
				if k, ok := constInt(y); ok && (k >= 0 && op == token.GTR || k > 0) {
					return "quotient"
				}
			}
		case token.NEQ:
			if k, ok := constInt(y); ok {
				if first, step, ok := t.arith(l, x); ok && step != 0 && (k-first)%step == 0 && (k-first)/step >= 0 {
					return "counter"
				}
				if k == 0 && t.shrinks(l, x) && (t.nonneg(l, x) || t.truncates(l, x)) {
					return "quotient"
				}
			}
			if t.fixed(l, y) && okx {
				// i := 0; i != n; i++ with n a length
				if first, step, ok := t.arith(l, x); ok && step == 1 && first <= 0 && t.lower(y) >= 0 {
					return "counter"
				}
			}
		}
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	return ""
}

func (t *termer) countedFloat(l *natLoop, r rel) string {
	// a counter of floats: constant start, step and bound
	if !isFloat(r.x.Type()) {
		return ""
	}
	ph, ok := r.x.(*ssa.Phi)
	if !ok || ph.Block() != l.head {
		return ""
	}
	k, ok := constNum(r.y)
	if !ok {
		return ""
	}
	first := 0.0
	for i, e := range ph.Edges {
		if !l.blocks[ph.Block().Preds[i]] {
			if first, ok = constNum(e); !ok {
				return ""
			}
		}
	}
	for i, e := range ph.Edges {
		if !l.blocks[ph.Block().Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.X != ssa.Value(ph) {
			return ""
		}
		s, ok := constNum(b.Y)
		if !ok {
			return ""
		}
		if b.Op == token.SUB {
			s = -s
		} else if b.Op != token.ADD {
			return ""
		}
		if n := (k - first) / s; r.op == token.NEQ && s == math.Trunc(s) && k == math.Trunc(k) && first == math.Trunc(first) && n == math.Trunc(n) && n >= 0 && n < 1e9 && len(ph.Edges) == 2 {
			continue
		}
		abs := k
		if abs < 0 {
			abs = -abs
		}
		big := abs/1e12 < s || abs/1e12 < -s
		if !big || !(s > 0 && (r.op == token.LSS || r.op == token.LEQ) || s < 0 && (r.op == token.GTR || r.op == token.GEQ)) {
			return ""
		}
	}
	return "counter"
}

// header finds the loop variable a value is a constant distance from: a phi of
// the head, or a local variable in memory.
func (t *termer) header(l *natLoop, v ssa.Value) (base ssa.Value, off int64) {
	v = t.strip(v)
	switch v := v.(type) {
	case *ssa.Phi:
		if v.Block() == l.head {
			return v, 0
		}
	case *ssa.BinOp:
		if k, ok := constInt(v.Y); ok && (v.Op == token.ADD || v.Op == token.SUB) {
			b, o := t.header(l, v.X)
			if v.Op == token.SUB {
				k = -k
			}
			return b, o + k
		}
		if k, ok := constInt(v.X); ok && v.Op == token.ADD {
			b, o := t.header(l, v.Y)
			return b, o + k
		}
	case *ssa.UnOp:
		if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL && l.has(v) && !l.has(al) {
			return al, 0
		}
	case *ssa.Call:
		// the length of a slice or string that is extended or cut
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && l.has(v) && !isInteger(v.Call.Args[0].Type()) {
			return t.header(l, v.Call.Args[0])
		}
	}
	return nil, 0
}

const unb = int64(1) << 40

// trend is the least change per iteration in the direction of change: positive if
// the value strictly grows, negative if it strictly falls.
func (t *termer) trend(l *natLoop, v ssa.Value) (int, bool) {
	base, _ := t.header(l, v)
	lo, hi, ok := t.change(l, base)
	switch {
	case !ok:
		return 0, false
	case lo > 0:
		return 1, true
	case hi < 0:
		return -1, true
	}
	return 0, false
}

// change bounds what one iteration adds to a loop variable.
func (t *termer) change(l *natLoop, base ssa.Value) (lo, hi int64, ok bool) {
	if base == nil {
		return 0, 0, false
	}
	lo, hi = unb, -unb
	upd := func(a, b int64) {
		if a < lo {
			lo = a
		}
		if b > hi {
			hi = b
		}
	}
	switch base := base.(type) {
	case *ssa.Phi:
		for i, e := range base.Edges {
			if !l.blocks[base.Block().Preds[i]] {
				continue
			}
			a, b, ok := t.delta(l, e, base, map[ssa.Value]bool{})
			if !ok {
				return 0, 0, false
			}
			upd(a, b)
		}
		return lo, hi, lo <= hi
	case *ssa.Alloc:
		// one store on every way round, none elsewhere in the loop
		n := 0
		for _, r := range *base.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != ssa.Value(base) {
					return 0, 0, false
				}
				if !l.blocks[r.Block()] {
					continue
				}
				if n++; n > 1 || !l.every(r.Block()) || t.inner(l, r.Block()) {
					return 0, 0, false
				}
				a, b, ok := t.delta(l, r.Val, base, map[ssa.Value]bool{})
				if !ok {
					return 0, 0, false
				}
				upd(a, b)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == ssa.Value(base) && storesFree(fn, fn.FreeVars[i]) {
						return 0, 0, false
					}
				}
			default:
				return 0, 0, false
			}
		}
		return lo, hi, n == 1
	}
	return 0, 0, false
}

func storesFree(fn *ssa.Function, fv *ssa.FreeVar) bool {
	for _, r := range *fv.Referrers() {
		if _, ok := r.(*ssa.UnOp); !ok {
			return true
		}
	}
	return false
}

// inner reports whether a block is in a loop within l.
func (t *termer) inner(l *natLoop, b *ssa.BasicBlock) bool {
	for _, k := range natLoops(b.Parent()) {
		if k.head != l.head && l.blocks[k.head] && k.blocks[b] {
			return true
		}
	}
	return false
}

func (t *termer) delta(l *natLoop, v ssa.Value, base ssa.Value, busy map[ssa.Value]bool) (lo, hi int64, ok bool) {
	v = t.strip(v)
	if v == base {
		return 0, 0, true
	}
	if v == t.limit && v != nil {
		return 1, unb, true
	}
	if rs := t.results(v); len(rs) > 1 && len(busy) < 8 {
		lo, hi = unb, -unb
		for _, x := range rs {
			a, b, ok := t.delta(l, x, base, busy)
			if !ok {
				return 0, 0, false
			}
			if a < lo {
				lo = a
			}
			if b > hi {
				hi = b
			}
		}
		return lo, hi, true
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL && v.X == base {
			return 0, 0, true
		}
	case *ssa.Call:
		// append adds elements
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && l.has(v) && len(v.Call.Args) == 2 {
			a, b, ok := t.delta(l, v.Call.Args[0], base, busy)
			if !ok {
				return 0, 0, false
			}
			if s, ok := v.Call.Args[1].(*ssa.Slice); ok && s.Low == nil && s.High == nil {
				if p, ok := s.X.Type().Underlying().(*types.Pointer); ok {
					if arr, ok := p.Elem().Underlying().(*types.Array); ok {
						return clampAdd(a, arr.Len()), clampAdd(b, arr.Len()), true
					}
				}
			}
			return a, unb, true
		}
	case *ssa.Slice:
		// x[k:] removes k elements
		if k, ok := int64(0), true; v.High == nil && v.Max == nil && l.has(v) {
			if v.Low != nil {
				k, ok = constInt(v.Low)
			}
			if _, is := v.X.Type().Underlying().(*types.Pointer); !is && ok {
				a, b, ok := t.delta(l, v.X, base, busy)
				return clampAdd(a, -k), clampAdd(b, -k), ok
			}
		}
	case *ssa.BinOp:
		if v.Op != token.ADD && v.Op != token.SUB || !l.has(v) {
			return 0, 0, false
		}
		x, y := v.X, v.Y
		a, b, ok := t.delta(l, x, base, busy)
		if !ok && v.Op == token.ADD {
			x, y = y, x
			a, b, ok = t.delta(l, x, base, busy)
		}
		if !ok {
			return 0, 0, false
		}
		c, d := t.lower(y), t.upper(y)
		if v.Op == token.SUB {
			c, d = -d, -c
		}
		return clampAdd(a, c), clampAdd(b, d), true
	case *ssa.Phi:
		if !l.has(v) || busy[v] || v.Block() == l.head {
			return 0, 0, false
		}
		busy[v] = true
		defer delete(busy, v)
		// a phi of an inner loop that only grows
		for _, k := range natLoops(v.Parent()) {
			if k.head == v.Block() {
				a, b, ok := t.change(k, v)
				if !ok {
					return 0, 0, false
				}
				lo, hi = unb, -unb
				for i, e := range v.Edges {
					if k.blocks[v.Block().Preds[i]] {
						continue
					}
					x, y, ok := t.delta(l, e, base, busy)
					if !ok {
						return 0, 0, false
					}
					if x < lo {
						lo = x
					}
					if y > hi {
						hi = y
					}
				}
				if a < 0 {
					lo = -unb
				}
				if b > 0 {
					hi = unb
				}
				return lo, hi, true
			}
		}
		lo, hi = unb, -unb
		for _, e := range v.Edges {
			a, b, ok := t.delta(l, e, base, busy)
			if !ok {
				return 0, 0, false
			}
			if a < lo {
				lo = a
			}
			if b > hi {
				hi = b
			}
		}
		return lo, hi, true
	}
	return 0, 0, false
}

func clampAdd(a, b int64) int64 {
	s := a + b
	if s > unb {
		return unb
	}
	if s < -unb {
		return -unb
	}
	return s
}

// lower is a constant lower bound of an integer.
func (t *termer) lower(v ssa.Value) int64 { return t.bound(v, -1, 0) }
func (t *termer) upper(v ssa.Value) int64 { return t.bound(v, 1, 0) }

func (t *termer) bound(v ssa.Value, dir int64, depth int) int64 {
	none := dir * unb
	v = t.strip(v)
	if k, ok := constInt(v); ok {
		return k
	}
	if depth > 8 || t.lo[v] {
		return none
	}
	t.lo[v] = true
	defer delete(t.lo, v)
	worst := func(vs []ssa.Value) int64 {
		r := -none
		for _, x := range vs {
			if b := t.bound(x, dir, depth+1); dir < 0 && b < r || dir > 0 && b > r {
				r = b
			}
		}
		if len(vs) == 0 {
			return none
		}
		return r
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, l := range natLoops(v.Parent()) {
			if l.head != v.Block() {
				continue
			}
			a, b, ok := t.change(l, v)
			if !ok || dir < 0 && a < 0 || dir > 0 && b > 0 {
				return none
			}
			var in []ssa.Value
			for i, e := range v.Edges {
				if !l.blocks[v.Block().Preds[i]] {
					in = append(in, e)
				}
			}
			return worst(in)
		}
		return worst(v.Edges)
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD:
			return clampAdd(t.bound(v.X, dir, depth+1), t.bound(v.Y, dir, depth+1))
		case token.SUB:
			return clampAdd(t.bound(v.X, dir, depth+1), -t.bound(v.Y, -dir, depth+1))
		case token.QUO, token.SHR:
			if dir < 0 && t.bound(v.X, -1, depth+1) >= 0 && t.bound(v.Y, -1, depth+1) >= 0 {
				return 0
			}
		case token.MUL:
			if dir < 0 {
				a, b := t.bound(v.X, -1, depth+1), t.bound(v.Y, -1, depth+1)
				if a >= 0 && b >= 0 && a < 1<<20 && b < 1<<20 {
					return a * b
				}
			}
		}
	case *ssa.Call:
		if b, ok := v.Common().Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") && dir < 0 {
			return 0
		}
	case *ssa.Parameter:
		f := v.Parent()
		if f.Object() != nil && f.Object().Exported() || t.o.sites[f] == nil {
			return none
		}
		var in []ssa.Value
		for _, s := range t.o.sites[f] {
			for i, p := range f.Params {
				if p == v {
					if i >= len(s.args) {
						return none
					}
					in = append(in, s.args[i])
				}
			}
		}
		return worst(in)
	}
	return none
}

// arith recognises first, first+step, ...
func (t *termer) arith(l *natLoop, v ssa.Value) (first, step int64, ok bool) {
	base, off := t.header(l, v)
	lo, hi, ok := t.change(l, base)
	if !ok || lo != hi {
		return 0, 0, false
	}
	ph, ok := base.(*ssa.Phi)
	if !ok {
		return 0, 0, false
	}
	n := 0
	for i, e := range ph.Edges {
		if l.blocks[ph.Block().Preds[i]] {
			continue
		}
		k, ok := constInt(e)
		if !ok || n > 0 && k != first {
			return 0, 0, false
		}
		first = k
		n++
	}
	return first + off, lo, n > 0
}

func (t *termer) nonneg(l *natLoop, v ssa.Value) bool {
	ph, ok := t.strip(v).(*ssa.Phi)
	if !ok {
		return false
	}
	for i, e := range ph.Edges {
		if !l.blocks[ph.Block().Preds[i]] && t.lower(e) < 0 {
			return false
		}
	}
	return true
}

// shrinks: x becomes x/k or x>>k, with k at least 2 (or 1).
func (t *termer) shrinks(l *natLoop, v ssa.Value) bool {
	ph, ok := t.strip(v).(*ssa.Phi)
	if !ok || ph.Block() != l.head {
		return false
	}
	for i, e := range ph.Edges {
		if !l.blocks[ph.Block().Preds[i]] {
			continue
		}
		if !t.quotient(l, e, ph) {
			return false
		}
	}
	return true
}

// truncates: the quotient is one of integers, and goes to zero from both sides.
func (t *termer) truncates(l *natLoop, v ssa.Value) bool {
	ph, ok := t.strip(v).(*ssa.Phi)
	if !ok {
		return false
	}
	for i, e := range ph.Edges {
		if l.blocks[ph.Block().Preds[i]] {
			b, ok := t.see(e).(*ssa.BinOp)
			if !ok || b.Op != token.QUO {
				return false
			}
		}
	}
	return true
}

func (t *termer) quotient(l *natLoop, v ssa.Value, ph *ssa.Phi) bool {
	switch v := t.see(v).(type) {
	case *ssa.BinOp:
		switch v.Op {
		case token.QUO:
			if t.strip(v.X) == ssa.Value(ph) {
				return t.atLeast2(v.Y)
			}
			// (i - i%b)/b
			if d, ok := v.X.(*ssa.BinOp); ok && d.Op == token.SUB && t.strip(d.X) == ssa.Value(ph) {
				if m, ok := d.Y.(*ssa.BinOp); ok && m.Op == token.REM && t.strip(m.X) == ssa.Value(ph) && m.Y == v.Y {
					return t.atLeast2(v.Y)
				}
			}
		case token.SHR:
			return t.strip(v.X) == ssa.Value(ph) && t.lower(v.Y) >= 1
		}
	case *ssa.Convert: // int(math.Floor(float64(i) / b)), int(float64(i)/b)
		x := v.X
		for {
			c, ok := x.(*ssa.Call)
			if !ok {
				break
			}
			g := c.Common().StaticCallee()
			if g == nil || g.String() != "math.Floor" && g.String() != "math.Trunc" {
				return false
			}
			x = c.Common().Args[0]
		}
		if b, ok := x.(*ssa.BinOp); ok && b.Op == token.QUO && t.strip(b.X) == ssa.Value(ph) {
			return t.atLeast2(b.Y)
		}
	case *ssa.Phi:
		if v == ph || !l.has(v) || v.Block() == l.head {
			return false
		}
		for _, e := range v.Edges {
			if !t.quotient(l, e, ph) {
				return false
			}
		}
		return true
	}
	return false
}

// atLeast2: a divisor is at least 2 (documented for exported functions; checked
// for every call within the module).
func (t *termer) atLeast2(v ssa.Value) bool {
	if k, ok := constNum(v); ok {
		return k >= 2
	}
	return t.atLeast(v, 2, 0, map[ssa.Value]bool{})
}

func (t *termer) atLeast(v ssa.Value, k int64, depth int, busy map[ssa.Value]bool) bool {
	v = t.strip(v)
	if c, ok := constInt(v); ok {
		return c >= k
	}
	if depth > 6 || busy[v] {
		return busy[v]
	}
	busy[v] = true
	switch v := v.(type) {
	case *ssa.Parameter:
		f := v.Parent()
		sites := t.o.sites[f]
		for _, s := range sites {
			for i, p := range f.Params {
				if p == v && (i >= len(s.args) || !t.atLeast(s.args[i], k, depth+1, busy)) {
					return false
				}
			}
		}
		return len(sites) > 0
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				vals := t.o.fields[fieldKey(fa.X.Type(), fa.Field)]
				for _, x := range vals {
					if !t.atLeast(x, k, depth+1, busy) {
						return false
					}
				}
				return len(vals) > 0
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !t.atLeast(e, k, depth+1, busy) {
				return false
			}
		}
		return true
	}
	return false
}

func (t *termer) notUp(l *natLoop, v ssa.Value) bool {
	if t.fixed(l, v) {
		return true
	}
	_, hi, ok := t.changeOf(l, v)
	return ok && hi <= 0
}
func (t *termer) notDown(l *natLoop, v ssa.Value) bool {
	if t.fixed(l, v) {
		return true
	}
	lo, _, ok := t.changeOf(l, v)
	return ok && lo >= 0
}
func (t *termer) changeOf(l *natLoop, v ssa.Value) (lo, hi int64, ok bool) {
	base, _ := t.header(l, v)
	return t.change(l, base)
}

// fixed reports whether a value is the same in every iteration.
func (t *termer) fixed(l *natLoop, v ssa.Value) bool {
	if !l.has(v) {
		return true
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		return t.fixed(l, v.X) && t.fixed(l, v.Y)
	case *ssa.Convert:
		return t.fixed(l, v.X)
	case *ssa.ChangeType:
		return t.fixed(l, v.X)
	case *ssa.Field:
		return t.fixed(l, v.X)
	case *ssa.Index:
		return t.fixed(l, v.X) && t.fixed(l, v.Index)
	case *ssa.Extract:
		return t.fixed(l, v.Tuple)
	case *ssa.FieldAddr:
		return t.fixed(l, v.X)
	case *ssa.IndexAddr:
		return t.fixed(l, v.X) && t.fixed(l, v.Index)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return v.Op != token.ARROW && t.fixed(l, v.X)
		}
		return t.fixed(l, v.X) && !t.stored(l, v.X)
	case *ssa.Call:
		cc := v.Common()
		for _, a := range cc.Args {
			if !t.fixed(l, a) {
				return false
			}
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max"
		}
		if cc.IsInvoke() {
			if !t.fixed(l, cc.Value) {
				return false
			}
			fs, _ := t.o.callees(v)
			for _, g := range fs {
				if !t.pure(g) {
					return false
				}
			}
			return cc.Method.Pkg() != nil && (len(fs) > 0 || cc.Method.FullName() == "(image.Image).Bounds")
		}
		g := cc.StaticCallee()
		if g == nil {
			return false
		}
		switch g.String() {
		case "runtime.NumCPU", "math.Sqrt", "math.Floor", "math.Ceil", "math.Abs":
			return true
		}
		if fnPkg(g) != nil && fnPkg(g).Path() == "image" {
			return true
		}
		return t.pure(g)
	}
	return false
}

// pure functions depend on their arguments only, as long as nothing is written to.
func (t *termer) pure(g *ssa.Function) bool {
	mf := t.m.fns[g]
	if mf == nil {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
					if h := c.Common().StaticCallee(); h == nil || h == g || !t.pure(h) {
						return false
					}
				}
			}
		}
	}
	return len(mf.sum.writes) == 0
}

// stored reports whether the loop may store to an address.
func (t *termer) stored(l *natLoop, addr ssa.Value) bool {
	if al, ok := addr.(*ssa.Alloc); ok {
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if r.Addr != ssa.Value(al) || l.blocks[r.Block()] {
					return true
				}
			case *ssa.FieldAddr, *ssa.IndexAddr:
				if t.storedVia(l, r.(ssa.Value)) {
					return true
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == ssa.Value(al) && storesFree(fn, fn.FreeVars[i]) {
						return true
					}
				}
			default:
				return true
			}
		}
		return false
	}
	key := ""
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		key = fieldKey(a.X.Type(), a.Field)
		if !t.storedField(l, key) {
			return false
		}
		return true
	case *ssa.IndexAddr, *ssa.FreeVar, *ssa.Global, *ssa.Parameter:
	}
	// anything else: no stores of that type in the loop
	return t.storedType(l, addr.Type())
}

func (t *termer) storedVia(l *natLoop, v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr != v || l.blocks[r.Block()] {
				return true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if t.storedVia(l, r.(ssa.Value)) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func (t *termer) inLoop(l *natLoop, visit func(in ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var fn func(g *ssa.Function) bool
	one := func(in ssa.Instruction) bool {
		if visit(in) {
			return true
		}
		if c, ok := in.(ssa.CallInstruction); ok {
			fs, _ := t.o.callees(c)
			for _, g := range fs {
				if fn(g) {
					return true
				}
			}
		}
		return false
	}
	fn = func(g *ssa.Function) bool {
		if seen[g] || !t.p.inModule(g) && !isWrapper(g) {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if one(in) {
					return true
				}
			}
		}
		return false
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if one(in) {
				return true
			}
		}
	}
	return false
}

func (t *termer) storedField(l *natLoop, key string) bool {
	return t.inLoop(l, func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || fieldKey(fa.X.Type(), fa.Field) != key {
			return false
		}
		// initialising something new
		if al, ok := fa.X.(*ssa.Alloc); ok && al.Comment == "complit" {
			return false
		}
		return true
	})
}

func (t *termer) storedType(l *natLoop, pt types.Type) bool {
	return t.inLoop(l, func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok || !types.Identical(s.Addr.Type(), pt) {
			return false
		}
		_, local := s.Addr.(*ssa.Alloc)
		return !local
	})
}

// bisected: for b-a > tol { mid := (a+b)/2; ... a = mid or b = mid }, where the
// loop is left when mid is not strictly between.
func (t *termer) bisected(l *natLoop, r rel, all []rel) string {
	d, ok := r.x.(*ssa.BinOp)
	if !ok || !isFloat(r.x.Type()) || r.op != token.GTR && r.op != token.GEQ {
		if b, ok2 := r.y.(*ssa.BinOp); ok2 && isFloat(r.y.Type()) && (r.op == token.LSS || r.op == token.LEQ) {
			d = b
		} else if !ok {
			return ""
		}
	}
	if d.Op != token.SUB {
		return ""
	}
	a, ok1 := d.X.(*ssa.Phi)
	b, ok2 := d.Y.(*ssa.Phi)
	if !ok1 || !ok2 || a.Block() != l.head || b.Block() != l.head {
		return ""
	}
	var mid ssa.Value
	mids := func(v ssa.Value) bool {
		if mid == nil && t.isMid(v, a, b) {
			mid = v
		}
		return v == mid && mid != nil
	}
	for i, p := range l.head.Preds {
		if !l.blocks[p] {
			continue
		}
		// every way round replaces one of them
		if !pairMid(l, a, b, a.Edges[i], b.Edges[i], mids) {
			return ""
		}
	}
	// mid is not equal to either
	na, nb := false, false
	for _, q := range all {
		for i := 0; i < 2; i++ {
			if q.x == mid && (q.op == token.NEQ || q.op == token.LSS || q.op == token.GTR) {
				na = na || q.y == ssa.Value(a)
				nb = nb || q.y == ssa.Value(b)
			}
			q.x, q.y = q.y, q.x
		}
	}
	if na && nb {
		return "bisection"
	}
	return ""
}

func pairMid(l *natLoop, a, b *ssa.Phi, ea, eb ssa.Value, mids func(v ssa.Value) bool) bool {
	pa, oka := ea.(*ssa.Phi)
	pb, okb := eb.(*ssa.Phi)
	if oka && pa != a && okb && pb != b && pa.Block() == pb.Block() && l.has(pa) {
		for i := range pa.Edges {
			if !pairMid(l, a, b, pa.Edges[i], pb.Edges[i], mids) {
				return false
			}
		}
		return true
	}
	return mids(ea) && eb == ssa.Value(b) || mids(eb) && ea == ssa.Value(a)
}

func (t *termer) isMid(v ssa.Value, a, b ssa.Value) bool {
	m, ok := t.see(v).(*ssa.BinOp)
	if !ok {
		return false
	}
	sum := func(x ssa.Value) bool {
		s, ok := x.(*ssa.BinOp)
		return ok && s.Op == token.ADD && (s.X == a && s.Y == b || s.X == b && s.Y == a)
	}
	k := func(x ssa.Value, want float64) bool { c, ok := constNum(x); return ok && c == want }
	switch m.Op {
	case token.QUO:
		return sum(m.X) && k(m.Y, 2)
	case token.MUL:
		return sum(m.X) && k(m.Y, 0.5) || sum(m.Y) && k(m.X, 0.5)
	case token.ADD: // a + (b-a)/2
		for i, x := range []ssa.Value{m.X, m.Y} {
			h, ok := []ssa.Value{m.Y, m.X}[i].(*ssa.BinOp)
			if !ok {
				continue
			}
			var df ssa.Value
			switch {
			case h.Op == token.QUO && k(h.Y, 2):
				df = h.X
			case h.Op == token.MUL && k(h.Y, 0.5):
				df = h.X
			case h.Op == token.MUL && k(h.X, 0.5):
				df = h.Y
			}
			if s, ok := df.(*ssa.BinOp); ok && s.Op == token.SUB && (x == a && s.X == b && s.Y == a || x == b && s.X == a && s.Y == b) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- recursion

type scEdge struct {
	from, to *ssa.Function
	in       ssa.CallInstruction
	m        string // matrix [callee][caller]: '0' unrelated, '1' not larger, '2' smaller
}

// slots are the values whose structure is followed: parameters and captured variables.
func slots(f *ssa.Function) []ssa.Value {
	var r []ssa.Value
	for _, p := range f.Params {
		r = append(r, p)
	}
	for _, v := range f.FreeVars {
		r = append(r, v)
	}
	return r
}

// derive relates a value to the slots of its function.
func (t *termer) derive(v ssa.Value, ss []ssa.Value, busy map[ssa.Value]bool) []byte {
	n := len(ss)
	none := func() []byte { return []byte(strings.Repeat("0", n)) }
	for i, s := range ss {
		if s == v {
			r := none()
			r[i] = '1'
			return r
		}
	}
	if busy[v] {
		return nil // no contribution
	}
	busy[v] = true
	defer delete(busy, v)
	strict := func(r []byte) []byte {
		for i := range r {
			if r[i] == '1' {
				r[i] = '2'
			}
		}
		return r
	}
	meet := func(vs []ssa.Value) []byte {
		var r []byte
		for _, x := range vs {
			q := t.derive(x, ss, busy)
			if q == nil {
				continue
			}
			if r == nil {
				r = q
				continue
			}
			for i := range r {
				if q[i] < r[i] {
					r[i] = q[i]
				}
			}
		}
		if r == nil {
			return none()
		}
		return r
	}
	one := func(x ssa.Value) []byte {
		r := t.derive(x, ss, busy)
		if r == nil {
			return none()
		}
		return r
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return one(v.X)
	case *ssa.ChangeInterface:
		return one(v.X)
	case *ssa.ChangeType:
		return one(v.X)
	case *ssa.TypeAssert:
		return one(v.X)
	case *ssa.Extract:
		switch x := v.Tuple.(type) {
		case *ssa.TypeAssert:
			return one(x.X)
		case *ssa.Next:
			if rg, ok := x.Iter.(*ssa.Range); ok {
				return strict(one(rg.X))
			}
		case *ssa.Lookup:
			return strict(one(x.X))
		case *ssa.Call:
			if r := t.results(v); len(r) > 0 {
				return meet(r)
			}
			return t.callResult(x, v.Index, ss, busy)
		}
	case *ssa.Lookup:
		return strict(one(v.X))
	case *ssa.Field:
		return strict(one(v.X))
	case *ssa.Index:
		return strict(one(v.X))
	case *ssa.FieldAddr:
		return strict(one(v.X))
	case *ssa.IndexAddr:
		return strict(one(v.X))
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if al, ok := v.X.(*ssa.Alloc); ok {
				return t.local(al, ss, busy)
			}
			return one(v.X)
		}
	case *ssa.Alloc:
		// the address of a copy
		return t.local(v, ss, busy)
	case *ssa.Slice:
		r := one(v.X)
		if t.shorter(v) {
			return strict(r)
		}
		return r
	case *ssa.Phi:
		return meet(v.Edges)
	case *ssa.Call:
		if b, ok := v.Common().Value.(*ssa.Builtin); ok {
			if b.Name() == "ssa:wrapnilchk" {
				return one(v.Common().Args[0])
			}
			// append([]T(nil), x...) is a copy
			if a := v.Common().Args; b.Name() == "append" && len(a) == 2 && isNilConst(a[0]) {
				return one(a[1])
			}
			return none()
		}
		if r := t.results(v); len(r) > 0 {
			return meet(r)
		}
		return t.callResult(v, 0, ss, busy)
	}
	return none()
}

func (t *termer) local(al *ssa.Alloc, ss []ssa.Value, busy map[ssa.Value]bool) []byte {
	var r []byte
	n := 0
	for _, u := range *al.Referrers() {
		s, ok := u.(*ssa.Store)
		if !ok || s.Addr != ssa.Value(al) {
			continue
		}
		n++
		q := t.derive(s.Val, ss, busy)
		if q == nil {
			continue
		}
		if r == nil {
			r = q
			continue
		}
		for i := range r {
			if q[i] < r[i] {
				r[i] = q[i]
			}
		}
	}
	if r == nil {
		return []byte(strings.Repeat("0", len(ss)))
	}
	return r
}

// callResult uses the summary of what a function returns.
func (t *termer) callResult(c *ssa.Call, idx int, ss []ssa.Value, busy map[ssa.Value]bool) []byte {
	none := []byte(strings.Repeat("0", len(ss)))
	var r []byte
	fs, _ := t.o.callees(c)
	args := c.Common().Args
	if c.Common().IsInvoke() {
		args = append([]ssa.Value{c.Common().Value}, args...)
	}
	if len(fs) == 0 {
		return none
	}
	for _, g := range fs {
		mf := t.m.fns[g]
		if mf == nil || idx >= len(mf.sum.results) || mf.sum.fresh[idx] || len(mf.sum.results[idx]) == 0 {
			return none
		}
		for a := range mf.sum.results[idx] {
			if a.kind != mParam || a.idx >= len(args) {
				return none
			}
			q := t.derive(args[a.idx], ss, busy)
			if q == nil {
				return none
			}
			if a.level > 0 {
				for i := range q {
					if q[i] == '1' {
						q[i] = '2'
					}
				}
			}
			if r == nil {
				r = q
				continue
			}
			for i := range r {
				if q[i] < r[i] {
					r[i] = q[i]
				}
			}
		}
	}
	if r == nil {
		return none
	}
	return r
}

// shorter: a part of a slice with fewer elements.
func (t *termer) shorter(s *ssa.Slice) bool {
	isLen := func(v ssa.Value) bool {
		c, ok := t.see(v).(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Common().Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && sameSlice(c.Common().Args[0], s.X)
	}
	// min is the length the slice is known to have here
	min := int64(0)
	for b := t.block(s); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil || len(d.Instrs) == 0 {
			continue
		}
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		var pos bool
		switch {
		case len(b.Preds) != 1:
			continue
		case d.Succs[0] == b:
			pos = true
		case d.Succs[1] == b:
			pos = false
		default:
			continue
		}
		for _, r := range t.conj(i.Cond, pos) {
			x, y, op := r.x, r.y, r.op
			if k, ok := constInt(x); ok && isLen(y) {
				switch op {
				case token.LSS:
					op = token.GTR
				case token.LEQ:
					op = token.GEQ
				default:
					continue
				}
				if op == token.GTR {
					k++
				}
				if k > min {
					min = k
				}
				continue
			}
			k, ok := constInt(y)
			if !ok || !isLen(x) {
				continue
			}
			switch op {
			case token.GTR:
				k++
			case token.GEQ, token.EQL:
			default:
				continue
			}
			if k > min {
				min = k
			}
		}
	}
	// frac: a bound that lies strictly between 0 and the length
	inner := func(v ssa.Value) (pos, less bool) {
		if k, ok := constInt(v); ok {
			return k > 0 && k <= min, k < min
		}
		b, ok := v.(*ssa.BinOp)
		if !ok {
			return false, false
		}
		k, ok := constInt(b.Y)
		if !ok || !isLen(b.X) {
			return false, false
		}
		switch b.Op {
		case token.QUO:
			return k >= 1 && min >= k, k >= 2 && min >= 1
		case token.SHR:
			return k < 40 && min >= 1<<uint(k), k >= 1 && min >= 1
		case token.SUB:
			return k < min, k >= 1
		}
		return false, false
	}
	if s.Low != nil {
		if p, _ := inner(s.Low); p {
			return true
		}
	}
	if s.High != nil {
		if _, l := inner(s.High); l {
			return true
		}
	}
	return false
}

func sameSlice(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X
}

// boxed reports whether a value with method g is put in an interface anywhere
// in the module: no other type is the dynamic type of an interface value.
func (t *termer) boxed(g *ssa.Function) bool {
	if t.boxes == nil {
		t.boxes = map[string]bool{}
		var add func(ty types.Type)
		add = func(ty types.Type) {
			if p, ok := ty.Underlying().(*types.Pointer); ok {
				ty = p.Elem()
			}
			if t.boxes[ty.String()] {
				return
			}
			t.boxes[ty.String()] = true
			if s, ok := ty.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Embedded() {
						add(s.Field(i).Type())
					}
				}
			}
		}
		for _, f := range t.p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if m, ok := in.(*ssa.MakeInterface); ok {
						add(m.X.Type())
					}
				}
			}
		}
	}
	r := g.Signature.Recv()
	if r == nil {
		return true
	}
	ty := r.Type()
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		ty = p.Elem()
	}
	return t.boxes[ty.String()]
}

// callGraph lists the calls within a set of functions, with the relation of
// their arguments. cut functions are not entered.
func (t *termer) callGraph(cut map[*ssa.Function]bool) (es []scEdge, fns []*ssa.Function) {
	for f := range t.o.reach {
		if len(f.Blocks) == 0 || !(inScope(f) || isWrapper(f)) || cut[f] {
			continue
		}
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	for _, f := range fns {
		ss := slots(f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				args := cc.Args
				if cc.IsInvoke() {
					args = append([]ssa.Value{cc.Value}, args...)
				}
				fs, _ := t.o.callees(c)
				for _, g := range fs {
					if !in[g] || cc.IsInvoke() && !t.boxed(g) {
						continue
					}
					var m []byte
					ps := slots(g)
					for i := range ps {
						switch {
						case i < len(g.Params) && i < len(args):
							m = append(m, t.derive(args[i], ss, map[ssa.Value]bool{})...)
						case i >= len(g.Params):
							// captured: part of the function value
							if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
								m = append(m, t.derive(mc.Bindings[i-len(g.Params)], ss, map[ssa.Value]bool{})...)
								break
							}
							r := t.derive(cc.Value, ss, map[ssa.Value]bool{})
							for k := range r {
								if r[k] == '1' {
									r[k] = '2'
								}
							}
							m = append(m, r...)
						default:
							m = append(m, []byte(strings.Repeat("0", len(ss)))...)
						}
					}
					es = append(es, scEdge{f, g, c, string(m)})
				}
				// functions passed to the library may be called by it
				if g := cc.StaticCallee(); g != nil && !in[g] {
					for _, a := range cc.Args {
						if mc, ok := a.(*ssa.MakeClosure); ok && in[mc.Fn.(*ssa.Function)] {
							h := mc.Fn.(*ssa.Function)
							var m []byte
							for range h.Params {
								m = append(m, []byte(strings.Repeat("0", len(ss)))...)
							}
							for _, bd := range mc.Bindings {
								m = append(m, t.derive(bd, ss, map[ssa.Value]bool{})...)
							}
							es = append(es, scEdge{f, h, c, string(m)})
						}
					}
				}
			}
		}
	}
	return
}

// recursion applies the size-change principle to every cycle; it reports the
// number of edges in cycles, and the first call that does not descend.
func (t *termer) recursion(cut map[*ssa.Function]bool) (n int, cycles []string, bad []string) {
	es, fns := t.callGraph(cut)
	out := map[*ssa.Function][]scEdge{}
	for _, e := range es {
		out[e.from] = append(out[e.from], e)
	}
	// strongly connected components
	comp := map[*ssa.Function]int{}
	{
		idx, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
		on := map[*ssa.Function]bool{}
		var st []*ssa.Function
		k, nc := 0, 0
		var dfs func(f *ssa.Function)
		dfs = func(f *ssa.Function) {
			k++
			idx[f], low[f] = k, k
			st = append(st, f)
			on[f] = true
			for _, e := range out[f] {
				if idx[e.to] == 0 {
					dfs(e.to)
					if low[e.to] < low[f] {
						low[f] = low[e.to]
					}
				} else if on[e.to] && idx[e.to] < low[f] {
					low[f] = idx[e.to]
				}
			}
			if low[f] == idx[f] {
				nc++
				for {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					on[x] = false
					comp[x] = nc
					if x == f {
						break
					}
				}
			}
		}
		for _, f := range fns {
			if idx[f] == 0 {
				dfs(f)
			}
		}
	}
	type gk struct {
		from, to *ssa.Function
		m        string
	}
	byComp := map[int][]scEdge{}
	for _, e := range es {
		if comp[e.from] == comp[e.to] {
			byComp[comp[e.from]] = append(byComp[comp[e.from]], e)
			n++
		}
	}
	var ids []int
	for id := range byComp {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		edges := byComp[id]
		names := map[string]bool{}
		for _, e := range edges {
			names[strings.ReplaceAll(e.from.String(), modPath+"/", "")] = true
		}
		var nm []string
		for x := range names {
			nm = append(nm, x)
		}
		sort.Strings(nm)
		cycles = append(cycles, strings.Join(nm, ", "))
		set := map[gk]scEdge{}
		var work []gk
		add := func(k gk, e scEdge) {
			if _, ok := set[k]; !ok {
				set[k] = e
				work = append(work, k)
			}
		}
		base := map[*ssa.Function][]scEdge{}
		seen := map[gk]bool{}
		for _, e := range edges {
			k := gk{e.from, e.to, e.m}
			if !seen[k] {
				seen[k] = true
				base[e.from] = append(base[e.from], e)
			}
			add(k, e)
		}
		done := false
		for len(work) > 0 && !done {
			k := work[len(work)-1]
			work = work[:len(work)-1]
			if k.from == k.to {
				nf := len(slots(k.from))
				if mulM(k.m, k.m, nf, nf, nf) == k.m {
					desc := false
					for i := 0; i < nf; i++ {
						if k.m[i*nf+i] == '2' {
							desc = true
						}
					}
					if !desc {
						e := set[k]
						bad = append(bad, fmt.Sprintf("%s: %s can call itself (through %s) without going down the structure of any argument", t.p.Pos(e.in.Pos()), k.from.RelString(nil), e.to.RelString(nil)))
						done = true
					}
				}
			}
			for _, e := range base[k.to] {
				add(gk{k.from, e.to, mulM(e.m, k.m, len(slots(e.to)), len(slots(k.to)), len(slots(k.from)))}, e)
			}
			if len(set) > 200000 {
				bad = append(bad, "the calls between "+strings.Join(nm, ", ")+" are too many to decide")
				done = true
			}
		}
	}
	return
}

// mulM composes relations: c = a after b, with a [n][k] and b [k][m].
func mulM(a, b string, n, k, m int) string {
	r := make([]byte, n*m)
	for i := range r {
		r[i] = '0'
	}
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			x := a[i*k+j]
			if x == '0' {
				continue
			}
			for q := 0; q < m; q++ {
				y := b[j*m+q]
				if y == '0' {
					continue
				}
				z := x
				if y > z {
					z = y
				}
				if z > r[i*m+q] {
					r[i*m+q] = z
				}
			}
		}
	}
	return string(r)
}
