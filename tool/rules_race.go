package main

import (
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", 100, "ownership and effect analysis over the call graph", "The call graph below every go statement of the renderer is built (class hierarchy analysis; function values by signature). Every store, append, copy, map update and library call that writes must go to memory which the goroutine allocated itself, judged by tracing each address back to allocations, parameters at all call sites, captured variables and fields; the only exception is the sampler's accumulators, for which the row and column of every access must be those of the pixel being sampled.", checkC01)
}

// goRoots lists the go statements of the renderer and the functions they start.
func goRoots(p *Prog) (gs []ssa.CallInstruction, roots []*ssa.Function) {
	for _, f := range p.funcs {
		if !inScope(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var v ssa.Value
				switch in := in.(type) {
				case *ssa.Go:
					v = in.Call.Value
				case *ssa.Call:
					if _, ok := isCallOf(in, wgName+"Go"); ok {
						v = in.Call.Args[1]
					}
				}
				if v == nil {
					continue
				}
				g := in.(ssa.CallInstruction)
				switch v := v.(type) {
				case *ssa.MakeClosure:
					roots = append(roots, v.Fn.(*ssa.Function))
				case *ssa.Function:
					if !p.inModule(v) {
						continue
					}
					roots = append(roots, v)
				default:
					panic(undecided("go statement at " + p.Pos(in.Pos())))
				}
				gs = append(gs, g)
			}
		}
	}
	return
}

// closureOf returns the closure a goroutine executes.
func closureOf(g ssa.CallInstruction) (*ssa.MakeClosure, bool) {
	v := g.Common().Value
	if _, ok := g.(*ssa.Call); ok {
		v = g.Common().Args[1]
	}
	mc, ok := v.(*ssa.MakeClosure)
	return mc, ok
}

// pixelAccess evaluates sampling, and checks that the workers access no
// accumulator but those of the pixel being sampled; it returns the positions of
// the stores that were checked.
func (w *W) pixelAccess() map[token.Pos]bool {
	aa := w.g.Sym("aa", boolT())
	s := w.newSampling(aa)
	w.LogUses, w.Uses = true, nil
	s.run()
	if len(s.calls) != 1 {
		panic(undecided("calls of the image function"))
	}
	cr := s.calls[0]
	loops := s.loops(cr)
	px, py := s.pixelOf(cr)
	m := map[*V]*V{aa: w.g.False}
	px, py = w.subst(px, m), w.subst(py, m)
	done := map[token.Pos]bool{}
	bad := map[token.Pos]bool{}
	for _, u := range w.Uses {
		if u.Ptr.K != KPtr || len(u.Ptr.path) == 0 || u.Ptr.path[0].Idx == nil {
			continue
		}
		in := u.Ptr.obj.init
		if in == nil || in.K != KFn || !strings.HasPrefix(in.name, "elems:elems:s.") || len(in.args) != 1 {
			continue
		}
		row, col := s.x(in.args[0]), s.x(u.Ptr.path[0].Idx)
		w.where = w.p.Pos(u.Pos)
		w.All(func(c *Case) {
			s.assumeImg(c)
			s.inside(c, loops)
			if !c.Eq(row, py) || !c.Eq(col, px) {
				bad[u.Pos] = true
				c.Fail("%s: a worker accesses the accumulator at row %s, column %s, while sampling the pixel at row %s, column %s", w.p.Pos(u.Pos), c.Show(row), c.Show(col), c.Show(py), c.Show(px))
			}
		})
		if u.Store {
			done[u.Pos] = true
		}
	}
	if len(done) == 0 {
		w.fail("no accumulator is written")
	}
	return done
}

func checkC01(r *R) {
	r.Rule("effects of the workers", "", func(w *W) {
		done := w.pixelAccess()
		gs, roots := goRoots(w.p)
		if len(roots) == 0 {
			panic(anchorErr("no go statement in the renderer"))
		}
		judge := func(who string, roots ...*ssa.Function) {
			o := newOwner(w.p, roots...)
			es, n, fns := o.effects()
			w.oblige(n)
			for _, f := range fns {
				w.Inlined[f]++
			}
			for _, e := range es {
				if e.in.Pos().IsValid() && done[e.in.Pos()] {
					continue
				}
				w.where = w.p.Pos(e.in.Pos()) + " " + e.in.Parent().String()
				w.fail("%s writes to %s (%s, reached by %s)", who, e.why, e.in, o.path(e.in.Parent()))
			}
		}
		// Goroutines that render are judged together, others by themselves.
		var workers []*ssa.Function
		renders := map[*ssa.Function]bool{}
		for _, f := range roots {
			if rendersImage(newOwner(w.p, f)) {
				workers = append(workers, f)
				renders[f] = true
			} else {
				judge("a goroutine", f)
			}
		}
		if len(workers) == 0 {
			panic(anchorErr("no goroutine renders"))
		}
		judge("a worker", workers...)
		// The goroutines have ended when sampling returns.
		for i, g := range gs {
			if !renders[roots[i]] {
				continue
			}
			w.oblige(1)
			w.where = w.p.Pos(g.Pos()) + " " + g.Parent().String()
			if m := joined(w.p, g, roots[i], g.Parent(), 0); m != "" {
				w.fail("%s", m)
			}
		}
		// Variables captured by the goroutine are not assigned once it runs.
		for _, g := range gs {
			mc, ok := closureOf(g)
			if !ok {
				continue
			}
			for _, bd := range mc.Bindings {
				al, ok := bd.(*ssa.Alloc)
				if !ok {
					continue
				}
				w.oblige(1)
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == ssa.Value(al) && after(st, g, al) {
						w.where = w.p.Pos(st.Pos())
						w.fail("variable %s is assigned while the goroutine started at %s may use it", al.Comment, w.p.Pos(g.Pos()))
					}
				}
			}
		}
	})
}

// rendersImage reports whether a goroutine gets to the renderer proper.
func rendersImage(o *owner) bool {
	for f := range o.reach {
		if q := fnPkg(f); q != nil && strings.HasPrefix(q.Path(), modPath+"/tracer") {
			return true
		}
	}
	return false
}

// after reports whether an instruction may be executed after another one,
// without the variable being created anew in between.
func after(in, from ssa.Instruction, al *ssa.Alloc) bool {
	idx := func(i ssa.Instruction) int {
		for k, x := range i.Block().Instrs {
			if x == i {
				return k
			}
		}
		return -1
	}
	if in.Block() == from.Block() && idx(in) > idx(from) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, i := range b.Instrs {
			if i == ssa.Instruction(al) {
				return false
			}
			if i == in {
				return true
			}
		}
		for _, s := range b.Succs {
			if visit(s) {
				return true
			}
		}
		return false
	}
	for _, s := range from.Block().Succs {
		if visit(s) {
			return true
		}
	}
	return false
}

// isCallOf reports whether an instruction calls (or defers) a function, possibly
// by way of a deferred closure that calls it.
func isCallOf(in ssa.Instruction, name string) (ssa.CallInstruction, bool) {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	f := c.Common().StaticCallee()
	if f == nil {
		return nil, false
	}
	if fnName(f) == name {
		return c, true
	}
	if _, ok := in.(*ssa.Defer); ok && inScope(f) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.Call); ok {
					if c, ok := isCallOf(i, name); ok {
						return c, true
					}
				}
			}
		}
	}
	return nil, false
}

// passes reports whether all paths from an instruction (nil: the entry) to
// the target meet a wanted instruction before; a nil target is any return.
func passes(f *ssa.Function, from, to ssa.Instruction, want func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, k int) bool
	scan = func(b *ssa.BasicBlock, k int) bool {
		for _, in := range b.Instrs[k:] {
			if to != nil && in == to {
				return false
			}
			if want(in) {
				return true
			}
			if _, ok := in.(*ssa.Return); ok {
				return to != nil
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if !scan(s, 0) {
					return false
				}
			}
		}
		return true
	}
	if from == nil {
		seen[f.Blocks[0]] = true
		return scan(f.Blocks[0], 0)
	}
	for k, in := range from.Block().Instrs {
		if in == from {
			return scan(from.Block(), k+1)
		}
	}
	return true
}

const wgName = "(*sync.WaitGroup)."

// joined tells why a goroutine may still run when the function that started it
// returns; at is the go statement, or the call through which it is reached.
func joined(p *Prog, at ssa.Instruction, root, f *ssa.Function, depth int) string {
	wait := func(in ssa.Instruction) bool {
		if _, ok := isCallOf(in, wgName+"Wait"); ok {
			return true
		}
		u, ok := in.(*ssa.UnOp)
		return ok && u.Op == token.ARROW
	}
	recv := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW && !passes(f, at, in, func(ssa.Instruction) bool { return false }) {
				recv = true // how often is checked by C05
			}
		}
	}
	deferred := recv
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok && wait(d) && passes(f, nil, at, func(i ssa.Instruction) bool { return i == ssa.Instruction(d) }) {
				deferred = true
			}
		}
	}
	if !deferred && !passes(f, at, nil, wait) {
		// the caller may wait
		var sites []ssa.Instruction
		for _, g := range p.funcs {
			if !inScope(g) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
						sites = append(sites, in)
					}
				}
			}
		}
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				has = has || wait(in)
			}
		}
		if has || len(sites) == 0 || depth > 3 {
			return "the function may return without waiting for the goroutine, which writes to the image"
		}
		for _, s := range sites {
			if m := joined(p, s, nil, s.Parent(), depth+1); m != "" {
				return m
			}
		}
	}
	if root == nil {
		return ""
	}
	usesWG := false
	for _, b := range root.Blocks {
		for _, in := range b.Instrs {
			if c, ok := isCallOf(in, wgName+"Done"); ok {
				usesWG = true
				if _, ok := in.(*ssa.Defer); !ok && workAfter(c) {
					return "the goroutine goes on working after it reported to be done, at " + p.Pos(in.Pos())
				}
			}
			if _, ok := isCallOf(in, wgName+"Add"); ok {
				return "the goroutine is counted by itself, at " + p.Pos(in.Pos()) + ": waiting may end before it starts"
			}
		}
	}
	if !usesWG {
		return "" // other means of synchronisation
	}
	done := func(in ssa.Instruction) bool { _, ok := isCallOf(in, wgName+"Done"); return ok }
	if !passes(root, nil, nil, done) {
		return "the goroutine may end without reporting so"
	}
	add := func(in ssa.Instruction) bool { _, ok := isCallOf(in, wgName+"Add"); return ok }
	if !passes(f, nil, at, add) {
		return "the goroutine is not counted before it is started"
	}
	if !passes(f, at, at, add) {
		// counted outside of the loop
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := isCallOf(in, wgName+"Add")
				if !ok {
					continue
				}
				n := c.Common().Args[1]
				ok = false
				for _, h := range f.Blocks {
					if iff, is := h.Instrs[len(h.Instrs)-1].(*ssa.If); is {
						if cmp, is := iff.Cond.(*ssa.BinOp); is && (cmp.Op == token.LSS || cmp.Op == token.NEQ) && sameValue(cmp.Y, n, 0) && fromZero(cmp.X) {
							ok = true
						}
						if cmp, is := iff.Cond.(*ssa.BinOp); is && cmp.Op == token.GTR && fromN(cmp.X, n) {
							ok = true
						}
					}
				}
				if !ok {
					return "the number of goroutines waited for, at " + p.Pos(in.Pos()) + ", is not the number of those started"
				}
			}
		}
	}
	return ""
}

// workAfter reports whether calls or stores may follow an instruction.
func workAfter(c ssa.Instruction) bool {
	f := c.Parent()
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Call, *ssa.Store, *ssa.Send:
				if !passes(f, c, in, func(ssa.Instruction) bool { return false }) {
					return true
				}
			}
		}
	}
	return false
}

// fromZero reports whether a value is a counter that starts at zero and is incremented by one.
func fromZero(v ssa.Value) bool {
	// range over an integer: counter starts at -1 and is incremented before the test
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD && isConst(b.Y, 1) {
		if ph, ok := b.X.(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				if e != v && !isConst(e, -1) {
					return false
				}
			}
			return true
		}
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range ph.Edges {
		if isConst(e, 0) {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != v || !isConst(b.Y, 1) {
			return false
		}
	}
	return true
}

// fromN reports whether a value counts down from n.
func fromN(v, n ssa.Value) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range ph.Edges {
		if sameValue(e, n, 0) {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.SUB || b.X != v || !isConst(b.Y, 1) {
			return false
		}
	}
	return true
}

func isConst(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && c.Int64() == n
}

// sameValue compares expressions structurally.
func sameValue(a, b ssa.Value, depth int) bool {
	if a == b {
		return true
	}
	if depth > 5 {
		return false
	}
	switch x := a.(type) {
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && sameValue(x.X, y.X, depth+1) && sameValue(x.Y, y.Y, depth+1)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || x.Call.StaticCallee() == nil || x.Call.StaticCallee() != y.Call.StaticCallee() || len(x.Call.Args) != len(y.Call.Args) {
			return false
		}
		for i := range x.Call.Args {
			if !sameValue(x.Call.Args[i], y.Call.Args[i], depth+1) {
				return false
			}
		}
		return fnName(x.Call.StaticCallee()) == "runtime.NumCPU"
	}
	return false
}
