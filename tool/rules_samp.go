package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
)

func init() {
	register("C06", 10, "abstract interpretation of the sampler with symbolic samples and accumulators", "The sampler is evaluated on small images with an image function that returns arbitrary colours: from a new sampler (base), and by one more pass from a sampler whose accumulators hold arbitrary values (induction step: with I the image before and p the pass passed to the context, the image afterwards must be (I p + c)/(p+1)). NaN samples, pixel indices of the context, sample positions with and without anti-aliasing, the standard deviation, and absence of side effects of reading the image are decided on the same evaluation.", checkC06)
	register("C05", 10, "loop-summary analysis with linear integer domain", "Sampling is evaluated for an image of arbitrary size, number of passes and number of CPUs; every loop is summarised by one generic iteration. The calls of the image function are traced back through the pixel loops and the work channel to the loops that send the work items: the intervals covered must tile [0,W) x [0,H) exactly once (telescoping argument), each call must be unconditional, the queue must hold all items sent before the workers start, be closed after the last one, and every worker be waited for.", checkC05)
}

// subst replaces subterms.
func (w *W) subst(v *V, m map[*V]*V) *V {
	memo := map[*V]*V{}
	var f func(v *V) *V
	f = func(v *V) *V {
		if r, ok := m[v]; ok {
			return r
		}
		if len(v.args) == 0 && len(v.path) == 0 {
			return v
		}
		if r, ok := memo[v]; ok {
			return r
		}
		a := make([]*V, len(v.args))
		ch := false
		for i, x := range v.args {
			a[i] = f(x)
			ch = ch || a[i] != x
		}
		var p []Sel
		for _, s := range v.path {
			if s.Idx != nil {
				if x := f(s.Idx); x != s.Idx {
					s.Idx = x
					ch = true
				}
			}
			p = append(p, s)
		}
		r := v
		if ch {
			g := w.g
			switch {
			case v.K == KOp && v.name == "+":
				r = g.Add(a[0], a[1])
			case v.K == KOp && v.name == "-":
				r = g.Sub(a[0], a[1])
			case v.K == KOp && v.name == "*":
				r = g.Mul(a[0], a[1])
			case v.K == KCmp:
				r = g.Cmp(v.name, a[0], a[1])
			case v.K == KNot:
				r = g.Not(a[0])
			case v.K == KAnd:
				r = g.And(a[0], a[1])
			case v.K == KOr:
				r = g.Or(a[0], a[1])
			case v.K == KIte:
				r = g.Ite(a[0], a[1], a[2])
			default:
				c := *v
				c.args, c.path = a, p
				r = g.mk(&c)
			}
		}
		memo[v] = r
		return r
	}
	return f(v)
}

func occurs(v, in *V) bool {
	seen := map[*V]bool{}
	var f func(x *V) bool
	f = func(x *V) bool {
		if x == v {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, a := range x.args {
			if f(a) {
				return true
			}
		}
		for _, s := range x.path {
			if s.Idx != nil && f(s.Idx) {
				return true
			}
		}
		return false
	}
	return f(in)
}

// leafs lists the components of a value that are not aggregates.
func leafs(v *V) (r []*V) {
	if v.K == KAgg || v.K == KTuple {
		for _, a := range v.args {
			r = append(r, leafs(a)...)
		}
		return
	}
	return []*V{v}
}

// conjuncts splits a condition.
func conjuncts(v *V) []*V {
	if v == nil {
		return nil
	}
	if v.K == KAnd {
		var r []*V
		for _, a := range v.args {
			r = append(r, conjuncts(a)...)
		}
		return r
	}
	return []*V{v}
}

// counter describes a counted loop: sym runs from init in steps of step while
// sym < bound, or downwards while sym > bound.
type counter struct {
	l                      *LoopRec
	sym, init, step, bound *V
	cond                   *V
	down                   bool
}

// size is the distance from the first value to the bound.
func (k *counter) size(w *W) *V {
	if k.down {
		return w.sub(k.init, k.bound)
	}
	return w.sub(k.bound, k.init)
}

func (k *counter) abs(w *W) *V {
	if k.down {
		return w.g.Int(int(-k.step.num))
	}
	return k.step
}

func (w *W) counter(l *LoopRec) *counter {
	for _, p := range l.Phis {
		if p.Next == nil || !isInt(p.Sym.typ) {
			continue
		}
		step := w.constDiff(p.Next, p.Sym)
		if step == nil || step.num == 0 {
			continue
		}
		for _, c := range conjuncts(l.Stay) {
			if c.K != KCmp || c.name != "<" && c.name != "<=" {
				continue
			}
			cv, lim, out := c.args[0], c.args[1], 1
			if step.num < 0 {
				cv, lim, out = lim, cv, -1
			}
			d := w.constDiff(cv, p.Sym)
			if d == nil || occurs(p.Sym, lim) {
				continue
			}
			b := w.g.Sub(lim, d)
			if c.name == "<=" {
				b = w.g.Add(b, w.g.Int(out))
			}
			return &counter{l, p.Sym, p.Init, step, b, c, step.num < 0}
		}
	}
	return nil
}

// constDiff is the constant a-b, or nil.
func (w *W) constDiff(a, b *V) *V {
	var r *V
	ForAllCases(w.n, func(c *Case) {
		nf := c.Norm(w.g.Sub(a, b))
		if nf.special == 0 && nf.r != nil {
			if x, ok := nf.r.isConst(); ok {
				r = w.g.Int(int(x))
			}
		}
	})
	return r
}

// sampling is the analysis of one call of Sampler.Sample.
type sampling struct {
	w         *W
	W, H      *V
	nPass     *V
	img       *V // an image of the sampler, to tell its dimensions
	calls     []*CallRec
	cnt       map[*LoopRec]*counter
	events    []*CallRec // of wait groups
	joins     []*CallRec // receive operations of the starter
	recv      *CallRec
	send      *CallRec
	sub       map[*V]*V
	after     *V // sampler afterwards
	sp        *V
	t         types.Type
	fields    map[string]int
	inits     []*CallRec
	fsym      *V
	sumT      types.Type
	assumeImg func(c *Case)
}

// newSampling evaluates Sample(nPass) of a sampler in an arbitrary state.
func (w *W) newSampling(aa *V) *sampling {
	s := &sampling{w: w, cnt: map[*LoopRec]*counter{}, t: w.samplerT(), fields: map[string]int{}}
	f := w.g.Sym("f", w.p.Type("tracer", "ImageFunc"))
	s.fsym = f
	// The roles of the fields are found from a new sampler.
	fresh := w.get(w.call("tracer", "NewSampler", f, w.g.Int(3), w.g.Int(2), w.g.Sym("aa", boolT())), s.t)
	s.nPass = w.I("nPass")
	val := fresh
	st := s.t.Underlying().(*types.Struct)
	var assume []func(c *Case)
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		switch ty := st.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			if _, ok := ty.Elem().Underlying().(*types.Slice); !ok {
				panic(undecided("field " + n + " of Sampler"))
			}
			img := w.g.expand("s."+n, st.Field(i).Type())
			val = aggSet(w.g, val, []int{i}, img)
			rl := w.rowLen(img, w.num(0))
			if s.W == nil {
				s.W, s.H = rl, w.lenOf(img)
				continue
			}
			assume = append(assume, func(c *Case) {
				c.Assume(w.g.Cmp("==", w.lenOf(img), s.H))
				c.Assume(w.g.Cmp("==", rl, s.W))
			})
		case *types.Basic:
			if isBoolType(st.Field(i).Type()) {
				val = aggSet(w.g, val, []int{i}, aa)
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if x := fresh.args[i]; x.K == KNum && x.num == 3 {
			val = aggSet(w.g, val, []int{i}, s.W)
		} else if x.K == KNum && x.num == 2 {
			val = aggSet(w.g, val, []int{i}, s.H)
		}
	}
	s.assumeImg = func(c *Case) {
		c.Assume(w.g.Cmp("<=", w.num(1), s.W))
		c.Assume(w.g.Cmp("<=", w.num(1), s.H))
		c.NonNeg(s.nPass)
		for _, a := range assume {
			a(c)
		}
	}
	s.sp = w.box(val)
	w.Calls, w.Loops, w.Sends, w.Gos, w.Idx, w.Panics, w.Log = nil, nil, nil, nil, nil, nil, nil
	w.RunGo = true
	w.handlers["runtime.NumCPU"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return w.I("numCPU"), true }
	w.handlers["runtime.GOMAXPROCS"] = w.handlers["runtime.NumCPU"]
	for _, m := range []string{"Add", "Done", "Wait"} {
		w.handlers["(*sync.WaitGroup)."+m] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			it.Log = append(it.Log, cr)
			return w.g.mk(&V{K: KTuple, typ: types.NewTuple()}), true
		}
	}
	w.handlers[ctxName+"Init"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		it.Log = append(it.Log, cr)
		return nil, false
	}
	return s
}

// run evaluates the sampling and collects the calls of the image function.
func (s *sampling) run() {
	w := s.w
	w.method("tracer", "Sampler", "Sample", s.sp, s.nPass)
	s.after = w.get(s.sp, s.t)
	for _, cr := range w.Calls {
		if strings.HasPrefix(cr.Name, "call") && cr.Recv == s.fsym {
			s.calls = append(s.calls, cr)
		}
		if cr.Name == "recv" {
			if len(w.Gos) > 0 && cr.Fn == w.Gos[0].Fn && cr.Seq > w.Gos[0].Seq {
				s.joins = append(s.joins, cr)
				continue // waits for the workers
			}
			if s.recv != nil {
				panic(undecided("two receive operations"))
			}
			s.recv = cr
		}
	}
	for _, l := range w.Log {
		if cr, ok := l.(*CallRec); ok {
			if strings.Contains(cr.Name, "WaitGroup") {
				s.events = append(s.events, cr)
			} else {
				s.inits = append(s.inits, cr)
			}
		}
	}
	for _, l := range w.Loops {
		if c := w.counter(l); c != nil {
			s.cnt[l] = c
		}
	}
	s.sub = map[*V]*V{}
	if s.recv != nil {
		for _, sd := range w.Sends {
			if sd.Recv != s.recv.Recv {
				continue
			}
			if s.send != nil {
				panic(undecided("two send operations"))
			}
			s.send = sd
		}
		if s.send == nil {
			w.fail("nothing is sent on the channel that the workers receive from")
			return
		}
		got := s.recv.Res
		if got.K == KTuple {
			got = got.args[0]
		}
		a, b := leafs(got), leafs(s.send.Args[0])
		if len(a) != len(b) {
			panic(undecided("shape of the work items"))
		}
		for i := range a {
			s.sub[a[i]] = b[i]
		}
	}
	if len(s.calls) == 0 {
		w.fail("the image function is never called")
	}
}

// loops lists the loops around a call, including those around the send
// operation of the work item.
func (s *sampling) loops(cr *CallRec) []*LoopRec {
	r := append([]*LoopRec(nil), cr.Loops...)
	if s.send != nil {
		for _, l := range s.send.Loops {
			dup := false
			for _, k := range r {
				dup = dup || k.Head == l.Head
			}
			if !dup {
				r = append(r, l)
			}
		}
	}
	return r
}

// inner lists the loops from the innermost outwards.
func (s *sampling) inner(loops []*LoopRec) (r []*LoopRec) {
	n := len(loops)
	if len(s.calls) > 0 && len(s.calls[0].Loops) <= n {
		n = len(s.calls[0].Loops)
	}
	for i := n - 1; i >= 0; i-- {
		r = append(r, loops[i])
	}
	for i := len(loops) - 1; i >= n; i-- {
		r = append(r, loops[i])
	}
	return
}

// rec finds the final record of a loop.
func (s *sampling) rec(l *LoopRec) *LoopRec {
	for _, k := range s.w.Loops {
		if k == l {
			return k
		}
	}
	panic(undecided("loop without record"))
}

func (s *sampling) x(v *V) *V { return s.w.subst(v, s.sub) }

// inside assumes that the body of the loops is being executed.
func (s *sampling) inside(c *Case, loops []*LoopRec) {
	w := s.w
	for _, l := range loops {
		if k := s.cnt[l]; k != nil {
			if k.down {
				c.Assume(w.le(k.sym, s.x(k.init)))
			} else {
				c.Assume(w.le(s.x(k.init), k.sym))
			}
			c.Assume(s.x(k.cond))
		} else {
			for _, q := range conjuncts(l.Stay) {
				if q.K == KFn {
					c.Assume(q)
				}
			}
		}
	}
}

// interval describes what a coordinate runs over.
type interval struct {
	lo, hi *V
	used   map[*LoopRec]bool
}

// cover computes the interval covered by an integer expression, when the given
// loops run; the iterations of each loop must cover adjacent intervals.
func (s *sampling) cover(what string, e *V, loops []*LoopRec) *interval {
	w := s.w
	iv := &interval{e, w.g.Add(e, w.g.Int(1)), map[*LoopRec]bool{}}
	for i := 0; ; i++ {
		if i > 20 {
			panic(undecided("cover"))
		}
		lo, hi := s.x(iv.lo), s.x(iv.hi)
		var k *counter
		for _, l := range s.inner(loops) {
			if c := s.cnt[l]; k == nil && c != nil && !iv.used[l] && (occurs(c.sym, lo) || occurs(c.sym, hi)) {
				k = c
			}
			for _, p := range l.Phis {
				if s.cnt[l] == nil && (occurs(p.Sym, lo) || occurs(p.Sym, hi)) {
					panic(undecided(what + " depends on a loop that does not count"))
				}
			}
		}
		if k == nil {
			iv.lo, iv.hi = lo, hi
			return iv
		}
		iv.used[k.l] = true
		init, bound := s.x(k.init), s.x(k.bound)
		next := w.g.Add(k.sym, k.step)
		at := func(e, v *V) *V { return w.subst(e, map[*V]*V{k.sym: v}) }
		w.where = w.p.Pos(k.l.Pos)
		more, runs := w.lt(next, bound), w.lt(init, bound)
		first, last := lo, hi
		if k.down {
			more, runs = w.lt(bound, next), w.lt(bound, init)
			first, last = hi, lo
		}
		// adjacent iterations
		w.All(func(c *Case) {
			s.assumeImg(c)
			s.inside(c, loops)
			if !c.Bool(w.le(lo, hi)) {
				c.Fail("%s covered backwards, from %s to %s", what, c.Show(lo), c.Show(hi))
			}
			if c.Bool(more) && !c.Eq(at(first, next), last) {
				c.Fail("%s: one iteration ends at %s, but the next starts at %s", what, c.Show(last), c.Show(at(first, next)))
			}
		})
		if w.bad {
			return iv
		}
		// the end: where the last iteration stops
		start := at(first, init)
		var around []*LoopRec
		for _, l := range loops {
			if o := s.cnt[l]; !iv.used[l] && o != nil && !occurs(k.sym, s.x(o.init)) && !occurs(k.sym, s.x(o.bound)) {
				around = append(around, l)
			}
		}
		var end *V
		msg := ""
		for _, e := range []*V{w.g.Add(bound, w.g.Int(map[bool]int{true: 1}[k.down])), s.W, s.H, w.num(0), at(last, w.g.Sub(bound, w.g.Int(map[bool]int{false: 1, true: -1}[k.down])))} {
			ok := true
			r := ForAllCases(w.n, func(c *Case) {
				s.assumeImg(c)
				s.inside(c, around)
				if !c.Bool(runs) && !c.Eq(start, e) {
					ok = false
				}
			})
			if !ok || r.Und != "" {
				continue
			}
			r = ForAllCases(w.n, func(c *Case) {
				s.assumeImg(c)
				s.inside(c, loops)
				if !c.Bool(more) && !c.Eq(last, e) {
					ok = false
					if msg == "" {
						msg = fmt.Sprintf("%s: the last iteration ends at %s instead of %s", what, c.Show(last), c.Show(e))
					}
				}
			})
			if ok && r.Und == "" {
				end = e
				break
			}
		}
		w.oblige(2)
		if end == nil {
			if msg == "" {
				msg = what + ": the loop may not run at all"
			}
			w.fail("%s", msg)
			return iv
		}
		iv.lo, iv.hi = start, end
		if k.down {
			iv.lo, iv.hi = end, start
		}
	}
}

// unconditional requires a call to be executed in every iteration of its loops,
// and none of the loops to end early.
func (s *sampling) unconditional(what string, cr *CallRec, loops []*LoopRec) {
	w := s.w
	w.where = w.p.Pos(cr.Pos)
	w.All(func(c *Case) {
		s.assumeImg(c)
		s.inside(c, loops)
		for _, q := range conjuncts(cr.Guard) {
			if s.exit(q) || s.open(q) {
				continue
			}
			if !c.Bool(s.x(q)) {
				c.Fail("%s does not take place in every iteration: only if %s", what, c.n.g.short(s.x(q)))
				return
			}
		}
	})
	for _, l := range loops {
		l := l
		w.where = w.p.Pos(l.Pos)
		w.All(func(c *Case) {
			s.assumeImg(c)
			s.inside(c, loops)
			for _, q := range conjuncts(l.Stay) {
				if s.exit(q) || s.open(q) {
					continue
				}
				if !c.Bool(s.x(q)) {
					c.Fail("the loop around %s may end early: unless %s", what, c.n.g.short(s.x(q)))
					return
				}
			}
		})
	}
}

// exit reports whether a condition is the regular end of a counted loop, or of
// the loop that receives work.
func (s *sampling) exit(q *V) bool {
	if q.K != KNot {
		return false
	}
	for _, k := range s.cnt {
		if k.cond == q.args[0] {
			return true
		}
	}
	return s.open(q.args[0])
}

// open reports whether a condition says that a work item was received.
func (s *sampling) open(q *V) bool {
	return s.recv != nil && s.recv.Res.K == KTuple && q == s.recv.Res.args[1]
}

func (g *Graph) short(v *V) string {
	s := v.String()
	if len(s) > 160 {
		s = s[:160] + "…"
	}
	return s
}

// pixelOf is the pixel index from the coordinates passed to the image function
// when there is no anti-aliasing.
func (s *sampling) pixelOf(cr *CallRec) (px, py *V) {
	w := s.w
	n := len(cr.Args)
	x, y := cr.Args[n-2], cr.Args[n-1]
	W, H := s.W, s.H
	half := w.num(0.5)
	px = w.sub(w.mul(x, W), half)
	py = w.sub(w.mul(w.sub(w.add(half, w.div(w.mul(half, H), W)), y), W), half)
	return
}

func checkC05(r *R) {
	r.Rule("one pass over an arbitrary image", "", func(w *W) {
		s := w.newSampling(w.g.False)
		s.run()
		if w.bad {
			return
		}
		if len(s.calls) != 1 {
			panic(undecided(fmt.Sprintf("%d calls of the image function", len(s.calls))))
		}
		cr := s.calls[0]
		loops := s.loops(cr)
		s.unconditional("the evaluation of a pixel", cr, loops)
		if s.send != nil {
			s.unconditional("sending a work item", s.send, s.send.Loops)
		}
		px, py := s.pixelOf(cr)
		X, Y := s.cover("column", px, loops), s.cover("row", py, loops)
		if w.bad {
			return
		}
		for i, iv := range []*interval{X, Y} {
			iv := iv
			end := []*V{s.W, s.H}[i]
			w.All(func(c *Case) {
				s.assumeImg(c)
				c.Expect("first "+[]string{"column", "row"}[i], iv.lo, w.num(0))
				c.Expect("end of the "+[]string{"columns", "rows"}[i], iv.hi, end)
			})
		}
		// all other loops
		var worker *LoopRec
		pass := 0
		for _, l := range loops {
			switch {
			case X.used[l] && Y.used[l]:
				w.fail("rows and columns are both advanced by the loop at %s", w.p.Pos(l.Pos))
			case X.used[l] || Y.used[l]:
			case s.recv != nil && len(s.recv.Loops) > 0 && l.Head == s.recv.Loops[len(s.recv.Loops)-1].Head:
			case len(w.Gos) == 1 && len(w.Gos[0].Loops) > 0 && l.Head == w.Gos[0].Loops[len(w.Gos[0].Loops)-1].Head && s.recv != nil:
				worker = l
			default:
				k := s.cnt[l]
				if k == nil {
					panic(undecided("loop at " + w.p.Pos(l.Pos)))
				}
				pass++
				w.where = w.p.Pos(l.Pos)
				w.All(func(c *Case) {
					s.assumeImg(c)
					c.Expect("number of passes", s.x(k.size(w)), s.nPass)
					c.Expect("step of the passes", k.abs(w), w.num(1))
				})
			}
		}
		if pass != 1 {
			w.fail("%d loops over the passes", pass)
		}
		s.scheduling(cr, worker)
	})
}

// scheduling checks the queue and the joining of the workers.
func (s *sampling) scheduling(cr *CallRec, worker *LoopRec) {
	w := s.w
	if len(w.Gos) == 0 {
		return
	}
	if len(w.Gos) > 1 {
		panic(undecided("several go statements"))
	}
	g := w.Gos[0]
	w.where = w.p.Pos(g.Pos)
	sameLoops := func(a, b []*LoopRec) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i].Head != b[i].Head {
				return false
			}
		}
		return true
	}
	var cntr *counter
	if worker != nil {
		cntr = s.cnt[worker]
		if cntr == nil {
			panic(undecided("number of workers"))
		}
		w.All(func(c *Case) {
			s.assumeImg(c)
			c.Assume(w.le(w.num(1), w.I("numCPU")))
			if !c.Bool(w.lt(w.num(0), cntr.size(w))) {
				c.Fail("no worker is started")
			}
		})
	}
	unc := func(what string, e *CallRec) {
		w.where = w.p.Pos(e.Pos)
		w.All(func(c *Case) {
			s.assumeImg(c)
			s.inside(c, s.loops(cr))
			for _, q := range conjuncts(e.Guard) {
				if !s.exit(q) && !s.open(q) && !c.Bool(s.x(q)) {
					c.Fail("%s is skipped unless %s", what, w.g.short(q))
					return
				}
			}
		})
	}
	// wait group
	var adds, dones, waits []*CallRec
	for _, e := range s.events {
		switch {
		case strings.HasSuffix(e.Name, "Add"):
			adds = append(adds, e)
		case strings.HasSuffix(e.Name, "Done"):
			dones = append(dones, e)
		default:
			waits = append(waits, e)
		}
	}
	if len(waits) == 0 && len(s.joins) == 1 {
		s.joinChan(cr, g, cntr, sameLoops, unc)
		s.queue(g, s.joins[0], unc)
		return
	}
	if len(waits) == 0 {
		w.fail("the workers are not waited for")
		return
	}
	wait := waits[len(waits)-1]
	w.oblige(3)
	if wait.Seq < g.Seq || len(wait.Loops) > 0 {
		w.fail("%s: the wait group is not waited for after the workers are started", w.p.Pos(wait.Pos))
	}
	unc("waiting for the workers", wait)
	if len(dones) != 1 || !sameLoops(dones[0].Loops, g.Loops) {
		w.fail("a worker must be done exactly once, found %d times", len(dones))
		return
	}
	if dones[0].Raw[0] != wait.Raw[0] {
		w.fail("%s: done on another wait group", w.p.Pos(dones[0].Pos))
	}
	unc("being done", dones[0])
	if dones[0].Seq < cr.Seq {
		w.fail("%s: a worker is done before it has finished its work", w.p.Pos(dones[0].Pos))
	}
	if len(adds) != 1 || adds[0].Raw[0] != wait.Raw[0] {
		w.fail("workers must be added to the wait group once, found %d times", len(adds))
		return
	}
	add := adds[0]
	if add.Seq > g.Seq {
		w.fail("%s: a worker is added to the wait group after it is started: it may not be waited for", w.p.Pos(add.Pos))
	}
	unc("adding to the wait group", add)
	n := w.num(1)
	if !sameLoops(add.Loops, g.Loops) {
		if len(add.Loops) != 0 || cntr == nil {
			w.fail("%s: not added once per worker", w.p.Pos(add.Pos))
			return
		}
		n = cntr.size(w)
	}
	w.All(func(c *Case) {
		s.assumeImg(c)
		c.Expect("number of workers added", add.Raw[1], n)
		if cntr != nil && !sameLoops(add.Loops, g.Loops) {
			c.Expect("step", cntr.abs(w), w.num(1))
		}
	})
	s.queue(g, wait, unc)
}

// joinChan checks that every worker sends when it is done, and that all of
// these messages are received.
func (s *sampling) joinChan(cr, g *CallRec, cntr *counter, sameLoops func(a, b []*LoopRec) bool, unc func(string, *CallRec)) {
	w, j := s.w, s.joins[0]
	w.where = w.p.Pos(j.Pos)
	var done *CallRec
	for _, e := range w.Sends {
		if e.Recv == j.Recv {
			if done != nil {
				w.fail("%s: a worker reports twice", w.p.Pos(e.Pos))
			}
			done = e
		}
	}
	if done == nil || !sameLoops(done.Loops, g.Loops) || done.Seq < cr.Seq {
		w.fail("the workers are not waited for")
		return
	}
	unc("reporting", done)
	jj := *j
	jj.Guard = w.g.True
	for _, q := range conjuncts(j.Guard) {
		in := false
		for _, l := range j.Loops {
			for _, p := range l.Phis {
				in = in || occurs(p.Sym, q)
			}
		}
		if !in {
			jj.Guard = w.g.And(jj.Guard, q)
		}
	}
	unc("waiting for the workers", &jj)
	if cntr == nil || len(j.Loops) != 1 || w.counter(j.Loops[0]) == nil {
		panic(undecided("number of workers waited for"))
	}
	k := w.counter(j.Loops[0])
	w.All(func(c *Case) {
		s.assumeImg(c)
		c.Expect("number of workers waited for", s.x(k.size(w)), cntr.size(w))
		c.Expect("step", k.abs(w), cntr.abs(w))
	})
}

// queue checks the work queue.
func (s *sampling) queue(g, wait *CallRec, unc func(string, *CallRec)) {
	w := s.w
	if s.recv == nil {
		return
	}
	var closed *CallRec
	var made *CallRec
	for _, e := range w.Calls {
		if e.Name == "builtin:close" && e.Raw[0] == s.recv.Recv {
			if closed != nil {
				w.fail("%s: the queue is closed twice", w.p.Pos(e.Pos))
			}
			closed = e
		}
		if e.Name == "makechan" && e.Res == s.recv.Recv {
			made = e
		}
	}
	if closed == nil {
		w.fail("the work queue is never closed: workers wait for ever")
		return
	}
	if made == nil {
		panic(undecided("origin of the work queue"))
	}
	w.where = w.p.Pos(closed.Pos)
	if len(closed.Loops) > 0 || closed.Seq < s.send.Seq {
		w.fail("%s: the queue is not closed after the last item", w.p.Pos(closed.Pos))
	}
	if closed.Seq > wait.Seq {
		w.fail("%s: the queue is closed only after waiting for the workers", w.p.Pos(closed.Pos))
	}
	unc("closing the queue", closed)
	if s.send.Seq > g.Seq {
		return // received while being sent
	}
	w.where = w.p.Pos(made.Pos)
	// capacity: the number of iterations of the sending loops
	items := w.g.Int(1)
	var counts []*V
	for _, l := range s.send.Loops {
		k := s.cnt[l]
		if k == nil {
			panic(undecided("number of items"))
		}
		n := w.g.Add(k.size(w), w.g.Sub(k.abs(w), w.g.Int(1)))
		if k.abs(w).num != 1 {
			n = w.Interp.binop(token.QUO, n, k.abs(w), types.Typ[types.Int], types.Typ[types.Int])
		}
		counts = append(counts, n)
		items = w.g.Mul(items, n)
	}
	w.All(func(c *Case) {
		s.assumeImg(c)
		// products of counts and of the differences with the image size
		nn := []*V{s.W, s.H}
		for _, n := range counts {
			for _, m := range []*V{s.W, s.H} {
				if nf := c.Norm(w.sub(m, n)); nf.special == 0 && c.maskRat(nf.r)&sNeg == 0 {
					nn = append(nn, w.sub(m, n))
				}
			}
			nn = append(nn, n)
		}
		for i, a := range nn {
			for _, b := range nn[:i] {
				if nf := c.Norm(w.mul(a, b)); nf.special == 0 && nf.r != nil && len(nf.r.d) == 0 && len(nf.r.n) > 0 {
					c.addFact(nf.r.n, sPos|sZer, "product:"+nf.r.n.key())
				}
			}
		}
		if !c.Bool(w.le(items, made.Raw[0])) {
			c.Fail("the queue holds %s items, but %s are sent before the workers start", c.Show(made.Raw[0]), c.Show(items))
		}
	})
}

func (w *W) samplerT() types.Type { return w.p.Type("tracer", "Sampler") }

// sampleRun evaluates a sampler on an image of constant size.
type sampleRun struct {
	w       *W
	f, sp   *V
	nx, ny  int
	calls   []sampleCall
	pix     *V // arguments of the last Init
	pass    *V
	nInit   int
	value   func(i int) *V // colour of call i
	sent    map[*V][]*V
	started bool
}
type sampleCall struct {
	x, y, pix, pass, col *V
	fresh                bool // Init was called since the last sample
}

func (w *W) sampleRun(nx, ny int, aa bool, value func(i int) *V) *sampleRun {
	r := &sampleRun{w: w, nx: nx, ny: ny, value: value, sent: map[*V][]*V{}}
	r.f = w.g.Sym("f", w.p.Type("tracer", "ImageFunc"))
	none := w.g.mk(&V{K: KTuple, typ: types.NewTuple()})
	w.RunGo = true
	two := func(it *Interp, st *State, cr *CallRec) (*V, bool) { return w.g.Int(2), true }
	w.handlers["runtime.NumCPU"], w.handlers["runtime.GOMAXPROCS"] = two, two
	for _, m := range []string{"Add", "Done", "Wait"} {
		w.handlers["(*sync.WaitGroup)."+m] = func(it *Interp, st *State, cr *CallRec) (*V, bool) { return none, true }
	}
	queues := map[*V]int{}
	w.handlers["recv"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		var item *V
		used := queues[cr.Recv]
		defer func() { queues[cr.Recv] = used }()
		for ; used < len(it.Sends); used++ {
			if it.Sends[used].Recv == cr.Recv {
				item = it.Sends[used].Args[0]
				used++
				break
			}
		}
		tp, ok := cr.Sig[0].(*types.Tuple)
		if !ok {
			if item == nil {
				panic(undecided("receives when the queue is empty"))
			}
			return item, true
		}
		if item == nil {
			return w.g.mk(&V{K: KTuple, typ: tp, args: []*V{w.g.Zero(tp.At(0).Type()), w.g.False}}), true
		}
		return w.g.mk(&V{K: KTuple, typ: tp, args: []*V{item, w.g.True}}), true
	}
	w.handlers[ctxName+"Init"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		r.pix, r.pass = cr.Raw[1], cr.Raw[2]
		r.nInit++
		return nil, false
	}
	w.handlers["call"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		if cr.Recv != r.f {
			return nil, false
		}
		c := r.value(len(r.calls))
		n := len(cr.Args)
		r.calls = append(r.calls, sampleCall{cr.Args[n-2], cr.Args[n-1], r.pix, r.pass, c, r.nInit > 0})
		r.nInit = 0
		return c, true
	}
	r.sp = w.call("tracer", "NewSampler", r.f, w.g.Int(nx), w.g.Int(ny), w.g.Bool(aa))
	return r
}

func (r *sampleRun) sample(n int) {
	r.w.method("tracer", "Sampler", "Sample", r.sp, r.w.g.Int(n))
	r.w.at(r.w.p.Method("tracer", "Sampler", "Sample"))
}
func (r *sampleRun) image() [][]*V {
	return r.shape(r.w.pixels(r.w.method("tracer", "Sampler", "Image", r.sp)))
}

func (r *sampleRun) shape(px [][]*V) [][]*V {
	r.w.oblige(1)
	ok := len(px) == r.ny
	for _, row := range px {
		ok = ok && len(row) == r.nx
	}
	if !ok {
		r.w.fail("the image of a sampler of size %dx%d has another size", r.nx, r.ny)
	}
	return px
}

// pixel finds the pixel of which a sample without anti-aliasing is at the centre.
func (r *sampleRun) pixel(c *Case, s sampleCall) (ix, iy int) {
	w := r.w
	W, H := float64(r.nx), float64(r.ny)
	x, ok1 := constOf(c, s.x)
	y, ok2 := constOf(c, s.y)
	if !ok1 || !ok2 {
		panic(undecided("position of a sample: " + w.g.short(s.x) + ", " + w.g.short(s.y)))
	}
	fx := x*W - 0.5
	fy := (0.5+0.5*H/W-y)*W - 0.5
	ix, iy = int(math.Round(fx)), int(math.Round(fy))
	if math.Abs(fx-float64(ix)) > 1e-6 || math.Abs(fy-float64(iy)) > 1e-6 {
		c.Fail("a sample is taken at pixel position (%g, %g), not at the centre of a pixel", fx, fy)
	}
	if ix < 0 || iy < 0 || ix >= r.nx || iy >= r.ny {
		c.Fail("a sample is taken outside of the image, at pixel (%d,%d)", ix, iy)
		c.Skip()
	}
	return
}

func constOf(c *Case, v *V) (float64, bool) {
	nf := c.Norm(v)
	if nf.special != 0 || nf.r == nil {
		return 0, false
	}
	return nf.r.isConst()
}

// state replaces all accumulators by arbitrary values.
func (r *sampleRun) state() (counts []*V) {
	w := r.w
	t := w.samplerT()
	st := t.Underlying().(*types.Struct)
	val := w.get(r.sp, t)
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Slice); !ok {
			continue
		}
		r.fill("s."+st.Field(i).Name(), val.args[i], &counts)
	}
	return
}

func (r *sampleRun) fill(name string, s *V, counts *[]*V) {
	w := r.w
	if s.K == KNil {
		return
	}
	n := w.lenOf(s)
	if n.K != KNum {
		panic(undecided("length of " + name))
	}
	base, off, _, _ := w.sliceParts(s)
	el := elemOf(s.typ)
	for i := 0; i < int(n.num); i++ {
		p := w.ptrSel(w.st, base, nil, Sel{Idx: w.g.Add(off, w.g.Int(i))})
		nm := fmt.Sprintf("%s[%d]", name, i)
		if _, ok := el.Underlying().(*types.Slice); ok {
			r.fill(nm, w.load(w.st, p, el), counts)
			continue
		}
		v := w.sym(nm, el)
		if isInt(el) {
			*counts = append(*counts, v)
		}
		w.store(w.st, p, v, el)
	}
}

func (w *W) expectCol(c *Case, what string, got, want *V) {
	for i, n := range []string{"R", "G", "B"} {
		c.Expect(what+" "+n, got.args[i], want.args[i])
	}
}

func checkC06(r *R) {
	symbols := func(w *W) func(i int) *V {
		return func(i int) *V { return w.col(fmt.Sprintf("c%d", i)) }
	}
	for _, sz := range [][2]int{{1, 1}, {3, 2}, {2, 3}, {17, 1}, {1, 18}} {
		sz := sz
		name := fmt.Sprintf("%dx%d", sz[0], sz[1])
		r.Rule("samples of a new sampler "+name, "", func(w *W) {
			nan := 4
			val := func(i int) *V {
				if i == nan {
					return w.mkcol(w.g.Sym("cr", types.Typ[types.Float64]), w.num(math.NaN()), w.g.Sym("cb", types.Typ[types.Float64]))
				}
				return symbols(w)(i)
			}
			s := w.sampleRun(sz[0], sz[1], false, val)
			s.sample(2)
			s.sample(1)
			m := w.mark()
			img := s.image()
			w.noStores(m, "reading the image")
			w.idxSafe("sampling", nil, nil, func(c *Case) {})
			w.All(func(c *Case) {
				sum := map[[2]int]*V{}
				cnt := map[[2]int]int{}
				idx := map[[2]int]float64{}
				seen := map[float64]bool{}
				for i, q := range s.calls {
					ix, iy := s.pixel(c, q)
					p := [2]int{ix, iy}
					if !q.fresh {
						c.Fail("sample %d is taken without initialising the context", i)
						continue
					}
					n, ok := constOf(c, q.pix)
					k, ok2 := constOf(c, q.pass)
					if !ok || !ok2 {
						panic(undecided("index of the pixel"))
					}
					if old, ok := idx[p]; ok && old != n {
						c.Fail("pixel (%d,%d) has different indices %g and %g", ix, iy, old, n)
					} else if !ok && seen[n] {
						c.Fail("two pixels have the same index %g", n)
					}
					if n < 0 || n >= float64(sz[0]*sz[1]) {
						c.Fail("index %g of pixel (%d,%d) out of range", n, ix, iy)
					}
					idx[p], seen[n] = n, true
					if int(k) != cnt[p] {
						c.Fail("sample number %d of pixel (%d,%d) is taken as pass %g", cnt[p], ix, iy, k)
					}
					cnt[p]++
					if i == nan {
						continue
					}
					if sum[p] == nil {
						sum[p] = w.mkcol(w.num(0), w.num(0), w.num(0))
					}
					for k := range sum[p].args {
						sum[p] = aggSet(w.g, sum[p], []int{k}, w.add(sum[p].args[k], q.col.args[k]))
					}
				}
				for iy, row := range img {
					for ix, px := range row {
						p := [2]int{ix, iy}
						if cnt[p] != 3 {
							c.Fail("pixel (%d,%d) is sampled %d times instead of 3", ix, iy, cnt[p])
							continue
						}
						want := sum[p]
						for k := range want.args {
							want = aggSet(w.g, want, []int{k}, w.div(want.args[k], w.num(3)))
						}
						w.expectCol(c, fmt.Sprintf("pixel (%d,%d)", ix, iy), px, want)
					}
				}
			})
		})
	}
	r.Rule("one more pass on any accumulated state", "", func(w *W) {
		for _, nan := range [][2]int{{-1, 0}, {0, 0}, {3, 1}, {4, 2}} {
			nan, ch := nan[0], nan[1]
			s := w.sampleRun(3, 2, false, func(i int) *V {
				if i == nan {
					f := types.Typ[types.Float64]
					rgb := []*V{w.g.Sym("cr", f), w.g.Sym("cg", f), w.g.Sym("cb", f)}
					rgb[ch] = w.num(math.NaN())
					return w.mkcol(rgb[0], rgb[1], rgb[2])
				}
				return symbols(w)(i)
			})
			counts := s.state()
			before := s.image()
			s.sample(1)
			after := s.image()
			w.All(func(c *Case) {
				for _, n := range counts {
					c.Assume(w.le(w.num(1), n))
					c.Pos(n)
				}
				done := map[[2]int]bool{}
				for i, q := range s.calls {
					ix, iy := s.pixel(c, q)
					done[[2]int{ix, iy}] = true
					if !q.fresh {
						c.Fail("a sample is taken without initialising the context")
						return
					}
					known := false
					for _, n := range counts {
						known = known || c.Eq(q.pass, n)
					}
					if !known {
						c.Fail("a pass is numbered %s, which is no count of samples", c.Show(q.pass))
					}
					p1 := w.add(q.pass, w.num(1))
					b, a := before[iy][ix], after[iy][ix]
					for k := range a.args {
						want := w.mul(b.args[k], q.pass)
						if i != nan {
							want = w.add(want, q.col.args[k])
						}
						c.Expect(fmt.Sprintf("pixel (%d,%d) after one more sample", ix, iy), a.args[k], w.div(want, p1))
					}
				}
				if len(done) != 6 || len(s.calls) != 6 {
					c.Fail("%d samples on %d pixels in one pass over 6 pixels", len(s.calls), len(done))
				}
			})
		}
	})
	r.Rule("positions with anti-aliasing", "", func(w *W) {
		val := symbols(w)
		s0 := w.sampleRun(3, 2, false, val)
		s0.sample(1)
		s := w.sampleRun(3, 2, true, val)
		counts := s.state()
		s.sample(2)
		if len(s.calls) != 12 {
			w.fail("%d samples in two passes over 6 pixels", len(s.calls))
			return
		}
		for _, q := range s.calls {
			q := q
			w.All(func(c *Case) {
				for _, n := range counts {
					c.NonNeg(n)
				}
				if !q.fresh {
					c.Fail("a sample is taken without initialising the context")
					return
				}
				found := false
				for _, q0 := range s0.calls {
					if !c.Eq(q0.pix, q.pix) {
						continue
					}
					found = true
					half := w.num(0.5 / 3)
					for i, d := range []*V{w.sub(q.x, q0.x), w.sub(q.y, q0.y)} {
						if !c.Bool(w.le(d, half)) || !c.Bool(w.le(w.g.Neg(half), d)) {
							c.Fail("a sample is taken %s from the centre of the pixel, along %c", c.Show(d), "xy"[i])
						}
					}
				}
				if !found {
					c.Fail("pixel index %s is not used without anti-aliasing", c.Show(q.pix))
				}
			})
		}
	})
	r.Rule("standard deviation", "", func(w *W) {
		s := w.sampleRun(2, 1, false, symbols(w))
		s.sample(3)
		m := w.mark()
		dev := s.shape(w.pixels(w.method("tracer", "Sampler", "StdDev", s.sp)))
		w.noStores(m, "reading the standard deviation")
		w.All(func(c *Case) {
			by := map[[2]int][]*V{}
			for _, q := range s.calls {
				ix, iy := s.pixel(c, q)
				by[[2]int{ix, iy}] = append(by[[2]int{ix, iy}], q.col)
			}
			for ix, px := range dev[0] {
				cs := by[[2]int{ix, 0}]
				if len(cs) != 3 {
					c.Fail("pixel %d is sampled %d times", ix, len(cs))
					return
				}
				for k := range px.args {
					mean := w.div(w.add(cs[0].args[k], cs[1].args[k], cs[2].args[k]), w.num(3))
					v := w.num(0)
					for _, x := range cs {
						d := w.sub(x.args[k], mean)
						v = w.add(v, w.mul(d, d))
					}
					c.NonNeg(v)
					c.Expect("variance", w.mul(px.args[k], px.args[k]), w.div(v, w.num(2)))
					if sg, ok := c.Sign(px.args[k]); !ok || sg < 0 {
						c.Fail("negative standard deviation %s", c.Show(px.args[k]))
					}
				}
			}
		})
	})
	r.Rule("Uniform", "", func(w *W) {
		for _, aa := range []bool{false, true} {
			s := w.sampleRun(2, 3, aa, symbols(w))
			s.calls = nil
			img := s.shape(w.pixels(w.call("tracer", "Uniform", s.f, w.g.Int(2), w.g.Int(2), w.g.Int(3), w.g.Bool(aa))))
			calls := s.calls
			s.calls = nil
			s.sample(2)
			want := s.image()
			if len(calls) != len(s.calls) {
				w.fail("Uniform evaluates %d samples instead of %d", len(calls), len(s.calls))
				return
			}
			w.All(func(c *Case) {
				for i := range calls {
					if s.calls[i].x.id != calls[i].x.id || s.calls[i].y.id != calls[i].y.id {
						if !aa {
							c.Expect("position of a sample", calls[i].x, s.calls[i].x)
							c.Expect("position of a sample", calls[i].y, s.calls[i].y)
						}
					}
				}
				for iy := range want {
					for ix := range want[iy] {
						w.expectCol(c, "pixel of Uniform", img[iy][ix], want[iy][ix])
					}
				}
			})
		}
	})
}
