package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// W is the workspace of one rule: a value graph, an interpreter and a normaliser.
type W struct {
	*Interp
	r     *R
	n     *Normer
	st    *State
	rule  string
	where string
	obl   int
	cases int
	bad   bool
	only  map[string]bool
	fobjs map[*V]*fobj

	allocAt *ssa.BasicBlock
}

// guard turns analysis failures into violations.
func (r *R) guard(rule, where string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case dropped:
				r.note("%s was not completed: a violation had been found already", rule)
			case anchorErr:
				r.viol(rule, where, "anchor: "+string(e))
			case undecided:
				r.viol(rule, where, "could not be established: "+string(e))
			default:
				r.viol(rule, where, fmt.Sprintf("analysis failed: %v", e))
				if os.Getenv("VT_VERBOSE") != "" {
					debug.PrintStack()
				}
			}
		}
	}()
	f()
}

// Rule registers one rule; each runs in a fresh workspace.
func (r *R) Rule(name, where string, f func(w *W)) {
	if o := os.Getenv("VT_RULE"); o != "" && o != name {
		r.obl += 1000
		return
	}
	if r.pick != nil && !r.pick(name) {
		return
	}
	r.jobs = append(r.jobs, func(r *R) { r.rule(name, where, f) })
}

// RuleOr is Rule, with a set of rules that take its place when it cannot be
// decided: each fixes quantities that are left open by the first.
func (r *R) RuleOr(name, where string, f func(w *W), alt []func(w *W)) {
	if o := os.Getenv("VT_RULE"); o != "" && o != name {
		r.obl += 1000
		return
	}
	if r.pick != nil && !r.pick(name) {
		return
	}
	r.jobs = append(r.jobs, func(r *R) {
		q := &R{p: r.p, id: r.id, anyNaN: r.anyNaN, fns: map[string]bool{}, counts: map[string]int{}}
		q.rule(name, where, f)
		und := false
		for _, v := range q.viols {
			und = und || strings.Contains(v.Msg, "could not be established") || strings.Contains(v.Msg, "analysis failed")
		}
		if !und {
			r.viols = append(r.viols, q.viols...)
			r.notes = append(r.notes, q.notes...)
			r.rules = append(r.rules, q.rules...)
			r.obl += q.obl
			for f := range q.fns {
				r.fns[f] = true
			}
			for k, v := range q.counts {
				r.counts[k] += v
			}
			return
		}
		r.note("%s: decided for %d choices of the quantities that decide its loops, as it could not be for all at once", name, len(alt))
		for i, f := range alt {
			r.rule(fmt.Sprintf("%s, choice %d", name, i+1), where, f)
		}
	})
}

// Shared registers the rules of another property with the given words in their names.
func (r *R) Shared(check func(r *R), words ...string) {
	r.pick = func(rule string) bool {
		for _, s := range words {
			if strings.Contains(rule, s) {
				return true
			}
		}
		return false
	}
	check(r)
	r.pick = nil
}

// runJobs runs the registered rules in parallel and collects their results in
// the order of registration.
func (r *R) runJobs() {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	jobs := r.jobs
	r.jobs = nil
	lim := newLimiter()
	defer lim.stop()
	found := func(vs []Viol) {
		for _, v := range vs {
			if matchKnown(r.known, v) == "" {
				lim.found()
			}
		}
	}
	found(r.viols)
	res := make([]*R, len(jobs))
	sem := make(chan bool, n)
	var wg sync.WaitGroup
	for i := range jobs {
		i := i
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			q := &R{p: r.p, id: r.id, anyNaN: r.anyNaN, fns: map[string]bool{}, counts: map[string]int{}}
			res[i] = q
			q.guard("rule", "", func() { jobs[i](q) })
			found(q.viols)
		}()
	}
	wg.Wait()
	for _, q := range res {
		r.viols = append(r.viols, q.viols...)
		r.notes = append(r.notes, q.notes...)
		r.rules = append(r.rules, q.rules...)
		r.obl += q.obl
		for f := range q.fns {
			r.fns[f] = true
		}
		for k, v := range q.counts {
			r.counts[k] += v
		}
	}
}

func (r *R) rule(name, where string, f func(w *W)) {
	t0 := time.Now()
	n0 := len(r.viols)
	var g *Graph
	var w *W
	r.guard(name, where, func() { // the limiter may strike here
		g2 := NewGraph()
		w = &W{Interp: NewInterp(r.p, g2), r: r, n: NewNormer(g2), st: NewState(), rule: name, where: where}
		g = g2
	})
	if g == nil {
		return
	}
	w.n.anyNaN = r.anyNaN
	r.guard(name, where, func() { f(w) })
	for fn := range w.Inlined {
		if r.p.inModule(fn) {
			r.fns[fn.RelString(nil)] = true
		}
	}
	res := "holds"
	if len(r.viols) > n0 {
		res = "violated"
	}
	if w.obl == 0 {
		w.obl = 1
	}
	r.obl += w.obl
	r.counts["cases"] += w.cases
	r.rules = append(r.rules, ruleRes{name, w.where, w.obl, w.cases, res})
	if os.Getenv("VT_VERBOSE") == "2" {
		fmt.Printf("   %s: %s obl=%d cases=%d steps=%d nodes=%d %.1fs\n", name, res, w.obl, w.cases, w.steps, g.n, time.Since(t0).Seconds())
	}
}

func (w *W) fail(f string, a ...interface{}) {
	w.r.viol(w.rule, w.where, fmt.Sprintf(f, a...))
	w.bad = true
}
func (w *W) oblige(n int) { w.obl += n }

// All evaluates body in every case; failures become violations.
func (w *W) All(body func(c *Case)) {
	w.obl++
	res := ForAllCases(w.n, body)
	w.cases += res.Cases
	for _, f := range res.Fails {
		w.fail("%s", f)
		break
	}
	if res.Und != "" {
		w.fail("could not be established: %s", res.Und)
	}
	if res.Cases == 0 && res.Und == "" && len(res.Fails) == 0 {
		w.fail("vacuous: no feasible case")
	}
}

// Same requires two values to be equal in all cases.
func (w *W) Same(what string, got, want *V, assume ...func(c *Case)) {
	w.All(func(c *Case) {
		for _, a := range assume {
			a(c)
		}
		c.Expect(what, got, want)
	})
}

// at sets the location reported for following failures.
func (w *W) at(f *ssa.Function) { w.where = w.p.FnPos(f) }

func (w *W) F(n string) *V                 { return w.g.F(n) }
func (w *W) I(n string) *V                 { return w.g.I(n) }
func (w *W) num(x float64) *V              { return w.g.Num(x) }
func (w *W) vecT() types.Type              { return w.p.Type("geom", "Vec") }
func (w *W) colT() types.Type              { return w.p.Type("imagef/colorf", "Color") }
func (w *W) vec(n string) *V               { return w.g.expand(n, w.vecT()) }
func (w *W) col(n string) *V               { return w.g.expand(n, w.colT()) }
func (w *W) mkvec(x, y, z *V) *V           { return w.g.Agg(w.vecT(), x, y, z) }
func (w *W) mkcol(x, y, z *V) *V           { return w.g.Agg(w.colT(), x, y, z) }
func (w *W) sym(n string, t types.Type) *V { return w.g.expand(n, t) }

// arithmetic on values (specifications are written with these)
func (w *W) add(a ...*V) *V {
	r := a[0]
	for _, x := range a[1:] {
		r = w.g.Add(r, x)
	}
	return r
}
func (w *W) sub(a, b *V) *V { return w.g.Sub(a, b) }
func (w *W) mul(a ...*V) *V {
	r := a[0]
	for _, x := range a[1:] {
		r = w.g.Mul(r, x)
	}
	return r
}
func (w *W) div(a, b *V) *V        { return w.g.Div(a, b) }
func (w *W) sqrt(a *V) *V          { return w.g.Fn("sqrt", types.Typ[types.Float64], a) }
func (w *W) fn1(n string, a *V) *V { return w.g.Fn(n, types.Typ[types.Float64], a) }
func (w *W) vadd(a, b *V) *V       { return w.vmap2(a, b, w.g.Add) }
func (w *W) vsub(a, b *V) *V       { return w.vmap2(a, b, w.g.Sub) }
func (w *W) vmap2(a, b *V, f func(a, b *V) *V) *V {
	r := make([]*V, len(a.args))
	for i := range r {
		r[i] = f(a.args[i], b.args[i])
	}
	return w.g.Agg(a.typ, r...)
}
func (w *W) vscale(s, a *V) *V {
	r := make([]*V, len(a.args))
	for i := range r {
		r[i] = w.g.Mul(s, a.args[i])
	}
	return w.g.Agg(a.typ, r...)
}
func (w *W) dot(a, b *V) *V {
	r := w.num(0)
	for i := range a.args {
		r = w.g.Add(r, w.g.Mul(a.args[i], b.args[i]))
	}
	return r
}
func (w *W) cross(a, b *V) *V {
	x, y := a.args, b.args
	m, s := w.g.Mul, w.g.Sub
	return w.g.Agg(a.typ, s(m(x[1], y[2]), m(x[2], y[1])), s(m(x[2], y[0]), m(x[0], y[2])), s(m(x[0], y[1]), m(x[1], y[0])))
}
func (w *W) vlen(a *V) *V  { return w.sqrt(w.dot(a, a)) }
func (w *W) le(a, b *V) *V { return w.g.Cmp("<=", a, b) }
func (w *W) lt(a, b *V) *V { return w.g.Cmp("<", a, b) }
func (w *W) and(a ...*V) *V {
	r := w.g.True
	for _, x := range a {
		r = w.g.And(r, x)
	}
	return r
}
func (w *W) or(a ...*V) *V {
	r := w.g.False
	for _, x := range a {
		r = w.g.Or(r, x)
	}
	return r
}

// call evaluates a package level function.
func (w *W) call(pkg, name string, args ...*V) *V {
	f := w.p.Func(pkg, name)
	w.at(f)
	return w.callF(f, args...)
}

func (w *W) callF(f *ssa.Function, args ...*V) *V {
	if h := w.handlers[fnName(f)]; h != nil {
		if r, ok := h(w.Interp, w.st, &CallRec{Name: fnName(f), Raw: args, Sig: fnParams(f), Args: w.snapshots(w.st, args)}); ok {
			return r
		}
	}
	return w.Interp.Call(f, w.st, args...)
}

// method evaluates a method; recv may be a value or pointer.
func (w *W) method(pkg, typ, name string, recv *V, args ...*V) *V {
	f := w.p.Method(pkg, typ, name)
	w.at(f)
	return w.callF(f, append([]*V{w.fit(recv, f.Params[0].Type())}, args...)...)
}

// fit converts between value and pointer representation of a receiver.
func (w *W) fit(v *V, t types.Type) *V {
	_, isp := t.Underlying().(*types.Pointer)
	vp := v.K == KPtr || v.K == KNil || (v.K == KFn && v.typ != nil && isPtr(v.typ))
	switch {
	case isp && !vp:
		return w.newObj(w.st, "recv", t.Underlying().(*types.Pointer).Elem(), v)
	case !isp && vp:
		return w.load(w.st, v, t)
	}
	return v
}
func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// box allocates an object holding v and returns its address.
func (w *W) box(v *V) *V { return w.newObj(w.st, "obj", v.typ, v) }

// at loads what p points to.
func (w *W) get(p *V, t types.Type) *V { return w.load(w.st, p, t) }

// iface wraps a value in an interface.
func (w *W) iface(t types.Type, v *V) *V { return w.g.mk(&V{K: KIface, typ: t, args: []*V{v}}) }

// invoke calls a method on an interface value.
func (w *W) invoke(v *V, name string, rt types.Type, args ...*V) *V {
	r, ok := w.tryInvoke(v, name, rt, args...)
	if !ok {
		panic(undecided("method " + name + " never returns"))
	}
	return r
}
func (w *W) tryInvoke(v *V, name string, rt types.Type, args ...*V) (*V, bool) {
	switch v.K {
	case KIte:
		return w.fork(w.st, v.args[0], func(s *State) (*V, bool) {
			old := w.st
			w.st = s
			defer func() { w.st = old }()
			return w.tryInvoke(v.args[1], name, rt, args...)
		}, func(s *State) (*V, bool) {
			old := w.st
			w.st = s
			defer func() { w.st = old }()
			return w.tryInvoke(v.args[2], name, rt, args...)
		})
	case KIface:
		fn := w.p.MethodOf(v.typ, nil, name)
		if fn == nil {
			panic(anchorErr("no method " + name + " on " + v.String()))
		}
		if fn.Synthetic == "" {
			w.at(fn)
		}
		return w.callFn(nil, w.st, fn, append([]*V{v.args[0]}, args...), nil, rt, 0)
	}
	return w.opaque(nil, w.st, "invoke:"+name, v, args, rt, 0, nil)
}

func tupleAt(v *V, i int) *V {
	return v.args[i]
}

// slice makes a slice value from elements.
func (w *W) slice(elem types.Type, vs ...*V) *V {
	p := w.newObj(w.st, "lit", types.NewSlice(elem), w.g.Agg(types.NewSlice(elem), vs...))
	n := w.g.Int(len(vs))
	return w.g.mk(&V{K: KSlice, args: []*V{p, w.g.Int(0), n, n}, typ: types.NewSlice(elem)})
}

// elems lists the elements of a slice of constant length.
func (w *W) elems(s *V) []*V {
	if s.K == KNil {
		return nil
	}
	n := w.lenOf(s)
	if n.K != KNum {
		panic(undecided("length of " + s.String() + " is not constant"))
	}
	base, off, _, _ := w.sliceParts(s)
	var r []*V
	for i := 0; i < int(n.num); i++ {
		r = append(r, w.load(w.st, w.ptrSel(w.st, base, nil, Sel{Idx: w.g.Add(off, w.g.Int(i))}), elemOf(s.typ)))
	}
	return r
}

// field returns a named field of a struct value.
func (w *W) field(v *V, t types.Type, name string) *V {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(anchorErr(t.String() + " is not a struct"))
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return w.mapIte(v, func(v *V) *V { return v.args[i] })
		}
	}
	panic(anchorErr("no field " + name + " in " + t.String()))
}
func (w *W) setField(v *V, t types.Type, name string, x *V) *V {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return aggSet(w.g, v, []int{i}, x)
		}
	}
	panic(anchorErr("no field " + name + " in " + t.String()))
}

// rels

// unit declares a vector of symbols to have length one.
func (w *W) unit(v *V) {
	x, y, z := v.args[0], v.args[1], v.args[2]
	ax, ay, az := w.n.atom(x.name, nil), w.n.atom(y.name, nil), w.n.atom(z.name, nil)
	w.n.relSqr[az.id] = &Rat{n: Poly{"": {1, 1}, monoOf(ax.id, 2): {-1, 1}, monoOf(ay.id, 2): {-1, 1}}}
}

// mayNaN declares that a symbol may be NaN.
func (w *W) mayNaN(vs ...*V) {
	for _, v := range vs {
		w.n.nanOK[v.id] = true
	}
}

// fresh returns a workspace of the same rule with a new interpreter.
func (w *W) fresh() *W {
	g := NewGraph()
	q := &W{Interp: NewInterp(w.p, g), r: w.r, n: NewNormer(g), st: NewState(), rule: w.rule, where: w.where}
	return q
}

func (w *W) newMap(t types.Type) *V { return w.newMapObj(w.st, t) }
func (w *W) mapSet(m, k, v *V)      { w.mapUpdate(w.st, m, k, v) }
func (w *W) mapGet(m, k *V, elem types.Type) *V {
	v := w.mapLookup(w.st, m, k, elem, false, elem)
	if v == nil {
		panic(undecided("contents of a map"))
	}
	return v
}
