package main

// Partitioning: a rule is evaluated once per feasible combination of the signs
// and truth values it asks for. Signs are kept in a small relational domain
// (linear inequalities over monomials).

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
)

type fact struct {
	p    Poly
	mask int
	key  string
}

type Case struct {
	sf          []fact
	sfVer       int
	n           *Normer
	g           *Graph
	script      []int
	pos         int
	alts        [][]int
	dec         map[string]int
	facts       []fact
	fidx        map[string]int
	memo        map[int]NF
	trace       []string
	Fails       []string
	DivZero     bool
	NoSqrtSplit bool
	queries     int
	Notes       []string
	inQuiet     bool
	ver         int
	bmemo       map[int]bool
	qfail       map[int]int
	inAxiom     map[int]bool
	inKnown     bool
}

type skipCase struct{}

// CaseResult is the outcome of ForAllCases.
type CaseResult struct {
	Cases int
	Fails []string
	Und   string
}

var maxCases = 60000

// ForAllCases evaluates body for every feasible case.
func ForAllCases(n *Normer, body func(c *Case)) (res CaseResult) {
	stack := [][]int{nil}
	for len(stack) > 0 {
		sc := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		c := &Case{n: n, g: n.g, script: sc, dec: map[string]int{}, fidx: map[string]int{}, memo: map[int]NF{}, bmemo: map[int]bool{}, qfail: map[int]int{}}
		skip, und := false, ""
		func() {
			defer func() {
				if e := recover(); e != nil {
					switch e := e.(type) {
					case skipCase:
						skip = true
					case undecided:
						und = string(e)
					default:
						panic(e)
					}
				}
			}()
			body(c)
		}()
		stack = append(stack, c.alts...)
		if !skip && und == "" && len(c.Fails) > 0 && c.contradictory() {
			skip = true
		}
		if und != "" {
			if skip = c.contradictory(); !skip {
				res.Und = und + c.where()
			}
		}
		if !skip {
			res.Cases++
			for _, f := range c.Fails {
				res.Fails = append(res.Fails, f+c.where())
			}
		}
		if res.Und != "" || len(res.Fails) > 3 {
			return
		}
		if res.Cases > maxCases {
			res.Und = "too many cases"
			return
		}
	}
	return
}

func (c *Case) where() string {
	if len(c.trace) == 0 {
		return ""
	}
	t := c.trace
	if os.Getenv("VT_FACTS") != "" {
		for _, f := range c.facts {
			fmt.Println("   fact", c.n.polyStr(f.p), f.mask)
		}
	}
	if len(t) > 14 {
		t = t[len(t)-14:]
	}
	return "  [case: " + strings.Join(t, ", ") + "]"
}

// contradictory reports whether the facts of the case exclude each other, which
// need not have been noticed when they were added.
func (c *Case) contradictory() bool {
	for i := range c.facts {
		f := c.facts[i]
		if f.key == "" {
			continue
		}
		none := true
		delete(c.fidx, f.key)
		c.facts[i].mask = sAll
		c.ver++
		for _, s := range []int{-1, 0, 1} {
			if f.mask&maskOf(s) != 0 && c.feasible(f.p, s) {
				none = false
				break
			}
		}
		if !none && c.maskPoly(f.p)&f.mask == 0 {
			none = true
		}
		c.facts[i].mask = f.mask
		c.fidx[f.key] = i
		c.ver++
		if none {
			return true
		}
	}
	return false
}

func (c *Case) Skip() { panic(skipCase{}) }
func (c *Case) Fail(f string, a ...interface{}) {
	c.Fails = append(c.Fails, fmt.Sprintf(f, a...))
}

type quietUnknown struct{}

// choose selects one of the options, scheduling the others for later.
func (c *Case) choose(opts []int) int {
	if len(opts) == 1 {
		return opts[0]
	}
	if len(opts) == 0 {
		c.Skip()
	}
	if c.inQuiet {
		panic(quietUnknown{})
	}
	c.queries++
	c.ver++
	if c.queries > 4000 {
		panic(undecided("too many queries"))
	}
	if c.pos < len(c.script) {
		i := c.script[c.pos]
		c.pos++
		if i >= len(opts) {
			panic(undecided("nondeterministic partition"))
		}
		return opts[i]
	}
	for i := len(opts) - 1; i >= 1; i-- {
		alt := append(append([]int(nil), c.script...), i)
		c.alts = append(c.alts, alt)
	}
	c.script = append(append([]int(nil), c.script...), 0)
	c.pos++
	return opts[0]
}

// quiet evaluates f without splitting; ok is false if it would have to split.
func (c *Case) quiet(f func()) (ok bool) {
	old := c.inQuiet
	c.inQuiet = true
	defer func() {
		c.inQuiet = old
		if e := recover(); e != nil {
			if _, is := e.(quietUnknown); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	f()
	return true
}

// ---------------------------------------------------------------- signs

func (c *Case) addFact(q Poly, mask int, key string) {
	c.ver++
	if i, ok := c.fidx[key]; ok {
		c.facts[i].mask &= mask
		if c.facts[i].mask == 0 {
			c.Skip()
		}
		return
	}
	c.fidx[key] = len(c.facts)
	c.facts = append(c.facts, fact{q, mask, key})
}

func (c *Case) atomMask(id int) int {
	a := c.n.atoms[id]
	m := a.sign
	k := Poly{monoOf(id, 1): {1, 1}}.key()
	if i, ok := c.fidx[k]; ok {
		m &= c.facts[i].mask
	}
	return m
}
func (c *Case) monoMask(m Mono) int {
	r := sPos
	m.each(func(id, e int) {
		am := c.atomMask(id)
		if e%2 == 0 {
			if am&sZer != 0 && e > 0 {
				am = sZer | sPos
			} else {
				am = sPos
			}
		}
		if e < 0 {
			am &^= sZer
		}
		r = mulMask(r, am)
	})
	return r
}

// primMask is the set of possible signs of the primitive polynomial q.
func (c *Case) primMask(q Poly, key string) int {
	mask := sAll
	if i, ok := c.fidx[key]; ok {
		mask = c.facts[i].mask
		if mask == sNeg || mask == sZer || mask == sPos {
			return mask
		}
	}
	if len(q) == 1 {
		for m, co := range q {
			mm := c.monoMask(m)
			if co.c < 0 {
				mm = flipMask(mm)
			}
			mask &= mm
		}
	} else {
		// sum of terms of known sign
		pos, neg, strictP, strictN := true, true, false, false
		for m, co := range q {
			mm := c.monoMask(m)
			if co.c < 0 {
				mm = flipMask(mm)
			}
			if mm&sNeg != 0 {
				pos = false
			}
			if mm&sPos != 0 {
				neg = false
			}
			if mm == sPos {
				strictP = true
			}
			if mm == sNeg {
				strictN = true
			}
		}
		if pos {
			if strictP {
				mask &= sPos
			} else {
				mask &= sZer | sPos
			}
		}
		if neg {
			if strictN {
				mask &= sNeg
			} else {
				mask &= sZer | sNeg
			}
		}
		if mask == sAll && isSquareSum(q) {
			mask = sZer | sPos
		}
		if mask != sNeg && mask != sZer && mask != sPos {
			mask &= c.rootBound(q)
		}
	}
	if mask == sNeg || mask == sZer || mask == sPos || mask == 0 {
		return mask
	}
	for _, s := range []int{-1, 0, 1} {
		if mask&maskOf(s) != 0 && !c.feasible(q, s) {
			mask &^= maskOf(s)
		}
	}
	return mask
}

// isSquareSum recognises quadratic forms in the atoms that are sums of squares
// by diagonalisation (only for homogeneous quadratics or with constant).
func isSquareSum(q Poly) bool {
	idx := map[int]int{}
	var ids []int
	get := func(id int) int {
		if i, ok := idx[id]; ok {
			return i
		}
		idx[id] = len(ids)
		ids = append(ids, id)
		return len(ids) - 1
	}
	get(-1) // constant 1
	type ent struct{ i, j int }
	ents := map[ent]float64{}
	for m, co := range q {
		var f []int
		ok := true
		m.each(func(id, e int) {
			if e < 0 || e > 2 {
				ok = false
				return
			}
			for k := 0; k < e; k++ {
				f = append(f, get(id))
			}
		})
		if !ok || len(f) > 2 {
			return false
		}
		for len(f) < 2 {
			f = append(f, 0)
		}
		if f[0] == f[1] {
			ents[ent{f[0], f[0]}] += co.c
		} else {
			ents[ent{f[0], f[1]}] += co.c / 2
			ents[ent{f[1], f[0]}] += co.c / 2
		}
	}
	n := len(ids)
	if n > 12 {
		return false
	}
	a := make([][]float64, n)
	for i := range a {
		a[i] = make([]float64, n)
	}
	for e, v := range ents {
		a[e.i][e.j] = v
	}
	return semidefinite(a)
}

// semidefinite is a Cholesky decomposition with pivoting.
func semidefinite(a [][]float64) bool {
	n := len(a)
	for k := 0; k < n; k++ {
		p := k
		for i := k; i < n; i++ {
			if a[i][i] > a[p][p] {
				p = i
			}
		}
		if a[p][p] < -1e-9 {
			return false
		}
		if a[p][p] <= 1e-9 {
			for i := k; i < n; i++ {
				for j := k; j < n; j++ {
					if math.Abs(a[i][j]) > 1e-9 {
						return false
					}
				}
			}
			return true
		}
		a[k], a[p] = a[p], a[k]
		for i := range a {
			a[i][k], a[i][p] = a[i][p], a[i][k]
		}
		for i := k + 1; i < n; i++ {
			f := a[i][k] / a[k][k]
			for j := k; j < n; j++ {
				a[i][j] -= f * a[k][j]
			}
		}
		for i := k + 1; i < n; i++ {
			a[k][i] = 0
		}
		for i := k + 1; i < n; i++ {
			if a[i][i] < -1e-9 {
				return false
			}
		}
	}
	return true
}

// rootBound decides k + l + s*sqrt(p) with a constant k by |l| <= s*sqrt(p),
// which holds if s^2 p - l^2 is a sum of squares (Cauchy-Schwarz).
func (c *Case) rootBound(q Poly) int {
	root, l, k := -1, Poly{}, 0.0
	var s float64
	for m, co := range q {
		id, e, n := -1, 0, 0
		sq := false
		m.each(func(i, x int) {
			n++
			id, e = i, x
			if c.n.atoms[i].name == "sqrt" {
				sq = true
			}
		})
		switch {
		case n == 0:
			k = co.c
		case sq:
			if root >= 0 || n != 1 || e != 1 {
				return sAll
			}
			root, s = id, co.c
		default:
			l[m] = co
		}
	}
	if root < 0 || k*s < 0 {
		return sAll
	}
	a := c.n.atoms[root].args[0]
	if a.special != 0 || a.r == nil || len(a.r.d) != 0 || len(a.r.n) > 40 || len(l) > 12 {
		return sAll
	}
	if d := polyAdd(a.r.n.scale(s*s), polyMul(l, l), -1); len(d) != 0 && !isSOS(d) {
		return sAll
	}
	mask := sPos
	if k == 0 {
		mask |= sZer
	}
	if s < 0 {
		mask = flipMask(mask)
	}
	return mask
}

// isSOS recognises sums of squares over the square roots of its monomials with even exponents.
func isSOS(q Poly) bool {
	idx := map[Mono]int{}
	var basis []Mono
	for _, m := range q.monos() {
		even, h := true, Mono("")
		m.each(func(id, e int) {
			if e%2 != 0 || e < 0 {
				even = false
			}
			h = monoMul(h, monoOf(id, e/2))
		})
		if even {
			if q[m].c < 0 {
				return false
			}
			idx[m] = len(basis)
			basis = append(basis, h)
		}
	}
	n := len(basis)
	if n == 0 || n > 12 {
		return false
	}
	a := make([][]float64, n)
	for i := range a {
		a[i] = make([]float64, n)
	}
	cross := map[Mono][2]int{}
	for i := range basis {
		for j := 0; j < i; j++ {
			cross[monoMul(basis[i], basis[j])] = [2]int{i, j}
		}
	}
	for m, co := range q {
		if i, ok := idx[m]; ok {
			a[i][i] = co.c
			continue
		}
		x, ok := cross[m]
		if !ok {
			return false
		}
		a[x[0]][x[1]] = co.c / 2
		a[x[1]][x[0]] = co.c / 2
	}
	return semidefinite(a)
}

func (c *Case) signPrim(q Poly) int {
	key := q.key()
	mask := c.primMask(q, key)
	var opts []int
	for _, s := range []int{1, -1, 0} {
		if mask&maskOf(s) != 0 {
			opts = append(opts, s)
		}
	}
	split := len(opts) > 1
	s := c.choose(opts)
	c.addFact(q, maskOf(s), key)
	if split {
		c.trace = append(c.trace, c.n.polyStr(q)+map[int]string{-1: " < 0", 0: " = 0", 1: " > 0"}[s])
	}
	return s
}

// content is Poly.content, applying the rewrite relations (sin^2 = 1 - cos^2
// and the like) again to the primitive part.
func (c *Case) content(p Poly) (f float64, m Mono, q Poly) {
	f, m, q = p.content()
	for i := 0; i < 3 && len(q) > 1 && len(q) < 200; i++ {
		r := c.n.reduce(&Rat{n: q})
		if len(r.d) != 0 || r.n.key() == q.key() {
			return
		}
		if len(r.n) == 0 {
			return 0, "", Poly{}
		}
		f2, m2, q2 := r.n.content()
		f, m, q = f*f2, monoMul(m, m2), q2
	}
	return
}

func (c *Case) signPoly(p Poly) int {
	p = c.substP(p)
	if len(p) == 0 {
		return 0
	}
	f, m, q := c.content(p)
	if len(q) == 0 {
		return 0
	}
	s := 1
	if f < 0 {
		s = -1
	}
	m.each(func(id, e int) {
		as := c.signPrim(Poly{monoOf(id, 1): {1, 1}})
		if e%2 == 0 {
			as = as * as
		}
		s *= as
	})
	if s == 0 {
		return 0
	}
	if _, ok := q.isConst(); ok {
		return s
	}
	return s * c.signPrim(q)
}

// maskPoly is like signPoly, without splitting.
func (c *Case) maskPoly(p Poly) int {
	p = c.substP(p)
	if len(p) == 0 {
		return sZer
	}
	f, m, q := c.content(p)
	if len(q) == 0 {
		return sZer
	}
	r := c.monoMask(m)
	if f < 0 {
		r = flipMask(r)
	}
	if _, ok := q.isConst(); ok {
		return r
	}
	return mulMask(r, c.primMask(q, q.key()))
}

func (c *Case) nonzero(p Poly) {
	f, m, q := c.content(p)
	_ = f
	m.each(func(id, e int) {
		a := Poly{monoOf(id, 1): {1, 1}}
		c.addFact(a, sNeg|sPos, a.key())
	})
	if _, ok := q.isConst(); !ok {
		c.addFact(q, sNeg|sPos, q.key())
	}
}

func (c *Case) signRat(r *Rat) int {
	s := 1
	for _, f := range r.d {
		c.nonzero(f.p)
		if f.e%2 != 0 {
			s *= c.signPoly(f.p)
		}
	}
	if s == 0 {
		c.Skip()
	}
	return s * c.signPoly(r.n)
}
func (c *Case) maskRat(r *Rat) int {
	m := c.maskPoly(r.n)
	for _, f := range r.d {
		if f.e%2 != 0 {
			m = mulMask(m, c.maskPoly(f.p)&^sZer)
		}
	}
	return m
}

// AssumeSign restricts the sign of v without splitting.
func (c *Case) AssumeSign(v *V, mask int) {
	nf := c.Norm(v)
	if nf.special != 0 {
		switch {
		case nf.special == spInf && mask&sPos != 0, nf.special == spMInf && mask&sNeg != 0:
			return
		}
		c.Skip()
	}
	r := nf.r
	for _, f := range r.d {
		c.nonzero(f.p)
	}
	if len(r.d) > 0 {
		// split on denominators of unknown sign
		s := 1
		for _, f := range r.d {
			if f.e%2 != 0 {
				s *= c.signPoly(f.p)
			}
		}
		if s < 0 {
			mask = flipMask(mask)
		}
	}
	f, m, q := r.n.content()
	if len(r.n) == 0 {
		if mask&sZer == 0 {
			c.Skip()
		}
		return
	}
	if f < 0 {
		mask = flipMask(mask)
	}
	if _, ok := q.isConst(); ok {
		cnt := 0
		m.each(func(id, e int) { cnt++ })
		if cnt == 1 {
			m.each(func(id, e int) {
				if e%2 == 0 {
					if mask&sZer == 0 {
						c.nonzero(Poly{monoOf(id, 1): {1, 1}})
					}
					return
				}
				a := Poly{monoOf(id, 1): {1, 1}}
				c.addFact(a, mask, a.key())
			})
			return
		}
		if m == "" {
			if mask&sPos == 0 {
				c.Skip()
			}
			return
		}
	} else if m != "" {
		if mask&maskOf(c.signRat(&Rat{n: r.n})*sgnf(f)) == 0 {
			c.Skip()
		}
		return
	}
	pm := c.primMask(q, q.key()) & mask
	if pm == 0 {
		c.Skip()
	}
	c.addFact(q, mask, q.key())
}
func sgnf(f float64) int {
	if f < 0 {
		return -1
	}
	return 1
}

func (c *Case) Pos(vs ...*V) {
	for _, v := range vs {
		c.AssumeSign(v, sPos)
	}
}
func (c *Case) NonNeg(vs ...*V) {
	for _, v := range vs {
		c.AssumeSign(v, sPos|sZer)
	}
}
func (c *Case) NonZero(vs ...*V) {
	for _, v := range vs {
		c.AssumeSign(v, sPos|sNeg)
	}
}

// Assume restricts to the cases where the condition holds.
func (c *Case) Assume(v *V) {
	if v.K == KCmp && isIntT(v.args[0]) && isIntT(v.args[1]) {
		if _, ok := c.bmemo[v.id]; !ok {
			d := c.g.Sub(v.args[1], v.args[0])
			switch v.name {
			case "<":
				c.AssumeSign(d, sPos)
				return
			case "<=":
				c.AssumeSign(d, sPos|sZer)
				return
			}
		}
	}
	if !c.Bool(v) {
		c.Skip()
	}
}

// ---------------------------------------------------------------- linear feasibility

func isIntT(v *V) bool {
	if v.typ == nil {
		return false
	}
	b, ok := v.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// intStep returns the least positive value an integer-valued polynomial can
// take (0 if it is not known to be a multiple of such a step).
func (c *Case) intStep(p Poly) float64 {
	for m := range p {
		ok := true
		m.each(func(id, e int) {
			if e < 0 || !c.n.atoms[id].isInt {
				ok = false
			}
		})
		if !ok {
			return 0
		}
	}
	for k := 1.0; k <= 16; k++ {
		ok := true
		for _, co := range p {
			if x := co.c * k; math.Abs(x-math.Round(x)) > 1e-9 || math.Abs(x) > 1e6 {
				ok = false
				break
			}
		}
		if ok {
			return 1 / k
		}
	}
	return 0
}

// axioms are the defining inequalities of rounding and integer division.
func (c *Case) axioms(id int) (r []fact) {
	a := c.n.atoms[id]
	switch a.name {
	case "floor", "trunc", "ceil", "quo":
	default:
		return nil
	}
	if a.args[0].special != 0 || a.args[0].r == nil || len(a.args[0].r.d) != 0 {
		return nil
	}
	x := a.args[0].r.n
	f := Poly{monoOf(id, 1): {1, 1}}
	one := polyConst(1)
	add := func(p Poly, mask int) { r = append(r, fact{p: p, mask: mask}) }
	sign := func() int {
		if c.inAxiom[id] {
			return sAll
		}
		if c.inAxiom == nil {
			c.inAxiom = map[int]bool{}
		}
		c.inAxiom[id] = true
		defer delete(c.inAxiom, id)
		return c.maskPoly(x)
	}
	switch a.name {
	case "floor":
		add(polyAdd(x, f, -1), sPos|sZer)
		add(polyAdd(polyAdd(x, f, -1), one, -1), sNeg)
		if sign()&sNeg == 0 {
			add(f, sPos|sZer)
		}
	case "ceil":
		add(polyAdd(f, x, -1), sPos|sZer)
		add(polyAdd(polyAdd(f, x, -1), one, -1), sNeg)
	case "trunc":
		s := sign()
		d := polyAdd(x, f, -1)
		if s&sNeg == 0 {
			add(d, sPos|sZer)
			add(f, sPos|sZer)
		} else {
			add(polyAdd(d, one, 1), sPos)
		}
		if s&sPos == 0 {
			add(d, sNeg|sZer)
			add(f, sNeg|sZer)
		} else {
			add(polyAdd(d, one, -1), sNeg)
		}
	case "quo":
		if a.args[1].special != 0 || a.args[1].r == nil {
			return nil
		}
		y, ok := a.args[1].r.isConst()
		if !ok || y <= 0 {
			return nil
		}
		d := polyAdd(x, f, -y)
		s := sign()
		if s&sNeg == 0 {
			add(d, sPos|sZer)
			add(f, sPos|sZer)
		} else {
			add(polyAdd(d, polyConst(y-1), 1), sPos|sZer)
		}
		if s&sPos == 0 {
			add(d, sNeg|sZer)
			add(f, sNeg|sZer)
		} else {
			add(polyAdd(d, polyConst(y-1), -1), sNeg|sZer)
		}
	}
	return r
}

type lin struct {
	a          map[Mono]float64
	strict, eq bool // sum a_i m_i (<|<=) 0 ; constant has monomial ""
}

// feasible reports whether the facts allow sign(q) == s (true if unknown).
func (c *Case) feasible(q Poly, s int) bool {
	poll()
	// facts connected to q
	vars := map[Mono]bool{}
	addv := func(p Poly) bool {
		any := false
		for m := range p {
			if m != "" && vars[m] {
				any = true
			}
		}
		return any
	}
	for m := range q {
		if m != "" {
			vars[m] = true
		}
	}
	used := make([]bool, len(c.facts))
	var fs []fact
	facts := c.facts
	for _, f := range c.facts {
		if f.mask == sZer {
			facts = c.substFacts()
			break
		}
	}
	seen := map[int]bool{}
	for ch := true; ch; {
		ch = false
		for i, f := range facts {
			if used[i] || f.mask == sAll || f.mask == (sNeg|sPos) {
				continue
			}
			if addv(f.p) {
				used[i] = true
				ch = true
				fs = append(fs, f)
				for m := range f.p {
					if m != "" {
						vars[m] = true
					}
				}
			}
		}
		if ch {
			continue
		}
		var ids []int
		for m := range vars {
			m.each(func(id, e int) {
				if !seen[id] {
					seen[id] = true
					ids = append(ids, id)
				}
			})
		}
		// rounded values that an equation has eliminated
		for _, f := range c.facts {
			if f.mask != sZer {
				continue
			}
			for m := range f.p {
				m.each(func(id, e int) {
					if seen[id] {
						return
					}
					for _, x := range c.axioms(id) {
						if addv(c.substP(x.p)) {
							seen[id] = true
							ids = append(ids, id)
							return
						}
					}
				})
			}
		}
		sort.Ints(ids)
		for _, id := range ids {
			for _, f := range c.axioms(id) {
				f.p = c.substP(f.p)
				fs = append(fs, f)
				ch = true
				for m := range f.p {
					if m != "" {
						vars[m] = true
					}
				}
			}
		}
	}
	if len(fs) > 60 {
		fs = fs[:60]
	}
	var sys []lin
	add := func(p Poly, mask int) {
		step := 0.0
		if mask == sNeg || mask == sPos {
			step = c.intStep(p)
		}
		up := func(strict bool) { // p <(=) 0
			l := lin{a: map[Mono]float64{}, strict: strict && step == 0}
			for m, co := range p {
				l.a[m] = co.c
			}
			if strict && step > 0 {
				l.a[""] += step
			}
			sys = append(sys, l)
		}
		lo := func(strict bool) {
			l := lin{a: map[Mono]float64{}, strict: strict && step == 0}
			for m, co := range p {
				l.a[m] = -co.c
			}
			if strict && step > 0 {
				l.a[""] += step
			}
			sys = append(sys, l)
		}
		switch mask {
		case sNeg:
			up(true)
		case sNeg | sZer:
			up(false)
		case sPos:
			lo(true)
		case sPos | sZer:
			lo(false)
		case sZer:
			up(false)
			sys[len(sys)-1].eq = true
		}
	}
	for _, f := range fs {
		add(f.p, f.mask)
	}
	add(q, maskOf(s))
	for m := range vars {
		mm := c.monoMask(m)
		if mm != sAll {
			add(Poly{m: {1, 1}}, mm)
		}
	}
	return fmFeasible(sys)
}

// substFacts is the list of facts, rewritten with the equations.
func (c *Case) substFacts() []fact {
	if c.sfVer == c.ver && c.sf != nil {
		return c.sf
	}
	r := make([]fact, len(c.facts))
	for i, f := range c.facts {
		r[i] = f
		if f.mask != sZer {
			if p := c.substP(f.p); len(p) > 0 {
				r[i].p = p
			}
		}
	}
	c.sf, c.sfVer = r, c.ver
	return r
}

// fmFeasible decides a system of linear inequalities (rows a.x <(=) 0) by
// Gaussian elimination of the equations and Fourier-Motzkin elimination of the
// rest; it answers true when it gives up.
func fmFeasible(sys []lin) bool {
	scale := func(l *lin) {
		mx := 0.0
		for m, v := range l.a {
			if m != "" {
				mx = math.Max(mx, math.Abs(v))
			}
		}
		for m, v := range l.a {
			if m != "" && math.Abs(v) < 1e-10*mx {
				delete(l.a, m)
			} else if mx > 0 {
				l.a[m] = v / mx
			}
		}
	}
	isConst := func(l lin) bool {
		for m, v := range l.a {
			if m != "" && v != 0 {
				return false
			}
		}
		return true
	}
	comb := func(u lin, fu float64, l lin, fl float64, drop Mono, strict bool) lin {
		n := lin{a: make(map[Mono]float64, len(u.a)+len(l.a)), strict: strict}
		for m, v := range u.a {
			if m != drop {
				n.a[m] = v * fu
			}
		}
		for m, v := range l.a {
			if m != drop {
				o := n.a[m]
				x := o + v*fl
				if math.Abs(x) <= 1e-11*(math.Abs(o)+math.Abs(v*fl)) {
					delete(n.a, m)
				} else {
					n.a[m] = x
				}
			}
		}
		scale(&n)
		return n
	}
	pickVar := func(l lin) Mono {
		var best Mono
		bv := 0.0
		for m, v := range l.a {
			if m != "" && (math.Abs(v) > bv || math.Abs(v) == bv && m < best) {
				bv, best = math.Abs(v), m
			}
		}
		return best
	}
	var eqs, rest []lin
	for _, l := range sys {
		scale(&l)
		if l.eq {
			eqs = append(eqs, l)
		} else {
			rest = append(rest, l)
		}
	}
	for len(eqs) > 0 {
		e := eqs[0]
		eqs = eqs[1:]
		if isConst(e) {
			if math.Abs(e.a[""]) > 1e-9 {
				return false
			}
			continue
		}
		v := pickVar(e)
		sub := func(ls []lin) {
			for i, l := range ls {
				if k := l.a[v]; k != 0 {
					n := comb(l, 1, e, -k/e.a[v], v, l.strict)
					n.eq = l.eq
					ls[i] = n
				}
			}
		}
		sub(eqs)
		sub(rest)
	}
	sys = rest
	for {
		// constant rows, and the tightest of parallel rows
		var rest []lin
		at := map[string]int{}
		for _, l := range sys {
			if isConst(l) {
				v := l.a[""]
				if v > 1e-9 || l.strict && v > -1e-9 {
					return false
				}
				continue
			}
			var ks []string
			for m, v := range l.a {
				if m != "" {
					ks = append(ks, fmt.Sprintf("%s:%.9g", string(m), v))
				}
			}
			sort.Strings(ks)
			k := strings.Join(ks, ";")
			if j, ok := at[k]; ok {
				o := rest[j]
				if l.a[""] > o.a[""] || l.a[""] == o.a[""] && l.strict {
					rest[j] = l
				}
				continue
			}
			at[k] = len(rest)
			rest = append(rest, l)
		}
		if len(rest) == 0 {
			return true
		}
		cnt := map[Mono][2]int{}
		for _, l := range rest {
			for m, v := range l.a {
				if m != "" && v != 0 {
					x := cnt[m]
					if v > 0 {
						x[0]++
					} else {
						x[1]++
					}
					cnt[m] = x
				}
			}
		}
		var best Mono
		bc := math.MaxInt32
		var keys []Mono
		for m := range cnt {
			keys = append(keys, m)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
		for _, m := range keys {
			x := cnt[m]
			if n := x[0]*x[1] - x[0] - x[1]; n < bc {
				bc, best = n, m
			}
		}
		var up, lo, out []lin
		for _, l := range rest {
			switch v := l.a[best]; {
			case v > 0:
				up = append(up, l)
			case v < 0:
				lo = append(lo, l)
			default:
				out = append(out, l)
			}
		}
		if len(up)*len(lo)+len(out) > 1500 {
			return true
		}
		for _, u := range up {
			for _, l := range lo {
				out = append(out, comb(u, 1/u.a[best], l, -1/l.a[best], best, u.strict || l.strict))
			}
		}
		sys = out
	}
}

// ---------------------------------------------------------------- equality facts

// substP rewrites p with the equations known in this case.
func (c *Case) substP(p Poly) Poly {
	for i := range c.facts {
		f := c.facts[i]
		if f.mask != sZer {
			continue
		}
		p = c.substOne(p, f.p)
	}
	return p
}

func (c *Case) substOne(p, q Poly) Poly {
	// find a lone atom of q, preferring the highest id
	best := -1
	for m := range q {
		if len(m) == 5 {
			id, e := 0, 0
			m.each(func(i, x int) { id, e = i, x })
			if e != 1 {
				continue
			}
			n := 0
			for m2 := range q {
				if m2.exp(id) != 0 {
					n++
				}
			}
			if n == 1 && id > best {
				best = id
			}
		}
	}
	if best < 0 {
		return p
	}
	has := false
	for m := range p {
		e := m.exp(best)
		if e < 0 {
			return p
		}
		if e > 0 {
			has = true
		}
	}
	if !has {
		return p
	}
	k := q[monoOf(best, 1)].c
	rest := Poly{}
	for m, co := range q {
		if m.exp(best) == 0 {
			rest[m] = coef{-co.c / k, math.Abs(co.c / k)}
		}
	}
	out := Poly{}
	for m, co := range p {
		e := m.exp(best)
		t := Poly{monoMul(m, monoOf2(best, -e)): co}
		for i := 0; i < e; i++ {
			t = polyMul(t, rest)
		}
		for mm, x := range t {
			out.add(mm, x.c, x.mag)
		}
	}
	return out.clean()
}

// ---------------------------------------------------------------- normal forms in a case

func (c *Case) Norm(v *V) NF {
	if c.n.isPure(v) {
		if nf, ok := c.n.pure[v.id]; ok {
			return nf
		}
	}
	if nf, ok := c.memo[v.id]; ok {
		return nf
	}
	q := len(c.facts)
	t := len(c.dec)
	nf := c.norm(v)
	if c.n.isPure(v) && q == len(c.facts) && t == len(c.dec) {
		c.n.pure[v.id] = nf
	}
	c.memo[v.id] = nf
	return nf
}

func (n *Normer) isPure(v *V) bool {
	if p, ok := n.ispure[v.id]; ok {
		return p
	}
	p := true
	switch v.K {
	case KIte, KCmp, KAnd, KOr, KNot, KStore:
		p = false
	case KFn:
		if v.name == "sqrt" || n.nanOK[v.id] || len(v.args) > 0 {
			p = false
		}
	case KOp:
		if v.name == "/" {
			p = false
		}
	}
	for _, a := range v.args {
		if !n.isPure(a) {
			p = false
		}
	}
	n.ispure[v.id] = p
	return p
}

func fin(r *Rat) NF { return NF{r: r} }
func num(x float64) NF {
	switch {
	case math.IsNaN(x):
		return NF{special: spNaN}
	case math.IsInf(x, 1):
		return NF{special: spInf}
	case math.IsInf(x, -1):
		return NF{special: spMInf}
	}
	return fin(ratConst(x))
}
func ref(k string) NF { return NF{special: spRef, key: k} }

func (c *Case) norm(v *V) NF {
	switch v.K {
	case KNum:
		return num(v.num)
	case KBool, KCmp, KNot, KAnd, KOr:
		if c.Bool(v) {
			return ref("true")
		}
		return ref("false")
	case KStr:
		return ref(fmt.Sprintf("%q", v.name))
	case KNil:
		return ref("nil")
	case KIte:
		if c.Bool(v.args[0]) {
			return c.Norm(v.args[1])
		}
		return c.Norm(v.args[2])
	case KAgg, KTuple:
		s := "{"
		for _, a := range v.args {
			s += c.Key(a) + ","
		}
		return ref(s + "}")
	case KPtr:
		s := fmt.Sprintf("&%d", v.obj.id)
		for _, p := range v.path {
			if p.Idx != nil {
				s += "[" + c.Key(p.Idx) + "]"
			} else {
				s += fmt.Sprintf(".%d", p.Field)
			}
		}
		return ref(s)
	case KIface:
		return ref("iface<" + c.g.typeStr(v.typ) + ">" + c.Key(v.args[0]))
	case KFunc:
		s := "func<" + v.fn.String() + ">("
		for _, a := range v.args {
			s += c.Key(a) + ","
		}
		return ref(s + ")")
	case KSlice:
		s := "slice("
		for _, a := range v.args {
			s += c.Key(a) + ","
		}
		return ref(s + ")")
	case KStore, KZero:
		s := fmt.Sprintf("arr%d(", v.K)
		for _, a := range v.args {
			s += c.Key(a) + ","
		}
		return ref(s + ")")
	case KOp:
		return c.normOp(v)
	case KFn:
		return c.normFn(v)
	}
	panic(undecided("norm: " + v.String()))
}

// Key is a string that identifies the value in this case.
func (c *Case) Key(v *V) string { return c.n.nfKey(c.Norm(v)) }

func (c *Case) normFn(v *V) NF {
	g := c.n
	if len(v.args) == 0 {
		if !isNumeric(v) {
			if isBoolT(v) {
				if c.boolAtom(v.name, v.name) {
					return ref("true")
				}
				return ref("false")
			}
			return ref(v.name)
		}
		a := g.atom(v.name, nil)
		a.isInt = a.isInt || isIntT(v)
		if g.nanOK[v.id] && c.boolAtom("nan:"+a.key, "isNaN("+v.name+")") {
			return NF{special: spNaN}
		}
		return fin(g.ratAtom(a))
	}
	args := make([]NF, len(v.args))
	for i, a := range v.args {
		args[i] = c.Norm(a)
	}
	if isBoolT(v) {
		a := g.atom(v.name, args)
		if c.boolAtom("b:"+a.key, g.atomStr(a)) {
			return ref("true")
		}
		return ref("false")
	}
	if r, ok := c.knownFn(v.name, args); ok {
		return r
	}
	a := g.atom(v.name, args)
	if !isNumeric(v) {
		return ref(a.key)
	}
	a.isInt = a.isInt || isIntT(v)
	if g.nanOK[v.id] && c.boolAtom("nan:"+a.key, "isNaN("+g.atomStr(a)+")") {
		return NF{special: spNaN}
	}
	return fin(g.ratAtom(a))
}

var mathFns = map[string]func(float64) float64{
	"sqrt": math.Sqrt, "sin": math.Sin, "cos": math.Cos, "exp": math.Exp, "floor": math.Floor,
	"ceil": math.Ceil, "tan": math.Tan, "atan": math.Atan, "acos": math.Acos, "asin": math.Asin, "log": math.Log, "trunc": math.Trunc, "j1": math.J1,
}

func (c *Case) knownFn(name string, args []NF) (NF, bool) {
	g := c.n
	if f, ok := mathFns[name]; ok && len(args) == 1 {
		switch args[0].special {
		case spNaN:
			return NF{special: spNaN}, true
		case spInf:
			return num(f(math.Inf(1))), true
		case spMInf:
			return num(f(math.Inf(-1))), true
		}
		if args[0].r != nil {
			if x, ok := args[0].r.isConst(); ok {
				y := f(x)
				if math.Abs(y) < 1e-15 && (name == "sin" || name == "cos") {
					y = 0
				}
				return num(y), true
			}
		}
	}
	for _, a := range args {
		if a.special == spNaN {
			switch name {
			case "pow", "atan2":
				return NF{special: spNaN}, true
			}
		}
	}
	switch name {
	case "sqrt":
		if args[0].special == 0 {
			return c.sqrt(args[0].r), true
		}
	case "tan":
		if args[0].special == 0 {
			s, _ := c.knownFn2("sin", args)
			k, _ := c.knownFn2("cos", args)
			return c.div(s, k), true
		}
	case "sin", "cos":
		return c.knownFn2(name, args)
	case "exp":
		if args[0].special == 0 {
			r := args[0].r
			if lead, neg := leadNeg(r.n); lead && neg {
				pos := &Rat{n: r.n.scale(-1), d: r.d}
				a := g.atom("exp", []NF{fin(pos)})
				return fin(g.inv(g.ratAtom(a))), true
			}
		}
	case "pow":
		if args[1].special == 0 && args[0].special == 0 {
			if e, ok := args[1].r.isConst(); ok {
				if x, ok := args[0].r.isConst(); ok {
					return num(math.Pow(x, e)), true
				}
				if e == math.Trunc(e) && e >= 0 && e <= 4 {
					r := ratConst(1)
					for i := 0; i < int(e); i++ {
						r = g.mul(r, args[0].r)
					}
					return fin(r), true
				}
				if e == 0.5 {
					return c.sqrt(args[0].r), true
				}
			}
		}
	case "trunc", "floor":
		if args[0].special == 0 {
			if len(args[0].r.d) == 0 && len(args[0].r.n) <= 40 {
				x := args[0].r.n
				if c.intStep(x) == 1 {
					return args[0], true
				}
				if !c.inKnown {
					c.inKnown = true
					m := c.maskPoly(x)
					lt1 := m&sNeg == 0 && c.maskPoly(polyAdd(x, polyConst(1), -1)) == sNeg
					c.inKnown = false
					if lt1 {
						return num(0), true
					}
					if name == "floor" && m&sNeg == 0 {
						return c.Trunc(args[0]), true
					}
				}
			}
			// trunc(trunc(x)) etc.
			if len(args[0].r.n) == 1 && len(args[0].r.d) == 0 {
				for m, co := range args[0].r.n {
					if co.c == 1 && len(m) == 5 {
						id := 0
						m.each(func(i, e int) { id = i })
						nm := g.atoms[id].name
						if (nm == "trunc" || nm == "floor") && m.exp(id) == 1 {
							return args[0], true
						}
					}
				}
			}
		}
	case "quo", "rem", "shl", "shr", "and", "or", "xor", "andnot":
		if args[0].special == 0 && args[1].special == 0 {
			x, ok1 := args[0].r.isConst()
			y, ok2 := args[1].r.isConst()
			if ok1 && ok2 {
				a, b := int64(x), int64(y)
				switch name {
				case "quo":
					if b != 0 {
						return num(float64(a / b)), true
					}
				case "rem":
					if b != 0 {
						return num(float64(a % b)), true
					}
				case "shl":
					return num(float64(a << uint(b))), true
				case "shr":
					return num(float64(a >> uint(b))), true
				case "and":
					return num(float64(a & b)), true
				case "or":
					return num(float64(a | b)), true
				case "xor":
					return num(float64(a ^ b)), true
				case "andnot":
					return num(float64(a &^ b)), true
				}
			}
			if name == "quo" && ok2 && y > 0 && len(args[0].r.d) == 0 {
				// (x + k*y)/y = x/y + k, if neither is negative
				x0 := args[0].r.n
				k := math.Floor(x0[""].c / y)
				if k != 0 && c.intStep(x0) >= 1 {
					x1 := polyAdd(x0, polyConst(k*y), -1)
					if c.maskPoly(x0)&sNeg == 0 && c.maskPoly(x1)&sNeg == 0 {
						q := g.ratAtom(g.atom("quo", []NF{fin(&Rat{n: x1}), args[1]}))
						return fin(g.add(q, ratConst(k), 1)), true
					}
				}
			}
			if name == "shl" && ok2 {
				return fin(g.mul(args[0].r, ratConst(math.Pow(2, y)))), true
			}
		}
	}
	return NF{}, false
}

// Trunc is the integer part of a non-negative value.
func (c *Case) Trunc(x NF) NF {
	return fin(c.n.ratAtom(c.n.atom("trunc", []NF{x})))
}

func leadNeg(p Poly) (ok, neg bool) {
	if len(p) == 0 {
		return false, false
	}
	ms := p.monos()
	return true, p[ms[len(ms)-1]].c < 0
}

func (c *Case) knownFn2(name string, args []NF) (NF, bool) {
	g := c.n
	if args[0].special != 0 {
		return NF{}, false
	}
	r := args[0].r
	if x, ok := r.isConst(); ok {
		return num(mathFns[name](x)), true
	}
	// a multiple of a quarter turn
	if co, ok := r.n[""]; ok && len(r.d) == 0 {
		q := co.c / (math.Pi / 2)
		if k := math.Round(q); k != 0 && math.Abs(q-k) < 1e-12 && math.Abs(k) < 1000 {
			n := Poly{}
			for m, x := range r.n {
				if m != "" {
					n[m] = x
				}
			}
			i := ((int(k) % 4) + 4) % 4
			if name == "cos" {
				i = (i + 1) % 4
			}
			x, ok := c.knownFn2([]string{"sin", "cos", "sin", "cos"}[i], []NF{fin(&Rat{n: n})})
			if ok && i >= 2 {
				x = fin(g.mul(x.r, ratConst(-1)))
			}
			return x, ok
		}
	}
	neg := false
	if ok, ng := leadNeg(r.n); ok && ng {
		r = &Rat{n: r.n.scale(-1), d: r.d}
		neg = true
	}
	x := g.ratAtom(g.atom(name, []NF{fin(r)}))
	if neg && name == "sin" {
		x = g.mul(x, ratConst(-1))
	}
	return fin(x), true
}

// sqrt of a finite value.
func (c *Case) sqrt(r *Rat) NF {
	g := c.n
	r = r.cancel()
	r = &Rat{n: c.substP(r.n), d: r.d}
	if x, ok := r.isConst(); ok {
		return num(math.Sqrt(x))
	}
	mask := c.maskRat(r)
	if mask&sNeg != 0 && !c.NoSqrtSplit {
		if s := c.signRat(r); s < 0 {
			return NF{special: spNaN}
		} else if s == 0 {
			return num(0)
		}
	}
	f, m, q := c.content(r.n)
	if len(q) == 0 {
		return num(0)
	}
	out := ratConst(math.Sqrt(math.Abs(f)))
	in := Poly{"": {float64(sgnf(f)), 1}}
	var ids, es []int
	m.each(func(id, e int) { ids = append(ids, id); es = append(es, e) })
	for i, id := range ids {
		e := es[i]
		k := e / 2
		if e < 0 && e%2 != 0 {
			k = (e - 1) / 2
		}
		rem := e - 2*k
		if rem != 0 {
			in = in.mulMono(monoOf(id, rem))
		}
		if k != 0 {
			s := 1
			if k%2 != 0 {
				am := c.atomMask(id)
				if am&sNeg != 0 {
					s = c.signPrim(Poly{monoOf(id, 1): {1, 1}})
					if s == 0 {
						s = 1
					}
				}
			}
			out = g.mul(out, &Rat{n: Poly{monoOf(id, k): {float64(s), 1}}})
		}
	}
	inner := &Rat{n: polyMul(in, q), d: nil}
	for _, d := range r.d {
		k := d.e / 2
		if k > 0 {
			s := 1
			if k%2 != 0 {
				s = c.signPoly(d.p)
			}
			for i := 0; i < k; i++ {
				out = g.mul(out, g.inv(&Rat{n: d.p}))
			}
			out = g.mul(out, ratConst(float64(s)))
		}
		if d.e%2 != 0 {
			inner.d = facMul(inner.d, d.p, d.key, 1)
		}
	}
	if x, ok := inner.isConst(); ok && x > 0 {
		return fin(g.mul(out, ratConst(math.Sqrt(x))))
	}
	if len(inner.d) == 0 && len(inner.n) >= 3 && len(inner.n) <= 60 {
		if p, ok := polySqrt(inner.n); ok {
			s := c.signPoly(p)
			return fin(g.mul(out, &Rat{n: p.scale(float64(s))}))
		}
	}
	a := g.atom("sqrt", []NF{fin(inner)})
	return fin(g.mul(out, g.ratAtom(a)))
}

// polySqrt returns p with p*p == q, if there is one.
func polySqrt(q Poly) (Poly, bool) {
	rem := polyAdd(q, Poly{}, 1)
	l, ok := lead(rem)
	if !ok {
		return nil, false
	}
	half := func(m Mono) (Mono, bool) {
		b := []byte(m)
		for i := 4; i < len(b); i += 5 {
			if b[i]%2 != 0 {
				return "", false
			}
			b[i] /= 2
		}
		return Mono(b), true
	}
	lm, ok := half(l)
	if !ok || rem[l].c < 0 {
		return nil, false
	}
	c0 := math.Sqrt(rem[l].c)
	root := Poly{lm: {c0, c0}}
	rem = polyAdd(rem, polyMul(root, root), -1)
	for i := 0; len(rem) > 0 && i < 12; i++ {
		lr, ok := lead(rem)
		if !ok {
			return nil, false
		}
		m := monoMul(lr, monoInv(lm))
		bad := false
		m.each(func(id, e int) {
			if e < 0 {
				bad = true
			}
		})
		if bad {
			return nil, false
		}
		k := rem[lr].c / (2 * c0)
		t := Poly{m: {k, math.Abs(k)}}
		root = polyAdd(root, t, 1)
		rem = polyAdd(q, polyMul(root, root), -1)
	}
	return root, len(rem) == 0
}

func (c *Case) neg(a NF) NF {
	switch a.special {
	case 0:
		return fin(&Rat{n: a.r.n.scale(-1), d: a.r.d})
	case spInf:
		return NF{special: spMInf}
	case spMInf:
		return NF{special: spInf}
	}
	return a
}
func (c *Case) add(a, b NF) NF {
	switch {
	case a.special == spNaN || b.special == spNaN:
		return NF{special: spNaN}
	case a.special == 0 && b.special == 0:
		return fin(c.n.add(a.r, b.r, 1))
	case a.special == 0:
		return b
	case b.special == 0 || a.special == b.special:
		return a
	}
	return NF{special: spNaN}
}
func (c *Case) sgn(a NF) int {
	switch a.special {
	case spInf:
		return 1
	case spMInf:
		return -1
	}
	return c.signRat(a.r)
}
func (c *Case) mul(a, b NF) NF {
	switch {
	case a.special == spNaN || b.special == spNaN:
		return NF{special: spNaN}
	case a.special == 0 && b.special == 0:
		return fin(c.n.mul(a.r, b.r))
	}
	switch c.sgn(a) * c.sgn(b) {
	case 1:
		return NF{special: spInf}
	case -1:
		return NF{special: spMInf}
	}
	return NF{special: spNaN}
}
func (c *Case) div(a, b NF) NF {
	switch {
	case a.special == spNaN || b.special == spNaN:
		return NF{special: spNaN}
	case b.special != 0:
		if a.special != 0 {
			return NF{special: spNaN}
		}
		return num(0)
	}
	zero := false
	if x, ok := b.r.isConst(); ok {
		zero = x == 0
	} else if c.DivZero {
		zero = c.signRat(b.r) == 0
	} else {
		zero = len(c.substP(b.r.n)) == 0
		if !zero {
			c.nonzero(b.r.n)
		}
	}
	if zero {
		switch c.sgn(a) {
		case 1:
			return NF{special: spInf}
		case -1:
			return NF{special: spMInf}
		}
		return NF{special: spNaN}
	}
	if a.special != 0 {
		return c.mul(a, NF{r: c.n.inv(b.r)})
	}
	return fin(c.n.mul(a.r, c.n.inv(b.r)))
}

func (c *Case) normOp(v *V) NF {
	args := make([]NF, len(v.args))
	for i, a := range v.args {
		args[i] = c.Norm(a)
		if args[i].special == spRef {
			panic(undecided("arithmetic on a non-number: " + v.String()))
		}
	}
	switch v.name {
	case "+":
		return c.add(args[0], args[1])
	case "-":
		return c.add(args[0], c.neg(args[1]))
	case "neg":
		return c.neg(args[0])
	case "*":
		return c.mul(args[0], args[1])
	case "/":
		return c.div(args[0], args[1])
	}
	if r, ok := c.knownFn(v.name, args); ok {
		return r
	}
	return fin(c.n.ratAtom(c.n.atom(v.name, args)))
}

// ---------------------------------------------------------------- booleans

func isBoolT(v *V) bool {
	return v.typ != nil && isBoolType(v.typ)
}

func (c *Case) boolAtom(key, disp string) bool {
	if d, ok := c.dec[key]; ok {
		return d == 1
	}
	d := c.choose([]int{1, 0})
	c.dec[key] = d
	if d == 1 {
		c.trace = append(c.trace, disp)
	} else {
		c.trace = append(c.trace, "!"+disp)
	}
	return d == 1
}

func (c *Case) Bool(v *V) bool {
	switch v.K {
	case KBool:
		return v.num != 0
	case KNot:
		return !c.Bool(v.args[0])
	}
	if b, ok := c.bmemo[v.id]; ok {
		return b
	}
	if c.inQuiet {
		if n, ok := c.qfail[v.id]; ok && n == c.ver {
			panic(quietUnknown{})
		}
		ver := c.ver
		defer func() {
			if e := recover(); e != nil {
				if _, is := e.(quietUnknown); is && ver == c.ver {
					c.qfail[v.id] = ver
				}
				panic(e)
			}
		}()
	}
	b := c.boolV(v)
	c.bmemo[v.id] = b
	return b
}

func (c *Case) boolV(v *V) bool {
	switch v.K {
	case KAnd, KOr:
		if c.inQuiet {
			want := v.K == KOr
			unk := false
			for _, a := range v.args {
				var r bool
				if c.quiet(func() { r = c.Bool(a) }) {
					if r == want {
						return want
					}
				} else {
					unk = true
				}
			}
			if unk {
				panic(quietUnknown{})
			}
			return !want
		}
		// prefer an operand that is already decided
		want := v.K == KOr
		for _, a := range v.args {
			var r bool
			if c.quiet(func() { r = c.Bool(a) }) && r == want {
				return want
			}
		}
		for _, a := range v.args {
			if c.Bool(a) == want {
				return want
			}
		}
		return !want
	case KIte:
		if c.Bool(v.args[0]) {
			return c.Bool(v.args[1])
		}
		return c.Bool(v.args[2])
	case KCmp:
		return c.cmp(v)
	case KFn:
		if v.name == "isnan" {
			return c.isNaN(v)
		}
		return c.normFn(v).key == "true"
	}
	panic(undecided("bool: " + v.String()))
}

func (c *Case) isNaN(v *V) bool {
	nf := c.Norm(v.args[0])
	if nf.special == spNaN || !c.n.anyNaN || nf.special != 0 {
		return nf.special == spNaN
	}
	if _, ok := constOf(c, v.args[0]); ok {
		return false
	}
	return c.boolAtom("isnan:"+c.Key(v.args[0]), "NaN "+v.args[0].String())
}

func (c *Case) cmp(v *V) bool {
	if v.name == "ref==" {
		a, b := c.Resolve(v.args[0]), c.Resolve(v.args[1])
		if a == b {
			return true
		}
		if defRef(a) && defRef(b) {
			if a.K == KIface && b.K == KIface && c.g.typeStr(a.typ) == c.g.typeStr(b.typ) || a.K == KPtr && b.K == KPtr {
				return c.Key(a) == c.Key(b)
			}
			return false
		}
		if a.K == KStr && b.K == KStr {
			return a.name == b.name
		}
		ka, kb := c.Key(a), c.Key(b)
		if ka == kb {
			return true
		}
		if ka > kb {
			ka, kb = kb, ka
		}
		return c.boolAtom("eq:"+ka+"~"+kb, short(ka)+"=="+short(kb))
	}
	a, b := c.Norm(v.args[0]), c.Norm(v.args[1])
	if a.special == spRef || b.special == spRef {
		ka, kb := c.n.nfKey(a), c.n.nfKey(b)
		if v.name == "==" {
			if ka == kb {
				return true
			}
			return c.boolAtom("eq:"+ka+"~"+kb, short(ka)+"=="+short(kb))
		}
		return c.boolAtom(v.name+":"+ka+"~"+kb, short(ka)+v.name+short(kb))
	}
	s, nan := c.CmpNF(a, b)
	if nan {
		return false
	}
	switch v.name {
	case "<":
		return s < 0
	case "<=":
		return s <= 0
	}
	return s == 0
}

func short(s string) string {
	if len(s) > 40 {
		return s[:37] + "…"
	}
	return s
}

// CmpNF compares two numbers; nan is true if one is NaN.
func (c *Case) CmpNF(a, b NF) (s int, nan bool) {
	if a.special == spNaN || b.special == spNaN {
		return 0, true
	}
	if a.special != 0 || b.special != 0 {
		x, y := a.special, b.special
		switch {
		case x < y:
			return -1, false
		case x > y:
			return 1, false
		}
		return 0, false
	}
	return c.signRat(c.n.add(a.r, b.r, -1)), false
}

// Resolve removes conditionals at the top of a value.
func (c *Case) Resolve(v *V) *V {
	for v.K == KIte {
		if c.Bool(v.args[0]) {
			v = v.args[1]
		} else {
			v = v.args[2]
		}
	}
	return v
}

// EqNF reports whether two numbers are the same function.
func (c *Case) EqNF(a, b NF) bool {
	if a.special != 0 || b.special != 0 {
		return a.special == b.special && a.key == b.key
	}
	d := c.n.add(a.r, b.r, -1)
	if c.n.isZero(d) {
		return true
	}
	p := c.substP(d.n)
	return c.n.isZero(&Rat{n: p})
}

// Eq reports whether two values are equal in this case.
func (c *Case) Eq(a, b *V) bool {
	a, b = c.Resolve(a), c.Resolve(b)
	if a == b {
		return true
	}
	if (a.K == KAgg || a.K == KTuple) && (b.K == KAgg || b.K == KTuple) && len(a.args) == len(b.args) {
		for i := range a.args {
			if !c.Eq(a.args[i], b.args[i]) {
				return false
			}
		}
		return true
	}
	return c.EqNF(c.Norm(a), c.Norm(b))
}

// Sign of a value; NaN gives ok=false.
func (c *Case) Sign(v *V) (s int, ok bool) {
	nf := c.Norm(v)
	if nf.special == spNaN {
		return 0, false
	}
	return c.sgn(nf), true
}

// Expect records a failure if a and b differ.
func (c *Case) Expect(what string, got, want *V) bool {
	if c.Eq(got, want) {
		return true
	}
	c.Fail("%s: got %s, want %s", what, c.Show(got), c.Show(want))
	return false
}

// Show renders a value in this case.
func (c *Case) Show(v *V) string {
	v = c.Resolve(v)
	if v.K == KAgg || v.K == KTuple {
		var s []string
		for _, a := range v.args {
			s = append(s, c.Show(a))
		}
		return "{" + strings.Join(s, ", ") + "}"
	}
	s := c.n.nfStr(c.Norm(v))
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	return s
}

// Fact adds the sign of a whole expression (for instance a product of known
// signs) to the linear domain, without factoring it.
func (c *Case) Fact(v *V, mask int) {
	nf := c.Norm(v)
	if nf.special != 0 || len(nf.r.d) != 0 {
		return
	}
	p := c.substP(nf.r.n)
	if x, ok := p.isConst(); ok {
		if maskOf(sgn3(x))&mask == 0 {
			c.Skip()
		}
		return
	}
	c.addFact(p, mask, "raw:"+p.key())
}

func sgn3(x float64) int {
	switch {
	case x > 0:
		return 1
	case x < 0:
		return -1
	}
	return 0
}
