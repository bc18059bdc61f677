package main

// Normal forms of numeric values: quotients of (Laurent) polynomials over
// atoms, where an atom is a symbol or an uninterpreted term.

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

type Mono string // 5 bytes per factor: atom id (4, big endian), exponent (1, signed)

type coef struct{ c, mag float64 }
type Poly map[Mono]coef

const relTol = 1e-9

type Atom struct {
	id    int
	name  string
	key   string
	args  []NF
	sqr   *Rat   // atom^2 == sqr (sqrt atoms)
	cosA  *Atom  // for sin atoms: the matching cos atom
	sign  int    // known sign set (bit mask), default all
	disp  string // for reports
	isInt bool   // integer valued
}

// bit masks of signs
const (
	sNeg = 1
	sZer = 2
	sPos = 4
	sAll = 7
)

func flipMask(m int) int {
	r := m & sZer
	if m&sNeg != 0 {
		r |= sPos
	}
	if m&sPos != 0 {
		r |= sNeg
	}
	return r
}
func mulMask(a, b int) int {
	r := 0
	for _, x := range []int{-1, 0, 1} {
		if a&maskOf(x) == 0 {
			continue
		}
		for _, y := range []int{-1, 0, 1} {
			if b&maskOf(y) != 0 {
				r |= maskOf(x * y)
			}
		}
	}
	return r
}
func maskOf(s int) int {
	switch {
	case s < 0:
		return sNeg
	case s > 0:
		return sPos
	}
	return sZer
}

type fac struct {
	p   Poly
	key string
	e   int
}

// Rat is n / prod(d).
type Rat struct {
	n Poly
	d []fac
}

// NF is the normal form of a value in one case.
type NF struct {
	special int // 0 finite, 1 +Inf, -1 -Inf, 2 NaN, 3: non-numeric
	r       *Rat
	key     string // for non-numeric
}

const (
	spInf  = 1
	spMInf = -1
	spNaN  = 2
	spRef  = 3
)

func monoMul(a, b Mono) Mono {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	out := make([]byte, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i:i+4] < b[j:j+4]:
			out = append(out, a[i:i+5]...)
			i += 5
		case i >= len(a) || b[j:j+4] < a[i:i+4]:
			out = append(out, b[j:j+5]...)
			j += 5
		default:
			e := int(int8(a[i+4])) + int(int8(b[j+4]))
			if e > 120 || e < -120 {
				panic(undecided("polynomial degree too large"))
			}
			if e != 0 {
				out = append(out, a[i:i+4]...)
				out = append(out, byte(int8(e)))
			}
			i += 5
			j += 5
		}
	}
	return Mono(out)
}
func monoOf(id, e int) Mono {
	var b [5]byte
	binary.BigEndian.PutUint32(b[:4], uint32(id))
	b[4] = byte(int8(e))
	return Mono(b[:])
}
func (m Mono) each(f func(id, e int)) {
	for i := 0; i+5 <= len(m); i += 5 {
		f(int(binary.BigEndian.Uint32([]byte(m[i:i+4]))), int(int8(m[i+4])))
	}
}
func (m Mono) exp(id int) int {
	r := 0
	m.each(func(i, e int) {
		if i == id {
			r = e
		}
	})
	return r
}
func monoInv(m Mono) Mono {
	b := []byte(m)
	for i := 4; i < len(b); i += 5 {
		b[i] = byte(-int8(b[i]))
	}
	return Mono(b)
}

func polyConst(c float64) Poly {
	if c == 0 {
		return Poly{}
	}
	return Poly{"": {c, math.Abs(c)}}
}
func (p Poly) add(m Mono, c, mag float64) {
	o := p[m]
	p[m] = coef{o.c + c, o.mag + mag}
}
func (p Poly) clean() Poly {
	for m, c := range p {
		if math.Abs(c.c) <= relTol*c.mag || c.c == 0 {
			delete(p, m)
		} else {
			p[m] = coef{c.c, math.Abs(c.c)}
		}
	}
	return p
}
func polyAdd(a, b Poly, sb float64) Poly {
	r := make(Poly, len(a)+len(b))
	for m, c := range a {
		r.add(m, c.c, c.mag)
	}
	for m, c := range b {
		r.add(m, sb*c.c, c.mag*math.Abs(sb))
	}
	return r.clean()
}

const maxTerms = 20000

func polyMul(a, b Poly) Poly {
	poll()
	if len(a)*len(b) > maxTerms*20 {
		if os.Getenv("VT_STACK") != "" {
			debug.PrintStack()
		}
		panic(undecided("polynomial too large"))
	}
	r := make(Poly, len(a)+len(b))
	for m, c := range a {
		for n, d := range b {
			r.add(monoMul(m, n), c.c*d.c, c.mag*d.mag)
		}
	}
	r.clean()
	if len(r) > maxTerms {
		if os.Getenv("VT_STACK") != "" {
			debug.PrintStack()
		}
		panic(undecided("polynomial too large"))
	}
	return r
}
func (p Poly) isConst() (float64, bool) {
	if len(p) == 0 {
		return 0, true
	}
	if len(p) == 1 {
		if c, ok := p[""]; ok {
			return c.c, true
		}
	}
	return 0, false
}
func (p Poly) monos() []Mono {
	r := make([]Mono, 0, len(p))
	for m := range p {
		r = append(r, m)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
func (p Poly) key() string {
	var b strings.Builder
	for _, m := range p.monos() {
		fmt.Fprintf(&b, "%x:%.9g;", string(m), p[m].c)
	}
	return b.String()
}
func (p Poly) scale(f float64) Poly {
	r := make(Poly, len(p))
	for m, c := range p {
		r[m] = coef{c.c * f, math.Abs(c.c * f)}
	}
	return r
}
func (p Poly) mulMono(n Mono) Poly {
	if n == "" {
		return p
	}
	r := make(Poly, len(p))
	for m, c := range p {
		r[monoMul(m, n)] = c
	}
	return r
}

// content splits p = f * m * q, with q primitive (leading coefficient 1, no
// common monomial).
func (p Poly) content() (f float64, m Mono, q Poly) {
	ms := p.monos()
	if len(ms) == 0 {
		return 0, "", p
	}
	exps := map[int]int{}
	cnt := map[int]int{}
	for _, x := range ms {
		x.each(func(id, e int) {
			if c, ok := cnt[id]; !ok || c == 0 {
				exps[id] = e
			} else if e < exps[id] {
				exps[id] = e
			}
			cnt[id]++
		})
	}
	ids := make([]int, 0, len(exps))
	for id, e := range exps {
		if cnt[id] < len(ms) && e > 0 {
			e = 0
		}
		exps[id] = e
		if e != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		m = monoMul(m, monoOf(id, exps[id]))
	}
	q = p.mulMono(monoInv(m))
	qs := q.monos()
	lead := qs[len(qs)-1]
	f = q[lead].c
	return f, m, q.scale(1 / f)
}

// ---------------------------------------------------------------- rationals

func ratConst(c float64) *Rat { return &Rat{n: polyConst(c)} }

func (r *Rat) isConst() (float64, bool) {
	if len(r.d) == 0 {
		return r.n.isConst()
	}
	return 0, len(r.n) == 0
}

func facMul(d []fac, p Poly, key string, e int) []fac {
	out := make([]fac, 0, len(d)+1)
	done := false
	for _, f := range d {
		if f.key == key {
			f.e += e
			done = true
			if f.e == 0 {
				continue
			}
		}
		out = append(out, f)
	}
	if !done && e != 0 {
		out = append(out, fac{p, key, e})
		sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	}
	return out
}

// cancel removes denominators that equal the numerator's primitive part.
func (r *Rat) cancel() *Rat {
	if len(r.n) == 0 {
		return ratConst(0)
	}
	if len(r.d) == 0 || len(r.n) < 2 {
		return r
	}
	f, m, q := r.n.content()
	k := q.key()
	for _, d := range r.d {
		if d.key == k && d.e > 0 {
			nr := &Rat{n: Poly{m: {f, math.Abs(f)}}, d: facMul(r.d, d.p, k, -1)}
			return nr
		}
	}
	// try exact division for two-factor cases
	for _, d := range r.d {
		if d.e > 0 && len(r.n) <= 400 {
			if quo, ok := polyDivExact(r.n, d.p); ok {
				return (&Rat{n: quo, d: facMul(r.d, d.p, d.key, -1)}).cancel()
			}
		}
	}
	return r
}

// polyDivExact divides a by b if the division leaves no remainder.
func polyDivExact(a, b Poly) (Poly, bool) {
	// order monomials so that leading term w.r.t. a monomial order is used;
	// the byte order is not a monomial order, so use degree-lex on exponent maps.
	lb, ok := lead(b)
	if !ok {
		return nil, false
	}
	rem := polyAdd(a, Poly{}, 1)
	quo := Poly{}
	for i := 0; len(rem) > 0; i++ {
		if i > 200 {
			return nil, false
		}
		lr, _ := lead(rem)
		q := monoMul(lr, monoInv(lb))
		neg := false
		q.each(func(id, e int) {
			if e < 0 {
				neg = true
			}
		})
		if neg {
			return nil, false
		}
		c := rem[lr].c / b[lb].c
		quo.add(q, c, math.Abs(c))
		rem = polyAdd(rem, b.mulMono(q), -c)
		delete(rem, lr)
	}
	return quo, true
}

func lead(p Poly) (Mono, bool) {
	var best Mono
	first := true
	for m := range p {
		bad := false
		m.each(func(id, e int) {
			if e < 0 {
				bad = true
			}
		})
		if bad {
			return "", false
		}
		if first || monoLess(best, m) {
			best = m
			first = false
		}
	}
	return best, !first
}

// monoLess is the lexicographic monomial order (smaller ids are larger).
func monoLess(a, b Mono) bool {
	i, j := 0, 0
	for {
		if i >= len(a) && j >= len(b) {
			return false
		}
		if i >= len(a) {
			return true
		}
		if j >= len(b) {
			return false
		}
		ka, kb := a[i:i+4], b[j:j+4]
		if ka != kb {
			return ka > kb
		}
		ea, eb := int8(a[i+4]), int8(b[j+4])
		if ea != eb {
			return ea < eb
		}
		i += 5
		j += 5
	}
}

type undecided string

func (u undecided) Error() string { return string(u) }

// ---------------------------------------------------------------- normaliser

type Normer struct {
	g      *Graph
	atoms  []*Atom
	byKey  map[string]*Atom
	relSqr map[int]*Rat // additional relations atom^2 = rat
	pure   map[int]NF   // normal forms of values without conditionals
	ispure map[int]bool
	nanOK  map[int]bool // atoms that may be NaN
	anyNaN bool         // any number that is not constant may test as NaN
}

func NewNormer(g *Graph) *Normer {
	return &Normer{g: g, byKey: map[string]*Atom{}, pure: map[int]NF{}, ispure: map[int]bool{}, relSqr: map[int]*Rat{}, nanOK: map[int]bool{}, atoms: []*Atom{nil}}
}

func (n *Normer) atom(name string, args []NF) *Atom {
	k := name
	if len(args) > 0 {
		var b strings.Builder
		b.WriteString(name)
		b.WriteByte('(')
		for _, a := range args {
			b.WriteString(n.nfKey(a))
			b.WriteByte(',')
		}
		b.WriteByte(')')
		k = b.String()
	}
	if a, ok := n.byKey[k]; ok {
		return a
	}
	a := &Atom{id: len(n.atoms), name: name, key: k, args: args, sign: sAll}
	n.atoms = append(n.atoms, a)
	n.byKey[k] = a
	switch name {
	case "sqrt":
		a.sqr = args[0].r
		a.sign = sZer | sPos
	case "exp":
		a.sign = sPos
	case "sin":
		a.cosA = n.atom("cos", args)
	}
	switch name {
	case "floor", "trunc", "ceil", "quo", "rem", "len", "floorpos":
		a.isInt = true
	}
	if strings.HasPrefix(name, "len(") || name == "len" || name == "floorpos" {
		a.sign = sZer | sPos
	}
	return a
}

func (n *Normer) nfKey(a NF) string {
	switch a.special {
	case 0:
		return n.ratKey(a.r)
	case spRef:
		return a.key
	}
	return fmt.Sprintf("sp%d", a.special)
}
func (n *Normer) ratKey(r *Rat) string {
	r = r.cancel()
	k := r.n.key()
	if len(r.d) > 0 {
		k += "/"
		for _, f := range r.d {
			k += fmt.Sprintf("{%s}^%d", f.key, f.e)
		}
	}
	return k
}

func (n *Normer) ratAtom(a *Atom) *Rat {
	return n.reduce(&Rat{n: Poly{monoOf(a.id, 1): {1, 1}}})
}

// reduce rewrites powers of sqrt, sin and related atoms.
func (n *Normer) reduce(r *Rat) *Rat {
	for iter := 0; iter < 50; iter++ {
		var hit *Atom
		var rel *Rat
		for m := range r.n {
			m.each(func(id, e int) {
				a := n.atoms[id]
				if a.sqr != nil && (e >= 2 || e <= -1) {
					if hit == nil || id > hit.id {
						hit, rel = a, a.sqr
					}
				} else if a.cosA != nil && e >= 2 {
					if hit == nil || id > hit.id {
						c := a.cosA
						hit, rel = a, &Rat{n: Poly{"": {1, 1}, monoOf(c.id, 2): {-1, 1}}}
					}
				} else if q := n.relSqr[id]; q != nil && e >= 2 {
					if hit == nil || id > hit.id {
						hit, rel = a, q
					}
				}
			})
		}
		if hit == nil {
			break
		}
		// group the monomials by the power of the relation to substitute
		groups := map[int]Poly{}
		for m, c := range r.n {
			e := m.exp(hit.id)
			k := 0
			if e >= 2 {
				k = e / 2
			} else if e < 0 && hit.sqr != nil {
				k = -((-e + 1) / 2)
			}
			m2 := monoMul(m, monoOf2(hit.id, -2*k))
			if groups[k] == nil {
				groups[k] = Poly{}
			}
			groups[k].add(m2, c.c, c.mag)
		}
		sum := ratConst(0)
		var ks []int
		for k := range groups {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		for _, k := range ks {
			t := &Rat{n: groups[k]}
			p := ratConst(1)
			for i := 0; i < k; i++ {
				p = n.mulRaw(p, rel)
			}
			for i := 0; i > k; i-- {
				p = n.mulRaw(p, n.invRaw(rel))
			}
			sum = n.addRaw(sum, n.mulRaw(t, p), 1)
		}
		den := r.d
		r = &Rat{n: sum.n, d: sum.d}
		for _, f := range den {
			r.d = facMul(r.d, f.p, f.key, f.e)
		}
	}
	return r
}

func monoOf2(id, e int) Mono {
	if e == 0 {
		return ""
	}
	return monoOf(id, e)
}

func (n *Normer) mulRaw(a, b *Rat) *Rat {
	r := &Rat{n: polyMul(a.n, b.n), d: a.d}
	for _, f := range b.d {
		r.d = facMul(r.d, f.p, f.key, f.e)
	}
	if len(r.n) == 0 {
		return ratConst(0)
	}
	return r
}
func (n *Normer) invRaw(a *Rat) *Rat {
	f, m, q := a.n.content()
	if len(a.n) == 0 {
		panic(undecided("division by zero"))
	}
	r := &Rat{n: Poly{monoInv(m): {1 / f, math.Abs(1 / f)}}}
	if _, ok := q.isConst(); !ok {
		r.d = facMul(r.d, q, q.key(), 1)
	}
	for _, x := range a.d {
		for i := 0; i < x.e; i++ {
			r.n = polyMul(r.n, x.p)
		}
	}
	return r
}
func (n *Normer) addRaw(a, b *Rat, sb float64) *Rat {
	if len(b.n) == 0 {
		return a
	}
	if len(a.d) == 0 && len(b.d) == 0 {
		return &Rat{n: polyAdd(a.n, b.n, sb)}
	}
	// least common denominator
	den := a.d
	an, bn := a.n, b.n
	for _, f := range b.d {
		ea := 0
		for _, x := range a.d {
			if x.key == f.key {
				ea = x.e
			}
		}
		for i := ea; i < f.e; i++ {
			an = polyMul(an, f.p)
		}
		if f.e > ea {
			den = facMul(den, f.p, f.key, f.e-ea)
		}
	}
	for _, x := range den {
		eb := 0
		for _, f := range b.d {
			if x.key == f.key {
				eb = f.e
			}
		}
		for i := eb; i < x.e; i++ {
			bn = polyMul(bn, x.p)
		}
	}
	return (&Rat{n: polyAdd(an, bn, sb), d: den}).cancel()
}

func (n *Normer) mul(a, b *Rat) *Rat            { return n.reduce(n.mulRaw(a, b)).cancel() }
func (n *Normer) add(a, b *Rat, s float64) *Rat { return n.reduce(n.addRaw(a, b, s)) }
func (n *Normer) inv(a *Rat) *Rat               { return n.reduce(n.invRaw(a)) }

// isZero decides whether r is identically zero.
func (n *Normer) isZero(r *Rat) bool {
	p := r.n
	for iter := 0; iter < 20; iter++ {
		if len(p) == 0 {
			return true
		}
		// clear negative exponents
		_, m, _ := p.content()
		clr := Mono("")
		m.each(func(id, e int) {
			if e < 0 {
				clr = monoMul(clr, monoOf(id, -e))
			}
		})
		p = p.mulMono(clr)
		q := n.reduce(&Rat{n: p})
		if len(q.n) == 0 {
			return true
		}
		if q.n.key() == p.key() {
			return false
		}
		p = q.n
	}
	return false
}

func (n *Normer) polyStr(p Poly) string {
	if len(p) == 0 {
		return "0"
	}
	var s []string
	for _, m := range p.monos() {
		c := p[m].c
		t := ""
		m.each(func(id, e int) {
			if t != "" {
				t += "*"
			}
			t += n.atomStr(n.atoms[id])
			if e != 1 {
				t += fmt.Sprintf("^%d", e)
			}
		})
		switch {
		case t == "":
			t = fmt.Sprintf("%.6g", c)
		case c == 1:
		case c == -1:
			t = "-" + t
		default:
			t = fmt.Sprintf("%.6g*", c) + t
		}
		s = append(s, t)
		if len(s) > 12 {
			s = append(s, "…")
			break
		}
	}
	return strings.Join(s, " + ")
}
func (n *Normer) atomStr(a *Atom) string {
	if len(a.args) == 0 {
		return a.name
	}
	var s []string
	for _, x := range a.args {
		s = append(s, n.nfStr(x))
	}
	r := a.name + "(" + strings.Join(s, ",") + ")"
	if len(r) > 120 {
		r = r[:117] + "…"
	}
	return r
}
func (n *Normer) nfStr(x NF) string {
	switch x.special {
	case spInf:
		return "+Inf"
	case spMInf:
		return "-Inf"
	case spNaN:
		return "NaN"
	case spRef:
		return x.key
	}
	s := n.polyStr(x.r.n)
	if len(x.r.d) > 0 {
		s = "(" + s + ")"
		for _, f := range x.r.d {
			s += fmt.Sprintf("/(%s)", n.polyStr(f.p))
			if f.e > 1 {
				s += fmt.Sprintf("^%d", f.e)
			}
		}
	}
	return s
}
