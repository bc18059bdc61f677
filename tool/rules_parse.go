package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", 30, "value-graph evaluation of the parsers over arbitrary file contents; panic-escape and allocation-size dataflow", "The parsers are evaluated for files whose lines consist of arbitrary words: in every case in which they return without error, each error they were given must have been nil, the vertices and faces must be those of the file in order, with 0-based indices that denote vertices; files with missing words or lines must not be accepted in any case. Every panic that may be raised below an exported function must meet a deferred function that turns a recovered value of its type into an error. No allocation may have a size that was read from the file.", checkC20)
}

// textFile models a file of lines. Lines are constants or lists of unknown words.
type textFile struct {
	w     *W
	lines []*V
	words map[*V][]*V
	errs  []*errRec
	ints  map[*V]*V
	pos   int // next line
	cur   *V
	ended []*CallRec // calls of Scan that returned false
}

// errRec is an error that a library function may have returned.
type errRec struct {
	err   *V
	guard *V
	pos   token.Pos
	name  string
}

func (w *W) textFile() *textFile {
	f := &textFile{w: w, words: map[*V][]*V{}, ints: map[*V]*V{}}
	str := types.Typ[types.String]
	strs := func(vs ...*V) *V { return w.slice(str, vs...) }
	errT := types.Universe.Lookup("error").Type()
	tuple := func(cr *CallRec, vs ...*V) *V {
		return w.g.mk(&V{K: KTuple, args: vs})
	}
	nerr := 0
	newErr := func(cr *CallRec, what string) *V {
		nerr++
		e := w.g.Sym(fmt.Sprintf("err%d:%s", nerr, what), errT)
		f.errs = append(f.errs, &errRec{e, cr.Guard, cr.Pos, cr.Name})
		return e
	}
	h := func(name string, g func(st *State, cr *CallRec) *V) {
		w.handlers[name] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			old := w.st
			w.st = st
			defer func() { w.st = old }()
			r := g(st, cr)
			return r, r != nil
		}
	}
	next := func() *V {
		if f.pos >= len(f.lines) {
			return nil
		}
		f.pos++
		f.cur = f.lines[f.pos-1]
		return f.cur
	}
	h("os.Open", func(st *State, cr *CallRec) *V {
		t := w.p.Func("imagef", "Load").Prog.ImportedPackage("os").Type("File").Type()
		p := w.newObj(st, "file", t, w.g.Sym("file", t))
		return tuple(cr, p, newErr(cr, "open"))
	})
	h("(*os.File).Close", func(st *State, cr *CallRec) *V { return w.g.Sym("closeError", errT) })
	h("bufio.NewReader", func(st *State, cr *CallRec) *V { return w.g.Sym("reader", types.NewPointer(types.NewStruct(nil, nil))) })
	w.handlers["bufio.NewScanner"] = w.handlers["bufio.NewReader"]
	w.handlers["bufio.NewReaderSize"] = w.handlers["bufio.NewReader"]
	h("(*bufio.Scanner).Buffer", func(st *State, cr *CallRec) *V { return w.g.mk(&V{K: KTuple, typ: types.NewTuple()}) })
	h("(*bufio.Scanner).Scan", func(st *State, cr *CallRec) *V {
		ok := next() != nil
		if !ok {
			f.ended = append(f.ended, cr)
		}
		return w.g.Bool(ok)
	})
	h("(*bufio.Scanner).Text", func(st *State, cr *CallRec) *V { return f.cur })
	h("(*bufio.Scanner).Err", func(st *State, cr *CallRec) *V { return newErr(cr, "scan") })
	h("(*bufio.Reader).ReadString", func(st *State, cr *CallRec) *V {
		l := next()
		if l == nil {
			return tuple(cr, w.g.Str(""), w.g.mk(&V{K: KIface, typ: types.Typ[types.Int], args: []*V{w.g.Int(1)}}))
		}
		if l.K == KStr {
			l = w.g.Str(l.name + "\n")
		}
		return tuple(cr, l, newErr(cr, "read"))
	})
	one := func(name string, g func(s string) string) {
		h(name, func(st *State, cr *CallRec) *V {
			if x := cr.Raw[0]; x.K == KStr {
				return w.g.Str(g(x.name))
			}
			return cr.Raw[0]
		})
	}
	one("strings.TrimSpace", strings.TrimSpace)
	one("strings.TrimRight", func(s string) string { return strings.TrimSpace(s) })
	pair := func(name string, g func(a, b string) *V) {
		h(name, func(st *State, cr *CallRec) *V {
			a, b := cr.Raw[0], cr.Raw[1]
			if a.K == KStr && b.K == KStr {
				return g(a.name, b.name)
			}
			return nil
		})
	}
	pair("strings.HasPrefix", func(a, b string) *V { return w.g.Bool(strings.HasPrefix(a, b)) })
	pair("strings.HasSuffix", func(a, b string) *V { return w.g.Bool(strings.HasSuffix(a, b)) })
	pair("strings.Contains", func(a, b string) *V { return w.g.Bool(strings.Contains(a, b)) })
	pair("strings.TrimPrefix", func(a, b string) *V { return w.g.Str(strings.TrimPrefix(a, b)) })
	pair("strings.TrimSuffix", func(a, b string) *V { return w.g.Str(strings.TrimSuffix(a, b)) })
	split := func(l []string) *V {
		var vs []*V
		for _, s := range l {
			vs = append(vs, w.g.Str(s))
		}
		return strs(vs...)
	}
	h("strings.Fields", func(st *State, cr *CallRec) *V {
		x := cr.Raw[0]
		if x.K == KStr {
			return split(strings.Fields(x.name))
		}
		if l, ok := f.words[x]; ok {
			return strs(l...)
		}
		return nil
	})
	h("strings.Split", func(st *State, cr *CallRec) *V {
		x, sep := cr.Raw[0], cr.Raw[1]
		if x.K == KStr && sep.K == KStr {
			return split(strings.Split(x.name, sep.name))
		}
		if sep.K == KStr && sep.name == "/" && x.K == KFn {
			return strs(w.g.Fn("part0", str, x), w.g.Fn("part1", str, x))
		}
		return nil
	})
	h("strings.Join", func(st *State, cr *CallRec) *V { return w.g.Sym("joined", str) })
	number := func(x *V, kind string, t types.Type) *V {
		if v, ok := f.ints[x]; ok {
			return v
		}
		return w.g.Fn(kind, t, x)
	}
	num := func(name, kind string, t types.Type) {
		h(name, func(st *State, cr *CallRec) *V {
			x := cr.Raw[0]
			if x.K == KStr {
				if n, err := strconv.Atoi(x.name); err == nil && kind == "int" {
					return tuple(cr, w.g.Int(n), w.g.Nil(errT))
				}
			}
			t := t
			if len(cr.Raw) == 3 && cr.Raw[2].K == KNum && cr.Raw[2].num == 32 && kind == "int" {
				t = types.Typ[types.Int32]
			}
			return tuple(cr, number(x, kind, t), newErr(cr, kind))
		})
	}
	num("strconv.Atoi", "int", types.Typ[types.Int])
	num("strconv.ParseInt", "int", types.Typ[types.Int])
	num("strconv.ParseFloat", "float", types.Typ[types.Float64])
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint"} {
		h(n, func(st *State, cr *CallRec) *V { return w.g.Sym("message", str) })
	}
	for _, n := range []string{"fmt.Errorf", "errors.New"} {
		h(n, func(st *State, cr *CallRec) *V {
			return w.g.mk(&V{K: KIface, typ: types.Typ[types.String], args: []*V{w.g.Str("error")}})
		})
	}
	return f
}

// text adds a constant line.
func (f *textFile) text(s string) { f.lines = append(f.lines, f.w.g.Str(s)) }

// line adds a line with n words; those that are not given are unknown.
func (f *textFile) line(name string, n int, first ...string) []*V {
	str := types.Typ[types.String]
	l := f.w.g.Sym(name, str)
	var ws []*V
	for i := 0; i < n; i++ {
		if i < len(first) {
			ws = append(ws, f.w.g.Str(first[i]))
		} else {
			ws = append(ws, f.w.g.Sym(fmt.Sprintf("%s.%d", name, i), str))
		}
	}
	f.words[l] = ws
	f.lines = append(f.lines, l)
	return ws
}

// accepted skips the cases in which parsing ends with a panic.
func (f *textFile) accepted(c *Case) {
	w := f.w
	for _, p := range w.Panics {
		if c.Bool(p.Guard) {
			c.Skip()
		}
	}
	for _, x := range w.Idx {
		if c.Bool(x.Guard) {
			if !c.Bool(w.le(w.num(0), x.Idx)) || !c.Bool(w.lt(x.Idx, x.Len)) {
				c.Skip()
			}
		}
	}
}

// noErrors requires all errors to have been nil.
func (f *textFile) noErrors(c *Case) bool {
	w := f.w
	for _, e := range f.errs {
		if c.Bool(e.guard) && !c.Bool(w.g.Cmp("==", e.err, w.g.Nil(e.err.typ))) {
			c.Fail("%s: the error of %s is ignored: the file is accepted", w.p.Pos(e.pos), short(e.name))
			return false
		}
	}
	for _, e := range f.ended {
		if !c.Bool(e.Guard) {
			continue
		}
		asked := false
		for _, x := range f.errs {
			if strings.HasSuffix(x.name, ".Err") && c.Bool(x.guard) {
				asked = true
			}
		}
		if !asked {
			c.Fail("%s: the file is accepted without asking the scanner for an error: a read error would pass for the end of the file", w.p.Pos(e.Pos))
			return false
		}
	}
	return true
}

func (f *textFile) float(x *V) *V { return f.w.g.Fn("float", types.Typ[types.Float64], x) }
func (f *textFile) int(x *V) *V   { return f.w.g.Fn("int", types.Typ[types.Int], x) }

// vertices compares vertices with the words of lines.
func (f *textFile) vertices(c *Case, got *V, lines [][]*V, skip int) {
	w := f.w
	vs := w.elems(c.Resolve(got))
	if len(vs) != len(lines) {
		c.Fail("%d vertices instead of %d", len(vs), len(lines))
		return
	}
	for i, v := range vs {
		for k := 0; k < 3; k++ {
			c.Expect(fmt.Sprintf("coordinate %d of vertex %d", k, i), c.Resolve(v).args[k], f.float(lines[i][k+skip]))
		}
	}
}

// tri is a triangle given by three vertex numbers.
type tri [3]*V

func (w *W) sameTri(c *Case, a, b tri) bool {
	for r := 0; r < 3; r++ {
		if c.Eq(a[0], b[r]) && c.Eq(a[1], b[(r+1)%3]) && c.Eq(a[2], b[(r+2)%3]) {
			return true
		}
	}
	return false
}

// polygon requires triangles to cover a triangle or quad, with its orientation.
func (w *W) polygon(c *Case, what string, ts []tri, p []*V) {
	if len(ts) != len(p)-2 {
		c.Fail("%s: %d triangles for %d vertices", what, len(ts), len(p))
		return
	}
	if len(p) == 3 {
		if !w.sameTri(c, ts[0], tri{p[0], p[1], p[2]}) {
			c.Fail("%s is (%s, %s, %s) instead of (%s, %s, %s)", what, c.Show(ts[0][0]), c.Show(ts[0][1]), c.Show(ts[0][2]), c.Show(p[0]), c.Show(p[1]), c.Show(p[2]))
		}
		return
	}
	for _, d := range [][2]tri{{{p[0], p[1], p[2]}, {p[2], p[3], p[0]}}, {{p[0], p[1], p[3]}, {p[1], p[2], p[3]}}} {
		if w.sameTri(c, ts[0], d[0]) && w.sameTri(c, ts[1], d[1]) || w.sameTri(c, ts[0], d[1]) && w.sameTri(c, ts[1], d[0]) {
			return
		}
	}
	c.Fail("%s: the triangles (%s, %s, %s) and (%s, %s, %s) do not cover the quad", what, c.Show(ts[0][0]), c.Show(ts[0][1]), c.Show(ts[0][2]), c.Show(ts[1][0]), c.Show(ts[1][1]), c.Show(ts[1][2]))
}

func (w *W) asTri(c *Case, v *V) tri {
	v = c.Resolve(v)
	if v.K == KAgg && len(v.args) == 3 {
		return tri{v.args[0], v.args[1], v.args[2]}
	}
	if v.K == KSlice {
		e := w.elems(v)
		if len(e) == 3 {
			return tri{e[0], e[1], e[2]}
		}
	}
	panic(undecided("face " + v.String()))
}

type plyCase struct {
	name  string
	nv    int   // in the header
	words []int // of the vertex lines
	faces []int // words of the face lines
	nf    int   // in the header
	ok    bool  // may be accepted
	swap  bool
}

// faceCounts returns numbers of vertices for n faces: all combinations of 3 and
// 4, and one face with another number.
func faceCounts(n int) [][]int {
	if n == 0 {
		return nil
	}
	var l [][]int
	for m := 0; m < 1<<uint(n); m++ {
		c := make([]int, n)
		for i := range c {
			c[i] = 3 + m>>uint(i)&1
		}
		l = append(l, c)
	}
	for i := 0; i < n; i++ {
		for _, k := range []int{-3, -1, 0, 1, 2, 5, 6, 7, 8, 100} {
			c := make([]int, n)
			for j := range c {
				c[j] = 3
			}
			c[i] = k
			l = append(l, c)
		}
	}
	return l
}

func checkC20(r *R) {
	for _, pc := range []plyCase{
		{"two faces", 4, []int{3, 3, 3, 3}, []int{5, 5}, 2, true, false},
		{"faces first in the header, more words", 2, []int{5, 6}, []int{7}, 1, true, true},
		{"more faces than vertices", 1, []int{3}, []int{5, 4, 5}, 3, true, false},
		{"no faces", 1, []int{3}, nil, 0, true, false},
		{"short vertex line", 2, []int{3, 2}, []int{5}, 1, false, false},
		{"empty vertex line", 2, []int{3, 0}, []int{5}, 1, false, false},
		{"face of three words", 2, []int{3, 3}, []int{3}, 1, false, false},
		{"empty face line", 2, []int{3, 3}, []int{0}, 1, false, false},
		{"missing face", 2, []int{3, 3}, []int{5}, 2, false, false},
		{"missing vertex", 3, []int{3, 3}, nil, 0, false, false},
		{"negative vertex count", -1, nil, nil, 0, false, false},
		{"negative face count", 0, nil, nil, -1, false, false},
	} {
		pc := pc
		plyRule := func(w *W, counts []int) {
			f := w.textFile()
			f.text("ply")
			f.text("format ascii 1.0")
			f.text("comment made by hand")
			ev, ef := fmt.Sprintf("element vertex %d", pc.nv), fmt.Sprintf("element face %d", pc.nf)
			if pc.swap {
				ev, ef = ef, ev
			}
			f.text(ev)
			f.text("property float x")
			f.text(ef)
			f.text("property list uchar int vertex_indices")
			f.text("end_header")
			var vl, fl [][]*V
			for i, n := range pc.words {
				vl = append(vl, f.line(fmt.Sprintf("v%d", i), n))
			}
			for i, n := range pc.faces {
				fl = append(fl, f.line(fmt.Sprintf("f%d", i), n))
			}
			ok := pc.ok
			for i, n := range counts {
				if len(fl[i]) > 0 {
					f.ints[fl[i][0]] = w.num(float64(n))
				}
				ok = ok && (n == 3 || n == 4) && n < len(fl[i])
			}
			fn := w.p.Func("tracer/objects/ply", "Parse")
			w.at(fn)
			res, out := w.exec(fn, w.st, []*V{w.g.Sym("reader", fn.Params[0].Type())}, nil)
			if out == nil {
				w.oblige(1)
				if ok {
					w.fail("no file is accepted")
				}
				return
			}
			w.st.mem = out.mem
			n := 0
			w.obl++
			cr := ForAllCases(w.n, func(c *Case) {
				f.accepted(c)
				e := res.args[2]
				if !c.Bool(w.g.Cmp("==", e, w.g.Nil(e.typ))) {
					c.Skip()
				}
				if !pc.ok {
					c.Fail("a file with %s is accepted", pc.name)
					return
				}
				n++
				if !f.noErrors(c) {
					return
				}
				f.vertices(c, res.args[0], vl, 0)
				fs := w.elems(c.Resolve(res.args[1]))
				for i, l := range fl {
					cnt, known := f.ints[l[0]]
					if !known {
						cnt = f.int(l[0])
					}
					var k int
					switch {
					case c.Bool(w.g.Cmp("==", cnt, w.num(3))):
						k = 3
					case c.Bool(w.g.Cmp("==", cnt, w.num(4))):
						k = 4
					default:
						c.Fail("a face with another number of vertices than 3 or 4 is accepted")
						return
					}
					var p []*V
					if k >= len(l) {
						c.Fail("face %d is accepted, while vertices are missing", i)
						return
					}
					for j := 1; j <= k; j++ {
						p = append(p, f.int(l[j]))
					}
					if len(fs) < k-2 {
						c.Fail("face %d is missing", i)
						return
					}
					var ts []tri
					for _, t := range fs[:k-2] {
						ts = append(ts, w.asTri(c, t))
					}
					fs = fs[k-2:]
					w.polygon(c, fmt.Sprintf("face %d", i), ts, p)
					for _, t := range ts {
						for _, x := range t {
							if !c.Bool(w.le(w.num(0), x)) || !c.Bool(w.lt(x, w.g.Int(pc.nv))) {
								c.Fail("face %d refers to vertex %s, while there are %d", i, c.Show(x), pc.nv)
								return
							}
						}
					}
				}
				if len(fs) > 0 {
					c.Fail("%d faces too many", len(fs))
				}
			})
			w.cases += cr.Cases
			for _, x := range cr.Fails {
				w.fail("%s", x)
				break
			}
			if cr.Und != "" {
				w.fail("could not be established: %s", cr.Und)
			}
			if ok && n == 0 && len(cr.Fails) == 0 && cr.Und == "" {
				w.fail("no file is accepted")
			}
		}
		var alt []func(w *W)
		for _, counts := range faceCounts(len(pc.faces)) {
			counts := counts
			alt = append(alt, func(w *W) { plyRule(w, counts) })
		}
		r.RuleOr("ply: "+pc.name, "", func(w *W) { plyRule(w, nil) }, alt)
	}
	type objLine struct {
		cmd string
		n   int
		mat string
	}
	for _, oc := range []struct {
		name  string
		lines []objLine
		ok    bool
	}{
		{"triangles and quads", []objLine{{"v", 3, ""}, {"#", 2, ""}, {"v", 4, ""}, {"f", 3, ""}, {"v", 3, ""}, {"f", 4, ""}}, true},
		{"two materials", []objLine{{"v", 3, ""}, {"", 0, ""}, {"v", 3, ""}, {"usemtl", 1, "a"}, {"f", 3, ""}, {"usemtl", 1, "b"}, {"f", 4, ""}, {"usemtl", 1, "a"}, {"f", 3, ""}}, true},
		{"other commands", []objLine{{"mtllib", 1, ""}, {"o", 1, ""}, {"v", 3, ""}, {"vn", 3, ""}, {"vt", 2, ""}, {"s", 1, ""}, {"g", 1, ""}, {"l", 2, ""}, {"f", 3, ""}}, true},
		{"a vertex with two coordinates", []objLine{{"v", 3, ""}, {"v", 2, ""}}, false},
		{"a vertex with five coordinates", []objLine{{"v", 5, ""}}, false},
		{"a face with two vertices", []objLine{{"v", 3, ""}, {"f", 2, ""}}, false},
		{"a face with five vertices", []objLine{{"v", 3, ""}, {"f", 5, ""}}, false},
		{"a face without vertices", []objLine{{"v", 3, ""}, {"f", 0, ""}}, false},
		{"no material name", []objLine{{"v", 3, ""}, {"usemtl", 0, ""}}, false},
		{"an unknown command", []objLine{{"v", 3, ""}, {"nonsense", 1, ""}}, false},
	} {
		oc := oc
		r.Rule("obj: "+oc.name, "", func(w *W) {
			f := w.textFile()
			var vl [][]*V
			type want struct {
				mat string
				l   []*V
			}
			var fl []want
			mat := ""
			for i, l := range oc.lines {
				if l.cmd == "" {
					f.text("")
					continue
				}
				first := []string{l.cmd}
				if l.mat != "" {
					first = append(first, l.mat)
					mat = l.mat
				}
				ws := f.line(fmt.Sprintf("line%d", i), l.n+1, first...)
				switch l.cmd {
				case "v":
					vl = append(vl, ws)
				case "f":
					fl = append(fl, want{mat, ws})
				}
			}
			fn := w.p.Func("tracer/objects/obj", "ParseFile")
			w.at(fn)
			res, out := w.exec(fn, w.st, []*V{w.g.Sym("fname", types.Typ[types.String])}, nil)
			if out == nil {
				w.oblige(1)
				if oc.ok {
					w.fail("no file is accepted")
				}
				return
			}
			w.st.mem = out.mem
			n := 0
			w.obl++
			t := w.p.Type("tracer/objects/obj", "Obj")
			cr := ForAllCases(w.n, func(c *Case) {
				f.accepted(c)
				e := res.args[1]
				if !c.Bool(w.g.Cmp("==", e, w.g.Nil(e.typ))) {
					c.Skip()
				}
				if !oc.ok {
					c.Fail("a file with %s is accepted", oc.name)
					return
				}
				n++
				if !f.noErrors(c) {
					return
				}
				o := c.Resolve(res.args[0])
				f.vertices(c, w.field(o, t, "Vertices"), vl, 1)
				m := c.Resolve(w.field(o, t, "Faces"))
				seen := map[string]int{}
				for i, x := range fl {
					fs := w.elems(c.Resolve(w.mapGet(m, w.g.Str(x.mat), types.NewSlice(types.NewSlice(types.Typ[types.Int32])))))
					k := seen[x.mat]
					seen[x.mat]++
					if k >= len(fs) {
						c.Fail("face %d of material %q is missing", k, x.mat)
						return
					}
					idx := w.elems(c.Resolve(fs[k]))
					if len(idx) != len(x.l)-1 {
						c.Fail("face %d has %d vertices instead of %d", i, len(idx), len(x.l)-1)
						return
					}
					for j := range idx {
						word := w.g.Fn("part0", types.Typ[types.String], x.l[j+1])
						got := c.Resolve(idx[j])
						if !c.Expect(fmt.Sprintf("index %d of face %d", j, i), got, w.sub(f.int(word), w.num(1))) {
							return
						}
						if !c.Bool(w.le(w.num(0), got)) || !c.Bool(w.lt(got, w.g.Int(len(vl)))) {
							c.Fail("face %d refers to vertex %s, while there are %d", i, c.Show(got), len(vl))
							return
						}
					}
				}
				for mt, k := range seen {
					if fs := w.elems(c.Resolve(w.mapGet(m, w.g.Str(mt), types.NewSlice(types.NewSlice(types.Typ[types.Int32]))))); len(fs) != k {
						c.Fail("material %q has %d faces instead of %d", mt, len(fs), k)
					}
				}
			})
			w.cases += cr.Cases
			for _, x := range cr.Fails {
				w.fail("%s", x)
				break
			}
			if cr.Und != "" {
				w.fail("could not be established: %s", cr.Und)
			}
			if oc.ok && n == 0 && len(cr.Fails) == 0 && cr.Und == "" {
				w.fail("no file is accepted")
			}
		})
	}
	r.Rule("panics become errors", "", func(w *W) { w.recovered("tracer/objects/ply", "tracer/objects/obj") })
	r.Rule("allocation sizes", "", func(w *W) { w.allocSizes("tracer/objects/ply", "tracer/objects/obj") })
	r.Rule("faces of an obj file", "", func(w *W) { w.objMesh() })
}

// objMesh checks how the faces of an obj file are made into triangles.
func (w *W) objMesh() {
	str := types.Typ[types.String]
	errT := types.Universe.Lookup("error").Type()
	i32 := types.Typ[types.Int32]
	vec := w.vecT()
	ot := w.p.Type("tracer/objects/obj", "Obj")
	var vs []*V
	for i := 0; i < 4; i++ {
		vs = append(vs, w.vec(fmt.Sprintf("p%d", i)))
	}
	idx := func(name string, n int) (s *V, l []*V) {
		for i := 0; i < n; i++ {
			l = append(l, w.g.Sym(fmt.Sprintf("%s%d", name, i), i32))
		}
		return w.slice(i32, l...), l
	}
	a, al := idx("a", 3)
	b, bl := idx("b", 4)
	d, dl := idx("d", 3)
	ft := types.NewSlice(types.NewSlice(i32))
	m := w.newMap(types.NewMap(str, ft))
	w.mapSet(m, w.g.Str("stone"), w.slice(types.NewSlice(i32), a, b))
	w.mapSet(m, w.g.Str(""), w.slice(types.NewSlice(i32), d))
	o := w.sym("obj", ot)
	verts := w.slice(vec, vs...)
	o = w.setField(o, ot, "Vertices", verts)
	o = w.setField(o, ot, "Faces", m)
	w.handlers[mod+"tracer/objects/obj.ParseFile"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		return w.g.mk(&V{K: KTuple, args: []*V{o, w.g.Nil(errT)}}), true
	}
	type meshCall struct{ mat, v, f *V }
	var calls []meshCall
	mesh := func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		calls = append(calls, meshCall{cr.Raw[0], cr.Raw[1], cr.Raw[2]})
		w.st.mem = st.mem
		return w.foreign(fmt.Sprintf("mesh%d", len(calls))).v, true
	}
	w.handlers[mod+"tracer/objects.Mesh"] = mesh
	w.handlers[mod+"tracer/objects.MeshWithUV"] = mesh
	var parts *V
	w.handlers[mod+"tracer/objects.Tree"] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
		parts = cr.Raw[0]
		w.st.mem = st.mem
		return w.foreign("tree").v, true
	}
	fn := w.p.Func("tracer/objects", "ObjFile")
	mt := fn.Params[0].Type()
	mats := w.newMap(mt)
	ms, mn := w.g.Sym("stoneMat", elemOf2(mt)), w.g.Sym("noMat", elemOf2(mt))
	w.mapSet(mats, w.g.Str("stone"), ms)
	w.mapSet(mats, w.g.Str(""), mn)
	w.at(fn)
	w.callF(fn, mats, w.g.Sym("file", str), w.g.Nil(fn.Params[2].Type()))
	want := map[*V][][]*V{ms: {al, bl}, mn: {dl}}
	w.All(func(c *Case) {
		if parts == nil || len(w.elems(parts)) != len(calls) || len(calls) != 2 {
			c.Fail("%d meshes instead of 2", len(calls))
			return
		}
		for i, cl := range calls {
			pol, ok := want[cl.mat]
			if !ok {
				c.Fail("mesh %d has the material %s", i, c.Show(cl.mat))
				return
			}
			delete(want, cl.mat)
			w.sameElems(c, "vertices", cl.v, verts)
			fs := w.elems(c.Resolve(cl.f))
			for k, p := range pol {
				if len(fs) < len(p)-2 {
					c.Fail("face %d is missing", k)
					return
				}
				var ts []tri
				for _, t := range fs[:len(p)-2] {
					ts = append(ts, w.asTri(c, t))
				}
				fs = fs[len(p)-2:]
				w.polygon(c, fmt.Sprintf("face %d of mesh %d", k, i), ts, p)
			}
			if len(fs) > 0 {
				c.Fail("%d faces too many", len(fs))
			}
		}
	})
}

func elemOf2(t types.Type) types.Type { return t.Underlying().(*types.Map).Elem() }

// mayPanic reports whether a function of the module may panic, other than by
// what library functions do.
func mayPanic(p *Prog, f *ssa.Function, seen map[*ssa.Function]bool) (why ssa.Instruction) {
	if seen[f] || !p.inModule(f) {
		return nil
	}
	seen[f] = true
	if recovers(f) {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Panic, *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.MapUpdate, *ssa.MakeSlice:
				return in
			case *ssa.TypeAssert:
				if !x.CommaOk {
					return in
				}
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil {
					if w := mayPanic(p, g, seen); w != nil {
						return w
					}
				} else if _, ok := x.Common().Value.(*ssa.Builtin); !ok && !x.Common().IsInvoke() {
					return in
				}
			}
		}
	}
	return nil
}

// recovers reports whether a function starts by deferring a function that recovers.
func recovers(f *ssa.Function) bool { return recoverer(f) != nil }

func recoverer(f *ssa.Function) *ssa.Defer {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			g := d.Call.StaticCallee()
			if g == nil {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
							return d
						}
					}
				}
			}
		}
	}
	return nil
}

// panicTypes lists the types of the values a function may panic with.
func panicTypes(p *Prog, f *ssa.Function, seen map[*ssa.Function]bool, out map[string]types.Type) {
	if seen[f] || !p.inModule(f) {
		return
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Panic:
				t := in.X.Type()
				switch x := in.X.(type) {
				case *ssa.MakeInterface:
					t = x.X.Type()
				case *ssa.ChangeInterface:
					t = x.X.Type()
				}
				out[t.String()] = t
			case ssa.CallInstruction:
				if g := in.Common().StaticCallee(); g != nil {
					panicTypes(p, g, seen, out)
				}
			}
		}
	}
}

// recovered checks that exported functions turn panics into errors.
func (w *W) recovered(pkgs ...string) {
	errT := types.Universe.Lookup("error").Type()
	for _, path := range pkgs {
		pkg := w.p.Pkg(path)
		n := 0
		for _, f := range w.p.funcs {
			if fnPkg(f) != pkg.Pkg || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() {
				continue
			}
			rs := f.Signature.Results()
			if rs.Len() == 0 || !types.Identical(rs.At(rs.Len()-1).Type(), errT) {
				continue
			}
			n++
			w.oblige(1)
			w.at(f)
			d := recoverer(f)
			if d == nil {
				if in := mayPanic(w.p, f, map[*ssa.Function]bool{}); in != nil {
					w.fail("%s may panic (%s in %s) and does not recover", f.Name(), w.p.Pos(in.Pos()), in.Parent().Name())
				}
				continue
			}
			// everything that may panic comes after the defer statement
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if in == ssa.Instruction(d) {
						continue
					}
					risky := false
					switch x := in.(type) {
					case *ssa.Panic, *ssa.IndexAddr, *ssa.Slice, *ssa.MapUpdate:
						risky = true
					case *ssa.Call:
						if g := x.Call.StaticCallee(); g != nil {
							risky = mayPanic(w.p, g, map[*ssa.Function]bool{}) != nil
						} else if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
							risky = true
						}
					}
					if risky && !passes(f, nil, in, func(i ssa.Instruction) bool { return i == ssa.Instruction(d) }) {
						w.fail("%s may panic at %s before it defers recovering", f.Name(), w.p.Pos(in.Pos()))
					}
				}
			}
			// what the deferred function does with a recovered value
			ts := map[string]types.Type{"runtime.Error": types.Typ[types.Int]}
			panicTypes(w.p, f, map[*ssa.Function]bool{}, ts)
			for name, t := range ts {
				w.oblige(1)
				q := w.fresh()
				q.at(f)
				q.recoveredValue(f, d, name, t)
			}
		}
		if n == 0 {
			panic(anchorErr("no parser in " + path))
		}
	}
}

// recoveredValue evaluates the deferred function for a recovered value.
func (w *W) recoveredValue(f *ssa.Function, d *ssa.Defer, name string, t types.Type) {
	g := d.Call.StaticCallee()
	isErr := name == "runtime.Error" || types.Implements(t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface))
	rec := w.g.mk(&V{K: KIface, typ: t, args: []*V{w.sym("recovered", t)}})
	if isErr {
		// any type that implements error
		et := w.p.ssa.ImportedPackage("errors")
		if et == nil || et.Type("errorString") == nil {
			panic(undecided("no error type"))
		}
		pt := types.NewPointer(et.Type("errorString").Type())
		rec = w.g.mk(&V{K: KIface, typ: pt, args: []*V{w.g.Sym("recovered", pt)}})
	}
	w.Recovered = rec
	defer func() { w.Recovered = nil }()
	for _, n := range []string{"fmt.Errorf", "errors.New"} {
		w.handlers[n] = func(it *Interp, st *State, cr *CallRec) (*V, bool) {
			return w.g.mk(&V{K: KIface, typ: types.Typ[types.String], args: []*V{w.g.Str("error")}}), true
		}
	}
	mc, ok := d.Call.Value.(*ssa.MakeClosure)
	var args, bind []*V
	var cell *V
	mk := func(v ssa.Value) *V {
		pt, ok := v.Type().Underlying().(*types.Pointer)
		if !ok {
			return w.sym("bound", v.Type())
		}
		init := w.sym("before", pt.Elem())
		if types.Identical(pt.Elem(), types.Universe.Lookup("error").Type()) {
			init = w.g.Nil(pt.Elem())
		}
		p := w.newObj(w.st, "result", pt.Elem(), init)
		if types.Identical(pt.Elem(), types.Universe.Lookup("error").Type()) && isResult(f, v) {
			cell = p
		}
		return p
	}
	if ok {
		for _, b := range mc.Bindings {
			bind = append(bind, mk(b))
		}
	}
	for _, a := range d.Call.Args {
		args = append(args, mk(a))
	}
	if cell == nil {
		w.fail("the error result of %s is not set when it recovers", f.Name())
		return
	}
	_, out := w.exec(g, w.st, args, bind)
	if out == nil {
		w.fail("%s panics again for a recovered %s", f.Name(), name)
		return
	}
	e := w.load(out, cell, types.Universe.Lookup("error").Type())
	w.All(func(c *Case) {
		if c.Bool(w.g.Cmp("==", e, w.g.Nil(e.typ))) {
			c.Fail("%s returns no error after a panic with a value of type %s", f.Name(), name)
		}
	})
}

// isResult reports whether a variable is loaded to be returned as last result.
func isResult(f *ssa.Function, v ssa.Value) bool {
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
			if u, ok := r.Results[len(r.Results)-1].(*ssa.UnOp); ok && u.X == v {
				return true
			}
		}
	}
	// the block that is entered after recovering
	if f.Recover != nil {
		if r, ok := f.Recover.Instrs[len(f.Recover.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
			if u, ok := r.Results[len(r.Results)-1].(*ssa.UnOp); ok && u.X == v {
				return true
			}
		}
	}
	return false
}

// allocSizes checks that no allocation depends on numbers of the file.
func (w *W) allocSizes(pkgs ...string) {
	for _, path := range pkgs {
		pkg := w.p.Pkg(path)
		for _, f := range w.p.funcs {
			if fnPkg(f) != pkg.Pkg {
				continue
			}
			w.Inlined[f]++
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					w.allocAt = b
					switch in := in.(type) {
					case *ssa.MakeSlice:
						w.oblige(1)
						for _, v := range []ssa.Value{in.Len, in.Cap} {
							if why := w.unbounded(v, map[ssa.Value]bool{}); why != "" {
								w.where = w.p.Pos(in.Pos()) + " " + f.String()
								w.fail("memory is allocated for a number of elements that the file only claims to have (%s)", why)
								break
							}
						}
					case *ssa.MakeMap:
						if in.Reserve != nil {
							if why := w.unbounded(in.Reserve, map[ssa.Value]bool{}); why != "" {
								w.fail("memory is allocated for a number of elements that the file only claims to have (%s)", why)
							}
						}
					}
				}
			}
		}
	}
	w.oblige(1)
}

// limited reports whether a block is entered only after a comparison that
// limits a number to a constant.
func (w *W) limited(v ssa.Value, at *ssa.BasicBlock) bool {
	if at == nil || v.Parent() != at.Parent() {
		return false
	}
	start := v.Parent().Blocks[0]
	if in, ok := v.(ssa.Instruction); ok {
		start = in.Block()
	}
	small := func(x ssa.Value) bool {
		k, ok := x.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return false
		}
		n, exact := constant.Int64Val(k.Value)
		return exact && n <= 1<<20
	}
	// side is the successor on which the number is limited, or -1
	side := func(b *ssa.BasicBlock) int {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			return -1
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			return -1
		}
		op := c.Op
		switch {
		case c.X == v && small(c.Y):
		case c.Y == v && small(c.X):
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		default:
			return -1
		}
		switch op {
		case token.EQL, token.LSS, token.LEQ:
			return 0
		case token.NEQ, token.GTR, token.GEQ:
			return 1
		}
		return -1
	}
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(b *ssa.BasicBlock) bool
	reach = func(b *ssa.BasicBlock) bool {
		if b == at {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		if b != at && neverReturns(b, 0) {
			return false
		}
		k := side(b)
		for i, q := range b.Succs {
			if i != k && reach(q) {
				return true
			}
		}
		return false
	}
	return !reach(start)
}

// unbounded tells why a number is not limited by the size of existing data.
func (w *W) unbounded(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	if w.limited(v, w.allocAt) {
		return ""
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Int {
			return ""
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if s := w.unbounded(e, seen); s != "" {
				return s
			}
		}
		return ""
	case *ssa.BinOp:
		if s := w.unbounded(v.X, seen); s != "" {
			return s
		}
		return w.unbounded(v.Y, seen)
	case *ssa.Convert:
		return w.unbounded(v.X, seen)
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "len", "cap":
				return ""
			case "min":
				for _, a := range v.Call.Args {
					if w.unbounded(a, map[ssa.Value]bool{}) == "" {
						return ""
					}
				}
			}
		}
		if f := v.Call.StaticCallee(); f != nil && w.p.inModule(f) {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
					if s := w.unbounded(r.Results[0], seen); s != "" {
						return s
					}
				}
			}
			return ""
		}
		return "a result of " + v.Call.Value.Name()
	case *ssa.Extract:
		return "a result of " + v.Tuple.Name() + " at " + w.p.Pos(v.Tuple.Pos())
	case *ssa.Parameter:
		f := v.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == v {
				idx = i
			}
		}
		for _, g := range w.p.funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f && idx < len(c.Common().Args) {
						if s := w.unbounded(c.Common().Args[idx], seen); s != "" {
							return s
						}
					}
				}
			}
		}
		return ""
	}
	return fmt.Sprintf("%s at %s", v.Name(), w.p.Pos(v.Pos()))
}
