package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file decides which memory a function writes to: memory that was
// allocated by the goroutine itself ("owned"), or memory that existed before.
// The analysis is flow- and context-insensitive over SSA, with a class-hierarchy
// call graph, and field-based for pointers loaded from owned memory.

type callSite struct {
	in   ssa.CallInstruction
	args []ssa.Value // including the receiver
}

type owner struct {
	p       *Prog
	roots   map[*ssa.Function]bool
	reach   map[*ssa.Function]bool
	via     map[*ssa.Function]ssa.CallInstruction
	sites   map[*ssa.Function][]callSite
	taken   []*ssa.Function // functions used as values
	named   []types.Type
	closers map[*ssa.Function][]*ssa.MakeClosure
	fields  map[string][]ssa.Value // values stored to struct fields
	copies  []ssa.Value            // structs stored as a whole
	elemsOf map[string][]ssa.Value
	memo    map[interface{}]string
	busy    map[interface{}]bool
	reads   bool
	stdlib  map[string]bool
	lib     map[*ssa.Function]bool // whether a package is in scope
}

// inScope tells packages that belong to the renderer from programs.
func inScope(f *ssa.Function) bool {
	q := fnPkg(f)
	if q == nil {
		return false
	}
	s := strings.TrimPrefix(strings.TrimPrefix(q.Path(), modPath), "/")
	return q.Path() != s && !strings.HasPrefix(s, "cmd/") && !strings.HasPrefix(s, "examples/") && !strings.HasPrefix(s, "trash") && s != "tracer/test"
}

func newOwner(p *Prog, roots ...*ssa.Function) *owner {
	o := &owner{p: p, roots: map[*ssa.Function]bool{}, reach: map[*ssa.Function]bool{}, via: map[*ssa.Function]ssa.CallInstruction{}, sites: map[*ssa.Function][]callSite{}, closers: map[*ssa.Function][]*ssa.MakeClosure{}, fields: map[string][]ssa.Value{}, elemsOf: map[string][]ssa.Value{}, memo: map[interface{}]string{}, stdlib: map[string]bool{}}
	seen := map[types.Type]bool{}
	for _, q := range p.pkgs {
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if t, ok := tn.Type().(*types.Named); ok && t.TypeParams().Len() == 0 && !seen[t] {
					seen[t] = true
					o.named = append(o.named, t, types.NewPointer(t))
				}
			}
		}
	}
	tk := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if !inScope(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					fn := mc.Fn.(*ssa.Function)
					o.closers[fn] = append(o.closers[fn], mc)
					if !onlyCalled(mc) {
						tk[fn] = true
					}
					continue
				}
				for _, op := range in.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok && *op != callee {
						tk[fn] = true
					} else if ok && in.(ssa.CallInstruction).Common().Value == fn {
						// also as an argument?
						for _, a := range in.(ssa.CallInstruction).Common().Args {
							if a == ssa.Value(fn) {
								tk[fn] = true
							}
						}
					}
				}
			}
		}
	}
	for f := range tk {
		o.taken = append(o.taken, f)
	}
	sort.Slice(o.taken, func(i, j int) bool { return o.taken[i].String() < o.taken[j].String() })
	for _, r := range roots {
		o.roots[r] = true
		o.visit(r)
	}
	return o
}

// onlyCalled reports whether a closure is only called directly.
func onlyCalled(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		c, ok := r.(ssa.CallInstruction)
		if !ok || c.Common().Value != ssa.Value(mc) {
			return false
		}
		for _, a := range c.Common().Args {
			if a == ssa.Value(mc) {
				return false
			}
		}
	}
	return true
}

// callees lists the functions a call may reach; unknown is a description of
// what can not be resolved.
func (o *owner) callees(c ssa.CallInstruction) (fs []*ssa.Function, unknown string) {
	cc := c.Common()
	if cc.IsInvoke() {
		it := cc.Value.Type().Underlying().(*types.Interface)
		for _, t := range o.named {
			if types.IsInterface(t) || !types.Implements(t, it) {
				continue
			}
			// methods of T are in the set of *T as well
			f := o.p.ssa.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
			if f != nil && inScope(f) {
				fs = append(fs, f)
			}
		}
		return fs, cc.Method.FullName()
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		return nil, ""
	case *ssa.Function:
		return []*ssa.Function{v}, ""
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}, ""
	}
	sig := cc.Value.Type().Underlying().(*types.Signature)
	for _, f := range o.taken {
		s := f.Signature
		if types.Identical(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
			fs = append(fs, f)
		}
	}
	return fs, "function value"
}

func (o *owner) visit(f *ssa.Function) {
	if o.reach[f] {
		return
	}
	o.reach[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				o.record(in)
			case *ssa.MapUpdate:
				k := in.Map.Type().String()
				o.elemsOf[k] = append(o.elemsOf[k], in.Value)
			case ssa.CallInstruction:
				cc := in.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" && len(cc.Args) == 2 {
						k := cc.Args[0].Type().Underlying().String()
						o.elemsOf[k] = append(o.elemsOf[k], cc.Args[1])
					}
					continue
				}
				fs, _ := o.callees(in)
				for _, g := range fs {
					args := cc.Args
					if cc.IsInvoke() {
						args = append([]ssa.Value{cc.Value}, cc.Args...)
					}
					o.sites[g] = append(o.sites[g], callSite{in, args})
					if (o.p.inModule(g) || isWrapper(g)) && g.Blocks != nil {
						if _, ok := o.via[g]; !ok && !o.reach[g] {
							o.via[g] = in
						}
						o.visit(g)
					}
				}
			}
		}
	}
}

func (o *owner) record(s *ssa.Store) {
	switch a := s.Addr.(type) {
	case *ssa.FieldAddr:
		k := fieldKey(a.X.Type(), a.Field)
		o.fields[k] = append(o.fields[k], s.Val)
	case *ssa.IndexAddr:
		k := elemKey(a.X.Type())
		o.elemsOf[k] = append(o.elemsOf[k], s.Val)
	default:
		k := "cell:" + s.Val.Type().String()
		o.elemsOf[k] = append(o.elemsOf[k], s.Val)
	}
	if _, ok := s.Val.Type().Underlying().(*types.Struct); ok {
		o.copies = append(o.copies, s.Val)
	}
}

func fieldKey(pt types.Type, f int) string {
	t := pt
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return fmt.Sprintf("%s.%d", t, f)
}
func elemKey(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		return types.NewSlice(u.Elem()).String()
	}
	return t.Underlying().String()
}

// refs reports whether a type contains references.
func refs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return refs(u.Elem())
	case *types.Tuple:
		return true
	}
	return true
}

// own returns "" if a reference denotes memory allocated by the goroutine, or
// else where it comes from.
func (o *owner) own(v ssa.Value) string {
	return o.node(v, func() string { return o.own1(v) })
}

// node searches the graph of references depth first: a reference is owned if
// nothing else can be reached from it.
func (o *owner) node(k interface{}, f func() string) string {
	if s, ok := o.memo[k]; ok {
		return s
	}
	top := o.busy == nil
	if top {
		o.busy = map[interface{}]bool{}
		defer func() { o.busy = nil }()
	}
	if o.busy[k] {
		return ""
	}
	o.busy[k] = true
	s := f()
	if s != "" {
		o.memo[k] = s
	} else if top {
		for k := range o.busy {
			o.memo[k] = ""
		}
	}
	return s
}

func (o *owner) all(vs ...ssa.Value) string {
	for _, v := range vs {
		if s := o.own(v); s != "" {
			return s
		}
	}
	return ""
}

func (o *owner) pos(p token.Pos) string { return o.p.Pos(p) }

func (o *owner) own1(v ssa.Value) string {
	if !refs(v.Type()) {
		return ""
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return ""
	}
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return ""
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure:
		if f := v.(ssa.Instruction).Parent(); !o.reach[f] {
			return fmt.Sprintf("memory allocated at %s, before the goroutine was started", o.pos(v.Pos()))
		}
		return ""
	case *ssa.Global:
		return "package variable " + v.Name()
	case *ssa.FreeVar:
		f := v.Parent()
		if o.roots[f] {
			return "variable " + v.Name() + ", shared by the goroutines"
		}
		idx := -1
		for i, fv := range f.FreeVars {
			if fv == v {
				idx = i
			}
		}
		if len(o.closers[f]) == 0 {
			return "variable " + v.Name() + " of an outer function"
		}
		for _, mc := range o.closers[f] {
			if !o.reach[mc.Parent()] {
				return fmt.Sprintf("variable %s captured by the function at %s", v.Name(), o.pos(f.Pos()))
			}
			if s := o.own(mc.Bindings[idx]); s != "" {
				return s
			}
		}
		return ""
	case *ssa.Parameter:
		f := v.Parent()
		if o.roots[f] {
			return "argument " + v.Name() + " of the goroutine"
		}
		idx := -1
		for i, q := range f.Params {
			if q == v {
				idx = i
			}
		}
		if len(o.sites[f]) == 0 {
			return "argument " + v.Name() + " of a function with unknown callers"
		}
		for _, cs := range o.sites[f] {
			if idx >= len(cs.args) {
				return "argument of a deferred or wrapped call"
			}
			if s := o.own(cs.args[idx]); s != "" {
				return s
			}
		}
		return ""
	case *ssa.Phi:
		return o.all(v.Edges...)
	case *ssa.FieldAddr:
		return o.own(v.X)
	case *ssa.IndexAddr:
		return o.own(v.X)
	case *ssa.Slice:
		return o.own(v.X)
	case *ssa.ChangeType:
		return o.own(v.X)
	case *ssa.ChangeInterface:
		return o.own(v.X)
	case *ssa.MakeInterface:
		return o.own(v.X)
	case *ssa.TypeAssert:
		return o.own(v.X)
	case *ssa.SliceToArrayPointer:
		return o.own(v.X)
	case *ssa.Convert:
		return o.own(v.X)
	case *ssa.Field:
		if s := o.own(v.X); s != "" {
			return s
		}
		return o.field(v.X.Type(), v.Field)
	case *ssa.Index:
		if s := o.own(v.X); s != "" {
			return s
		}
		return o.elem(elemKey(v.X.Type()))
	case *ssa.Lookup:
		if s := o.own(v.X); s != "" {
			return s
		}
		return o.elem(v.X.Type().String())
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Call:
			return o.result(t, v.Index)
		case *ssa.TypeAssert:
			return o.own(t.X)
		case *ssa.Lookup:
			return o.own(t)
		case *ssa.Next:
			return "element of a range over a map"
		}
		return "value received from elsewhere"
	case *ssa.Call:
		return o.result(v, 0)
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			if s := o.own(v.X); s != "" {
				return s
			}
			if _, ok := v.Type().Underlying().(*types.Struct); ok {
				return ""
			}
			switch a := v.X.(type) {
			case *ssa.FieldAddr:
				return o.field(a.X.Type(), a.Field)
			case *ssa.IndexAddr:
				return o.elem(elemKey(a.X.Type()))
			}
			if al, ok := v.X.(*ssa.Alloc); ok && !al.Heap {
				for _, r := range *al.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
						if s := o.own(st.Val); s != "" {
							return s
						}
					}
				}
				return ""
			}
			return o.elem("cell:" + v.Type().String())
		case token.ARROW:
			return "value received from a channel"
		}
		return ""
	}
	return fmt.Sprintf("value of %T", v)
}

// field tells where the references stored in a field of owned structs come from.
func (o *owner) field(t types.Type, f int) string {
	k := fieldKey(t, f)
	return o.node(k, func() string {
		if s := o.all(o.fields[k]...); s != "" {
			return s
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		for _, c := range o.copies {
			if contains(c.Type(), t) {
				if s := o.own(c); s != "" {
					return s
				}
			}
		}
		return ""
	})
}

func contains(s, t types.Type) bool {
	if types.Identical(s, t) {
		return true
	}
	switch u := s.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if contains(u.Field(i).Type(), t) {
				return true
			}
		}
	case *types.Array:
		return contains(u.Elem(), t)
	}
	return false
}

func (o *owner) elem(k string) string {
	return o.node("elem:"+k, func() string { return o.all(o.elemsOf[k]...) })
}

func (o *owner) result(c *ssa.Call, i int) string {
	cc := c.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			return o.own(cc.Args[0])
		case "recover":
			return ""
		}
		return "result of " + bi.Name()
	}
	fs, what := o.callees(c)
	if len(fs) == 0 {
		return "result of " + what
	}
	for _, f := range fs {
		if !o.p.inModule(f) && !isWrapper(f) || f.Blocks == nil {
			if freshLib(fnName(f)) {
				continue
			}
			return "result of " + fnName(f)
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
				if s := o.own(r.Results[i]); s != "" {
					return s
				}
			}
		}
	}
	return ""
}

// freshLib lists library functions that return new memory.
func freshLib(n string) bool {
	for _, p := range []string{"math/rand.New", "fmt.Sprint", "fmt.Errorf", "errors.New", "strings.", "strconv."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// libEffect tells which arguments a library function writes to; ok is false if
// that is not known.
func libEffect(n string, args int) (writes []int, ok bool) {
	for _, p := range []string{"math.", "math/bits.", "fmt.", "errors.", "strings.", "strconv.", "unicode", "time.", "(time.", "runtime.", "log.", "sort.Search", "os.", "path", "image/color.", "(image/color.", "math/rand.", "math/cmplx.", "image.", "(image."} {
		if strings.HasPrefix(n, p) && !strings.HasPrefix(n, "fmt.F") && !strings.HasPrefix(n, "fmt.S"+"can") {
			return nil, true
		}
	}
	for _, p := range []string{"sync.", "(*sync.", "sync/atomic.", "(*sync/atomic."} {
		if strings.HasPrefix(n, p) {
			return nil, true // synchronisation
		}
	}
	for _, p := range []string{"(*math/rand.Rand)", "sort."} {
		if strings.HasPrefix(n, p) {
			return []int{0}, true
		}
	}
	for i := 0; i < args; i++ {
		writes = append(writes, i)
	}
	return writes, false
}

// pureInvoke lists interface methods of libraries that only read.
func pureInvoke(n string) bool {
	for _, s := range []string{"(image.Image).", "(image/color.Color).", "(error).", "(fmt.Stringer)."} {
		if strings.HasPrefix(n, s) {
			return true
		}
	}
	return false
}

// effect is a write to memory that is not owned.
type effect struct {
	in   ssa.Instruction
	addr ssa.Value
	why  string
}

// effects lists all writes to memory that is not owned, and the number of
// writes looked at.
func (o *owner) effects() (es []effect, n int, fns []*ssa.Function) {
	for f := range o.reach {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool {
		if fns[i].String() != fns[j].String() {
			return fns[i].String() < fns[j].String()
		}
		return fns[i].Pos() < fns[j].Pos()
	})
	for _, f := range fns {
		check := func(in ssa.Instruction, a ssa.Value) {
			n++
			if s := o.own(a); s != "" {
				es = append(es, effect{in, a, s})
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					check(in, in.Addr)
				case *ssa.MapUpdate:
					check(in, in.Map)
				case *ssa.Send:
					n++
					if refs(in.X.Type()) {
						es = append(es, effect{in, in.Chan, "the receiver of a reference"})
					}
				case *ssa.Go:
					es = append(es, effect{in, nil, "a goroutine started by a goroutine"})
				case ssa.CallInstruction:
					cc := in.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "delete", "clear":
							check(in, cc.Args[0])
						}
						continue
					}
					fs, what := o.callees(in)
					if len(fs) == 0 && what == "function value" {
						continue // provided by the user
					}
					if len(fs) == 0 && !pureInvoke(what) {
						n++
						es = append(es, effect{in, nil, "unknown effect of " + what})
						continue
					}
					for _, g := range fs {
						if o.p.inModule(g) || isWrapper(g) {
							continue
						}
						ws, _ := libEffect(fnName(g), len(cc.Args))
						for _, i := range ws {
							if stdStream(cc.Args[i]) {
								continue // may be shared
							}
							check(in, cc.Args[i])
						}
					}
				}
			}
		}
	}
	return
}

// path describes how a function is reached.
func (o *owner) path(f *ssa.Function) string {
	var s []string
	for i := 0; i < 12 && f != nil; i++ {
		s = append([]string{f.Name()}, s...)
		if o.roots[f] {
			break
		}
		if c := o.via[f]; c != nil {
			f = c.Parent()
		} else {
			break
		}
	}
	return strings.Join(s, " > ")
}
