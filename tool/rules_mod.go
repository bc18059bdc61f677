package main

import (
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", 150, "interprocedural side-effect (mod/ref) and alias analysis of all exported functions", "For every function a summary is computed, bottom up over the call graph with all implementations of interface methods, of the memory it may write to and of the memory its results refer to, named by the parameter through which it got there. No exported function or method may write to memory reached through its arguments or receiver, other than contexts, rays, random generators, streams, destinations, and the receiver of a method without results; no result may refer to the memory of a slice passed as argument, images and numbers apart.", checkC23)
}

// stateful tells the types whose methods exist to change them.
func stateful(t types.Type) bool {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/") + "." + n.Obj().Name() {
	case "tracer.Ctx", "tracer.Ray", "tracer/types.Ctx", "tracer/types.Ray", "tracer.Sampler", "tracer.Stats", "api.handler", "api.server":
		return true
	}
	switch p := n.Obj().Pkg().Path(); {
	case p == modPath+"/tracer/sequence":
		return true
	case strings.HasPrefix(p, modPath):
		return false
	case p == "io" || p == "bufio" || p == "math/rand" || p == "net/http" || p == "sync" || p == "bytes" || p == "os":
		return true
	}
	return false
}

func isImage(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/imagef"
}

// numbers reports whether a slice holds but numbers.
func numbers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsNumeric != 0
	case *types.Slice:
		return numbers(u.Elem())
	case *types.Array:
		return u.Len() == 2 && numbers(u.Elem()) // shifts of a sequence
	}
	return false
}

func checkC23(r *R) {
	var m *modref
	var once sync.Once
	roots := func(w *W, visit func(f *modFn)) {
		once.Do(func() { m = newModref(w.p) })
		if m == nil {
			panic(undecided("effects"))
		}
		for _, f := range m.list {
			if f.f.Synthetic != "" || f.f.Object() == nil || !f.f.Object().Exported() || f.f.Parent() != nil || !inScope(f.f) {
				continue
			}
			w.at(f.f)
			w.Inlined[f.f]++
			visit(f)
		}
	}
	sorted := func(f *modFn) (l []atom) {
		for a := range f.sum.writes {
			if a.kind == mParam {
				l = append(l, a)
			}
		}
		sort.Slice(l, func(i, j int) bool {
			return l[i].idx < l[j].idx || l[i].idx == l[j].idx && l[i].level < l[j].level
		})
		return
	}
	r.Rule("arguments", "", func(w *W) {
		roots(w, func(f *modFn) {
			sig := f.f.Signature
			for _, p := range f.f.Params {
				if refs(p.Type()) && !isStr(p.Type()) {
					w.oblige(1)
				}
			}
			for _, a := range sorted(f) {
				p := f.f.Params[a.idx]
				recv := sig.Recv() != nil && a.idx == 0
				switch {
				case stateful(p.Type()):
				case recv && sig.Results().Len() == 0 && a.level == 0:
				case !recv && (p.Name() == "dst" || p.Name() == "out" || p.Name() == "rng"):
				case f.f.Name() == "ServeHTTP":
				default:
					what := "the argument " + p.Name()
					if recv {
						what = "the receiver"
					}
					if a.level == 1 {
						what = "memory that " + what + " refers to"
					}
					w.fail("%s modifies %s (%s)", f.f.Name(), what, m.chain(f, a))
				}
			}
		})
	})
	r.Rule("captured lists", "", func(w *W) {
		roots(w, func(f *modFn) {
			listed := func(a atom) *ssa.Parameter {
				if a.kind != mParam || a.level != 0 {
					return nil
				}
				p := f.f.Params[a.idx]
				s, ok := p.Type().Underlying().(*types.Slice)
				if !ok || isImage(p.Type()) || numbers(s) {
					return nil
				}
				return p
			}
			for i, p := range f.f.Params {
				if listed(atom{kind: mParam, idx: i}) == nil {
					continue
				}
				w.oblige(1)
				bad := false
				for j := range f.sum.results {
					a := atom{kind: mParam, idx: i}
					bad = bad || f.sum.results[j][a] || f.sum.content[j][a]
				}
				for to, s := range f.sum.stores {
					if to.kind != mFree && s[atom{kind: mParam, idx: i}] {
						bad = true
					}
				}
				if bad {
					w.fail("%s keeps the slice %s it is given: what it returns changes when the caller overwrites that slice", f.f.Name(), p.Name())
				}
			}
		})
	})
}
