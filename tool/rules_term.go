package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C31", 60, "termination analysis: ranking arguments for loops, size-change termination for recursion", "Every loop of every function reachable from an exported one must have a ranking argument: a range, an integer counter that strictly moves towards a bound that does not run away, a quotient by at least two, a bisection that stops at floating-point resolution, input that is consumed, or a channel that has been closed. Every cycle in the call graph (all implementations of interface methods considered), other than through the light field whose depth C04 bounds, must go down the structure of an argument in the sense of the size-change principle.", checkC31)
}

func checkC31(r *R) {
	r.Rule("loops and recursion", "", func(w *W) {
		var roots []*ssa.Function
		for _, f := range w.p.funcs {
			if !inScope(f) || f.Parent() != nil || f.Object() == nil {
				continue
			}
			if f.Object().Exported() {
				roots = append(roots, f)
			}
		}
		o := newOwner(w.p, roots...)
		t := newTermer(w.p, o)
		var fns []*ssa.Function
		for f := range o.reach {
			if inScope(f) && f.Synthetic == "" && len(f.Blocks) > 0 {
				fns = append(fns, f)
			}
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
		why := map[string]int{}
		for _, f := range fns {
			w.Inlined[f]++
			if irreducible(f) {
				w.at(f)
				w.fail("the control flow of %s is not made of loops", f.Name())
			}
			for _, l := range natLoops(f) {
				w.oblige(1)
				s := t.terminates(f, l)
				if s == "" {
					w.at(f)
					w.fail("%s: nothing bounds the number of iterations of this loop", w.p.Pos(l.pos()))
					continue
				}
				why[s]++
			}
		}
		var ks []string
		for k := range why {
			ks = append(ks, fmt.Sprintf("%s: %d", k, why[k]))
		}
		sort.Strings(ks)
		w.r.note("loops by ranking argument: %s", strings.Join(ks, ", "))
		cut := map[*ssa.Function]bool{}
		for _, n := range []string{"LightField", "LightFieldIndirect"} {
			cut[w.p.Method("tracer", "Scene", n)] = true
		}
		n, cycles, bad := t.recursion(cut)
		w.oblige(n)
		w.r.note("recursive groups: %s", strings.Join(cycles, "; "))
		w.where = ""
		for _, b := range bad {
			w.fail("%s", b)
		}
	})
}
