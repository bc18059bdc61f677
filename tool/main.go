package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Check struct {
	ID   string
	Run  func(r *R)
	Min  int // minimum number of obligations confirmed by hand
	Rule string
	Fam  string
}

var checks = map[string]*Check{}

func register(id string, min int, fam, rule string, run func(r *R)) {
	checks[id] = &Check{ID: id, Run: run, Min: min, Rule: rule, Fam: fam}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vt <property id>|all")
		os.Exit(2)
	}
	if os.Args[1] == "list" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Printf("%s\t%s\n", id, checks[id].Fam)
		}
		return
	}
	repo := os.Getenv("VT_REPO")
	if repo == "" {
		repo = "/repo"
	}
	out := os.Getenv("VT_OUT")
	if out == "" {
		out = "/verif"
	}
	t0 := time.Now()
	if f := os.Getenv("VT_PROF"); f != "" {
		fh, _ := os.Create(f)
		pprof.StartCPUProfile(fh)
		defer pprof.StopCPUProfile()
	}
	p, err := Load(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	ids := os.Args[1:]
	if ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	loadT := time.Since(t0)
	code := 0
	for _, id := range ids {
		c := checks[id]
		if c == nil {
			fmt.Fprintln(os.Stderr, "no check for", id)
			os.Exit(2)
		}
		t1 := time.Now()
		r := &R{p: p, id: id, fns: map[string]bool{}, counts: map[string]int{}}
		r.known = readKnown(filepath.Join(out, "known_findings.txt"), id)
		r.guard("check", "", func() { c.Run(r) })
		r.runJobs()
		if r.obl < c.Min {
			r.viol("coverage", "", fmt.Sprintf("only %d obligations were found, at least %d are known to exist", r.obl, c.Min))
		}
		var viols []Viol
		var kf []string
		for _, v := range r.viols {
			if k := matchKnown(r.known, v); k != "" {
				kf = append(kf, k)
				continue
			}
			viols = append(viols, v)
		}
		for _, k := range uniq(kf) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		}
		os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
		rep := filepath.Join(out, "evidence", id+".violation.txt")
		os.Remove(rep)
		result := "held"
		if len(viols) > 0 {
			code = 1
			result = "violated"
			var b strings.Builder
			for _, v := range viols {
				fmt.Fprintf(&b, "property %s rule %s\n  at: %s\n  %s\n", id, v.Rule, v.Where, v.Msg)
			}
			os.WriteFile(rep, []byte(b.String()), 0o644)
			fmt.Print(b.String())
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
		}
		r.writeEvidence(out, c, viols, uniq(kf), time.Since(t1)+loadT)
		if os.Getenv("VT_VERBOSE") != "" {
			fmt.Printf("%s: %s, %d obligations, %d cases, %d functions, %.1fs\n", id, result, r.obl, r.counts["cases"], len(r.fns), time.Since(t1).Seconds())
		}
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

func uniq(s []string) []string {
	m := map[string]bool{}
	var r []string
	for _, x := range s {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

type known struct{ rule, sub, text string }

// known findings: "known: property=<id> rule=<rule> match=<substring> :: <text>"
func readKnown(file, id string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		i := strings.Index(l, " :: ")
		if i < 0 {
			continue
		}
		head := l[:i]
		k := known{text: l[i+4:]}
		if j := strings.Index(head, "rule="); j >= 0 {
			k.rule = strings.Fields(head[j+5:])[0]
		}
		if j := strings.Index(head, "match="); j >= 0 {
			k.sub = strings.TrimSpace(head[j+6:])
		}
		r = append(r, k)
	}
	return r
}

func matchKnown(ks []known, v Viol) string {
	for _, k := range ks {
		if k.rule == v.Rule && k.sub != "" && strings.Contains(v.Msg, k.sub) {
			return k.text
		}
	}
	return ""
}

type Viol struct{ Rule, Where, Msg string }

// R collects the results of one check.
type R struct {
	p      *Prog
	id     string
	obl    int
	viols  []Viol
	fns    map[string]bool
	counts map[string]int
	rules  []ruleRes
	notes  []string
	jobs   []func(r *R)
	known  []known
	anyNaN bool                   // numbers may test as NaN
	pick   func(rule string) bool // rules to run; nil for all
}
type ruleRes struct {
	Rule        string `json:"rule"`
	Where       string `json:"where"`
	Obligations int    `json:"obligations"`
	Cases       int    `json:"cases,omitempty"`
	Result      string `json:"result"`
}

func (r *R) viol(rule, where, msg string) {
	r.viols = append(r.viols, Viol{rule, where, msg})
}
func (r *R) note(f string, a ...interface{}) { r.notes = append(r.notes, fmt.Sprintf(f, a...)) }

func (r *R) writeEvidence(out string, c *Check, viols []Viol, kf []string, d time.Duration) {
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range r.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"explanation":         c.Rule,
		"technique":           c.Fam,
		"obligations":         r.obl,
		"discharged":          r.obl - len(r.viols),
		"functions_analysed":  len(fns),
		"functions":           fns,
		"packages_loaded":     len(r.p.pkgs),
		"module_functions":    len(r.p.funcs),
		"packages_skipped":    r.p.skipped,
		"rules":               r.rules,
		"counts":              r.counts,
		"min_obligations":     c.Min,
		"known_findings_seen": kf,
	}
	ev := map[string]interface{}{
		"property":    r.id,
		"tier":        tier,
		"level":       "other",
		"seed":        seed,
		"coverage":    cov,
		"assumptions": r.notes,
		"wall_s":      d.Seconds(),
		"violations":  len(viols),
	}
	if r.notes == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(out, "evidence", r.id+".json"), append(b, '\n'), 0o644)
}
