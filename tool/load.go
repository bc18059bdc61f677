package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/barnex/bruteray"

type Prog struct {
	repo    string
	fset    *token.FileSet
	pkgs    []*packages.Package
	ssa     *ssa.Program
	spkg    map[string]*ssa.Package // by import path relative to the module
	funcs   []*ssa.Function         // all functions of the module (incl. anonymous, methods)
	skipped []string
}

func Load(repo string) (*Prog, error) {
	env := os.Environ()
	set := func(k, v string) {
		for _, e := range env {
			if strings.HasPrefix(e, k+"=") && len(e) > len(k)+1 {
				if k != "GOFLAGS" && k != "GOPROXY" && k != "GOTOOLCHAIN" && k != "GOWORK" {
					return
				}
			}
		}
		env = append(env, k+"="+v)
	}
	set("HOME", "/root")
	set("GOPATH", "/root/go")
	set("GOMODCACHE", "/root/go/pkg/mod")
	set("GOCACHE", "/root/.cache/go-build")
	set("GOTOOLCHAIN", "local")
	set("GOFLAGS", "-mod=mod")
	set("GOPROXY", "off")
	set("GOWORK", "off")
	cfg := &packages.Config{
		Mode:  packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   repo,
		Env:   env,
		Fset:  token.NewFileSet(),
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{repo: repo, fset: cfg.Fset, spkg: map[string]*ssa.Package{}}
	var good []*packages.Package
	for _, q := range pkgs {
		bad := false
		for _, e := range q.Errors {
			p.skipped = append(p.skipped, q.PkgPath+": "+e.Error())
			bad = true
		}
		if !bad && q.Types != nil {
			good = append(good, q)
		}
	}
	p.pkgs = good
	prog, spkgs := ssautil.AllPackages(good, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	p.ssa = prog
	for _, s := range spkgs {
		if s != nil {
			p.spkg[strings.TrimPrefix(strings.TrimPrefix(s.Pkg.Path(), modPath), "/")] = s
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if p.inModule(f) && f.Blocks != nil {
			p.funcs = append(p.funcs, f)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

func fnPkg(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

func (p *Prog) inModule(f *ssa.Function) bool {
	q := fnPkg(f)
	return q != nil && (q.Path() == modPath || strings.HasPrefix(q.Path(), modPath+"/"))
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	if r, err := filepath.Rel(p.repo, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}
func (p *Prog) FnPos(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return p.Pos(f.Pos()) + " " + f.RelString(nil)
}

type anchorErr string

// Pkg returns the package with the given path below the module.
func (p *Prog) Pkg(path string) *ssa.Package {
	s := p.spkg[path]
	if s == nil {
		panic(anchorErr("package " + path + " not found"))
	}
	return s
}

// Func returns a package level function; it panics with anchorErr if missing.
func (p *Prog) Func(pkg, name string) *ssa.Function {
	f := p.Pkg(pkg).Func(name)
	if f == nil {
		panic(anchorErr("function " + pkg + "." + name + " not found"))
	}
	return f
}

// Type returns a named type.
func (p *Prog) Type(pkg, name string) types.Type {
	t := p.Pkg(pkg).Type(name)
	if t == nil {
		panic(anchorErr("type " + pkg + "." + name + " not found"))
	}
	return t.Type()
}

// Method returns the method of a named type (pointer receiver if ptr).
func (p *Prog) Method(pkg, typ, name string) *ssa.Function {
	t := p.Type(pkg, typ)
	for _, u := range []types.Type{t, types.NewPointer(t)} {
		ms := types.NewMethodSet(u)
		if s := ms.Lookup(p.Pkg(pkg).Pkg, name); s != nil {
			if f := p.ssa.MethodValue(s); f != nil {
				return f
			}
		}
	}
	panic(anchorErr("method " + pkg + "." + typ + "." + name + " not found"))
}

// MethodOf returns the method of a dynamic type, or nil.
func (p *Prog) MethodOf(t types.Type, pkg *types.Package, name string) *ssa.Function {
	ms := p.ssa.MethodSets.MethodSet(t)
	s := ms.Lookup(pkg, name)
	if s == nil {
		return nil
	}
	return p.ssa.MethodValue(s)
}
