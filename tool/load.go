package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/go-air/dupi"

// Prog is the loaded, type-checked program in SSA form.
type Prog struct {
	Dir  string
	GOOS string
	Fset *token.FileSet
	Pkgs []*packages.Package
	SSA  *ssa.Program
	All  []*ssa.Function // every module function with a body, incl. closures
	by   map[string]*ssa.Function
}

func load(dir, goos string) (*Prog, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOOS=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	pat := []string{"./..."}
	if goos != "" {
		env = append(env, "GOOS="+goos)
		if goos != "linux" {
			pat = []string{"./lock"}
		}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes |
			packages.NeedTypesInfo | packages.NeedImports | packages.NeedTypesSizes |
			packages.NeedModule | packages.NeedCompiledGoFiles,
		Dir: dir, Env: env}
	ps, err := packages.Load(cfg, pat...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].PkgPath < ps[j].PkgPath })
	sp, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	sp.Build()
	pr := &Prog{Dir: dir, GOOS: goos, Fset: ps[0].Fset, Pkgs: ps, SSA: sp, by: map[string]*ssa.Function{}}
	for fn := range ssautil.AllFunctions(sp) {
		if fn.Blocks == nil || !inModule(fn) {
			continue
		}
		pr.All = append(pr.All, fn)
	}
	// exported/unreferenced functions may not be in AllFunctions
	seen := map[*ssa.Function]bool{}
	for _, f := range pr.All {
		seen[f] = true
	}
	sort.Slice(pr.All, func(i, j int) bool { return pr.All[i].String() < pr.All[j].String() })
	for _, f := range pr.All {
		pr.by[f.String()] = f
	}
	return pr, nil
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil && f.Pkg.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
		if o := f.Origin(); o != nil && o != f && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
	}
	return ""
}

func inModule(fn *ssa.Function) bool {
	p := fnPkgPath(fn)
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

// Fn finds a function by "pkgsuffix.Name" or "pkgsuffix.(*T).Name"
// where pkgsuffix is the import path below the module ("" for the root).
func (p *Prog) Fn(pkg, recv, name string) *ssa.Function {
	path := modPath
	if pkg != "" {
		path += "/" + pkg
	}
	if recv == "" {
		return p.by[path+"."+name]
	}
	if f := p.by["(*"+path+"."+recv+")."+name]; f != nil {
		if f.Synthetic == "" {
			return f
		}
	}
	if f := p.by["("+path+"."+recv+")."+name]; f != nil {
		return f
	}
	return p.by["(*"+path+"."+recv+")."+name]
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	r, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil || strings.HasPrefix(r, "..") {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "dupi.")
	return s
}

// typeOf: a type of an imported package.
func (p *Prog) typeOf(pkg, name string) types.Type {
	for _, q := range p.SSA.AllPackages() {
		if q.Pkg.Path() == pkg {
			if o := q.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}
