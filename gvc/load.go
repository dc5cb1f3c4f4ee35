package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA form of the packages of the repository, built from the
// current source on every run.
type Program struct {
	Prog    *ssa.Program
	Pkgs    map[string]*ssa.Package // by import path
	Funcs   map[string]*ssa.Function
	Typs    map[string]*types.Package
	RepoMod string
	Bad     map[string]string // packages that did not load, with the reason
	writes  map[*ssa.Global]int
}

const repoModule = "github.com/google/xtoproto"

// Load loads the given package patterns (relative to dir).
func Load(dir string, patterns []string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off"),
		Overlay: overlay,
	}
	cfg.Mode &^= packages.NeedDeps
	cfg.Mode |= packages.NeedExportFile
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	// A package that does not load (generated code that is not in the tree, say)
	// is an error only when a contract needs it.
	bad := map[string]string{}
	ok := pkgs[:0]
	for _, pk := range pkgs {
		var msgs []string
		packages.Visit([]*packages.Package{pk}, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				msgs = append(msgs, e.Error())
			}
		})
		if len(msgs) > 0 {
			bad[pk.PkgPath] = strings.Join(msgs, "; ")
			continue
		}
		ok = append(ok, pk)
	}
	pkgs = ok
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("loading packages: %v", bad)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Prog: prog, Pkgs: map[string]*ssa.Package{}, Funcs: map[string]*ssa.Function{}, Typs: map[string]*types.Package{}, RepoMod: repoModule, Bad: bad}
	for _, sp := range spkgs {
		if sp != nil {
			p.Pkgs[sp.Pkg.Path()] = sp
			p.Typs[sp.Pkg.Path()] = sp.Pkg
		}
	}
	for _, pk := range prog.AllPackages() {
		if _, ok := p.Typs[pk.Pkg.Path()]; !ok {
			p.Typs[pk.Pkg.Path()] = pk.Pkg
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		p.Funcs[fn.String()] = fn
	}
	return p, nil
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
