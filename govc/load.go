package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog   *ssa.Program
	pkgs   map[string]*packages.Package
	spkgs  map[string]*ssa.Package
	tpkgs  map[string]*types.Package
	guses  map[*ssa.Global]*globalUse
	byName map[string]*types.Package
	funcs  map[string]*ssa.Function // by key, e.g. "handlers/flash.(*Handler).Enabled", "replace.ChangeKey$1"
}

func loadProgram(dir string, patterns []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedDeps | packages.NeedModule,
		Dir: dir,
		Env: os.Environ(),
	}
	// Only the packages under contract get syntax; everything else comes from export data.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Program{pkgs: map[string]*packages.Package{}, spkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, tpkgs: map[string]*types.Package{}, byName: map[string]*types.Package{}}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("loading %s: %v", pk.PkgPath, e)
		}
		p.pkgs[pk.PkgPath] = pk
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	p.prog = prog
	for i, sp := range spkgs {
		if sp != nil {
			p.spkgs[pkgs[i].PkgPath] = sp
		}
	}
	var addp func(t *types.Package)
	addp = func(t *types.Package) {
		if p.tpkgs[t.Path()] != nil {
			return
		}
		p.tpkgs[t.Path()] = t
		if p.byName[t.Name()] == nil {
			p.byName[t.Name()] = t
		}
		for _, i := range t.Imports() {
			addp(i)
		}
	}
	for _, pk := range pkgs {
		addp(pk.Types)
	}
	all := ssautil.AllFunctions(prog)
	var fl []*ssa.Function
	for f := range all {
		fl = append(fl, f)
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].String() < fl[j].String() })
	for _, f := range fl {
		p.funcs[funcKey(f)] = f
	}
	return p, nil
}

// funcKey names a function independently of the module path.
func funcKey(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modulePath+"/", "")
	s = strings.ReplaceAll(s, modulePath+".", ".")
	return s
}

func objKey(o *types.Func) string {
	s := o.FullName()
	s = strings.ReplaceAll(s, modulePath+"/", "")
	return s
}
