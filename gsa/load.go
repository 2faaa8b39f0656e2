package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog *ssa.Program
	fset *token.FileSet
	pkgs []*packages.Package
	ssa  map[string]*ssa.Package
	root string
}

func loadRepo(root string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:   root,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly", "CGO_ENABLED=0", "GOOS=linux", "GOARCH=amd64", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the source does not compile:\n%s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Program{prog: prog, fset: prog.Fset, pkgs: pkgs, ssa: map[string]*ssa.Package{}, root: root}
	for i, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		s.Build()
		p.ssa[pkgs[i].PkgPath] = s
	}
	if len(pkgs) > 0 && pkgs[0].Module != nil {
		modulePath = pkgs[0].Module.Path
	}
	return p, nil
}

// pkg finds a package by its path below the module.
func (p *Program) pkg(rel string) *ssa.Package { return p.ssa[modulePath+"/"+rel] }

func (p *Program) paths() []string {
	var out []string
	for k := range p.ssa {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (p *Program) named(rel, name string) *types.Named {
	s := p.pkg(rel)
	if s == nil {
		return nil
	}
	t, ok := s.Members[name].(*ssa.Type)
	if !ok {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

// method finds a method of *T.
func (p *Program) method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	if n.Obj().Pkg() == nil || p.prog.MethodSets.MethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), name) == nil {
		return nil
	}
	return p.prog.LookupMethod(types.NewPointer(n), n.Obj().Pkg(), name)
}

func (p *Program) fn(rel, name string) *ssa.Function {
	s := p.pkg(rel)
	if s == nil {
		return nil
	}
	return s.Func(name)
}
