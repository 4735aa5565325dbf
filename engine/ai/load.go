package ai

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// purePkgs are library packages whose functions are analysed from their source when no transfer function models them.
var purePkgs = map[string]bool{"strings": true, "sort": true, "slices": true, "maps": true, "cmp": true, "iter": true,
	"strconv": true, "unicode": true, "unicode/utf8": true, "math/bits": true, "container/list": true, "internal/stringslite": true,
	"internal/bytealg": true, "bytes": true, "errors": true, "path": true, "path/filepath": true, "internal/filepathlite": true}

// Load type-checks the tree rooted at dir and builds SSA for it.
func Load(dir string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedDeps,
		Dir:  dir,
		Fset: fset,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local",
			"CGO_ENABLED=0", "GOSUMDB=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	for _, sp := range prog.AllPackages() {
		if purePkgs[sp.Pkg.Path()] {
			sp.Build()
		}
	}
	for _, sp := range spkgs {
		if sp != nil {
			sp.Build()
		}
	}
	p := &Program{Dir: dir, Prog: prog, Fset: fset, Local: map[*ssa.Package]bool{}, Syntax: map[string][]*ast.File{}, Info: map[string]*types.Info{}}
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		p.Pkgs = append(p.Pkgs, sp)
		p.Local[sp] = true
		p.Syntax[sp.Pkg.Path()] = pkgs[i].Syntax
		p.Info[sp.Pkg.Path()] = pkgs[i].TypesInfo
		switch sp.Pkg.Name() {
		case "main":
			p.Main = sp
		case "lex":
			p.Lex = sp
		}
	}
	if p.Main == nil || p.Lex == nil {
		return nil, fmt.Errorf("load: packages main and lex not found")
	}
	p.Root = dir
	return p, nil
}

// Func finds a package-level function, or method "T.m" (value or pointer receiver), of package main or lex.
func (p *Program) Func(name string) *ssa.Function {
	for _, pk := range []*ssa.Package{p.Main, p.Lex} {
		if f := p.FuncIn(pk, name); f != nil {
			return f
		}
	}
	return nil
}

func (p *Program) FuncIn(pk *ssa.Package, name string) *ssa.Function {
	if i := strings.Index(name, "."); i > 0 {
		t, ok := pk.Members[name[:i]].(*ssa.Type)
		if !ok {
			return nil
		}
		for _, rt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			if sel := p.Prog.MethodSets.MethodSet(rt).Lookup(pk.Pkg, name[i+1:]); sel != nil {
				f := p.Prog.MethodValue(sel)
				if f != nil && f.Synthetic == "" {
					return f
				}
			}
		}
		return nil
	}
	return pk.Func(name)
}

// Type returns the named type of package main or lex.
func (p *Program) Type(name string) types.Type {
	for _, pk := range []*ssa.Package{p.Main, p.Lex} {
		if t, ok := pk.Members[name].(*ssa.Type); ok {
			return t.Type()
		}
	}
	return nil
}

// Const returns the value of an integer constant.
func (p *Program) Const(name string) (int64, bool) {
	for _, pk := range []*ssa.Package{p.Main, p.Lex} {
		if c, ok := pk.Members[name].(*ssa.NamedConst); ok {
			if v, ok := constVal(c.Value); ok {
				if i, ok := v.(int64); ok {
					return i, true
				}
			}
		}
	}
	return 0, false
}

// ConstsOf lists the integer constants of package pk whose name satisfies keep.
func (p *Program) ConstsOf(pk *ssa.Package, keep func(name string, c *ssa.NamedConst) bool) map[string]int64 {
	r := map[string]int64{}
	for n, mem := range pk.Members {
		if c, ok := mem.(*ssa.NamedConst); ok && keep(n, c) {
			if v, ok := constVal(c.Value); ok {
				if i, ok := v.(int64); ok {
					r[n] = i
				}
			}
		}
	}
	return r
}

// AllFuncs lists every source function of the tree (tests excluded), sorted by position.
func (p *Program) AllFuncs() []*ssa.Function {
	var r []*ssa.Function
	for f := range ssautil.AllFunctions(p.Prog) {
		if f.Pkg != nil && p.Local[f.Pkg] && f.Synthetic == "" && f.Blocks != nil {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Pos() < r[j].Pos() })
	return r
}
