package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the resolved program under analysis.
type World struct {
	Repo    string
	Module  string
	Fset    *token.FileSet
	Pkgs    map[string]*packages.Package // by path relative to the module ("" root)
	Prog    *ssa.Program
	SSA     map[string]*ssa.Package
	Files   int
	Funcs   int
	inlined map[string]bool
}

func loadWorld(repo string) (*World, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  repo,
		Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off",
			"CGO_ENABLED=0"),
		Tests: false,
	}
	cfg.Env = append(cfg.Env, extraEnv...)
	pkgs, err := packages.Load(cfg, "./...", "slices", "maps", "cmp")
	if err != nil {
		return nil, err
	}
	w := &World{Repo: repo, Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if p.Module != nil && p.Module.Main {
			w.Module = p.Module.Path
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type check failed: %s", strings.Join(errs, "; "))
	}
	if w.Module == "" {
		return nil, fmt.Errorf("no main module found in %s", repo)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.BuilderMode(0))
	w.Prog = prog
	w.Fset = prog.Fset
	for _, p := range pkgs {
		sp := prog.Package(p.Types)
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		sp.Build()
		if p.PkgPath == w.Module || strings.HasPrefix(p.PkgPath, w.Module+"/") {
			rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, w.Module), "/")
			w.Pkgs[rel] = p
			w.SSA[rel] = sp
			w.Files += len(p.GoFiles)
		}
	}
	modulePath = w.Module
	return w, nil
}

var modulePath string

// extraEnv selects the build configuration under analysis.
var extraEnv []string

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modulePath || strings.HasPrefix(p.Path(), modulePath+"/"))
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(w.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// typeNamed finds a named type by package (relative path) and name.
func (w *World) typeNamed(pkg, name string) *types.Named {
	p := w.Pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// method finds the SSA function of a method declared on a named type.
func (w *World) method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		if m.Name() == name {
			return w.Prog.FuncValue(m)
		}
	}
	return nil
}

// methods lists the declared methods of a named type, promoted ones included
// when the embedded type is declared in the module.
func (w *World) methods(n *types.Named) []*types.Func {
	var out []*types.Func
	for i := 0; i < n.NumMethods(); i++ {
		out = append(out, n.Method(i))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func (w *World) function(pkg, name string) *ssa.Function {
	sp := w.SSA[pkg]
	if sp == nil {
		return nil
	}
	f := sp.Func(name)
	return f
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	if n != nil {
		return n.Origin()
	}
	return nil
}

func typeKey(t types.Type) string {
	if n := namedOf(t); n != nil {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldKey(t types.Type, i int) string {
	return typeKey(t) + "." + structOf(t).Field(i).Name()
}

// expandable: struct types whose values are modelled field by field.
func expandable(t types.Type) bool {
	s := structOf(t)
	if s == nil {
		return false
	}
	if n := namedOf(t); n != nil {
		return inModule(n.Obj().Pkg()) && s.NumFields() > 0
	}
	return s.NumFields() > 0
}
