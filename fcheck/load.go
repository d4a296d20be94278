package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/abichinger/fastac"

// World is the loaded program.
type World struct {
	prog   *ssa.Program
	fset   *token.FileSet
	pkgs   []*ssa.Package // dependency order
	byPath map[string]*ssa.Package
	syn    map[string]*packages.Package
	repo   string
}

func load(repo string) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, "./...", "github.com/vansante/go-event-emitter")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, fset: prog.Fset, byPath: map[string]*ssa.Package{}, syn: map[string]*packages.Package{}, repo: repo}
	for i, p := range sp {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		w.byPath[p.Pkg.Path()] = p
		w.syn[p.Pkg.Path()] = pkgs[i]
	}
	seen := map[string]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p.Path()] {
			return
		}
		seen[p.Path()] = true
		imps := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, q := range imps {
			visit(q)
		}
		if s, ok := w.byPath[p.Path()]; ok {
			w.pkgs = append(w.pkgs, s)
		}
	}
	var paths []string
	for k := range w.byPath {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		visit(w.byPath[k].Pkg)
	}
	if len(w.byPath) < 15 {
		return nil, fmt.Errorf("only %d packages loaded", len(w.byPath))
	}
	return w, nil
}

func (w *World) pkg(rel string) *ssa.Package {
	p := modPath
	if rel != "" {
		p += "/" + rel
	}
	if sp := w.byPath[p]; sp != nil {
		return sp
	}
	panic(unresolved{"package " + p})
}

type unresolved struct{ what string }

// fn resolves a package level function.
func (w *World) fn(rel, name string) *ssa.Function {
	if f := w.pkg(rel).Func(name); f != nil {
		return f
	}
	panic(unresolved{"function " + rel + "." + name})
}

// typ resolves a named type.
func (w *World) typ(rel, name string) types.Type {
	o := w.pkg(rel).Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unresolved{"type " + rel + "." + name})
	}
	return o.Type()
}

func (w *World) ptr(rel, name string) types.Type { return types.NewPointer(w.typ(rel, name)) }

// meth resolves a method of a type.
func (w *World) meth(t types.Type, name string) *ssa.Function {
	ms := w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.prog.MethodValue(ms.At(i))
		}
	}
	panic(unresolved{"method " + types.TypeString(t, nil) + "." + name})
}

func (w *World) method(t types.Type, m *types.Func) *ssa.Function {
	if isFake(t) || t == types.Type(objT) {
		return nil
	}
	ms := w.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

// ext resolves a type of a dependency through the imports of the loaded packages.
func (w *World) ext(path, name string) types.Type {
	for _, p := range w.pkgs {
		for _, q := range p.Pkg.Imports() {
			if q.Path() == path {
				if o := q.Scope().Lookup(name); o != nil {
					return o.Type()
				}
			}
		}
	}
	if p := w.byPath[path]; p != nil {
		if o := p.Pkg.Scope().Lookup(name); o != nil {
			return o.Type()
		}
	}
	panic(unresolved{"type " + path + "." + name})
}

func (w *World) pos(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	ps := w.fset.Position(p)
	f := strings.TrimPrefix(ps.Filename, w.repo+"/")
	if i := strings.Index(f, "/pkg/mod/"); i >= 0 {
		f = f[i+9:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}
