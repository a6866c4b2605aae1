package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "go.f110.dev/go-memcached"

// Program is the repository's current source as type-checked SSA.
type Program struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package // by path relative to the module
	pp       map[string]*packages.Package
	fset     *token.FileSet
	root     string
	base     map[string]*Obj
	mod      map[*ssa.Package]bool
	written  map[string]bool
	gwritten map[string]bool
	funcs    map[*ssa.Function]bool
}

func load(root string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: root, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %s", p.PkgPath, e)
		}
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, pp: map[string]*packages.Package{}, fset: prog.Fset, root: root, base: map[string]*Obj{}, mod: map[*ssa.Package]bool{}}
	for i, p := range ps {
		if sps[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")
		P.pkgs[rel] = sps[i]
		P.pp[rel] = p
		P.mod[sps[i]] = true
	}
	return P, nil
}

func (p *Program) isModule(pkg *ssa.Package) bool { return pkg != nil && p.mod[pkg] }

// inline reports whether calls of fn are followed.
func (p *Program) inline(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return p.mod[fn.Pkg]
	}
	// wrappers, bound methods and instances of generic functions
	if fn.Origin() != nil && fn.Origin().Pkg != nil {
		return p.mod[fn.Origin().Pkg]
	}
	if fn.Parent() != nil {
		return p.inline(fn.Parent())
	}
	return fn.Synthetic != "" && len(fn.Blocks) > 0
}

func (p *Program) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.fset.Position(pos)
	if r, err := filepath.Rel(p.root, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// method finds the function that implements m for dynamic type t.
func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	sel := p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Program) methodByName(t types.Type, name string) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// typ returns the named type pkg.name, or nil.
func (p *Program) typ(pkg, name string) *types.Named {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func (p *Program) global(pkg, name string) *ssa.Global {
	if q := p.pkgs[pkg]; q != nil {
		g, _ := q.Members[name].(*ssa.Global)
		return g
	}
	return nil
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// initGlobals runs the package initialisers.
func (p *Program) initGlobals() []string {
	e := newEngine(p)
	e.inInit = true
	var names []string
	for k := range p.pkgs {
		names = append(names, k)
	}
	sort.Strings(names)
	done := map[*ssa.Package]bool{}
	var probs []string
	var run func(sp *ssa.Package)
	run = func(sp *ssa.Package) {
		if done[sp] || !p.mod[sp] {
			return
		}
		done[sp] = true
		for _, im := range sp.Pkg.Imports() {
			if q := p.prog.Package(im); q != nil {
				run(q)
			}
		}
		if sp.Pkg.Name() == "main" {
			return
		}
		init := sp.Func("init")
		if init == nil || len(init.Blocks) == 0 {
			return
		}
		st := newState(e)
		var final *State
		e.hooks = &initHooks{func(s *State) { final = s }}
		e.Run(st, init, nil, nil)
		if final == nil {
			probs = append(probs, "package initialisation of "+sp.Pkg.Path()+" could not be followed")
			return
		}
		for id, o := range final.heap {
			if o.origin == "fresh" || o.origin == "" {
				o.origin = "global"
			}
			p.base[id] = o
		}
	}
	for _, k := range names {
		run(p.pkgs[k])
	}
	for m := range e.problems {
		probs = append(probs, m)
	}
	for _, o := range p.base {
		if o.origin == "fresh" {
			o.origin = "global"
		}
	}
	return probs
}

type initHooks struct{ f func(*State) }

func (h *initHooks) Return(s *State, res *Term)             { h.f(s) }
func (h *initHooks) Panic(s *State, pos token.Pos, v *Term) {}
func (h *initHooks) Event(s *State, ev *Event)              {}
