package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded module.
type Program struct {
	uses  *fieldUse
	refs  map[*ssa.Function][]ssa.Instruction
	dir   string
	fset  *token.FileSet
	prog  *ssa.Program
	pkg   *ssa.Package
	tp    *types.Package
	pp    *packages.Package
	funcs []*ssa.Function // all functions with bodies of the module
	files []string
}

func load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
	}
	cfg.Fset = token.NewFileSet()
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package in %s, found %d", dir, len(pkgs))
	}
	var errs []string
	for _, e := range pkgs[0].Errors {
		errs = append(errs, e.Error())
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the package does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, ps := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	if ps[0] == nil {
		return nil, fmt.Errorf("no SSA package")
	}
	ps[0].Build()
	p := &Program{dir: dir, fset: cfg.Fset, prog: prog, pkg: ps[0], tp: pkgs[0].Types, pp: pkgs[0]}
	for _, f := range pkgs[0].CompiledGoFiles {
		p.files = append(p.files, filepath.Base(f))
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.funcs = append(p.funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range ps[0].Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := prog.MethodValue(ms.At(i))
					if f != nil && f.Pkg == ps[0] && f.Synthetic == "" {
						add(f)
					}
				}
			}
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool { return p.funcs[i].Pos() < p.funcs[j].Pos() })
	return p, nil
}

// fn finds a package-level function.
func (p *Program) fn(name string) *ssa.Function { return p.pkg.Func(name) }

// method finds the method of a named type or of a pointer to it, promoted ones included.
func (p *Program) method(typ, name string) *ssa.Function {
	o := p.tp.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	sel := p.prog.MethodSets.MethodSet(types.NewPointer(o.Type())).Lookup(p.tp, name)
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Program) typ(name string) types.Type {
	o := p.tp.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// initState runs the package initialisers abstractly.
func (p *Program) initState(in *Interp) *State {
	st := in.newState()
	mutable := p.mutableGlobals()
	for _, m := range p.pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		id := in.globalObj(g)
		o := st.mut(id)
		o.zero = true
		if o.kind == kArray {
			if a, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				o.n = con(a.Len())
				if o.c != nil {
					o.c = zeroContent
				}
			}
		}
	}
	f := p.pkg.Func("init")
	if f != nil && len(f.Blocks) > 0 {
		rs := in.callFn(nil, st, f, nil, nil, token.NoPos, false)
		var ok []*State
		for _, r := range rs {
			if !r.panic {
				ok = append(ok, r.st)
			}
		}
		if len(ok) == 0 {
			panic(abortErr{"package initialisation always panics"})
		}
		st = ok[len(ok)-1]
		if len(ok) > 1 {
			panic(abortErr{"package initialisation is not deterministic"})
		}
	}
	for _, m := range p.pkg.Members {
		if g, ok := m.(*ssa.Global); ok && mutable[g] {
			o := st.mut(in.globalObj(g))
			o.cells = map[string]Value{}
			o.zero = false
			o.gen++
		}
	}
	for id, o := range st.heap {
		if o.owned {
			st.mut(id).owned = false // shared by everything that follows
		}
	}
	st.ev = nil
	return st
}

// mutableGlobals are the package variables written (or whose address escapes) outside init.
func (p *Program) mutableGlobals() map[*ssa.Global]bool {
	r := map[*ssa.Global]bool{}
	for _, f := range p.funcs {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						r[g] = true
					}
				}
			}
		}
	}
	return r
}
