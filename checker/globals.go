package main

// Package variables changed after initialisation: every change must be made inside a
// sync.Once, and every use must come after the same Once.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isSyncType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic" || n.Obj().Pkg().Path() == "context")
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// onceDo returns the global Once and the function of a call to Once.Do.
func onceDo(ins ssa.Instruction) (*ssa.Global, *ssa.Function) {
	ci, ok := ins.(ssa.CallInstruction)
	if !ok {
		return nil, nil
	}
	f := ci.Common().StaticCallee()
	if f == nil || f.String() != "(*sync.Once).Do" {
		return nil, nil
	}
	g, _ := ci.Common().Args[0].(*ssa.Global)
	switch a := ci.Common().Args[1].(type) {
	case *ssa.Function:
		return g, a
	case *ssa.MakeClosure:
		fn, _ := a.Fn.(*ssa.Function)
		return g, fn
	}
	return g, nil
}

// callers lists the instructions that refer to a function.
func (p *Program) refsTo(fn *ssa.Function) []ssa.Instruction {
	if p.refs == nil {
		p.refs = map[*ssa.Function][]ssa.Instruction{}
		for _, f := range p.funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if op == nil || *op == nil {
							continue
						}
						if g, ok := (*op).(*ssa.Function); ok {
							p.refs[g] = append(p.refs[g], ins)
						}
					}
				}
			}
		}
	}
	return p.refs[fn]
}

// onceOf: the function runs only inside Do of the returned Once.
func (p *Program) onceOf(f *ssa.Function, depth int) *ssa.Global {
	if depth > 6 {
		return nil
	}
	refs := p.refsTo(f)
	if len(refs) == 0 {
		return nil
	}
	var once *ssa.Global
	for _, r := range refs {
		var g *ssa.Global
		if o, fn := onceDo(r); o != nil && fn == f {
			g = o
		} else if ci, ok := r.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
			g = p.onceOf(r.Parent(), depth+1)
		} else if mc, ok := r.(*ssa.MakeClosure); ok {
			for _, u := range *mc.Referrers() {
				if o, fn := onceDo(u); o != nil && fn == f {
					g = o
				} else {
					return nil
				}
			}
		}
		if g == nil || once != nil && once != g {
			return nil
		}
		once = g
	}
	return once
}

func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// afterOnce: the instruction always runs after Do of the Once.
func (p *Program) afterOnce(ins ssa.Instruction, once *ssa.Global, depth int) bool {
	if depth > 6 {
		return false
	}
	f := ins.Parent()
	if p.onceOf(f, 0) == once {
		return true
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if o, _ := onceDo(i); o == once {
				if _, plain := i.(*ssa.Call); plain && before(i, ins) {
					return true
				}
			}
		}
	}
	refs := p.refsTo(f)
	if len(refs) == 0 || f.Object() != nil && f.Object().Exported() {
		return false
	}
	for _, r := range refs {
		ci, ok := r.(*ssa.Call)
		if !ok || ci.Common().StaticCallee() != f || !p.afterOnce(r, once, depth+1) {
			return false
		}
	}
	return true
}

// globalUses classifies the uses of a package variable outside initialisation.
func (p *Program) globalUses(g *ssa.Global) (reads, writes []ssa.Instruction) {
	var through func(v ssa.Value, ins ssa.Instruction, depth int)
	through = func(v ssa.Value, at ssa.Instruction, depth int) {
		// v is an address inside, or a reference loaded from, the variable
		if depth > 8 || v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					writes = append(writes, x)
				} else {
					reads = append(reads, x)
				}
			case *ssa.FieldAddr:
				if !isSyncType(x.Type()) {
					through(x, x, depth+1)
				}
			case *ssa.IndexAddr:
				if x.X == v {
					through(x, x, depth+1)
				}
			case *ssa.Slice:
				through(x, x, depth+1)
			case *ssa.UnOp:
				reads = append(reads, x)
			case *ssa.MapUpdate:
				writes = append(writes, x)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "copy":
						if x.Call.Args[0] == v {
							writes = append(writes, x)
						}
					case "delete", "clear":
						writes = append(writes, x)
					case "append":
						through(x, x, depth+1)
					}
				}
			}
		}
	}
	for _, f := range p.funcs {
		if isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if op == nil || *op != ssa.Value(g) {
						continue
					}
					switch x := ins.(type) {
					case *ssa.Store:
						if x.Addr == ssa.Value(g) {
							writes = append(writes, x)
						}
					case *ssa.UnOp:
						reads = append(reads, x)
						switch x.Type().Underlying().(type) {
						case *types.Slice, *types.Map:
							through(x, x, 0)
						}
					case *ssa.FieldAddr:
						if !isSyncType(x.Type()) {
							through(x, x, 0)
						}
					case *ssa.IndexAddr:
						through(x, x, 0)
					}
				}
			}
		}
	}
	return
}

// setOnce: the package variable is changed only inside a sync.Once that runs before each use.
func (p *Program) setOnce(what string) bool {
	g, ok := p.pkg.Members[strings.TrimPrefix(what, "package variable ")].(*ssa.Global)
	if !ok {
		return false
	}
	rs, ws := p.globalUses(g)
	var once *ssa.Global
	for _, w := range ws {
		o := p.onceOf(w.Parent(), 0)
		if o == nil || once != nil && once != o {
			return false
		}
		once = o
	}
	for _, r := range rs {
		if once == nil || !p.afterOnce(r, once, 0) {
			return false
		}
	}
	return once != nil
}

// globalsOnce decides that package variables are safe to share.
func (c *Ctx) globalsOnce() {
	n := 0
	for _, m := range c.p.pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok || isSyncType(g.Type()) {
			continue
		}
		n++
		rs, ws := c.p.globalUses(g)
		nm := g.Name()
		if len(ws) == 0 {
			c.ob("package variable constant after start or set once", nm, true, nil, nil, 0, "", "")
			continue
		}
		in := &Interp{prog: c.p.prog, pkg: c.p.pkg}
		var once *ssa.Global
		for _, w := range ws {
			o := c.p.onceOf(w.Parent(), 0)
			ok := o != nil && (once == nil || once == o)
			c.ob("package variable constant after start or set once", nm, ok, in, nil, w.Pos(), shortFn(w.Parent()), "changed outside a sync.Once")
			if ok {
				once = o
			}
		}
		for _, r := range rs {
			ok := once == nil || c.p.afterOnce(r, once, 0)
			c.ob("package variable constant after start or set once", nm, ok, in, nil, r.Pos(), shortFn(r.Parent()), "used without its sync.Once having run")
		}
	}
	c.ob("package variables found", "package", n > 0, nil, nil, 0, "", "")
}
