package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// tableElems: the unit table holds n units of arbitrary ids; Range over it visits each until the
// function given to it returns false.
type tableElems struct {
	keys  []Lin
	banks []VPtr
	stops int // paths on which the function ended the enumeration
}

// enumerate makes sync.Map.Range visit n units one by one. With any, the enumeration starts at
// an arbitrary point: what the visiting function captured is unknown before each visit.
func (c *Ctx) enumerate(in *Interp, n int, any bool, visited func(st *State, before *State, i int, f VFunc, goOn Atom)) *tableElems {
	e := &tableElems{}
	nt := c.p.typ("NodeRegister")
	for i := 0; i < n; i++ {
		e.keys = append(e.keys, symL(namedSym(fmt.Sprintf("unit%d.id", i), 0, 255)))
		e.banks = append(e.banks, VPtr{obj: in.lazyObj(kCells, nt, fmt.Sprintf("unit%d", i)), nil_: zeroL})
	}
	in.override["(*sync.Map).Range"] = func(ci *callInfo) []callResult {
		f, ok := ci.args[1].(VFunc)
		if !ok {
			stop("the unit table is enumerated with an unknown function")
		}
		in.event(ci.fr, ci.st, &Event{kind: "maprange", name: ci.name, pos: ci.pos, vals: []Value{ci.args[0]}})
		cur := []*State{ci.st}
		var out []callResult
		for i := 0; i < n; i++ {
			var next []*State
			for _, st := range cur {
				nc := *ci
				nc.st = st
				if any {
					captured(st, f, func(p VPtr, v *ssa.FreeVar, fn *ssa.Function) {
						if !writesVar(fn, v) {
							return
						}
						in.havocArg(st, p)
						if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
							st.loadPath(st.obj(p.obj), p.path, pt.Elem())
						}
					})
				}
				before := st.clone()
				nc.sig = types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false)
				nc.types = nil
				nc.args = []Value{
					VIface{typ: types.Typ[types.Uint8], val: VInt{e.keys[i]}, nil_: zeroL},
					VIface{typ: types.NewPointer(nt), val: e.banks[i], nil_: zeroL},
				}
				for _, r := range in.callFunc(&nc, f) {
					if r.panic {
						out = append(out, callResult{st: r.st, panic: true})
						continue
					}
					a := in.boolAtom(r.st, r.rets[0])
					if visited != nil {
						visited(r.st, before, i, f, a)
					}
					y, z := r.st.fork(a)
					if z != nil {
						e.stops++
						out = append(out, callResult{st: z})
					}
					if y != nil {
						next = append(next, y)
					}
				}
			}
			cur = next
		}
		for _, st := range cur {
			out = append(out, callResult{st: st})
		}
		return out
	}
	in.override["(*sync.Map).Clear"] = func(ci *callInfo) []callResult {
		in.event(ci.fr, ci.st, &Event{kind: "mapclear", name: ci.name, pos: ci.pos, vals: ci.args})
		return []callResult{{st: ci.st}}
	}
	return e
}

// s08: the operations on the unit table.
func s08(c *Ctx) {
	unitTable(c)
	mk := func() (*Interp, *State, VPtr) {
		s := c.newSession()
		common := s.in.unknown(s.st, types.NewPointer(c.p.typ("serverCommon")), "session.common").(VPtr)
		common.nil_ = zeroL
		s.in.nonNil = func(t types.Type, name string) bool {
			return namedPtr(t, c.p.typ("NodeRegister")) || defaultNonNil(t, name)
		}
		return s.in, s.st, common
	}
	changes := []string{"mapstore", "mapupdate", "mapdel", "mapdelete", "mapclear"}
	const most = 3

	// the list of units: none when empty, and each visit appends exactly the unit visited
	fn := c.method("serverCommon", "GetNodeList")
	for n := 0; n <= most; n++ {
		in, st, common := mk()
		e := c.enumerate(in, n, false, nil)
		nm := fmt.Sprintf("GetNodeList of %d units", n)
		rs := c.noPanics("unit table operations return", nm, in, c.run(in, st, fn, []Value{common}))
		for _, x := range rs {
			s, isS := x.rets[0].(VSlice)
			ok := isS && provEq(x.st, s.len, con(int64(n)))
			got := map[int]int{}
			for i := 0; ok && i < n; i++ {
				off, isC := s.off.constVal()
				v, has := x.st.obj(s.arr).cells[fmt.Sprintf("[%d]", off+int64(i))]
				p, isP := v.(VPtr)
				if ok = isC && has && isP; ok {
					got[p.obj]++
				}
			}
			for _, b := range e.banks {
				ok = ok && got[b.obj] == 1
			}
			c.ob("the list holds each unit once", nm, ok, in, x.st, fn.Pos(), "GetNodeList", "the list of %d units is not exactly these", n)
			c.ob("listing changes nothing", nm, len(eventsOf(x.st, changes...)) == 0, in, x.st, fn.Pos(), "GetNodeList", "the unit table is changed")
			if isS && s.arr >= 0 {
				c.ob("the list is the caller's own", nm, x.st.obj(s.arr).owned, in, x.st, fn.Pos(), "GetNodeList", "the list is memory the server keeps")
			}
		}
		c.ob("the list holds each unit once", nm, len(rs) > 0, in, nil, fn.Pos(), "GetNodeList", "it never returns")
	}
	in, st, common := mk()
	visits := 0
	c.enumerate(in, 1, true, func(st, before *State, i int, f VFunc, goOn Atom) {
		visits++
		c.ob("every unit is visited", "GetNodeList", provAtom(st, goOn), in, st, fn.Pos(), "GetNodeList", "the enumeration may end before the last unit")
		was, is, ok := capturedLen(before, st, f)
		c.ob("a visit appends one unit", "GetNodeList", ok && provEq(st, is, was.add(oneL)), in, st, fn.Pos(), "GetNodeList", "the list does not grow by one")
	})
	c.noPanics("unit table operations return", "GetNodeList", in, c.run(in, st, fn, []Value{common}))
	c.ob("every unit is visited", "GetNodeList", visits > 0, in, nil, fn.Pos(), "GetNodeList", "the unit table is not enumerated")

	// removing all
	fn = c.method("serverCommon", "DeleteAllNode")
	for n := 0; n <= most; n++ {
		in, st, common := mk()
		e := c.enumerate(in, n, false, nil)
		nm := fmt.Sprintf("DeleteAllNode of %d units", n)
		for _, x := range c.noPanics("unit table operations return", nm, in, c.run(in, st, fn, []Value{common})) {
			ok := true
			for _, k := range e.keys {
				gone := len(eventsOf(x.st, "mapclear")) > 0
				for _, d := range eventsOf(x.st, "mapdel", "mapdelete") {
					v, isInt := ifaceVal(d.vals[1]).(VInt)
					gone = gone || isInt && unitKey(d.vals[1]) && provEq(x.st, v.l, k)
				}
				ok = ok && gone
			}
			c.ob("every unit is removed", nm, ok, in, x.st, fn.Pos(), "DeleteAllNode", "a unit may be left")
			c.ob("removing adds nothing", nm, len(eventsOf(x.st, "mapstore", "mapupdate")) == 0, in, x.st, fn.Pos(), "DeleteAllNode", "a unit is stored")
		}
	}
	in, st, common = mk()
	c.enumerate(in, 1, true, func(st, before *State, i int, f VFunc, goOn Atom) {
		c.ob("every unit is visited", "DeleteAllNode", provAtom(st, goOn), in, st, fn.Pos(), "DeleteAllNode", "the enumeration may end before the last unit")
		is := len(eventsOf(st, "mapdel", "mapdelete")) > len(eventsOf(before, "mapdel", "mapdelete"))
		if was, now, ok := capturedLen(before, st, f); ok {
			is = is || provEq(st, now, was.add(oneL))
		}
		c.ob("a visit removes its unit", "DeleteAllNode", is, in, st, fn.Pos(), "DeleteAllNode", "a unit is visited and kept")
	})
	c.noPanics("unit table operations return", "DeleteAllNode", in, c.run(in, st, fn, []Value{common}))

	// enumerating
	fn = c.method("serverCommon", "Range")
	for _, any := range []bool{false, true} {
		in, st, common := mk()
		n := most
		if any {
			n = 1
		}
		e := c.enumerate(in, n, any, nil)
		f, isF := in.unknown(st, fn.Params[1].Type(), "visit").(VFunc)
		if !isF {
			stop("Range has another signature")
		}
		f.nil_ = zeroL
		ends := map[int]bool{}
		var said []Atom
		in.override["callback"] = func(ci *callInfo) []callResult {
			if ci.name != f.id {
				return nil
			}
			goOn := boolSym(fmt.Sprintf("visit%d", len(said)))
			said = append(said, goOn)
			in.event(ci.fr, ci.st, &Event{kind: "callback", name: ci.name, pos: ci.pos, vals: append(append([]Value{}, ci.args...), VBool{goOn})})
			return []callResult{{st: ci.st, rets: []Value{VBool{goOn}}}}
		}
		nm := fmt.Sprintf("Range over %d units", n)
		for _, x := range c.noPanics("unit table operations return", nm, in, c.run(in, st, fn, []Value{common, f})) {
			es := eventsOf(x.st, "callback")
			ok, why := true, ""
			for i, cb := range es {
				if i >= n {
					ok, why = false, "a unit is visited twice"
					break
				}
				k, isInt := cb.vals[0].(VInt)
				p, isP := cb.vals[1].(VPtr)
				if !isInt || !isP || !provEq(x.st, k.l, e.keys[i]) || p.obj != e.banks[i].obj || p.path != "" {
					ok, why = false, "the function is called with another id or unit"
				}
				goOn := cb.vals[len(cb.vals)-1].(VBool).a
				if i+1 < len(es) && !provAtom(x.st, goOn) {
					ok, why = false, "it goes on after the function returned false"
				}
				if i+1 == len(es) && len(es) < n && !provAtom(x.st, goOn.not()) {
					ok, why = false, "it ends although the function returned true"
				}
			}
			if len(es) == 0 && n > 0 {
				ok, why = false, "no unit is visited"
			}
			ends[len(es)] = true
			c.ob("units are enumerated until the function returns false", nm, ok, in, x.st, fn.Pos(), "Range", "%s", why)
			c.ob("listing changes nothing", nm, len(eventsOf(x.st, changes...)) == 0, in, x.st, fn.Pos(), "Range", "the unit table is changed")
		}
		c.ob("units are enumerated until the function returns false", nm, len(ends) == n, in, nil, fn.Pos(), "Range", "it ends after %d different numbers of units, not %d", len(ends), n)
	}

	// nothing else changes the table
	c.onlyTableOps()
	c.atLeast("the list holds each unit once", most+1)
	c.atLeast("every unit is removed", most+1)
}

// writesVar: the function, or one made in it, may write the captured variable.
func writesVar(fn *ssa.Function, v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// captured visits the variables a function value has captured, those of captured functions included.
func captured(st *State, f VFunc, visit func(p VPtr, v *ssa.FreeVar, fn *ssa.Function)) {
	seen := map[*ssa.Function]bool{}
	var walk func(f VFunc)
	walk = func(f VFunc) {
		if f.fn == nil || seen[f.fn] {
			return
		}
		seen[f.fn] = true
		for i, b := range f.bind {
			switch x := b.(type) {
			case VFunc:
				walk(x)
			case VPtr:
				if x.obj < 0 || i >= len(f.fn.FreeVars) {
					continue
				}
				if g, ok := st.obj(x.obj).cells[x.path].(VFunc); ok {
					walk(g)
					continue
				}
				visit(x, f.fn.FreeVars[i], f.fn)
			}
		}
	}
	walk(f)
}

// capturedLen finds the one captured slice variable of a visiting function and its length before and after.
func capturedLen(before, after *State, f VFunc) (was, is Lin, ok bool) {
	n := 0
	captured(before, f, func(p VPtr, v *ssa.FreeVar, fn *ssa.Function) {
		x, isX := before.obj(p.obj).cells[p.path].(VSlice)
		y, isY := after.obj(p.obj).cells[p.path].(VSlice)
		if isX && isY && writesVar(fn, v) {
			was, is = x.len, y.len
			n++
		}
	})
	return was, is, n == 1
}

// onlyTableOps: the unit table of a server is changed by its own operations only.
func (c *Ctx) onlyTableOps() {
	for _, g := range c.p.funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				ci, isCall := ins.(ssa.CallInstruction)
				if !isCall || ci.Common().StaticCallee() == nil {
					continue
				}
				what := ci.Common().StaticCallee().String()
				switch what {
				case "(*sync.Map).Store", "(*sync.Map).Delete", "(*sync.Map).LoadOrStore", "(*sync.Map).LoadAndDelete", "(*sync.Map).Swap", "(*sync.Map).CompareAndSwap", "(*sync.Map).CompareAndDelete", "(*sync.Map).Clear":
				default:
					continue
				}
				ok := false
				for _, m := range []string{"AddNodes", "DeleteNode", "DeleteAllNode"} {
					fn := c.method("serverCommon", m)
					ok = ok || g == fn || c.p.reaches(fn, g)
				}
				c.ob("only the table's operations change it", shortFn(g), ok, nil, nil, ins.Pos(), shortFn(g), "the unit table is changed here")
			}
		}
	}
	for _, g := range []string{"AddNodes", "DeleteNode", "DeleteAllNode"} {
		fn := c.method("serverCommon", g)
		bad := c.p.reaches(c.p.frameFn(), fn) || c.p.reaches(c.p.sessionFn(), fn)
		c.ob("only the table's operations change it", g, !bad, nil, nil, fn.Pos(), g, "serving requests changes the unit table")
	}
}

func init() {
	register("S08", "Each operation on the unit table is interpreted abstractly on a server of unknown contents. Adding: every store must use the slave id of the bank it stores, and every bank given is stored, in order; removing and looking up must use exactly the id given; looking up returns the bank found or an error. The enumeration of the table visits 0 to 3 units of arbitrary ids one by one, and once one unit at an arbitrary point of the enumeration: the list must hold exactly the units visited and be new memory, removing all must remove the key of every unit, and Range must call the function with each id and unit until it returns false. No other function may change the table.", s08)
}
