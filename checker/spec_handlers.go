package main

// Specifications of the built-in function handlers: S03 to S07 and part of S02 and P02.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// cnf is a conjunction of disjunctions.
type cnf [][]Atom

func conj(as ...Atom) cnf {
	var c cnf
	for _, a := range as {
		c = append(c, []Atom{a})
	}
	return c
}

// surely: every clause holds in the state.
func (c cnf) surely(st *State) (bool, []Atom) {
	for _, cl := range c {
		var neg []Atom
		for _, a := range cl {
			neg = append(neg, a.not())
		}
		if len(cl) == 1 && provAtom(st, cl[0]) {
			continue
		}
		if !impossible(st, neg) {
			return false, cl
		}
	}
	return true, nil
}

// never: the conjunction cannot hold in the state.
func (c cnf) never(st *State) bool {
	var rec func(i int, s *State) bool
	rec = func(i int, s *State) bool {
		if !s.feasible() {
			return true
		}
		if i == len(c) {
			if s2, _ := congruent(s); s2 != nil && !s2.feasible() {
				return true
			}
			return false
		}
		for _, a := range c[i] {
			s2 := s.clone()
			s2.assume(a)
			if !rec(i+1, s2) {
				return false
			}
		}
		return true
	}
	// single atoms first: they are the cheap ones
	d := append(cnf(nil), c...)
	sort.SliceStable(d, func(i, j int) bool { return len(d[i]) < len(d[j]) })
	c = d
	return rec(0, st)
}

// handlerSpec is what the protocol says of a function code.
type handlerSpec struct {
	code  int64
	read  string // kind of the items answered
	write string // kind of the items stored
}

var handlerSpecs = []handlerSpec{
	{1, "coils", ""}, {2, "discrete", ""}, {3, "holding", ""}, {4, "input", ""},
	{5, "", "coils"}, {6, "", "holding"}, {15, "", "coils"}, {16, "", "holding"},
	{22, "", "holding"}, {23, "holding", "holding"},
}

// handlerRun is the analysis of one built-in handler on arbitrary request data.
type handlerRun struct {
	st *State // before the run
	handlerSpec
	known   bool // a code of the protocol
	name    string
	in      *Interp
	fn      *ssa.Function
	b       *bank
	data    *Snap
	dataArr int
	shape   cnf // well-formed length and quantities
	ranges  []Atom
	rs      []callResult
	touched map[string]map[bool]bool // kind -> write -> accessed, per run
}

func (r *handlerRun) byteAt(i int64) Lin {
	return readSnap(r.rs0(), r.data, con(i), 8)[0].val
}
func (r *handlerRun) rs0() *State { return r.in.newState() }
func (r *handlerRun) word(i int64) Lin {
	return r.byteAt(i).scale(256).add(r.byteAt(i + 1))
}

// the first item and the number of items read and written
func (r *handlerRun) readRange() (at, n Lin) { return r.word(0), r.word(2) }
func (r *handlerRun) writeRange() (at, n Lin) {
	switch r.code {
	case 5, 6, 22:
		return r.word(0), oneL
	case 23:
		return r.word(4), r.word(6)
	}
	return r.word(0), r.word(2)
}

// where the values to store begin in the request
func (r *handlerRun) valuesAt() int64 {
	switch r.code {
	case 5, 6:
		return 2
	case 23:
		return 9
	}
	return 5
}

func (r *handlerRun) within(kind string, at, n Lin) []Atom {
	k := r.b.kind(kind)
	return []Atom{ge(at, k.start), le(at.add(n), k.start.add(k.qty))}
}

func (r *handlerRun) spec() {
	n := r.data.n
	limits := func(q Lin, max int64) []Atom { return []Atom{ge(q, oneL), le(q, con(max))} }
	switch r.code {
	case 1, 2:
		r.shape = conj(append(limits(r.word(2), 2000), eq(n, con(4)))...)
	case 3, 4:
		r.shape = conj(append(limits(r.word(2), 125), eq(n, con(4)))...)
	case 5:
		v := r.word(2)
		r.shape = append(conj(eq(n, con(4))), []Atom{eq(v, con(0xFF00)), eq(v, zeroL)})
	case 6:
		r.shape = conj(eq(n, con(4)))
	case 15:
		bc := r.byteAt(4)
		r.shape = conj(append(limits(r.word(2), 1968), ge(n, con(5)), eq(bc, divL(r.word(2).addc(7), 8)), eq(n, bc.addc(5)))...)
	case 16:
		bc := r.byteAt(4)
		r.shape = conj(append(limits(r.word(2), 123), ge(n, con(5)), eq(bc, r.word(2).scale(2)), eq(n, bc.addc(5)))...)
	case 22:
		r.shape = conj(eq(n, con(6)))
	case 23:
		bc := r.byteAt(8)
		as := append(limits(r.word(2), 125), limits(r.word(6), 121)...)
		r.shape = conj(append(as, ge(n, con(9)), eq(bc, r.word(6).scale(2)), eq(n, bc.addc(9)))...)
	}
	if r.read != "" {
		at, q := r.readRange()
		r.ranges = append(r.ranges, r.within(r.read, at, q)...)
	}
	if r.write != "" {
		at, q := r.writeRange()
		r.ranges = append(r.ranges, r.within(r.write, at, q)...)
	}
}

// handlerMap finds the function table of a fresh server.
func handlerMap(c *Ctx, in *Interp, st *State) (*State, []mapEntry) {
	mk := c.fn("newServerCommon")
	rs := c.run(in, st, mk, nil)
	if len(rs) != 1 || rs[0].panic {
		stop("newServerCommon has no single outcome")
	}
	st = rs[0].st
	p, ok := rs[0].rets[0].(VPtr)
	if !ok {
		stop("newServerCommon does not return a pointer")
	}
	path, t := handlerField(c)
	ref, ok := st.loadPath(st.obj(p.obj), p.path+path, t).(VRef)
	if !ok || ref.obj < 0 {
		stop("a new server has no handler table")
	}
	return st, st.obj(ref.obj).mapv
}

// handlerField is the field of the server that holds the handlers.
func handlerField(c *Ctx) (string, types.Type) {
	ft := c.p.typ("FunctionHandler")
	var path string
	var typ types.Type
	n := 0
	leaves(c.p.typ("serverCommon"), "", func(p string, v *types.Var) {
		if m, ok := v.Type().Underlying().(*types.Map); ok && types.Identical(m.Elem(), ft) {
			path, typ = p, v.Type()
			n++
		}
	})
	if n != 1 {
		stop("serverCommon has %d handler tables", n)
	}
	return path, typ
}

// builtinHandlers are the functions of the default handler table.
func (c *Ctx) builtinHandlers() map[*ssa.Function]bool {
	in, st := c.interp()
	_, tab := handlerMap(c, in, st)
	out := map[*ssa.Function]bool{}
	for _, e := range tab {
		if fv, ok := e.val.(VFunc); ok && fv.fn != nil && len(fv.bind) == 0 {
			out[fv.fn] = true
		}
	}
	return out
}

// handlers runs every handler of the default table on arbitrary data.
func (c *Ctx) handlers(f func(r *handlerRun)) { c.handlersWith(nil, f) }

// handlersWith calls before when a handler is about to be run.
func (c *Ctx) handlersWith(before, f func(r *handlerRun)) {
	in, st := c.interp()
	bitHelpersModel(c, in)
	st, tab := handlerMap(c, in, st)
	st.ev = nil
	seen := map[int64]bool{}
	var codes []int64
	val := map[int64]Value{}
	for _, e := range tab {
		k, ok := e.key.constVal()
		if !ok {
			stop("the handler table has a key that is not constant")
		}
		if _, dup := val[k]; dup {
			continue
		}
		codes = append(codes, k)
		val[k] = e.val
	}
	sort.Slice(codes, func(i, j int) bool { return codes[i] < codes[j] })
	for _, k := range codes {
		fv, ok := val[k].(VFunc)
		if !ok || fv.fn == nil {
			c.ob("default handlers", fmt.Sprintf("function code %d", k), false, nil, nil, 0, "", "the handler of function code %d is not a known function", k)
			continue
		}
		r := &handlerRun{in: in, fn: fv.fn, name: fmt.Sprintf("function code %d (%s)", k, shortFn(fv.fn))}
		r.code = k
		for _, s := range handlerSpecs {
			if s.code == k {
				r.handlerSpec, r.known = s, true
			}
		}
		seen[k] = true
		s := st.clone()
		r.b = c.newBank(in, s, "bank", true)
		d, _ := inputSlice(in, s, tByte, "data", 65535)
		r.dataArr = d.arr
		r.data = sliceSnap(s, d)
		if r.known {
			r.spec()
		}
		r.touched = map[string]map[bool]bool{}
		in.onAccess = func(fr *Frame, st *State, o *Obj, path string, write bool, pos token.Pos, ins ssa.Instruction) {
			for _, k := range r.b.kinds {
				if o.id == k.slice.arr {
					if r.touched[k.name] == nil {
						r.touched[k.name] = map[bool]bool{}
					}
					r.touched[k.name][write] = true
				}
			}
		}
		r.st = s
		if before != nil {
			before(r)
		}
		ci := &callInfo{in: in, st: s, args: []Value{r.b.ptr, d}, sig: fv.fn.Signature, pos: fv.fn.Pos()}
		for _, x := range in.callFunc(ci, fv) {
			if x.st.feasible() {
				r.rs = append(r.rs, x)
				c.paths++
			}
		}
		in.onAccess, in.onEvent = nil, nil
		f(r)
	}
	for _, s := range handlerSpecs {
		c.ob("default handlers", fmt.Sprintf("function code %d", s.code), seen[s.code], nil, nil, c.fn("newServerCommon").Pos(), "newServerCommon", "function code %d has no handler by default", s.code)
	}
}

// outcomes splits the results: code is "" on success, "2", "3", "panic" or "?" otherwise.
func (r *handlerRun) outcomes(c *Ctx, f func(st *State, data Value, code string)) {
	for _, x := range r.rs {
		if x.panic {
			f(x.st, nil, "panic")
			continue
		}
		y, n := splitNil(x.st, x.rets[1])
		if y != nil {
			f(y, x.rets[0], "")
		}
		if n == nil {
			continue
		}
		for cur := n; cur != nil; {
			p, ok := exceptionOf(c, cur, x.rets[1])
			if !ok {
				f(cur, x.rets[0], "?")
				break
			}
			path, t, _ := fieldPath(c.p.typ("ExceptionError"), "ExceptionCode")
			v, ok := cur.loadPath(cur.obj(p.obj), p.path+path, t).(VInt)
			if !ok {
				f(cur, x.rets[0], "?")
				break
			}
			var y *State
			for _, k := range []int64{2, 3} {
				if cur == nil {
					break
				}
				y, cur = cur.fork(eq(v.l, con(k)))
				if y != nil && y.feasible() {
					f(y, x.rets[0], fmt.Sprint(k))
				}
			}
			if cur != nil && cur.feasible() {
				f(cur, x.rets[0], "?")
			}
			break
		}
	}
}

func named(code string) string {
	if code == "panic" {
		return "a panic"
	}
	if code == "?" {
		return "an error other than exceptions 2 and 3"
	}
	return "exception " + code
}

func s03(c *Ctx) {
	c.handlers(func(r *handlerRun) {
		if !r.known {
			return
		}
		n := map[string]int{}
		r.outcomes(c, func(st *State, data Value, code string) {
			n[code]++
			if code == "3" {
				c.ob("exception 3 only for malformed requests", r.name, r.shape.never(st), r.in, st, r.fn.Pos(), r.name, "a well-formed request may be answered with exception 3")
				return
			}
			ok, cl := r.shape.surely(st)
			how := "success"
			if code != "" {
				how = named(code)
			}
			c.ob("malformed requests are answered with exception 3", r.name, ok, r.in, st, r.fn.Pos(), r.name, "a request with not %v may be answered with %s", cl, how)
		})
		c.ob("outcomes found", r.name, n[""] > 0 && n["3"] > 0, r.in, nil, r.fn.Pos(), "", "%d successful and %d exception 3 paths", n[""], n["3"])
	})
	c.atLeast("malformed requests are answered with exception 3", 10)
	c.atLeast("exception 3 only for malformed requests", 10)
}

func s04(c *Ctx) {
	c.handlers(func(r *handlerRun) {
		if !r.known {
			return
		}
		n := map[string]int{}
		in := append(append(cnf{}, r.shape...), conj(r.ranges...)...)
		r.outcomes(c, func(st *State, data Value, code string) {
			n[code]++
			if code == "" {
				for _, a := range r.ranges {
					ok := provAtom(st, a)
					if !ok {
						ok = append(append(cnf{}, r.shape...), []Atom{a.not()}).never(st)
					}
					c.ob("success only inside the bank", r.name, ok, r.in, st, r.fn.Pos(), r.name, "succeeds where not %s", a)
				}
				return
			}
			c.ob("requests inside the bank succeed", r.name, in.never(st), r.in, st, r.fn.Pos(), r.name, "a well-formed request inside the bank may be answered with %s", named(code))
			if code != "2" {
				c.ob("ranges outside the bank are answered with exception 2", r.name, r.shape.never(st), r.in, st, r.fn.Pos(), r.name, "a well-formed request may be answered with %s", named(code))
			}
		})
		c.ob("outcomes found", r.name, n[""] > 0 && n["2"] > 0, r.in, nil, r.fn.Pos(), "", "%d successful and %d exception 2 paths", n[""], n["2"])
	})
	c.atLeast("success only inside the bank", 10)
	c.atLeast("requests inside the bank succeed", 10)
}

func (r *handlerRun) unchanged(c *Ctx, rule string, st *State, except string) {
	for _, k := range r.b.kinds {
		if k.name == except {
			continue
		}
		ok, why := r.b.unchanged(st, k, 0)
		c.ob(rule, r.name+" leaves "+k.name, ok, r.in, st, r.fn.Pos(), r.name, "the %s of the bank may change: %s", k.name, why)
	}
	ok, f := r.b.layoutSame(st)
	c.ob(rule, r.name+" leaves the layout", ok, r.in, st, r.fn.Pos(), r.name, "field %s of the bank changes", f)
	id, isInt := st.obj(r.b.ptr.obj).cells[r.b.slaveP].(VInt)
	c.ob(rule, r.name+" leaves the unit id", isInt && provEq(st, id.l, r.b.slave), r.in, st, r.fn.Pos(), r.name, "the unit id of the bank changes")
}

func s05(c *Ctx) {
	c.handlers(func(r *handlerRun) {
		n := 0
		r.outcomes(c, func(st *State, data Value, code string) {
			if code == "" || code == "panic" {
				return
			}
			n++
			r.unchanged(c, "exceptions change nothing", st, "")
		})
		c.ob("outcomes found", r.name, n > 0, r.in, nil, r.fn.Pos(), "", "%d failing paths", n)
	})
	bitHelpers(c)
	c.atLeast("exceptions change nothing", 60)
}

func s06(c *Ctx) {
	c.handlers(func(r *handlerRun) {
		n := 0
		r.outcomes(c, func(st *State, data Value, code string) {
			n++
			if !r.known {
				for _, k := range r.b.kinds {
					if k.name == "discrete" || k.name == "input" {
						ok, why := r.b.unchanged(st, k, 0)
						c.ob("other registers never change", r.name+" leaves "+k.name, ok, r.in, st, r.fn.Pos(), r.name, "the %s of the bank may change: %s", k.name, why)
					}
				}
				return
			}
			r.unchanged(c, "other registers never change", st, r.write)
			if r.write == "" {
				return
			}
			k := r.b.kind(r.write)
			at, q := r.writeRange()
			ok, why := k.sameExcept(st, func(st *State, i Lin) []readAlt {
				var out []readAlt
				y, n := st.fork(ge(k.start.add(i), at))
				if n != nil && n.feasible() {
					out = append(out, readAlt{n, k.before(i), true})
				}
				if y != nil {
					_, n := y.fork(lt(k.start.add(i), at.add(q)))
					if n != nil && n.feasible() {
						out = append(out, readAlt{n, k.before(i), true})
					}
				}
				return out
			})
			c.ob("writes stay inside the addressed range", r.name, ok, r.in, st, r.fn.Pos(), r.name, "%s", why)
		})
		c.ob("outcomes found", r.name, n > 1, r.in, nil, r.fn.Pos(), "", "%d paths", n)
	})
	bitHelpers(c)
	c.atLeast("other registers never change", 50)
	c.atLeast("writes stay inside the addressed range", 6)
}

// stored is what item i of the kind written must be after a successful write.
func (r *handlerRun) stored(st *State, i Lin) []readAlt {
	k := r.b.kind(r.write)
	at, q := r.writeRange()
	var out []readAlt
	rest := func(s *State) {
		if s != nil && s.feasible() {
			out = append(out, readAlt{s, k.before(i), true})
		}
	}
	y, n := st.fork(ge(k.start.add(i), at))
	rest(n)
	if y == nil {
		return out
	}
	y, n = y.fork(lt(k.start.add(i), at.add(q)))
	rest(n)
	if y == nil || !y.feasible() {
		return out
	}
	j := i.add(k.start).sub(at)
	from := r.data.off.addc(r.valuesAt())
	switch {
	case r.code == 5:
		a, b := y.fork(eq(r.word(2), con(0xFF00)))
		if a != nil && a.feasible() {
			out = append(out, readAlt{a, oneL, true})
		}
		if b != nil && b.feasible() {
			out = append(out, readAlt{b, zeroL, true})
		}
	case k.bits:
		out = append(out, y.bitAt(r.data.c, from.scale(8).add(j), 0)...)
	default:
		for _, hi := range y.read(r.data.c, from.add(j.scale(2)), 8) {
			for _, lo := range hi.st.read(r.data.c, from.add(j.scale(2)).addc(1), 8) {
				out = append(out, readAlt{lo.st, hi.val.scale(256).add(lo.val), true})
			}
		}
	}
	return out
}

func (r *handlerRun) storedRight(st *State) (bool, string) {
	k := r.b.kind(r.write)
	if r.code != 22 {
		return k.sameExcept(st, r.stored)
	}
	i := symL(freshSym("i", 0, 1<<24))
	at, _ := r.writeRange()
	s := st.clone()
	for _, a := range s.read(s.obj(k.slice.arr).c, i, 16) {
		if !a.st.feasible() {
			continue
		}
		y, n := a.st.fork(eq(i.add(k.start), at))
		if n != nil && n.feasible() && !provEq(n, a.val, k.before(i)) {
			return false, "another register changes"
		}
		if y != nil && y.feasible() {
			if ok, why := maskRight(y, a.val, k.before(at.sub(k.start)), r.word(2), r.word(4)); !ok {
				return false, why
			}
		}
	}
	return true, ""
}

// answerRight: the data of a successful response.
func (r *handlerRun) answerRight(st *State, v Value) (bool, string) {
	s, ok := v.(VSlice)
	if !ok {
		return false, "no data is returned"
	}
	snap := sliceSnap(st, s)
	if r.read == "" {
		n := int64(4)
		if r.code == 22 {
			n = 6
		}
		if !provEq(st, s.len, con(n)) {
			return false, fmt.Sprintf("the echo has %s bytes, expected %d", s.len, n)
		}
		for i := int64(0); i < n; i++ {
			if ok, why := elemIs(st, snap, con(i), 8, r.byteAt(i)); !ok {
				return false, fmt.Sprintf("byte %d of the echo %s", i, why)
			}
		}
		return true, ""
	}
	k := r.b.kind(r.read)
	at, q := r.readRange()
	bytes := q.scale(2)
	if k.bits {
		bytes = divL(q.addc(7), 8)
	}
	if !provEq(st, s.len, bytes.addc(1)) {
		return false, fmt.Sprintf("%s bytes are answered, expected %s", s.len, bytes.addc(1))
	}
	if ok, why := elemIs(st, snap, zeroL, 8, bytes); !ok {
		return false, "the byte count " + why
	}
	idx := at.sub(k.start)
	val := &Snap{snap.c, snap.off.addc(1), snap.n.addc(-1)}
	if k.bits {
		return bitsAre(st, val, func(st *State, i Lin) []readAlt {
			y, n := st.fork(lt(i, q))
			var out []readAlt
			if y != nil {
				out = append(out, readAlt{y, k.before(idx.add(i)), true})
			}
			if n != nil {
				out = append(out, readAlt{n, zeroL, true})
			}
			return out
		})
	}
	return wordsAre(st, val, q, func(st *State, i Lin) []readAlt {
		if r.write == r.read {
			return r.stored(st, idx.add(i))
		}
		return []readAlt{{st, k.before(idx.add(i)), true}}
	})
}

func s07(c *Ctx) {
	c.handlers(func(r *handlerRun) {
		if !r.known {
			return
		}
		n := 0
		r.outcomes(c, func(st *State, data Value, code string) {
			if code != "" {
				return
			}
			n++
			ok, why := r.answerRight(st, data)
			c.ob("the answer carries the data of the protocol", r.name, ok, r.in, st, r.fn.Pos(), r.name, "%s", why)
			if r.write != "" {
				ok, why = r.storedRight(st)
				c.ob("writes store the values of the request", r.name, ok, r.in, st, r.fn.Pos(), r.name, "%s", why)
			}
		})
		c.ob("outcomes found", r.name, n > 0, r.in, nil, r.fn.Pos(), "", "%d successful paths", n)
	})
	bitHelpers(c)
	c.atLeast("the answer carries the data of the protocol", 10)
	c.atLeast("writes store the values of the request", 6)
}

func init() {
	register("S03", "Every handler of the table a new server is built with is interpreted abstractly on request data of arbitrary content and length and a bank of arbitrary layout and content. On every path that does not answer exception 3 the well-formedness condition of the function code (length, quantity limits, byte count, coil value) must be entailed by the path condition; on every path that does, it must contradict it.", s03)
	register("S04", "On the same paths: success must entail that the addressed ranges lie inside the bank; a failing path must contradict that the request is well formed and inside; a failing path that is not exception 2 must contradict well-formedness.", s04)
	register("S05", "On every failing path of every built-in handler the symbolic contents of the four stores, the layout and the unit id of the bank must be the original ones, for an arbitrary index.", s05)
	register("S06", "On every path of every built-in handler the stores the function may not write must have their original contents, and in the written store an item at an arbitrary index outside the addressed range must have its original value. The bit helpers are decided on all positions and widths.", s06)
	register("S07", "On every successful path of every built-in handler, for an arbitrary index: the bytes returned are the byte count and the original (for read/write: the stored) values of the addressed items in protocol order, or the prescribed echo of the request; the written store holds the values of the request, a mask write its formula bit by bit.", s07)
}
