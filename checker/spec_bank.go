package main

// Specifications of the register bank: R01 to R05 and P03.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type bankOp struct {
	name  string
	kind  string
	shape string // wbits wbit rbits rbit wbytes wwords rbytes rwords mask
}

var bankOps = []bankOp{
	{"WriteCoils", "coils", "wbits"}, {"WriteSingleCoil", "coils", "wbit"}, {"ReadCoils", "coils", "rbits"}, {"ReadSingleCoil", "coils", "rbit"},
	{"WriteDiscretes", "discrete", "wbits"}, {"WriteSingleDiscrete", "discrete", "wbit"}, {"ReadDiscretes", "discrete", "rbits"}, {"ReadSingleDiscrete", "discrete", "rbit"},
	{"WriteHoldingsBytes", "holding", "wbytes"}, {"WriteHoldings", "holding", "wwords"}, {"ReadHoldingsBytes", "holding", "rbytes"}, {"ReadHoldings", "holding", "rwords"},
	{"WriteInputsBytes", "input", "wbytes"}, {"WriteInputs", "input", "wwords"}, {"ReadInputsBytes", "input", "rbytes"}, {"ReadInputs", "input", "rwords"},
	{"MaskWriteHolding", "holding", "mask"},
}

// bankRun is the analysis of one operation on an arbitrary bank.
type bankRun struct {
	op      bankOp
	in      *Interp
	fn      *ssa.Function
	b       *bank
	k       *store
	address Lin
	q       Lin // items addressed
	buf     *Snap
	bufArr  int
	val     Atom
	and, or Lin
	legal   []Atom
	rs      []callResult
	objs    int // objects that existed before the call
}

func (r *bankRun) reads() bool { return r.op.shape[0] == 'r' }
func (r *bankRun) bits() bool  { return r.k.bits }

// index of the first item addressed
func (r *bankRun) idx() Lin { return r.address.sub(r.k.start) }

func (c *Ctx) bankRun(op bankOp, inSpace bool, pre func(*bankRun)) *bankRun {
	in, st := c.interp()
	bitHelpersModel(c, in)
	b := c.newBank(in, st, "bank", inSpace)
	r := &bankRun{op: op, in: in, b: b, k: b.kind(op.kind), fn: c.method("NodeRegister", op.name), bufArr: -1}
	r.address = symL(namedSym("address", 0, 65535))
	args := []Value{b.ptr, VInt{r.address}}
	quantity := func() {
		r.q = symL(namedSym("quantity", 0, 65535))
		args = append(args, VInt{r.q})
	}
	slice := func(el types.Type) {
		s, _ := inputSlice(in, st, el, "values", 0)
		r.buf = sliceSnap(st, s)
		r.bufArr = s.arr
		args = append(args, s)
	}
	r.q = oneL
	r.legal = nil
	switch op.shape {
	case "wbits":
		quantity()
		slice(tByte)
		r.legal = append(r.legal, ge(r.buf.n.scale(8), r.q))
	case "wbytes":
		quantity()
		slice(tByte)
		r.legal = append(r.legal, eq(r.buf.n, r.q.scale(2)))
	case "wwords":
		slice(types.Typ[types.Uint16])
		r.q = r.buf.n
	case "wbit":
		r.val = boolSym("value")
		args = append(args, VBool{r.val})
	case "rbits", "rbytes", "rwords":
		quantity()
	case "mask":
		r.and, r.or = symL(namedSym("andMask", 0, 65535)), symL(namedSym("orMask", 0, 65535))
		args = append(args, VInt{r.and}, VInt{r.or})
	}
	r.legal = append(r.legal, ge(r.address, r.k.start), le(r.address.add(r.q), r.k.start.add(r.k.qty)))
	if len(r.fn.Params) != len(args) {
		stop("NodeRegister.%s has another signature", op.name)
	}
	r.objs = in.nObj
	if pre != nil {
		pre(r)
	}
	r.rs = c.run(in, st, r.fn, args)
	return r
}

// outcomes calls f with every returning result, split on success.
func (r *bankRun) outcomes(f func(x callResult, ok bool)) {
	for _, x := range r.rs {
		if x.panic {
			continue
		}
		y, n := splitNil(x.st, x.rets[len(x.rets)-1])
		if y != nil {
			f(callResult{st: y, rets: x.rets}, true)
		}
		if n != nil {
			f(callResult{st: n, rets: x.rets}, false)
		}
	}
}

// isException: the error is an *ExceptionError with the code.
func isException(c *Ctx, st *State, v Value, code int64) bool {
	p, ok := exceptionOf(c, st, v)
	if !ok {
		return false
	}
	path, t, ok := fieldPath(c.p.typ("ExceptionError"), "ExceptionCode")
	if !ok {
		return false
	}
	iv, ok := st.loadPath(st.obj(p.obj), p.path+path, t).(VInt)
	return ok && st.entails(eq(iv.l, con(code)))
}

// noData: a result that carries nothing.
func noData(st *State, v Value) bool {
	switch x := v.(type) {
	case VSlice:
		return x.arr < 0 || st.entails(eq(x.len, zeroL))
	case VBool:
		return st.entails(x.a.not())
	case VInt:
		return st.entails(eq(x.l, zeroL))
	}
	return false
}

func (r *bankRun) othersUnchanged(c *Ctx, rule string, st *State, all bool) {
	for _, k := range r.b.kinds {
		if k == r.k && !all {
			continue
		}
		ok, why := r.b.unchanged(st, k, 0)
		c.ob(rule, r.op.name+" leaves "+k.name, ok, r.in, st, r.fn.Pos(), r.op.name, "the %s of the bank may change: %s", k.name, why)
	}
	ok, f := r.b.layoutSame(st)
	c.ob("layout of the bank never changes", r.op.name, ok, r.in, st, r.fn.Pos(), r.op.name, "field %s of the bank changes", f)
}

func r01(c *Ctx) {
	for _, op := range bankOps {
		r := c.bankRun(op, true, nil)
		c.noPanics("returns", op.name, r.in, r.rs)
		n := map[bool]int{}
		r.outcomes(func(x callResult, ok bool) {
			n[ok]++
			if ok {
				for _, a := range r.legal {
					c.ob("accepted only inside the bank", op.name, provAtom(x.st, a), r.in, x.st, r.fn.Pos(), op.name, "succeeds where not %s", a)
				}
				return
			}
			c.ob("refused only outside the bank", op.name, impossible(x.st, r.legal), r.in, x.st, r.fn.Pos(), op.name, "an access inside the bank may be refused")
			err := x.rets[len(x.rets)-1]
			c.ob("refusals are illegal data address", op.name, isException(c, x.st, err, 2), r.in, x.st, r.fn.Pos(), op.name, "the error is not exception 2 (illegal data address)")
			for _, v := range x.rets[:len(x.rets)-1] {
				c.ob("refusals carry no data", op.name, noData(x.st, v), r.in, x.st, r.fn.Pos(), op.name, "data is returned with the error")
			}
			r.othersUnchanged(c, "refusals change nothing", x.st, true)
		})
		c.ob("both outcomes found", op.name, n[true] > 0 && n[false] > 0, r.in, nil, r.fn.Pos(), "", "%d successful and %d refusing paths", n[true], n[false])
	}
	for _, m := range []struct{ name, kind string }{{"CoilsAddrParam", "coils"}, {"DiscreteParam", "discrete"}, {"InputAddrParam", "input"}, {"HoldingAddrParam", "holding"}} {
		in, st := c.interp()
		b := c.newBank(in, st, "bank", true)
		k := b.kind(m.kind)
		fn := c.method("NodeRegister", m.name)
		for _, x := range c.noPanics("returns", m.name, in, c.run(in, st, fn, []Value{b.ptr})) {
			s, ok1 := x.rets[0].(VInt)
			q, ok2 := x.rets[1].(VInt)
			c.ob("reported range is the configured one", m.name, ok1 && ok2 && provEq(x.st, s.l, k.start) && provEq(x.st, q.l, k.qty), in, x.st, fn.Pos(), m.name, "reports start %v, quantity %v", s.l, q.l)
			ok, f := b.layoutSame(x.st)
			c.ob("layout of the bank never changes", m.name, ok, in, x.st, fn.Pos(), m.name, "field %s changes", f)
		}
	}
	newBankCheck(c, true, false)
	layoutFixed(c)
	c.atLeast("accepted only inside the bank", len(bankOps))
	c.atLeast("refused only outside the bank", len(bankOps))
	c.atLeast("reported range is the configured one", 4)
}

// layoutFixed: no code outside the constructor writes a field of the layout.
func layoutFixed(c *Ctx) {
	u := c.p.fieldUses()
	n := 0
	for f, name := range c.bankFields() {
		n++
		c.ob("layout is set once", "NodeRegister."+name, !u.stored[f], nil, nil, f.Pos(), "", "field %s is written, or its address taken, outside the construction of a bank", name)
	}
	c.ob("layout is set once", "NodeRegister", n == 10, nil, nil, 0, "", "%d layout fields found", n)
}

// newBankCheck decides what NewNodeRegister builds.
func newBankCheck(c *Ctx, config, storage bool) {
	in, st := c.interp()
	fn := c.fn("NewNodeRegister")
	if len(fn.Params) != 9 {
		stop("NewNodeRegister has another signature")
	}
	var args []Value
	var ls []Lin
	for i, n := range []string{"slaveID", "coilsAddrStart", "coilsQuantity", "discreteAddrStart", "discreteQuantity", "inputAddrStart", "inputQuantity", "holdingAddrStart", "holdingQuantity"} {
		hi := int64(65535)
		if i == 0 {
			hi = 255
		}
		l := symL(namedSym("new."+n, 0, hi))
		ls = append(ls, l)
		args = append(args, VInt{l})
	}
	objs := in.nObj
	nt := c.p.typ("NodeRegister")
	for _, x := range c.noPanics("construction returns", "NewNodeRegister", in, c.run(in, st, fn, args)) {
		p, ok := x.rets[0].(VPtr)
		if !ok || !x.st.entails(eq(p.nil_, zeroL)) {
			c.ob("construction returns", "NewNodeRegister", false, in, x.st, fn.Pos(), "", "no bank is returned")
			continue
		}
		o := x.st.obj(p.obj)
		get := func(name string) (string, Value) {
			path, t, ok := fieldPath(nt, name)
			if !ok {
				stop("NodeRegister has no field %s", name)
			}
			return name, x.st.loadPath(o, p.path+path, t)
		}
		same := func(name string, want Lin) {
			_, v := get(name)
			iv, ok := v.(VInt)
			c.ob("banks are built as configured", name, ok && provEq(x.st, iv.l, want), in, x.st, fn.Pos(), "NewNodeRegister", "%s is %v, configured is %s", name, v, want)
		}
		if config {
			same("slaveID", ls[0])
			same("coilsAddrStart", ls[1])
			same("coilsQuantity", ls[2])
			same("discreteAddrStart", ls[3])
			same("discreteQuantity", ls[4])
			same("inputAddrStart", ls[5])
			same("holdingAddrStart", ls[7])
		}
		var ss []VSlice
		for i, k := range bankKinds {
			_, v := get(k.name)
			s, ok := v.(VSlice)
			want := ls[2+2*i]
			if k.bits {
				want = divL(want.addc(7), 8)
			}
			c.ob("storage has the configured size", k.name, ok && provEq(x.st, s.len, want) && x.st.entails(ge(s.cap, s.len)), in, x.st, fn.Pos(), "NewNodeRegister", "the storage of %s has %v elements, configured are %s", k.name, s.len, want)
			if !ok {
				continue
			}
			ss = append(ss, s)
			if !storage || s.arr < 0 {
				continue
			}
			ao := x.st.obj(s.arr)
			c.ob("storage is the bank's own", k.name, ao.id > objs && ao.owned && in.lazy[ao.id] == nil, in, x.st, fn.Pos(), "NewNodeRegister", "the storage of %s is not allocated for this bank", k.name)
			okz, why := allElems(x.st, sliceSnap(x.st, s), zeroL, s.len, 16, func(st *State, i Lin) []readAlt { return []readAlt{{st, zeroL, true}} })
			c.ob("storage starts as zero", k.name, okz, in, x.st, fn.Pos(), "NewNodeRegister", "%s", why)
		}
		if !storage {
			continue
		}
		for i := range ss {
			for j := 0; j < i; j++ {
				ok := ss[i].arr != ss[j].arr || x.st.entails(le(ss[i].off.add(ss[i].len), ss[j].off)) || x.st.entails(le(ss[j].off.add(ss[j].len), ss[i].off))
				c.ob("kinds have disjoint storage", bankKinds[j].name+"/"+bankKinds[i].name, ok, in, x.st, fn.Pos(), "NewNodeRegister", "the storage of %s and %s overlaps", bankKinds[j].name, bankKinds[i].name)
			}
		}
	}
	c.atLeast("storage has the configured size", 4)
}

// itemsIs: the result of a read, item by item.
func (r *bankRun) readRight(st *State, v Value) (bool, string) {
	s, ok := v.(VSlice)
	if !ok && r.op.shape != "rbit" {
		return false, "no slice is returned"
	}
	before := func(st *State, i Lin) []readAlt { return []readAlt{{st, r.k.before(r.idx().add(i)), true}} }
	switch r.op.shape {
	case "rbit":
		b, ok := v.(VBool)
		if !ok {
			return false, "no boolean is returned"
		}
		bit := r.k.before(r.idx())
		y, n := st.fork(b.a)
		if y != nil && y.feasible() && !provEq(y, bit, oneL) {
			return false, "true is returned for a bit that is " + bit.String()
		}
		if n != nil && n.feasible() && !provEq(n, bit, zeroL) {
			return false, "false is returned for a bit that is " + bit.String()
		}
		return true, ""
	case "rbits":
		if want := divL(r.q.addc(7), 8); !provEq(st, s.len, want) {
			return false, fmt.Sprintf("%s bytes are returned, expected %s", s.len, want)
		}
		return bitsAre(st, sliceSnap(st, s), func(st *State, i Lin) []readAlt {
			y, n := st.fork(lt(i, r.q))
			var out []readAlt
			if y != nil {
				out = append(out, readAlt{y, r.k.before(r.idx().add(i)), true})
			}
			if n != nil {
				out = append(out, readAlt{n, zeroL, true})
			}
			return out
		})
	case "rwords":
		if !provEq(st, s.len, r.q) {
			return false, fmt.Sprintf("%s words are returned, expected %s", s.len, r.q)
		}
		return allElems(st, sliceSnap(st, s), zeroL, s.len, 16, before)
	case "rbytes":
		if want := r.q.scale(2); !provEq(st, s.len, want) {
			return false, fmt.Sprintf("%s bytes are returned, expected %s", s.len, want)
		}
		return wordsAre(st, sliceSnap(st, s), r.q, before)
	}
	return false, "?"
}

// bitsAre: bit i of the bytes is want(i), for all their bits.
func bitsAre(st *State, s *Snap, want func(st *State, i Lin) []readAlt) (bool, string) {
	s2 := st.clone()
	i := symL(freshSym("i", 0, 1<<24))
	s2.assume(lt(i, s.n.scale(8)))
	if !s2.feasible() {
		return true, ""
	}
	for _, w := range want(s2, i) {
		if !w.st.feasible() {
			continue
		}
		for _, a := range w.st.clone().bitAt(s.c, s.off.scale(8).add(i), 0) {
			if a.st.feasible() && !provEq(a.st, a.val, w.val) {
				return false, fmt.Sprintf("bit %s is %s, expected %s", i, a.val, w.val)
			}
		}
	}
	return true, ""
}

// wordsAre: the bytes are the words want(i), i < n, high byte first.
func wordsAre(st *State, s *Snap, n Lin, want func(st *State, i Lin) []readAlt) (bool, string) {
	s2 := st.clone()
	i := symL(freshSym("i", 0, 1<<24))
	s2.assume(lt(i, n))
	if !s2.feasible() {
		return true, ""
	}
	for _, w := range want(s2, i) {
		if !w.st.feasible() {
			continue
		}
		for _, hi := range readSnap(w.st.clone(), s, i.scale(2), 8) {
			for _, lo := range readSnap(hi.st.clone(), s, i.scale(2).addc(1), 8) {
				if got := hi.val.scale(256).add(lo.val); !provEq(lo.st, got, w.val) {
					return false, fmt.Sprintf("word %s is %s, expected %s", i, got, w.val)
				}
			}
		}
	}
	return true, ""
}

// written: the storage of the kind holds what a write must leave.
func (r *bankRun) writeRight(st *State) (bool, string) {
	if r.op.shape == "mask" {
		// a mask write is compared bit by bit
		i := symL(freshSym("i", 0, 1<<24))
		s := st.clone()
		for _, a := range s.read(s.obj(r.k.slice.arr).c, i, 16) {
			if !a.st.feasible() {
				continue
			}
			y, n := a.st.fork(eq(i, r.idx()))
			if n != nil && n.feasible() && !provEq(n, a.val, r.k.before(i)) {
				return false, "another register changes"
			}
			if y != nil && y.feasible() {
				if ok, why := maskRight(y, a.val, r.k.before(r.idx()), r.and, r.or); !ok {
					return false, why
				}
			}
		}
		return true, ""
	}
	return r.k.sameExcept(st, func(st *State, i Lin) []readAlt {
		var out []readAlt
		rest := func(s *State) {
			if s != nil && s.feasible() {
				out = append(out, readAlt{s, r.k.before(i), true})
			}
		}
		y, n := st.fork(ge(i, r.idx()))
		rest(n)
		if y == nil {
			return out
		}
		y, n = y.fork(lt(i, r.idx().add(r.q)))
		rest(n)
		if y == nil || !y.feasible() {
			return out
		}
		j := i.sub(r.idx())
		switch r.op.shape {
		case "wbits":
			out = append(out, y.bitAt(r.buf.c, r.buf.off.scale(8).add(j), 0)...)
		case "wbit":
			a, b := y.fork(r.val)
			if a != nil {
				out = append(out, readAlt{a, oneL, true})
			}
			if b != nil {
				out = append(out, readAlt{b, zeroL, true})
			}
		case "wwords":
			out = append(out, readSnap(y, r.buf, j, 16)...)
		case "wbytes":
			for _, hi := range readSnap(y, r.buf, j.scale(2), 8) {
				for _, lo := range readSnap(hi.st, r.buf, j.scale(2).addc(1), 8) {
					out = append(out, readAlt{lo.st, hi.val.scale(256).add(lo.val), true})
				}
			}
		}
		return out
	})
}

// maskRight: got = (old AND and) OR (or AND NOT and), bit by bit.
func maskRight(st *State, got, old, and, or Lin) (bool, string) {
	// elements at provably equal positions have one name
	m := map[*Sym]Lin{}
	os, gs := map[*Sym]bool{}, map[*Sym]bool{}
	inputSyms(old, os)
	symsIn(got, func(s *Sym) {
		if s.kind == 'i' {
			gs[s] = true
		}
	})
	for g := range gs {
		for o := range os {
			if g != o && g.base == o.base && st.entails(eq(g.off, o.off)) {
				m[g] = symL(o)
			}
		}
	}
	got = newSubst(m).lin(got)
	gv, ok := linToBV(got, 16)
	if !ok {
		return false, "the new value is " + got.String()
	}
	ov, ok1 := linToBV(old, 16)
	av, ok2 := linToBV(and, 16)
	rv, ok3 := linToBV(or, 16)
	if !ok1 || !ok2 || !ok3 {
		return false, "the arguments have no bits"
	}
	for i := 0; i < 16; i++ {
		x, _ := polyAnd(ov[i], av[i])
		y, _ := polyAnd(rv[i], polyNot(av[i]))
		xy, _ := polyAnd(x, y)
		want := polyXor(polyXor(x, y), xy)
		if !polyEq(want, gv[i]) {
			return false, fmt.Sprintf("bit %d of the new value is not (old AND and-mask) OR (or-mask AND NOT and-mask)", i)
		}
	}
	return true, ""
}

func symsIn(l Lin, f func(*Sym)) {
	l.mentions(func(s *Sym) bool {
		f(s)
		if s.kind == 'b' {
			for _, p := range s.bits {
				for _, m := range p {
					for _, id := range m.atoms() {
						f(bitAtoms[id].s)
					}
				}
			}
		}
		return false
	})
}

// contents decides reads and writes of word or bit registers.
func contents(c *Ctx, bits bool) {
	n := 0
	for _, op := range bankOps {
		if bits != (op.kind == "coils" || op.kind == "discrete") {
			continue
		}
		n++
		r := c.bankRun(op, true, nil)
		c.noPanics("returns", op.name, r.in, r.rs)
		r.outcomes(func(x callResult, ok bool) {
			if !ok {
				r.othersUnchanged(c, "nothing else changes", x.st, true)
				return
			}
			r.othersUnchanged(c, "nothing else changes", x.st, r.reads())
			if r.reads() {
				ok, why := r.readRight(x.st, x.rets[0])
				c.ob("reads return the current values", op.name, ok, r.in, x.st, r.fn.Pos(), op.name, "%s", why)
			} else {
				ok, why := r.writeRight(x.st)
				c.ob("writes store the given values and nothing else", op.name, ok, r.in, x.st, r.fn.Pos(), op.name, "%s", why)
			}
		})
	}
	layoutFixed(c)
	newBankCheck(c, false, true)
	w, rd := 5, 4
	if bits {
		w = 4
	}
	c.atLeast("reads return the current values", rd)
	c.atLeast("writes store the given values and nothing else", w)
}

func r03(c *Ctx) {
	bitHelpers(c)
	contents(c, true)
}

func p03(c *Ctx) {
	ops := map[string]bool{}
	released := func(name string, in *Interp, rs []callResult) {
		c.noPanics("no panic", name, in, rs)
		for _, x := range rs {
			held := ""
			var pos token.Pos
			for _, h := range x.st.held {
				held += " " + h.key
				pos = h.pos
			}
			c.ob("no lock is left", name, held == "", in, x.st, pos, name, "returns holding%s", held)
		}
		bad := lockIssues(in)
		c.ob("locks are used in order", name, len(bad) == 0, in, nil, 0, name, "%s", first(bad))
		ops[name] = true
	}
	for _, op := range bankOps {
		r := c.bankRun(op, false, nil)
		released(op.name, r.in, r.rs)
	}
	bitHelpers(c)
	for _, m := range c.methodsOf("NodeRegister") {
		if !token.IsExported(m) || ops[m] {
			continue
		}
		in, st := c.interp()
		bitHelpersModel(c, in)
		b := c.newBank(in, st, "bank", false)
		fn := c.method("NodeRegister", m)
		args := []Value{b.ptr}
		for _, p := range fn.Params[1:] {
			args = append(args, in.unknown(st, p.Type(), p.Name()))
		}
		released(m, in, c.run(in, st, fn, args))
	}
	newBankCheck(c, false, false)
	layoutFixed(c)
	c.atLeast("no panic", len(bankOps)+6)
}

func first(s []string) string {
	if len(s) == 0 {
		return ""
	}
	return s[0]
}

// lockIssues lists the misuses of locks the interpreter met.
func lockIssues(in *Interp) []string {
	var out []string
	for _, i := range in.issues {
		out = append(out, i.kind+": "+i.msg+" at "+in.pos(i.pos)+" ("+i.chain+")")
	}
	sort.Strings(out)
	return out
}

// lockSections watches the accesses to the contents of a bank: under its lock, and if one is set
// in one section of the lock.
func (c *Ctx) lockSections(name string, in *Interp, b *bank, one bool, seen func(fr *Frame)) {
	arrs := map[int]string{}
	for _, k := range b.kinds {
		arrs[k.slice.arr] = k.name
	}
	in.onAccess = func(fr *Frame, st *State, o *Obj, path string, write bool, pos token.Pos, ins ssa.Instruction) {
		seen(fr)
		what, isArr := arrs[o.id]
		if !isArr {
			return
		}
		ok := false
		for _, h := range st.held {
			if h.obj == b.ptr.obj && (h.rw == 'w' || !write) {
				ok = true
			}
		}
		verb := "read"
		if write {
			verb = "written"
		}
		c.ob("storage is accessed under the lock", name+" "+what, ok, in, st, pos, fr.chain(), "the %s of the bank are %s without the lock of the bank (for writing, the exclusive one)", what, verb)
		if one && ok {
			c.ob("one lock section per operation", name, st.mon["section"] != "another", in, st, pos, fr.chain(), "the storage is accessed in more than one lock section of the operation")
		}
		if st.mon["section"] == "" {
			st.mon["section"] = "used"
		}
	}
	in.onEvent = func(fr *Frame, st *State, e *Event) {
		if e.kind == "lock" && st.mon["section"] == "used" {
			st.mon["section"] = "another"
		}
	}
}

// s09: a request is one step on its bank.
func s09(c *Ctx) {
	n, with := 0, map[int64]int{}
	c.handlersWith(func(r *handlerRun) {
		c.lockSections(r.name, r.in, r.b, true, func(fr *Frame) { n++; with[r.code] = n })
	}, func(r *handlerRun) {
		c.noPanics("built-in handlers do not panic", r.name, r.in, r.rs)
		bad := lockIssues(r.in)
		c.ob("locks are used in order", r.name, len(bad) == 0, r.in, nil, 0, r.name, "%s", first(bad))
		for _, x := range r.rs {
			c.ob("a request leaves the bank unlocked", r.name, len(x.st.held) == 0, r.in, x.st, r.fn.Pos(), r.name, "the lock of the bank is still held")
		}
	})
	c.ob("instances", "handlers", len(with) == 10, nil, nil, 0, "", "%d handlers access a bank", len(with))
	c.atLeast("one lock section per operation", 6)
	c.atLeast("storage is accessed under the lock", 10)
}

func r04(c *Ctx) {
	analysed := map[*ssa.Function]bool{}
	fields := c.bankFields()
	n := 0
	monitor := func(name string, in *Interp, b *bank) {
		c.lockSections(name, in, b, true, func(fr *Frame) {
			n++
			for f := fr; f != nil; f = f.parent {
				analysed[f.fn] = true
			}
		})
	}
	for _, op := range bankOps {
		r := c.bankRun(op, false, func(r *bankRun) { monitor(r.op.name, r.in, r.b) })
		for _, x := range r.rs {
			c.ob("one lock per operation", op.name, len(eventsOf(x.st, "lock")) >= 1, r.in, x.st, r.fn.Pos(), op.name, "a path of the operation never takes the lock")
		}
		bad := lockIssues(r.in)
		c.ob("locks are used in order", op.name, len(bad) == 0, r.in, nil, 0, op.name, "%s", first(bad))
	}
	done := map[string]bool{}
	for _, op := range bankOps {
		done[op.name] = true
	}
	for _, m := range c.methodsOf("NodeRegister") {
		if !token.IsExported(m) || done[m] {
			continue
		}
		in, st := c.interp()
		bitHelpersModel(c, in)
		b := c.newBank(in, st, "bank", false)
		monitor(m, in, b)
		fn := c.method("NodeRegister", m)
		args := []Value{b.ptr}
		for _, p := range fn.Params[1:] {
			args = append(args, in.unknown(st, p.Type(), p.Name()))
		}
		c.run(in, st, fn, args)
	}
	// the built-in handlers may use the bank in other ways
	c.handlersWith(func(r *handlerRun) {
		c.lockSections(r.name, r.in, r.b, false, func(fr *Frame) {
			for f := fr; f != nil; f = f.parent {
				analysed[f.fn] = true
			}
		})
	}, func(r *handlerRun) {})
	// no other code reaches the storage
	uses := 0
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || freshBase(fa) {
					continue
				}
				s := derefStruct(fa.X.Type())
				if s == nil || fields[s.Field(fa.Field)] == "" {
					continue
				}
				uses++
				c.ob("all accesses analysed", shortFn(f), analysed[f], c.ins[0], nil, fa.Pos(), shortFn(f), "field %s of a bank is used outside the analysed operations", fields[s.Field(fa.Field)])
			}
		}
	}
	layoutFixed(c)
	c.ob("instances", "accesses", n >= 30 && uses >= 40, nil, nil, 0, "", "only %d accesses and %d field uses were found", n, uses)
	c.atLeast("storage is accessed under the lock", 17)
}

func r05(c *Ctx) {
	for _, op := range bankOps {
		r := c.bankRun(op, false, nil)
		arrs := map[int]string{}
		for _, k := range r.b.kinds {
			arrs[k.slice.arr] = k.name
		}
		for _, x := range r.rs {
			if x.panic {
				continue
			}
			for _, v := range x.rets {
				for _, s := range slicesIn(x.st, v) {
					if s.arr < 0 {
						continue
					}
					what := arrs[s.arr]
					if what == "" && s.arr == r.bufArr {
						what = "caller's values"
					}
					own := what == "" && s.arr > r.objs && x.st.obj(s.arr).owned && r.in.lazy[s.arr] == nil
					c.ob("results have memory of their own", op.name, own, r.in, x.st, r.fn.Pos(), op.name, "the result shares memory with the %s", what)
				}
			}
			ok, f := r.b.layoutSame(x.st)
			c.ob("banks keep their own storage", op.name, ok, r.in, x.st, r.fn.Pos(), op.name, "field %s of the bank changes (it may refer to the caller's memory)", f)
		}
	}
	layoutFixed(c)
	newBankCheck(c, false, true)
	// the storage fields are only read to index, copy or hand to analysed code: a method that
	// returns one of them is found by its results
	for _, m := range c.methodsOf("NodeRegister") {
		fn := c.method("NodeRegister", m)
		known := false
		for _, op := range bankOps {
			known = known || op.name == m
		}
		if known || !token.IsExported(m) {
			continue
		}
		in, st := c.interp()
		bitHelpersModel(c, in)
		b := c.newBank(in, st, "bank", false)
		args := []Value{b.ptr}
		for _, p := range fn.Params[1:] {
			args = append(args, in.unknown(st, p.Type(), p.Name()))
		}
		for _, x := range c.run(in, st, fn, args) {
			for _, v := range x.rets {
				if _, ok := v.(VSlice); !ok {
					continue
				}
				for _, s := range slicesIn(x.st, v) {
					for _, k := range b.kinds {
						c.ob("results have memory of their own", m, s.arr != k.slice.arr, in, x.st, fn.Pos(), m, "the result shares memory with the %s", k.name)
					}
				}
			}
			ok, f := b.layoutSame(x.st)
			c.ob("banks keep their own storage", m, ok, in, x.st, fn.Pos(), m, "field %s of the bank changes", f)
		}
	}
	c.atLeast("banks keep their own storage", len(bankOps)+4)
	c.atLeast("results have memory of their own", 6)
	c.atLeast("kinds have disjoint storage", 6)
}

const bankRule = "Abstract interpretation of every exported operation of NodeRegister on a bank of arbitrary layout and content and arbitrary arguments; loops are summarised by inferred inductive invariants. "

func init() {
	register("S09", "Each handler in the table of a new server is interpreted abstractly on arbitrary data and an arbitrary bank; every access to the contents of the bank must happen under the bank's lock (exclusive for writes), and all accesses of one request within the same section of it. With that, the request takes effect at one point of its lock section, and any concurrent execution equals a sequential one in the order of the sections.", s09)
	register("R01", bankRule+"Every success path must entail the conditions of a legal access, every refusing path contradict them and return exception 2, no data and an unchanged bank (compared for every item).", r01)
	register("R02", bankRule+"On every success path the values returned, and for every index of every kind the storage left behind, are compared with the specification as symbolic elements.", func(c *Ctx) { contents(c, false) })
	register("R03", bankRule+"Bit positions are symbolic: for every bit index the bit returned, and the bit left in the storage, is compared with the specification; getBits and setBits are decided for all 72 combinations of bit position and count by polynomials over GF(2).", r03)
	register("R04", "Lockset analysis: every access to the storage of a bank, on every path of every exported operation, must happen under the bank's lock (the exclusive one for writes) and in one lock section; every use of the storage fields in the source must be in analysed code.", r04)
	register("R05", bankRule+"Points-to analysis of every result (freshly allocated memory only), of the bank's fields at every exit, and of the storage built by the constructor (own, disjoint, of configured size, zero).", r05)
	register("P03", bankRule+"Every index, slice, nil and library precondition is an obligation; every feasible panicking path and every exit with a lock held is a violation.", p03)
}
