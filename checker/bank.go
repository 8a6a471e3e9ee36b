package main

// The register bank: an arbitrary bank under its layout invariant, and bit-level contents.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bankKind is one of the four kinds of registers.
type bankKind struct {
	name  string // field holding the storage
	start string
	qty   string // "" for words: the length of the storage
	bits  bool
}

var bankKinds = []bankKind{
	{"coils", "coilsAddrStart", "coilsQuantity", true},
	{"discrete", "discreteAddrStart", "discreteQuantity", true},
	{"input", "inputAddrStart", "", false},
	{"holding", "holdingAddrStart", "", false},
}

type store struct {
	bankKind
	path  string
	typ   types.Type
	slice VSlice
	start Lin
	qty   Lin // items
	base  *Base
	was   *Content
}

type bank struct {
	st     *State
	ptr    VPtr
	kinds  []*store
	slave  Lin
	layout map[string]Value // header fields
	slaveP string
}

func (b *bank) kind(name string) *store {
	for _, k := range b.kinds {
		if k.name == name {
			return k
		}
	}
	return nil
}

// mayBeNil: the constructor may leave the storage of a kind nil, not only empty.
func (c *Ctx) mayBeNil(kind string) bool {
	if c.bankNil != nil {
		return c.bankNil[kind]
	}
	c.bankNil = map[string]bool{}
	for _, k := range bankKinds {
		c.bankNil[k.name] = true
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortErr); !ok {
				panic(r)
			}
		}
	}()
	in, st := c.interp()
	fn := c.fn("NewNodeRegister")
	var args []Value
	for _, prm := range fn.Params {
		args = append(args, in.unknown(st, prm.Type(), prm.Name()))
	}
	rs := c.run(in, st, fn, args)
	for _, k := range bankKinds {
		path, t, ok := fieldPath(c.p.typ("NodeRegister"), k.name)
		if !ok {
			continue
		}
		some := len(rs) > 0
		for _, r := range rs {
			if r.panic {
				continue
			}
			p, ok := r.rets[0].(VPtr)
			if !ok || !r.st.entails(eq(p.nil_, zeroL)) {
				some = false
				continue
			}
			s, ok := r.st.loadPath(r.st.obj(p.obj), p.path+path, t).(VSlice)
			some = some && ok && r.st.entails(eq(s.nil_, zeroL))
		}
		c.bankNil[k.name] = !some
	}
	return c.bankNil[kind]
}

// newBank makes a bank of which only the layout invariant is known. inSpace: its ranges end
// at address 65535.
func (c *Ctx) newBank(in *Interp, st *State, name string, inSpace bool) *bank {
	nt := c.p.typ("NodeRegister")
	o := st.newObj(kCells, nt, name)
	o.zero = false
	b := &bank{st: st, ptr: VPtr{obj: o.id, nil_: zeroL}, layout: map[string]Value{}}
	field := func(n string) (string, types.Type) {
		p, t, ok := fieldPath(nt, n)
		if !ok {
			stop("NodeRegister has no field %s", n)
		}
		return p, t
	}
	set := func(p string, v Value) {
		st.mut(o.id).cells[p] = v
		b.layout[p] = v
	}
	for _, k := range bankKinds {
		s := &store{bankKind: k}
		p, _ := field(k.start)
		s.start = symL(namedSym(name+"."+k.start, 0, 65535))
		set(p, VInt{s.start})
		s.qty = symL(namedSym(name+"."+k.name+".quantity", 0, 65535))
		if k.qty != "" {
			p, _ = field(k.qty)
			set(p, VInt{s.qty})
		}
		s.path, s.typ = field(k.name)
		sl, ok := s.typ.Underlying().(*types.Slice)
		if !ok {
			stop("NodeRegister.%s is not a slice", k.name)
		}
		w, sg, ok := intInfo(sl.Elem())
		if !ok || sg || k.bits != (w == 8) || !k.bits && w != 16 {
			stop("NodeRegister.%s has an unexpected element type", k.name)
		}
		lo, hi := rangeOf(w, false)
		s.base = namedBase(name+"."+k.name, lo, hi, w)
		n := s.qty
		if k.bits {
			n = divL(s.qty.addc(7), 8)
		}
		a := st.newObj(kArray, sl.Elem(), name+"."+k.name)
		a.c = baseContent(s.base)
		cp := symL(namedSym("cap("+name+"."+k.name+")", 0, 1<<20))
		st.assume(ge(cp, n))
		a.n = cp
		a.owned = false
		s.was = a.c
		s.slice = VSlice{arr: a.id, len: n, cap: cp, nil_: symL(namedSym(name+"."+k.name+"==nil", 0, 1))}
		if !c.mayBeNil(k.name) {
			s.slice.nil_ = zeroL
		}
		// a nil slice is empty
		st.assume(le(cp, con(1<<20).sub(s.slice.nil_.scale(1<<20))))
		set(s.path, s.slice)
		if inSpace {
			st.assume(le(s.start.add(s.qty), con(65536)))
		}
		b.kinds = append(b.kinds, s)
	}
	p, _ := field("slaveID")
	b.slaveP = p
	b.slave = symL(namedSym(name+".slaveID", 0, 255))
	st.mut(o.id).cells[p] = VInt{b.slave}
	return b
}

// layoutSame: no field but the unit id has changed.
func (b *bank) layoutSame(st *State) (bool, string) {
	o := st.obj(b.ptr.obj)
	for p, v := range b.layout {
		if !valueEq(o.cells[p], v) {
			return false, fieldName(o.typ, p)
		}
	}
	return true, ""
}

// unchanged: the storage of a kind is as it was.
func (b *bank) unchanged(st *State, s *store, width int) (bool, string) {
	o := st.obj(s.slice.arr)
	if o.c == s.was {
		return true, ""
	}
	return s.sameExcept(st, nil)
}

// sameExcept: item i (an index) of the storage is want(i) where that is given, else as before.
func (s *store) sameExcept(st *State, want func(st *State, i Lin) []readAlt) (bool, string) {
	i := symL(freshSym("i", 0, 1<<24))
	s2 := st.clone()
	var ws []readAlt
	if want != nil {
		ws = want(s2, i)
	} else {
		ws = []readAlt{{s2, s.before(i), true}}
	}
	for _, w := range ws {
		if !w.st.feasible() {
			continue
		}
		for _, a := range s.item(w.st.clone(), w.st.obj(s.slice.arr).c, i) {
			if a.st.feasible() && !provEq(a.st, a.val, w.val) {
				return false, fmt.Sprintf("item %s is %s, expected %s", i, a.val, w.val)
			}
		}
	}
	return true, ""
}

// before is item i of the storage before the operation.
func (s *store) before(i Lin) Lin {
	if s.bits {
		return inL(bitsOf(s.base), i)
	}
	return inL(s.base, i)
}

func (s *store) item(st *State, c *Content, i Lin) []readAlt {
	if s.bits {
		return st.bitAt(c, i, 0)
	}
	return st.read(c, i, 16)
}

// ---- bits -------------------------------------------------------------------

// bitAt is bit b of a byte content (bit b%8 of byte b/8).
func (st *State) bitAt(c *Content, b Lin, depth int) []readAlt {
	fresh := func(s *State, why string) []readAlt {
		st.in.stats.imprecise["bit:"+why]++
		return []readAlt{{s, symL(freshSym("?bit:"+why, 0, 1)), false}}
	}
	if c == nil || depth > 400 {
		return fresh(st, "depth")
	}
	// within [dst,dst+n) f, elsewhere prev
	split := func(dst, n Lin, f func(*State) []readAlt) []readAlt {
		var out []readAlt
		lo, hi := inRangeAtoms(b, dst, n)
		y, below := st.fork(lo)
		if below != nil {
			out = append(out, below.bitAt(c.prev, b, depth+1)...)
		}
		if y != nil {
			in, above := y.fork(hi)
			if in != nil {
				out = append(out, f(in)...)
			}
			if above != nil {
				out = append(out, above.bitAt(c.prev, b, depth+1)...)
			}
		}
		return out
	}
	switch c.kind {
	case cZero:
		return []readAlt{{st, zeroL, true}}
	case cBase:
		return []readAlt{{st, inL(bitsOf(c.base), b.add(c.shift.scale(8))), true}}
	case cBits:
		return split(c.dst, c.n, func(s *State) []readAlt { return s.bitOf(c.val, b.sub(c.dst), depth+1) })
	case cWrite:
		return split(c.dst.scale(8), con(8), func(s *State) []readAlt { return s.bitOf(c.val, b.sub(c.dst.scale(8)), depth+1) })
	case cHavoc:
		return split(c.dst.scale(8), c.n.scale(8), func(s *State) []readAlt {
			return []readAlt{{s, inL(bitsOf(c.base), b.sub(c.dst.scale(8)).add(c.shift.scale(8))), true}}
		})
	case cCopy:
		return split(c.dst.scale(8), c.n.scale(8), func(s *State) []readAlt {
			return s.bitAt(c.src, b.sub(c.dst.scale(8)).add(c.soff.scale(8)), depth+1)
		})
	case cLoop:
		bitwise := true
		for _, al := range c.alts {
			for _, e := range al.entries {
				if e.kind != cBits {
					bitwise = false
				}
			}
		}
		if bitwise {
			return st.bitLoop(c, b, depth)
		}
	}
	// through the byte
	by := divL(b, 8)
	var out []readAlt
	for _, a := range st.readD(c, by, 8, depth+1) {
		out = append(out, a.st.bitOf(a.val, b.sub(by.scale(8)), depth+1)...)
	}
	return out
}

// bitLoop reads through a loop in which every iteration k writes bits from s*k+b0 on.
func (st *State) bitLoop(c *Content, b Lin, depth int) []readAlt {
	fresh := func(s *State, why string) []readAlt {
		st.in.stats.imprecise["bit:"+why]++
		return []readAlt{{s, symL(freshSym("?bit:"+why, 0, 1)), false}}
	}
	stride, first := int64(0), Lin{}
	writers := 0
	for _, al := range c.alts {
		if len(al.entries) == 0 {
			continue
		}
		if len(al.entries) != 1 {
			return fresh(st, "entries")
		}
		e := al.entries[0]
		a := int64(0)
		b0 := con(e.dst.c)
		for _, t := range e.dst.t {
			if t.s == c.k {
				a = t.k
				continue
			}
			if t.s.mentions(func(x *Sym) bool { return x == c.k }) {
				return fresh(st, "index")
			}
			b0 = b0.add(Lin{t: []Term{t}})
		}
		if a <= 0 || writers > 0 && (a != stride || !b0.eq(first)) {
			return fresh(st, "stride")
		}
		stride, first = a, b0
		writers++
	}
	if writers == 0 {
		return st.bitAt(c.prev, b, depth+1)
	}
	var out []readAlt
	x := b.sub(first)
	K := divL(x, stride)
	p := x.sub(K.scale(stride))
	y, n := st.fork(ge(x, zeroL))
	if n != nil {
		out = append(out, n.bitAt(c.prev, b, depth+1)...)
	}
	if y == nil {
		return out
	}
	y, n = y.fork(lt(K, c.n))
	if n != nil {
		out = append(out, n.bitAt(c.prev, b, depth+1)...)
	}
	if y == nil {
		return out
	}
	sub := newSubst(map[*Sym]Lin{c.k: K})
	for _, al := range c.alts {
		as := y.clone()
		ok := true
		for _, g := range al.guard {
			g2 := g.subst(sub)
			if !as.possible(g2) {
				ok = false
				break
			}
			as.assume(g2)
		}
		if !ok || !as.feasible() {
			continue
		}
		if len(al.entries) == 0 {
			out = append(out, as.bitAt(c.prev, b, depth+1)...)
			continue
		}
		e := al.entries[0]
		w := sub.lin(e.n)
		if !as.entails(le(w, con(stride))) {
			return fresh(st, "width")
		}
		in, not := as.fork(lt(p, w))
		if not != nil {
			out = append(out, not.bitAt(c.prev, b, depth+1)...)
		}
		if in != nil {
			out = append(out, in.bitOf(sub.lin(e.val), p, depth+1)...)
		}
	}
	return out
}

var bitReads []*Content // contents read through getBits, by number

// bitOf is bit p of a byte.
func (st *State) bitOf(v, p Lin, depth int) []readAlt {
	one := func(s *State, l Lin) []readAlt { return []readAlt{{s, l, true}} }
	if x, ok := v.constVal(); ok {
		if x == 0 {
			return one(st, zeroL)
		}
	} else if lo, hi := v.globalRange(); lo >= 0 && hi <= 1 {
		var out []readAlt
		y, n := st.fork(eq(p, zeroL))
		if y != nil {
			out = append(out, readAlt{y, v, true})
		}
		if n != nil {
			out = append(out, readAlt{n, zeroL, true})
		}
		return out
	}
	if len(v.t) == 1 && v.c == 0 && v.t[0].k == 1 {
		s := v.t[0].s
		if s.kind == 'i' && s.base.width == 8 && s.base.consts == nil {
			if at, ok := constIn(st, p, 0, 7); ok {
				if x, ok := constIn(st, v, 0, 255); ok {
					return one(st, con(x>>uint(at)&1))
				}
			}
			return one(st, inL(bitsOf(s.base), s.off.scale(8).add(p)))
		}
		if s.kind == 'u' && strings.HasPrefix(s.fn, "bytes#") {
			var id int
			fmt.Sscanf(s.fn, "bytes#%d", &id)
			return st.bitAt(bitReads[id], s.args[0].scale(8).add(p), depth+1)
		}
		if s.kind == 'u' && strings.HasPrefix(s.fn, "getbits#") {
			var id int
			fmt.Sscanf(s.fn, "getbits#%d", &id)
			var out []readAlt
			y, n := st.fork(lt(p, s.args[1]))
			if n != nil {
				out = append(out, readAlt{n, zeroL, true})
			}
			if y != nil {
				out = append(out, y.bitAt(bitReads[id], s.args[0].add(p), depth+1)...)
			}
			return out
		}
	}
	var out []readAlt
	rest := st
	for i := int64(0); i < 8 && rest != nil; i++ {
		var y *State
		y, rest = rest.fork(eq(p, con(i)))
		if y == nil || !y.feasible() {
			continue
		}
		if x, ok := v.constVal(); ok {
			out = append(out, readAlt{y, con(x >> uint(i) & 1), true})
			continue
		}
		bv, ok := linToBV(v, 8)
		if !ok {
			st.in.stats.imprecise["bit:value"]++
			out = append(out, readAlt{y, symL(freshSym("?bit:value", 0, 1)), false})
			continue
		}
		switch q := bv[i]; {
		case len(q) == 0:
			out = append(out, readAlt{y, zeroL, true})
		case len(q) == 1 && q[0] == "":
			out = append(out, readAlt{y, oneL, true})
		case len(q) == 1 && len(q[0]) == 6:
			at := bitAtoms[q[0].atoms()[0]]
			if symL(at.s).eq(v) {
				// an opaque byte
				out = append(out, readAlt{y, bvToLin([]Poly{q}), true})
			} else {
				out = append(out, y.bitOf(symL(at.s), con(int64(at.bit)), depth+1)...)
			}
		default:
			out = append(out, readAlt{y, bvToLin([]Poly{q}), true})
		}
	}
	if rest != nil && rest.feasible() {
		st.in.stats.imprecise["bit:position"]++
		out = append(out, readAlt{rest, symL(freshSym("?bit:position", 0, 1)), false})
	}
	return out
}

// bitHelpersModel replaces getBits and setBits by what they are shown to do (bitHelpers).
func bitHelpersModel(c *Ctx, in *Interp) {
	in.symBits = true
	get, set := c.fn("getBits"), c.fn("setBits")
	pre := func(ci *callInfo) (*State, VSlice, Lin, Lin, []callResult) {
		s, ok1 := ci.args[0].(VSlice)
		start, ok2 := ci.args[1].(VInt)
		n, ok3 := ci.args[2].(VInt)
		if !ok1 || !ok2 || !ok3 {
			stop("bit helper called on values that are not understood")
		}
		st, out := ci.st, []callResult(nil)
		for _, a := range []Atom{le(n.l, con(8)), lt(divL(start.l, 8), s.len), le(start.l.add(n.l), s.len.scale(8))} {
			var bad []callResult
			st, bad = ci.require(st, a, "index out of range (bits outside the buffer)")
			out = append(out, bad...)
			if st == nil {
				break
			}
		}
		return st, s, start.l, n.l, out
	}
	in.override[shortFn(get)] = func(ci *callInfo) []callResult {
		st, s, start, n, out := pre(ci)
		if st == nil {
			return out
		}
		if s.arr >= 0 {
			ci.in.access(ci.fr, st, st.obj(s.arr), "[]", false, ci.instr)
		}
		o := st.obj(s.arr)
		at := s.off.scale(8).add(start)
		if st.entails(eq(n, oneL)) {
			for _, a := range st.bitAt(o.c, at, 0) {
				if a.st.feasible() {
					out = append(out, callResult{st: a.st, rets: []Value{VInt{a.val}}})
				}
			}
			return out
		}
		id := contentID(o.c)
		v := fnL(fmt.Sprintf("getbits#%d", id), 0, 255, at, n)
		return append(out, callResult{st: st, rets: []Value{VInt{v}}})
	}
	in.override[shortFn(set)] = func(ci *callInfo) []callResult {
		st, s, start, n, out := pre(ci)
		if st == nil {
			return out
		}
		v, ok := ci.args[3].(VInt)
		if !ok {
			stop("bit helper called on values that are not understood")
		}
		ci.in.access(ci.fr, st, st.obj(s.arr), "[]", true, ci.instr)
		o := st.mut(s.arr)
		o.c = o.c.push(&Content{kind: cBits, dst: s.off.scale(8).add(start), n: n, val: v.l, where: ci.pos})
		return append(out, callResult{st: st})
	}
}

// bitHelpers decides getBits and setBits: for every position within a byte and every number
// of bits, the result is those bits, and exactly those bits are set.
func bitHelpers(c *Ctx) {
	get, set := c.fn("getBits"), c.fn("setBits")
	in, st0 := c.interp()
	in.wide = 300
	base := namedBase("bitbuf", 0, 255, 8)
	mk := func(r, n int64) (*State, VSlice, Lin) {
		st := st0.clone()
		o := st.newObj(kArray, tByte, "buf")
		o.c = baseContent(base)
		ln := symL(namedSym("bitbuf.len", 1, 8192))
		o.n = ln
		byteIx := symL(namedSym("byte", 0, 8191))
		st.assume(le(byteIx.scale(8).addc(r+n), ln.scale(8)))
		st.assume(lt(byteIx, ln))
		return st, VSlice{arr: o.id, len: ln, cap: ln}, byteIx
	}
	bit := func(a Lin, i int64) Poly {
		bv, ok := linToBV(inL(base, a.addc(i/8)), 8)
		if !ok {
			stop("no bits")
		}
		return bv[i%8]
	}
	exact := func(st *State, v Lin, i int, want Poly) bool {
		bv, ok := linToBV(v, 8)
		if !ok || polyEq(bv[i], want) {
			return ok
		}
		if len(bv[i]) == 0 || polyEq(bv[i], polyOne) {
			// decided by the branches taken
			return provEq(st, bvToLin([]Poly{want}), con(int64(len(bv[i]))))
		}
		return false
	}
	for r := int64(0); r < 8; r++ {
		for n := int64(0); n <= 8; n++ {
			name := fmt.Sprintf("bit %d, %d bits", r, n)
			st, buf, a := mk(r, n)
			rs := c.noPanics("bit helpers do not panic", "getBits "+name, in, c.run(in, st, get, []Value{buf, VInt{a.scale(8).addc(r)}, VInt{con(n)}}))
			for _, x := range rs {
				v, isInt := x.rets[0].(VInt)
				ok := isInt
				for i := int64(0); ok && i < 8; i++ {
					want := Poly(nil)
					if i < n {
						want = bit(a, r+i)
					}
					ok = exact(x.st, v.l, int(i), want)
				}
				c.ob("getBits returns exactly the bits asked for", name, ok, in, x.st, get.Pos(), "getBits", "the result for %d bits at bit %d of a byte is not those bits", n, r)
			}
			st, buf, a = mk(r, n)
			val := symL(namedSym("value", 0, 255))
			vb, _ := linToBV(val, 8)
			rs = c.noPanics("bit helpers do not panic", "setBits "+name, in, c.run(in, st, set, []Value{buf, VInt{a.scale(8).addc(r)}, VInt{con(n)}, VInt{val}}))
			for _, x := range rs {
				ok := true
				cc := x.st.obj(buf.arr).c
				for j := int64(0); j < 2; j++ {
					s2 := x.st.clone()
					s2.assume(lt(a.addc(j), buf.len))
					if !s2.feasible() {
						continue
					}
					for _, e := range s2.read(cc, a.addc(j), 8) {
						if !e.st.feasible() {
							continue
						}
						for i := int64(0); i < 8; i++ {
							q := 8*j + i
							want := bit(a, q)
							if q >= r && q < r+n {
								want = vb[q-r]
							}
							ok = ok && exact(e.st, e.val, int(i), want)
						}
					}
				}
				s2 := x.st.clone()
				i := symL(freshSym("i", 0, 1<<24))
				for k := int64(0); k < 2; k++ {
					s2.assume(ne(i, a.addc(k)))
				}
				for _, e := range s2.read(cc, i, 8) {
					ok = ok && (!e.st.feasible() || provEq(e.st, e.val, inL(base, i)))
				}
				c.ob("setBits sets exactly the bits given", name, ok, in, x.st, set.Pos(), "setBits", "writing %d bits at bit %d of a byte does not set exactly those bits", n, r)
			}
		}
	}
	c.atLeast("getBits returns exactly the bits asked for", 72)
	c.atLeast("setBits sets exactly the bits given", 72)
}

// bankCode: the functions through which the storage of a bank can be reached.
func (c *Ctx) bankFields() map[*types.Var]string {
	nt := c.p.typ("NodeRegister")
	out := map[*types.Var]string{}
	s := structOf(nt)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		for _, k := range bankKinds {
			if f.Name() == k.name || f.Name() == k.start || f.Name() == k.qty {
				out[f] = f.Name()
			}
		}
	}
	return out
}

var _ = ssa.Function{}
