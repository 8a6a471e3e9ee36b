package main

// Arithmetic, comparisons, conversions and builtins of the abstract interpreter.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type valAlt struct {
	st *State
	v  Value
}

type linAlt struct {
	st *State
	l  Lin
}

// wrap reduces a mathematical result to the range of a machine integer.
func (in *Interp) wrap(st *State, e Lin, w int, signed bool) []linAlt {
	if w >= 64 {
		if !signed {
			if lo, _ := e.globalRange(); lo < 0 {
				y, n := st.fork(ge(e, zeroL))
				var r []linAlt
				if y != nil {
					r = append(r, linAlt{y, e})
				}
				if n != nil {
					r = append(r, linAlt{n, symL(freshSym("uwrap", 1<<61, posInf))})
				}
				return r
			}
		}
		return []linAlt{{st, e}}
	}
	lo, hi := rangeOf(w, signed)
	gl, gh := e.globalRange()
	if gl >= lo && gh <= hi {
		return []linAlt{{st, e}}
	}
	if c, ok := e.constVal(); ok {
		m := int64(1) << uint(w)
		return []linAlt{{st, con(c - m*floorDiv(c-lo, m))}}
	}
	inLo, inHi := gl >= lo || st.entails(ge(e, con(lo))), gh <= hi || st.entails(le(e, con(hi)))
	if inLo && inHi {
		return []linAlt{{st, e}}
	}
	m := int64(1) << uint(w)
	// a small overshoot is split into cases
	okLo := inLo || gl >= lo-m || st.entails(ge(e, con(lo-m)))
	okHi := inHi || gh <= hi+m || st.entails(le(e, con(hi+m)))
	if okLo && okHi {
		var r []linAlt
		cur := st
		if !inLo {
			y, n := cur.fork(ge(e, con(lo)))
			if n != nil {
				r = append(r, linAlt{n, e.addc(m)})
			}
			cur = y
		}
		if cur != nil && !inHi {
			y, n := cur.fork(le(e, con(hi)))
			if n != nil {
				r = append(r, linAlt{n, e.addc(-m)})
			}
			cur = y
		}
		if cur != nil {
			r = append(r, linAlt{cur, e})
		}
		return r
	}
	return []linAlt{{st, e.sub(divL(e.addc(-lo), m).scale(m))}}
}

func isConstNil(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (in *Interp) binop(fr *Frame, p *Path, x *ssa.BinOp) ([]valAlt, []Exit) {
	a, b := in.get(fr, p, x.X), in.get(fr, p, x.Y)
	st := p.st
	switch x.Op {
	case token.EQL, token.NEQ:
		var r []valAlt
		for _, c := range in.equal(st, a, b) {
			at := c.a
			if x.Op == token.NEQ {
				at = at.not()
			}
			r = append(r, valAlt{c.st, VBool{at}})
		}
		return r, nil
	}
	ai, aok := a.(VInt)
	bi, bok := b.(VInt)
	if !aok || !bok {
		if as, ok := a.(VStr); ok && x.Op == token.ADD {
			if bs, ok := b.(VStr); ok {
				return []valAlt{{st, in.concat(st, as, bs)}}, nil
			}
		}
		in.stats.imprecise["binop "+x.Op.String()]++
		return []valAlt{{st, in.freshVal(st, x.Type(), "binop")}}, nil
	}
	switch x.Op {
	case token.LSS:
		return []valAlt{{st, VBool{lt(ai.l, bi.l)}}}, nil
	case token.LEQ:
		return []valAlt{{st, VBool{le(ai.l, bi.l)}}}, nil
	case token.GTR:
		return []valAlt{{st, VBool{gt(ai.l, bi.l)}}}, nil
	case token.GEQ:
		return []valAlt{{st, VBool{ge(ai.l, bi.l)}}}, nil
	}
	w, sg, ok := intInfo(x.Type())
	if !ok {
		return []valAlt{{st, in.freshVal(st, x.Type(), "binop")}}, nil
	}
	return in.arith(fr, p, x.Op, ai.l, bi.l, w, sg, x)
}

func (in *Interp) arith(fr *Frame, p *Path, op token.Token, a, b Lin, w int, sg bool, x *ssa.BinOp) ([]valAlt, []Exit) {
	st := p.st
	lo, hi := rangeOf(w, sg)
	opaque := func(s *State, name string) []valAlt {
		in.stats.imprecise["arith "+name]++
		return []valAlt{{s, VInt{fnL(name, lo, hi, a, b)}}}
	}
	switch op {
	case token.ADD:
		return intAlts(in.wrap(st, a.add(b), w, sg)), nil
	case token.SUB:
		return intAlts(in.wrap(st, a.sub(b), w, sg)), nil
	case token.MUL:
		if c, ok := b.constVal(); ok {
			return intAlts(in.wrap(st, a.scale(c), w, sg)), nil
		}
		if c, ok := a.constVal(); ok {
			return intAlts(in.wrap(st, b.scale(c), w, sg)), nil
		}
		al, ah := in.bounds(st, a)
		bl, bh := in.bounds(st, b)
		if al >= 0 && bl >= 0 && ah < 1<<30 && bh < 1<<30 {
			m := fnL("mul", al*bl, ah*bh, a, b)
			return intAlts(in.wrap(st, m, w, sg)), nil
		}
		return opaque(st, fmt.Sprintf("mul%d", w)), nil
	case token.QUO, token.REM:
		q, ex := in.check(fr, p, ne(b, zeroL), x.Pos(), "integer divide by zero")
		var exits []Exit
		if ex != nil {
			exits = append(exits, *ex)
		}
		if q == nil {
			return nil, exits
		}
		st = q.st
		c, ok := b.constVal()
		if !ok {
			// a division by a value in a small range: split
			bl, bh := in.bounds(st, b)
			al, ah := in.bounds(st, a)
			if al >= 0 && bl > 0 && op == token.QUO {
				return []valAlt{{st, VInt{fnL("quo", 0, ah, a, b)}}}, exits
			}
			_ = bh
			return opaque(st, op.String()+fmt.Sprint(w)), exits
		}
		neg := c < 0
		if neg {
			c = -c
		}
		var r []valAlt
		y, n := st.fork(ge(a, zeroL))
		for i, s := range []*State{y, n} {
			if s == nil {
				continue
			}
			var quo Lin
			if i == 0 {
				quo = divL(a, c)
			} else {
				quo = divL(a.neg(), c).neg()
			}
			v := quo
			if neg {
				v = quo.neg()
			}
			if op == token.REM {
				v = a.sub(quo.scale(c))
			}
			for _, l := range in.wrap(s, v, w, sg) {
				r = append(r, valAlt{l.st, VInt{l.l}})
			}
		}
		return r, exits
	case token.SHL, token.SHR:
		var exits []Exit
		if _, bs, _ := intInfo(x.Y.Type()); bs {
			q, ex := in.check(fr, p, ge(b, zeroL), x.Pos(), "negative shift amount")
			if ex != nil {
				exits = append(exits, *ex)
			}
			if q == nil {
				return nil, exits
			}
			st = q.st
		}
		one := func(s *State, k int64) []linAlt {
			if k >= 62 || op == token.SHL && k >= int64(w) {
				if op == token.SHL {
					return []linAlt{{s, zeroL}}
				}
				y, n := s.fork(ge(a, zeroL))
				var r []linAlt
				if y != nil {
					r = append(r, linAlt{y, zeroL})
				}
				if n != nil {
					r = append(r, linAlt{n, con(-1)})
				}
				return r
			}
			if op == token.SHL {
				return in.wrap(s, a.scale(int64(1)<<uint(k)), w, sg)
			}
			return []linAlt{{s, divL(a, int64(1)<<uint(k))}}
		}
		if c, ok := b.constVal(); ok {
			return intAlts(one(st, c)), exits
		}
		bl, bh := in.bounds(st, b)
		if in.symBits {
			if v, ok := symShift(op, a, b, bl, bh, w); ok {
				return []valAlt{{st, VInt{v}}}, exits
			}
		}
		if bl >= 0 && bh <= 64 {
			var r []valAlt
			cur := st
			for k := bl; k <= bh && cur != nil; k++ {
				y, n := cur.fork(eq(b, con(k)))
				if y != nil {
					r = append(r, intAlts(one(y, k))...)
				}
				cur = n
			}
			return r, exits
		}
		return opaque(st, op.String()+fmt.Sprint(w)), exits
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if in.symBits {
			if r, ok := in.symBitOp(fr, p, st, op, a, b, w, sg, x); ok {
				return r, nil
			}
		}
		l, ok := in.bitwise(st, op, a, b, w, sg)
		if ok {
			return []valAlt{{st, VInt{l}}}, nil
		}
		// fall back on bounds
		al, ah := in.bounds(st, a)
		bl, bh := in.bounds(st, b)
		name := op.String() + fmt.Sprint(w)
		in.stats.imprecise["arith "+name]++
		if al >= 0 && bl >= 0 {
			m := ah
			switch op {
			case token.AND:
				if bh < m {
					m = bh
				}
			case token.AND_NOT:
			default:
				if bh > m {
					m = bh
				}
				if m < 1<<60 {
					m = int64(1)<<uint(bitLen(m)) - 1
				}
			}
			if m > hi {
				m = hi
			}
			return []valAlt{{st, VInt{fnL(name, 0, m, a, b)}}}, nil
		}
		return []valAlt{{st, VInt{fnL(name, lo, hi, a, b)}}}, nil
	}
	return opaque(st, op.String()), nil
}

// bounds gives integer bounds of an expression in a state (not necessarily tight).
func (in *Interp) bounds(st *State, l Lin) (int64, int64) {
	lo, hi := l.globalRange()
	if lo == hi {
		return lo, hi
	}
	// sharpen by bisection over entailment for a few useful constants
	for _, c := range []int64{0, 1} {
		if lo < c && st.entails(ge(l, con(c))) {
			lo = c
		}
	}
	for _, c := range []int64{1 << 20, 65535, 2040, 2000, 1968, 513, 260, 255, 253, 125, 64, 16, 15, 9, 8, 7, 3, 1, 0} {
		if hi > c {
			if st.entails(le(l, con(c))) {
				hi = c
			} else {
				break
			}
		}
	}
	return lo, hi
}

// below: 0 <= l < m.
func below(l Lin, m int64) bool {
	if lo, hi := l.globalRange(); lo >= 0 && hi < m {
		return true
	}
	for _, t := range l.t {
		if t.s.kind == 'd' && t.s.c <= m && l.eq(modL(t.s.arg, t.s.c)) {
			return true
		}
	}
	return false
}

func (in *Interp) bitwise(st *State, op token.Token, a, b Lin, w int, sg bool) (Lin, bool) {
	ac, aconst := a.constVal()
	bc, bconst := b.constVal()
	if aconst && bconst {
		var r int64
		switch op {
		case token.AND:
			r = ac & bc
		case token.OR:
			r = ac | bc
		case token.XOR:
			r = ac ^ bc
		case token.AND_NOT:
			r = ac &^ bc
		}
		return con(r), true
	}
	if op == token.AND {
		if aconst && !bconst {
			a, b, ac, bc, aconst, bconst = b, a, bc, ac, bconst, aconst
		}
		if bconst && bc == 0 {
			return zeroL, true
		}
		if bconst && bc > 0 && bc&(bc+1) == 0 {
			// x & (2^k-1) = x mod 2^k (also for negative two's complement values)
			if lo, hi := a.globalRange(); lo >= 0 && hi <= bc {
				return a, true
			}
			return modL(a, bc+1), true
		}
	}
	if op == token.OR || op == token.XOR {
		if aconst && ac == 0 {
			return b, true
		}
		if bconst && bc == 0 {
			return a, true
		}
	}
	if op == token.OR || op == token.XOR {
		// x*2^k with a number below 2^k
		for i := 0; i < 2; i++ {
			g := a.c
			for _, t := range a.t {
				g = gcd(g, t.k)
			}
			if g < 0 {
				g = -g
			}
			if below(b, g&-g) {
				return a.add(b), true
			}
			a, b = b, a
		}
	}
	if op == token.AND_NOT && bconst && bc > 0 && bc&(bc+1) == 0 {
		return a.sub(modL(a, bc+1)), true
	}
	bw := w
	if sg || w >= 62 {
		al, ah := a.globalRange()
		bl, bh := b.globalRange()
		if al < 0 || bl < 0 {
			return Lin{}, false
		}
		m := ah
		if bh > m {
			m = bh
		}
		if m >= 1<<40 {
			return Lin{}, false
		}
		bw = bitLen(m)
	}
	s := map[token.Token]string{token.AND: "&", token.OR: "|", token.XOR: "^", token.AND_NOT: "&^"}[op]
	return bitOp(s, a, b, bw)
}

type atomAlt struct {
	st *State
	a  Atom
}

func boolSym(name string) Atom { return norm(Atom{opGE, symL(namedSym(name, 0, 1)).addc(-1)}) }

// equal compares two values of the same type.
func (in *Interp) equal(st *State, a, b Value) []atomAlt {
	one := func(x Atom) []atomAlt { return []atomAlt{{st, x}} }
	nilOf := func(v Value) (Lin, bool) {
		switch x := v.(type) {
		case VPtr:
			return x.nil_, true
		case VSlice:
			return x.nil_, true
		case VIface:
			return x.nil_, true
		case VFunc:
			return x.nil_, true
		case VRef:
			return x.nil_, true
		case VElem:
			return zeroL, true
		}
		return Lin{}, false
	}
	an, aok := nilOf(a)
	bn, bok := nilOf(b)
	if aok && bok {
		if isTrueL(an) {
			return one(ge(bn, oneL))
		}
		if isTrueL(bn) {
			return one(ge(an, oneL))
		}
	}
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			return one(eq(x.l, y.l))
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			var r []atomAlt
			t, f := st.fork(y.a)
			if t != nil {
				r = append(r, atomAlt{t, x.a})
			}
			if f != nil {
				r = append(r, atomAlt{f, x.a.not()})
			}
			return r
		}
	case VPtr:
		if y, ok := b.(VPtr); ok {
			if x.obj == y.obj && x.path == y.path && x.nil_.eq(y.nil_) {
				return one(aTrue)
			}
			ox, oy := st.obj(x.obj), st.obj(y.obj)
			if x.obj != y.obj && (ox.owned || oy.owned) && isFalseL(an) && isFalseL(bn) {
				return one(aFalse)
			}
			return one(boolSym(fmt.Sprintf("ptreq:%d%s:%d%s", x.obj, x.path, y.obj, y.path)))
		}
	case VRef:
		if y, ok := b.(VRef); ok && x.obj == y.obj {
			return one(aTrue)
		}
	case VFunc:
	case VIface:
		if y, ok := b.(VIface); ok {
			if valueEq(x, y) && (x.id != "" || x.typ != nil) {
				return one(aTrue)
			}
			if x.typ != nil && y.typ != nil {
				if !types.Identical(x.typ, y.typ) {
					return one(aFalse)
				}
				return in.equal(st, x.val, y.val)
			}
			i1, i2 := ifaceKey(x), ifaceKey(y)
			if i1 > i2 {
				i1, i2 = i2, i1
			}
			c := boolSym("ifeq:" + i1 + ":" + i2)
			st = st.clone()
			// equal interfaces are both nil or both non-nil
			y2, n2 := st.fork(c)
			var r []atomAlt
			if y2 != nil {
				y2.assume(eq(an, bn))
				if y2.feasible() {
					r = append(r, atomAlt{y2, aTrue})
				}
			}
			if n2 != nil {
				r = append(r, atomAlt{n2, aFalse})
			}
			return r
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			return in.strEqual(st, x, y)
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.f) == len(y.f) {
			cur := []atomAlt{{st, aTrue}}
			for i := range x.f {
				var next []atomAlt
				for _, c := range cur {
					if c.a.op == opF {
						next = append(next, c)
						continue
					}
					t, f := c.st.fork(c.a)
					if f != nil {
						next = append(next, atomAlt{f, aFalse})
					}
					if t != nil {
						next = append(next, in.equal(t, x.f[i], y.f[i])...)
					}
				}
				cur = next
			}
			return cur
		}
	}
	return one(norm(Atom{opGE, symL(freshSym("eq", 0, 1)).addc(-1)}))
}

func ifaceKey(x VIface) string {
	if x.typ == nil {
		return x.id
	}
	return "(" + x.typ.String() + ")" + valueKey(x.val)
}

func valueKey(v Value) string {
	switch x := v.(type) {
	case VInt:
		return x.l.key()
	case VPtr:
		return fmt.Sprintf("&%d%s", x.obj, x.path)
	case VStr:
		return "s:" + x.s + x.id
	case VIface:
		return ifaceKey(x)
	case VStruct:
		s := "{"
		for _, f := range x.f {
			s += valueKey(f) + ","
		}
		return s + "}"
	case VOpaque:
		return x.id
	}
	freshCnt++
	return fmt.Sprintf("?%d", freshCnt)
}

func (in *Interp) strEqual(st *State, x, y VStr) []atomAlt {
	if x.known && y.known {
		if x.s == y.s {
			return []atomAlt{{st, aTrue}}
		}
		return []atomAlt{{st, aFalse}}
	}
	if x.id != "" && x.id == y.id && x.ln.eq(y.ln) {
		return []atomAlt{{st, aTrue}}
	}
	if y.known {
		x, y = y, x
	}
	var out []atomAlt
	if x.known && y.snap != nil && len(x.s) <= 8 {
		if y.id != "" && !y.ln.isConst() {
			// a named string: keep the comparison symbolic, with its length
			c := boolSym("streq:" + x.s + ":" + y.id)
			t, f := st.fork(c)
			if t != nil {
				t.assume(eq(y.ln, x.ln))
				if t.feasible() {
					out = append(out, atomAlt{t, aTrue})
				}
			}
			if f != nil {
				out = append(out, atomAlt{f, aFalse})
			}
			return out
		}
		t, f := st.fork(eq(x.ln, y.ln))
		if f != nil {
			out = append(out, atomAlt{f, aFalse})
		}
		cur := []*State{t}
		for i := 0; i < len(x.s); i++ {
			var next []*State
			for _, s := range cur {
				if s == nil {
					continue
				}
				for _, a := range s.read(y.snap.c, y.snap.off.addc(int64(i)), 8) {
					e, n := a.st.fork(eq(a.val, con(int64(x.s[i]))))
					if n != nil {
						out = append(out, atomAlt{n, aFalse})
					}
					if e != nil {
						next = append(next, e)
					}
				}
			}
			cur = next
		}
		for _, s := range cur {
			if s != nil {
				out = append(out, atomAlt{s, aTrue})
			}
		}
		return out
	}
	i1, i2 := strKey(x), strKey(y)
	if i1 > i2 {
		i1, i2 = i2, i1
	}
	return []atomAlt{{st, boolSym("streq:" + i1 + ":" + i2)}}
}

func strKey(x VStr) string {
	if x.known {
		return x.s
	}
	if x.id != "" {
		return x.id + "/" + x.ln.key()
	}
	freshCnt++
	return fmt.Sprintf("?%d", freshCnt)
}

func (in *Interp) concat(st *State, a, b VStr) Value {
	switch {
	case a.known && b.known:
		return strConst(a.s + b.s)
	case a.known && a.s == "":
		return b
	case b.known && b.s == "":
		return a
	case a.known && b.rest != nil:
		return in.concat(st, strConst(a.s+b.pre), *b.rest)
	}
	r := VStr{ln: a.ln.add(b.ln), id: "(" + strKey(a) + "+" + strKey(b) + ")"}
	if a.known {
		r.pre, r.rest = a.s, &b
	}
	c := zeroContent
	if a.snap != nil && b.snap != nil {
		c = c.push(&Content{kind: cCopy, dst: zeroL, n: a.ln, src: a.snap.c, soff: a.snap.off})
		c = c.push(&Content{kind: cCopy, dst: a.ln, n: b.ln, src: b.snap.c, soff: b.snap.off})
		r.snap = &Snap{c, zeroL, r.ln}
	}
	return r
}

func (in *Interp) convert(fr *Frame, st *State, v Value, from, to types.Type) []valAlt {
	fw, _, fok := intInfo(from)
	tw, ts, tok := intInfo(to)
	if fok && tok {
		iv, ok := v.(VInt)
		if !ok {
			return []valAlt{{st, in.freshVal(st, to, "conv")}}
		}
		_ = fw
		return intAlts(in.wrap(st, iv.l, tw, ts))
	}
	if isString(to) {
		if s, ok := v.(VSlice); ok {
			if s.arr < 0 {
				return []valAlt{{st, strConst("")}}
			}
			o := st.obj(s.arr)
			r := VStr{ln: s.len}
			if o.c != nil {
				r.snap = &Snap{o.c, s.off, s.len}
				if o.c.kind == cBase {
					r.id = fmt.Sprintf("str:%d:%s", o.c.base.id, s.off.add(o.c.shift).key())
				}
			}
			if r.id == "" {
				freshCnt++
				r.id = fmt.Sprintf("str#%d", freshCnt)
			}
			return []valAlt{{st, r}}
		}
		if isString(from) {
			return []valAlt{{st, v}}
		}
		return []valAlt{{st, in.freshVal(st, to, "string")}}
	}
	if isString(from) {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			sv, ok := v.(VStr)
			if w, _, iok := intInfo(sl.Elem()); ok && iok && w == 8 {
				o := st.newObj(kArray, sl.Elem(), "bytes")
				o.n = sv.ln
				o.c = zeroContent
				if sv.snap != nil {
					o.c = o.c.push(&Content{kind: cCopy, dst: zeroL, n: sv.ln, src: sv.snap.c, soff: sv.snap.off})
				} else {
					o.c = baseContent(newBase(o.name, 0, 255, 8))
				}
				return []valAlt{{st, VSlice{arr: o.id, len: sv.ln, cap: sv.ln}}}
			}
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		if p, ok := v.(VPtr); ok {
			return []valAlt{{st, p}}
		}
	}
	if _, ok := v.(VOpaque); ok && !tok {
		return []valAlt{{st, v}}
	}
	return []valAlt{{st, in.freshVal(st, to, "conv")}}
}

// sliceSrc gives the content a slice or string value denotes.
func (st *State) sliceSrc(v Value) (c *Content, off, ln Lin, ok bool) {
	switch s := v.(type) {
	case VSlice:
		if s.arr < 0 {
			return zeroContent, zeroL, zeroL, true
		}
		o := st.obj(s.arr)
		return o.c, s.off, s.len, o.c != nil
	case VStr:
		if s.snap == nil {
			return nil, zeroL, s.ln, false
		}
		return s.snap.c, s.snap.off, s.ln, true
	}
	return nil, zeroL, zeroL, false
}

// writeRange stores n elements of src at dst. Short constant ranges become single writes.
func (in *Interp) writeRange(st *State, arr int, dst, n Lin, src *Content, soff Lin, srcOK bool, pos token.Pos) {
	o := st.mut(arr)
	if o.c == nil {
		return
	}
	if !srcOK {
		w, sg, _ := intInfo(o.typ)
		lo, hi := rangeOf(w, sg)
		freshCnt++
		b := newBase(fmt.Sprintf("copied#%d", freshCnt), lo, hi, w)
		o.c = o.c.push(&Content{kind: cHavoc, dst: dst, n: n, base: b, where: pos})
		return
	}
	if k, ok := n.constVal(); ok && k <= 16 {
		w, _, _ := intInfo(o.typ)
		var vals []Lin
		good := true
		for i := int64(0); i < k && good; i++ {
			tmp := st.clone()
			as := tmp.read(src, soff.addc(i), w)
			if len(as) != 1 || !as[0].ok || as[0].st != tmp {
				good = false
				break
			}
			vals = append(vals, as[0].val)
		}
		if good {
			c := o.c
			for i, v := range vals {
				c = c.push(&Content{kind: cWrite, dst: dst.addc(int64(i)), n: oneL, val: v, where: pos})
			}
			o.c = c
			return
		}
	}
	if isFalseLen(n) {
		return
	}
	o.c = o.c.push(&Content{kind: cCopy, dst: dst, n: n, src: src, soff: soff, where: pos})
}

func isFalseLen(n Lin) bool { v, ok := n.constVal(); return ok && v == 0 }

func (in *Interp) builtin(ci *callInfo, name string) []callResult {
	st := ci.st
	switch name {
	case "len", "cap":
		switch v := ci.args[0].(type) {
		case VSlice:
			if name == "len" {
				return ci.ret(VInt{v.len})
			}
			return ci.ret(VInt{v.cap})
		case VStr:
			return ci.ret(VInt{v.ln})
		case VPtr:
			if v.obj >= 0 {
				return ci.ret(VInt{st.obj(v.obj).n})
			}
		case VRef:
			if v.obj >= 0 {
				o := st.obj(v.obj)
				if o.kind == kMap {
					in.access(ci.fr, st, o, "[map]", false, ci.instr)
					if !o.open {
						return ci.ret(VInt{symL(freshSym("maplen", 0, int64(len(o.mapv))))})
					}
				}
			}
		}
		return ci.ret(VInt{symL(freshSym(name, 0, 1<<40))})
	case "append":
		return in.appendCall(ci)
	case "copy":
		d, ok := ci.args[0].(VSlice)
		if !ok {
			return ci.ret(VInt{symL(freshSym("copy", 0, 1<<40))})
		}
		src, soff, sln, sok := st.sliceSrc(ci.args[1])
		if ss, ok := ci.args[1].(VSlice); ok && ss.arr >= 0 {
			in.access(ci.fr, st, st.obj(ss.arr), "[]", false, ci.instr)
		}
		var out []callResult
		y, n := st.fork(le(d.len, sln))
		for i, s := range []*State{y, n} {
			if s == nil {
				continue
			}
			cnt := d.len
			if i == 1 {
				cnt = sln
			}
			if d.arr >= 0 {
				in.access(ci.fr, s, s.obj(d.arr), "[]", true, ci.instr)
				if s.obj(d.arr).c != nil {
					in.writeRange(s, d.arr, d.off, cnt, src, soff, sok, ci.pos)
				} else {
					in.havocArr(s, d.arr)
				}
			}
			out = append(out, callResult{st: s, rets: []Value{VInt{cnt}}})
		}
		return out
	case "close":
		in.event(ci.fr, st, &Event{kind: "closechan", pos: ci.pos, vals: ci.args})
		return ci.ret()
	case "delete":
		if r, ok := ci.args[0].(VRef); ok && r.obj >= 0 {
			o := st.mut(r.obj)
			in.access(ci.fr, st, o, "[map]", true, ci.instr)
			o.mapv = nil
			o.open = true
		}
		in.event(ci.fr, st, &Event{kind: "mapdelete", pos: ci.pos, vals: ci.args})
		return ci.ret()
	case "recover":
		if ci.fr.deferred && st.pan != nil {
			in.event(ci.fr, st, &Event{kind: "recover", name: st.pan.msg, pos: ci.pos})
			st.pan = nil
			return ci.ret(VIface{id: "recovered", nil_: zeroL})
		}
		return ci.ret(VIface{id: "nil", nil_: oneL})
	case "print", "println":
		return ci.ret()
	case "ssa:wrapnilchk":
		if p, ok := ci.args[0].(VPtr); ok {
			y, n := st.fork(eq(p.nil_, zeroL))
			var out []callResult
			if n != nil {
				in.raise(ci.fr, n, ci.pos, "nil pointer dereference")
				out = append(out, callResult{st: n, panic: true})
			}
			if y != nil {
				out = append(out, callResult{st: y, rets: []Value{p}})
			}
			return out
		}
		return ci.ret(ci.args[0])
	case "min", "max":
		if a, ok := ci.args[0].(VInt); ok && len(ci.args) == 2 {
			if b, ok := ci.args[1].(VInt); ok {
				y, n := st.fork(le(a.l, b.l))
				var out []callResult
				if name == "max" {
					a, b = b, a
				}
				if y != nil {
					out = append(out, callResult{st: y, rets: []Value{a}})
				}
				if n != nil {
					out = append(out, callResult{st: n, rets: []Value{b}})
				}
				return out
			}
		}
	}
	ci.name = name
	return []callResult{{st: st, rets: ci.unknownResults(st)}}
}

func (in *Interp) appendCall(ci *callInfo) []callResult {
	st := ci.st
	s, ok := ci.args[0].(VSlice)
	if !ok || len(ci.args) < 2 {
		if ok {
			return ci.ret(s)
		}
		return ci.ret(in.freshVal(st, ci.sig.Results().At(0).Type(), "append"))
	}
	var elem types.Type
	if sl, ok := ci.types[0].Underlying().(*types.Slice); ok {
		elem = sl.Elem()
	}
	_, _, isInt := intInfo(elem)
	src, soff, n, sok := st.sliceSrc(ci.args[1])
	if ss, ok := ci.args[1].(VSlice); ok {
		n = ss.len
		if ss.arr >= 0 {
			in.access(ci.fr, st, st.obj(ss.arr), "[]", false, ci.instr)
		}
	}
	newLen := s.len.add(n)
	var out []callResult
	var grow, fits *State
	if s.arr < 0 {
		// nil slice: appending nothing keeps it nil
		y, z := st.fork(gt(n, zeroL))
		if z != nil {
			out = append(out, callResult{st: z, rets: []Value{s}})
		}
		grow = y
	} else {
		fits, grow = st.fork(le(newLen, s.cap))
	}
	if fits != nil {
		in.access(ci.fr, fits, fits.obj(s.arr), "[]", true, ci.instr)
		r := VSlice{arr: s.arr, off: s.off, len: newLen, cap: s.cap, nil_: s.nil_}
		if isInt {
			in.writeRange(fits, s.arr, s.off.add(s.len), n, src, soff, sok, ci.pos)
		} else {
			in.appendCells(fits, s.arr, s.off.add(s.len), ci.args[1])
		}
		out = append(out, callResult{st: fits, rets: []Value{r}})
	}
	if grow != nil {
		cp := symL(freshSym("appcap", 0, 1<<40))
		grow.assume(ge(cp, newLen))
		if s.arr >= 0 && grow.obj(s.arr).owned && isFalseLen(s.off) && grow.obj(s.arr).kind == kArray && in.inLoop > 0 {
			// keep the identity of a growing buffer inside loops
			o := grow.mut(s.arr)
			o.n = cp
			if isInt {
				in.writeRange(grow, s.arr, s.len, n, src, soff, sok, ci.pos)
			} else {
				in.appendCells(grow, s.arr, s.len, ci.args[1])
			}
			out = append(out, callResult{st: grow, rets: []Value{VSlice{arr: s.arr, len: newLen, cap: cp}}})
			return out
		}
		o := grow.newObj(kArray, elem, "append")
		o.n = cp
		o.site = ci.pos
		if isInt {
			o.c = zeroContent
			if s.arr >= 0 {
				oc, ooff, oln, ok := grow.sliceSrc(s)
				in.writeRange(grow, o.id, zeroL, oln, oc, ooff, ok, ci.pos)
			}
			in.writeRange(grow, o.id, s.len, n, src, soff, sok, ci.pos)
		} else {
			if s.arr >= 0 {
				in.appendCells(grow, o.id, zeroL, s)
			}
			in.appendCells(grow, o.id, s.len, ci.args[1])
		}
		out = append(out, callResult{st: grow, rets: []Value{VSlice{arr: o.id, len: newLen, cap: cp}}})
	}
	return out
}

// appendCells copies the elements of non-integer slices cell by cell where positions are known.
func (in *Interp) appendCells(st *State, arr int, dst Lin, src Value) {
	o := st.mut(arr)
	ss, ok := src.(VSlice)
	d, dok := dst.constVal()
	if ok && dok && ss.arr >= 0 {
		n, nok := ss.len.constVal()
		so, sok := ss.off.constVal()
		so_ := st.obj(ss.arr)
		if nok && sok {
			for i := int64(0); i < n; i++ {
				if v, ok := so_.cells[fmt.Sprintf("[%d]", so+i)]; ok {
					o.cells[fmt.Sprintf("[%d]", d+i)] = v
				} else {
					o.gen++
					o.zero = false
				}
			}
			return
		}
	}
	if ok && ss.arr < 0 {
		return
	}
	o.gen++
	o.zero = false
	o.cells = map[string]Value{}
}
