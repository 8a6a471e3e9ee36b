package main

// Single bits at positions that are not constant: 1<<m, x>>m, x|1<<m, x&^(1<<m) with
// 0 <= m <= 7 stay symbolic while they are used as such, so that a loop over bits
// reads and writes single bits of the storage.

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func termOf(l Lin, fn string) *Sym {
	if len(l.t) == 1 && l.c == 0 && l.t[0].k == 1 && l.t[0].s.kind == 'u' && l.t[0].s.fn == fn {
		return l.t[0].s
	}
	return nil
}

// notBit: l is the complement (in w bits) of 1<<m.
func notBit(l Lin, w int, sg bool) *Sym {
	full := int64(1)<<uint(w) - 1
	if sg {
		full = -1
	}
	return termOf(con(full).sub(l), "bit8")
}

func symShift(op token.Token, a, b Lin, bl, bh int64, w int) (Lin, bool) {
	if bl < 0 || bh > 7 {
		return Lin{}, false
	}
	if op == token.SHL {
		if a.eq(oneL) && w >= 8 {
			return fnL("bit8", 1, 128, b), true
		}
		return Lin{}, false
	}
	if byteElem(a) {
		return fnL("shr8", 0, 255, a, b), true
	}
	return Lin{}, false
}

func byteElem(a Lin) bool {
	if len(a.t) != 1 || a.c != 0 || a.t[0].k != 1 {
		return false
	}
	s := a.t[0].s
	if s.kind == 'u' && strings.HasPrefix(s.fn, "bytes#") {
		return true
	}
	return s.kind == 'i' && s.base.width == 8 && s.base.consts == nil
}

func (in *Interp) symBitOp(fr *Frame, p *Path, st *State, op token.Token, a, b Lin, w int, sg bool, x *ssa.BinOp) ([]valAlt, bool) {
	mentions := false
	for _, l := range []Lin{a, b} {
		l.mentions(func(s *Sym) bool {
			if s.kind == 'u' && (s.fn == "bit8" || s.fn == "shr8") {
				mentions = true
			}
			return false
		})
	}
	if !mentions {
		return nil, false
	}
	if op != token.AND_NOT && (a.eq(oneL) || termOf(a, "bit8") != nil || notBit(a, w, sg) != nil) {
		a, b = b, a
	}
	var r []valAlt
	if s := termOf(a, "shr8"); s != nil && op == token.AND && b.eq(oneL) {
		for _, e := range st.bitOf(s.args[0], s.args[1], 0) {
			if e.st.feasible() {
				r = append(r, valAlt{e.st, VInt{e.val}})
			}
		}
		return r, true
	}
	if byteElem(a) {
		m, n := termOf(b, "bit8"), notBit(b, w, sg)
		switch {
		case m != nil && op == token.OR:
			return []valAlt{{st, VInt{fnL("setbit", 0, 255, a, m.args[0])}}}, true
		case m != nil && op == token.AND_NOT:
			return []valAlt{{st, VInt{fnL("clrbit", 0, 255, a, m.args[0])}}}, true
		case n != nil && op == token.AND:
			return []valAlt{{st, VInt{fnL("clrbit", 0, 255, a, n.args[0])}}}, true
		case m != nil && op == token.AND:
			for _, e := range st.bitOf(a, m.args[0], 0) {
				y, no := e.st.fork(eq(e.val, oneL))
				if y != nil && y.feasible() {
					r = append(r, valAlt{y, VInt{b}})
				}
				if no != nil && no.feasible() {
					r = append(r, valAlt{no, VInt{zeroL}})
				}
			}
			return r, true
		}
	}
	// anything else: by position
	return in.bySplit(fr, p, st, op, a, b, w, sg, x), true
}

// bySplit computes the operation for every position the symbolic bits may have.
func (in *Interp) bySplit(fr *Frame, p *Path, st *State, op token.Token, a, b Lin, w int, sg bool, x *ssa.BinOp) []valAlt {
	var at *Sym
	for _, l := range []Lin{a, b} {
		for _, t := range l.t {
			if t.s.kind == 'u' && (t.s.fn == "bit8" || t.s.fn == "shr8") {
				at = t.s
			}
		}
	}
	if at == nil {
		l, ok := in.bitwise(st, op, a, b, w, sg)
		if !ok {
			lo, hi := rangeOf(w, sg)
			in.stats.imprecise["symbits"]++
			l = fnL("symbits "+op.String(), lo, hi, a, b)
		}
		return []valAlt{{st, VInt{l}}}
	}
	m := at.args[len(at.args)-1]
	var r []valAlt
	cur := st
	for k := int64(0); k <= 7 && cur != nil; k++ {
		var y *State
		y, cur = cur.fork(eq(m, con(k)))
		if y == nil || !y.feasible() {
			continue
		}
		v := con(int64(1) << uint(k))
		if at.fn == "shr8" {
			v = divL(at.args[0], int64(1)<<uint(k))
		}
		sub := newSubst(map[*Sym]Lin{at: v})
		q := *p
		q.st = y
		as, _ := in.arith(fr, &q, op, sub.lin(a), sub.lin(b), w, sg, x)
		r = append(r, as...)
	}
	return r
}

// bitStore recognises the store of an element with one bit changed.
func bitStore(st *State, c *Content, idx, v Lin) *Content {
	val := oneL
	s := termOf(v, "setbit")
	if s == nil {
		s, val = termOf(v, "clrbit"), zeroL
	}
	if s == nil {
		return nil
	}
	rs := st.clone().read(c, idx, 8)
	if len(rs) != 1 || !provEq(rs[0].st, rs[0].val, s.args[0]) {
		return nil
	}
	return &Content{kind: cBits, dst: idx.scale(8).add(s.args[1]), n: oneL, val: val}
}

// contentID names a content by number.
func contentID(c *Content) int {
	for i, x := range bitReads {
		if x == c || x.kind == cBase && c.kind == cBase && x.base == c.base && x.shift.eq(c.shift) {
			return i
		}
	}
	bitReads = append(bitReads, c)
	return len(bitReads) - 1
}

// bytesOf is byte i of a content that was written bit by bit.
func bytesOf(c *Content, i Lin) Lin { return fnL(fmt.Sprintf("bytes#%d", contentID(c)), 0, 255, i) }

// namedContent gives the content a symbol reads by number.
func namedContent(s *Sym) *Content {
	if s.kind != 'u' {
		return nil
	}
	for _, p := range []string{"getbits#", "bytes#"} {
		if strings.HasPrefix(s.fn, p) {
			var id int
			fmt.Sscanf(s.fn[len(p):], "%d", &id)
			return bitReads[id]
		}
	}
	return nil
}

// older: the content was there before the loop and does not depend on it.
func (g *generaliser) older(c *Content) bool {
	for ; c != nil; c = c.prev {
		if c.base != nil && c.base.stamp() > g.baseMark || c.src != nil && !g.older(c.src) {
			return false
		}
		for _, l := range []Lin{c.dst, c.n, c.val, c.soff, c.shift} {
			if l.mentions(func(s *Sym) bool { return s == g.k || s.id >= g.mark && s.kind == 'f' }) {
				return false
			}
		}
	}
	return true
}
