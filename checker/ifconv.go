package main

// A branch on a single bit that only chooses between values of unsigned integers is not
// split: the values are muxed bit by bit. A bitwise checksum step then has one path.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type muxed struct {
	blk  *ssa.BasicBlock
	vals map[*ssa.Phi]Value
}

// bitAtomOf: the condition tests a single bit: v, which is 0 or 1<<at.
func bitAtomOf(st *State, a Atom) (v Lin, neg bool, bit Poly, at int, ok bool) {
	v = a.l.addc(-a.l.c)
	in16 := func(v Lin) bool { return st.entails(ge(v, zeroL)) && st.entails(le(v, con(1<<16-1))) }
	if a.op >= opT || len(v.t) == 0 || len(v.t) > 4 {
		return
	}
	if !in16(v) {
		v, neg = v.scale(-1), true
		if !in16(v) {
			return
		}
	}
	bv, okb := linToBV(v, 17)
	if !okb {
		return
	}
	at = -1
	for i, p := range bv {
		if len(p) > 0 {
			if at >= 0 {
				return
			}
			at = i
		}
	}
	if at < 0 {
		return
	}
	return v, neg, bv[at], at, true
}

// atomPoly gives the condition as a polynomial, if it depends on a single bit position.
func atomPoly(st *State, a Atom) (Poly, bool) {
	_, neg, bit, at, ok := bitAtomOf(st, a)
	if !ok {
		return nil, false
	}
	truth := func(x int64) bool {
		if neg {
			x = -x
		}
		x += a.l.c
		switch a.op {
		case opEQ:
			return x == 0
		case opNE:
			return x != 0
		}
		return x >= 0
	}
	t0, t1 := truth(0), truth(1<<uint(at))
	if t0 == t1 {
		return nil, false
	}
	if t1 {
		return bit, true
	}
	return polyNot(bit), true
}

func pureSide(b, from *ssa.BasicBlock) bool {
	if len(b.Preds) != 1 || b.Preds[0] != from || len(b.Succs) != 1 || len(b.Instrs) > 12 {
		return false
	}
	for i, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef:
		case *ssa.Jump:
			if i != len(b.Instrs)-1 {
				return false
			}
		case *ssa.UnOp:
			if x.Op.String() != "^" && x.Op.String() != "-" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// ifConvert executes both sides of a branch at once.
func (in *Interp) ifConvert(fr *Frame, p *Path, blk *ssa.BasicBlock, a Atom, y, n *State) (Exit, bool) {
	s0, s1 := blk.Succs[0], blk.Succs[1]
	var join *ssa.BasicBlock
	side := [2]*ssa.BasicBlock{}
	switch {
	case s0 == s1:
		return Exit{}, false
	case pureSide(s0, blk) && s0.Succs[0] == s1:
		join, side[0] = s1, s0
	case pureSide(s1, blk) && s1.Succs[0] == s0:
		join, side[1] = s0, s1
	case pureSide(s0, blk) && pureSide(s1, blk) && s0.Succs[0] == s1.Succs[0]:
		join, side[0], side[1] = s0.Succs[0], s0, s1
	default:
		return Exit{}, false
	}
	some := false
	for _, ins := range join.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		_ = ph
		some = true
	}
	if !some {
		return Exit{}, false
	}
	cond, ok := atomPoly(p.st, a)
	if !ok {
		return Exit{}, false
	}
	in.quiet++
	defer func() { in.quiet-- }()
	var vals [2]map[*ssa.Phi]Value
	var from *ssa.BasicBlock
	for i, st := range []*State{y, n} {
		q := p.fork(st.clone())
		pred := blk
		if b := side[i]; b != nil {
			es := in.execBlock(fr, b, blk, q, false)
			if len(es) != 1 || es[0].kind != exEdge {
				return Exit{}, false
			}
			q, pred = es[0].p, b
			from = b
		}
		vals[i] = in.phiValues(fr, join, pred, q)
	}
	out := map[*ssa.Phi]Value{}
	for ph, t := range vals[0] {
		f := vals[1][ph]
		if valueEq(t, f) {
			out[ph] = t
			continue
		}
		ti, ok1 := t.(VInt)
		fi, ok2 := f.(VInt)
		b, ok3 := ph.Type().Underlying().(*types.Basic)
		if !ok1 || !ok2 || !ok3 {
			return Exit{}, false
		}
		w := 0
		switch b.Kind() {
		case types.Uint8:
			w = 8
		case types.Uint16:
			w = 16
		case types.Uint32:
			w = 32
		default:
			return Exit{}, false
		}
		tv, ok1 := linToBV(ti.l, w)
		fv, ok2 := linToBV(fi.l, w)
		if !ok1 || !ok2 {
			return Exit{}, false
		}
		r := make([]Poly, w)
		for i := range r {
			d, ok := polyAnd(cond, polyXor(tv[i], fv[i]))
			if !ok {
				return Exit{}, false
			}
			r[i] = polyXor(fv[i], d)
			if len(r[i]) > polyLimit {
				return Exit{}, false
			}
		}
		out[ph] = VInt{bvToLin(r)}
	}
	q := p.fork(p.st)
	q.mux = &muxed{join, out}
	return Exit{kind: exEdge, p: q, from: from, to: join}, true
}
