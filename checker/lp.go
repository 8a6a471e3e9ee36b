package main

// Emptiness of a conjunction of linear constraints (the polyhedral part of the domain):
// general simplex over rationals, integer rounding of bounds, bounded branching.

import (
	"math/bits"
	"sort"
)

type rat struct{ n, d int64 } // d > 0

type ovf struct{}

func mul(a, b int64) int64 {
	na, nb := a, b
	neg := false
	if na < 0 {
		na, neg = -na, !neg
	}
	if nb < 0 {
		nb, neg = -nb, !neg
	}
	hi, lo := bits.Mul64(uint64(na), uint64(nb))
	if hi != 0 || lo >= 1<<62 {
		panic(ovf{})
	}
	if neg {
		return -int64(lo)
	}
	return int64(lo)
}

func addI(a, b int64) int64 {
	c := a + b
	if c >= 1<<62 || c <= -(1<<62) {
		panic(ovf{})
	}
	return c
}

func mkRat(n, d int64) rat {
	if d < 0 {
		n, d = -n, -d
	}
	if d == 1 {
		return rat{n, 1}
	}
	g := gcd(n, d)
	if g > 1 {
		n, d = n/g, d/g
	}
	return rat{n, d}
}
func ri(n int64) rat { return rat{n, 1} }
func (a rat) add(b rat) rat {
	if a.d == 1 && b.d == 1 {
		return rat{addI(a.n, b.n), 1}
	}
	return mkRat(addI(mul(a.n, b.d), mul(b.n, a.d)), mul(a.d, b.d))
}
func (a rat) sub(b rat) rat { return a.add(rat{-b.n, b.d}) }
func (a rat) mul(b rat) rat {
	if a.d == 1 && b.d == 1 {
		return rat{mul(a.n, b.n), 1}
	}
	g1, g2 := gcd(a.n, b.d), gcd(b.n, a.d)
	if g1 == 0 {
		g1 = 1
	}
	if g2 == 0 {
		g2 = 1
	}
	return mkRat(mul(a.n/g1, b.n/g2), mul(a.d/g2, b.d/g1))
}
func (a rat) div(b rat) rat {
	if b.n < 0 {
		return a.mul(rat{-b.d, -b.n})
	}
	return a.mul(rat{b.d, b.n})
}
func (a rat) cmp(b rat) int {
	if a.d == b.d {
		switch {
		case a.n < b.n:
			return -1
		case a.n > b.n:
			return 1
		}
		return 0
	}
	x, y := mul(a.n, b.d), mul(b.n, a.d)
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}
func (a rat) isZero() bool { return a.n == 0 }

type bound struct {
	ok bool
	v  rat
}

type simplex struct {
	nv     int // total variables
	lo, hi []bound
	val    []rat
	basic  []int   // row -> var
	rowOf  []int   // var -> row or -1
	tab    [][]rat // row over all vars (nonbasic coefficients)
	steps  int
}

var lpStats struct{ calls, overflow, steps, giveup, models int }

func (s *simplex) check() bool {
	for {
		s.steps++
		if s.steps > 2000 {
			lpStats.giveup++
			panic(ovf{})
		}
		// smallest basic variable violating a bound
		bv, below := -1, false
		row := -1
		for r, v := range s.basic {
			if s.lo[v].ok && s.val[v].cmp(s.lo[v].v) < 0 {
				if bv < 0 || v < bv {
					bv, below, row = v, true, r
				}
			} else if s.hi[v].ok && s.val[v].cmp(s.hi[v].v) > 0 {
				if bv < 0 || v < bv {
					bv, below, row = v, false, r
				}
			}
		}
		if bv < 0 {
			return true
		}
		nb := -1
		for j := 0; j < s.nv; j++ {
			if s.rowOf[j] >= 0 {
				continue
			}
			c := s.tab[row][j]
			if c.isZero() {
				continue
			}
			pos := c.n > 0
			if below == pos { // increase j
				if !s.hi[j].ok || s.val[j].cmp(s.hi[j].v) < 0 {
					nb = j
					break
				}
			} else {
				if !s.lo[j].ok || s.val[j].cmp(s.lo[j].v) > 0 {
					nb = j
					break
				}
			}
		}
		if nb < 0 {
			return false
		}
		target := s.hi[bv].v
		if below {
			target = s.lo[bv].v
		}
		s.pivot(row, nb, target)
	}
}

func (s *simplex) pivot(row, nb int, target rat) {
	bv := s.basic[row]
	a := s.tab[row][nb]
	theta := target.sub(s.val[bv]).div(a)
	s.val[bv] = target
	s.val[nb] = s.val[nb].add(theta)
	for r, v := range s.basic {
		if r != row && !s.tab[r][nb].isZero() {
			s.val[v] = s.val[v].add(s.tab[r][nb].mul(theta))
		}
	}
	// bv = sum t_j x_j  =>  nb = (bv - sum_{j!=nb} t_j x_j)/a
	old := s.tab[row]
	nr := make([]rat, s.nv)
	for j := range nr {
		nr[j] = rat{0, 1}
	}
	for j := 0; j < s.nv; j++ {
		if j != nb && !old[j].isZero() {
			x := old[j].div(a)
			nr[j] = rat{-x.n, x.d}
		}
	}
	nr[bv] = ri(1).div(a)
	s.tab[row] = nr
	for r := range s.basic {
		if r == row {
			continue
		}
		t := s.tab[r]
		c := t[nb]
		if c.isZero() {
			continue
		}
		t[nb] = rat{0, 1}
		for j := 0; j < s.nv; j++ {
			if !nr[j].isZero() {
				t[j] = t[j].add(c.mul(nr[j]))
			}
		}
	}
	s.rowOf[bv] = -1
	s.rowOf[nb] = row
	s.basic[row] = nb
}

// infeasible reports that no integer assignment satisfies all constraints (each either
// lin >= 0 or lin == 0), given the ranges and definitions of the symbols. It may answer
// false (unknown) for an unsatisfiable set, never true for a satisfiable one.
func infeasible(cs []Atom, nes []Lin) (res bool, found *model) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(ovf); ok {
				lpStats.overflow++
				res, found = false, nil
				return
			}
			panic(r)
		}
	}()
	lpStats.calls++
	nes = reduced(nes)
	// collect symbols and definitional axioms
	idx := map[*Sym]int{}
	var syms []*Sym
	var rows []Atom
	var queue []*Sym
	addSyms := func(l Lin) {
		for _, t := range l.t {
			if _, ok := idx[t.s]; !ok {
				idx[t.s] = len(syms)
				syms = append(syms, t.s)
				queue = append(queue, t.s)
			}
		}
	}
	for _, c := range cs {
		rows = append(rows, c)
		addSyms(c.l)
	}
	for _, l := range nes {
		addSyms(l)
	}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		if s.kind == 'd' {
			m := s.arg.sub(symL(s).scale(s.c))
			rows = append(rows, Atom{opGE, m}, Atom{opGE, m.neg().addc(s.c - 1)})
			addSyms(s.arg)
		}
	}
	// a quotient of what an equality takes apart: s == 256*a + b gives s/256 == a
	nd := 0
	for _, c := range cs {
		if c.op != opEQ || len(c.l.t) < 2 {
			continue
		}
		for _, t := range c.l.t {
			if t.k != 1 && t.k != -1 || t.s.kind == 'd' {
				continue
			}
			for _, d := range syms[:len(syms):len(syms)] {
				if d.kind != 'd' || nd >= 16 {
					continue
				}
				for _, u := range d.arg.t {
					if u.s != t.s {
						continue
					}
					q := divL(d.arg.sub(c.l.scale(mul(u.k, t.k))), d.c)
					plain := true
					for _, v := range q.t {
						plain = plain && v.s.kind != 'd'
					}
					if plain {
						nd++
						addSyms(q)
						rows = append(rows, Atom{opEQ, symL(d).sub(q)})
					}
				}
			}
		}
	}
	lpPoint = nil
	if solveRows(rows, nes, syms, idx) {
		return true, nil
	}
	if m := newModel(syms, lpPoint, rows, nes); m != nil {
		return false, m
	}
	if r2, n2, ok := presolve(rows, nes); ok {
		return solveRows(r2, n2, syms, idx) || parityConflict(r2), nil
	}
	return parityConflict(rows), nil
}

// reduced divides disequalities by what all their coefficients have in common.
func reduced(nes []Lin) []Lin {
	var out []Lin
	for i, l := range nes {
		g := int64(0)
		for _, t := range l.t {
			g = gcd(g, t.k)
		}
		if g > 1 && out == nil {
			out = append([]Lin(nil), nes[:i]...)
		}
		if g > 1 {
			if l.c%g != 0 {
				continue // holds anyway
			}
			r := Lin{c: l.c / g, t: make([]Term, len(l.t))}
			for j, t := range l.t {
				r.t[j] = Term{t.s, t.k / g}
			}
			l = r
		}
		if out != nil {
			out = append(out, l)
		}
	}
	if out == nil {
		return nes
	}
	return out
}

// presolve substitutes equalities with a unit coefficient, so that the inequalities left can
// be tightened by divisibility; ok reports whether it changed anything that may matter.
func presolve(rows []Atom, nes []Lin) ([]Atom, []Lin, bool) {
	big, eqs := 0, 0
	for _, r := range rows {
		if r.op == opEQ && len(r.l.t) > 1 {
			eqs++
		}
		for _, t := range r.l.t {
			if t.k > 1 || t.k < -1 {
				big++
				break
			}
		}
	}
	if big < 2 || eqs == 0 {
		return nil, nil, false
	}
	rs := append([]Atom(nil), rows...)
	ns := append([]Lin(nil), nes...)
	changed := false
	for i := range rs {
		r := rs[i]
		if r.op != opEQ || len(r.l.t) < 2 {
			continue
		}
		at := -1
		for j, t := range r.l.t {
			if (t.k == 1 || t.k == -1) && (at < 0 || t.s.kind != 'd' && r.l.t[at].s.kind == 'd') {
				at = j
			}
		}
		if at < 0 {
			continue
		}
		t := r.l.t[at]
		sub := func(l Lin) Lin {
			for _, u := range l.t {
				if u.s == t.s {
					return l.sub(r.l.scale(mul(u.k, t.k)))
				}
			}
			return l
		}
		for j := range rs {
			if j != i {
				rs[j].l = sub(rs[j].l)
			}
		}
		for j := range ns {
			ns[j] = sub(ns[j])
		}
		// the bounds of the variable hold for what replaces it
		x := symL(t.s).sub(r.l.scale(t.k))
		if t.s.lo > negInf {
			rs = append(rs, Atom{opGE, x.addc(-t.s.lo)})
		}
		if t.s.hi < posInf {
			rs = append(rs, Atom{opGE, x.neg().addc(t.s.hi)})
		}
		rs[i] = Atom{opGE, zeroL}
		changed = true
	}
	return rs, ns, changed
}

func solveRows(rows []Atom, nes []Lin, syms []*Sym, idx map[*Sym]int) bool {
	n := len(syms)
	lo := make([]int64, n)
	hi := make([]int64, n)
	for i, s := range syms {
		lo[i], hi[i] = s.lo, s.hi
	}
	var multi []Atom
	for _, c := range rows {
		l := c.l
		switch len(l.t) {
		case 0:
			if c.op == opGE && l.c < 0 || c.op == opEQ && l.c != 0 {
				return true
			}
		case 1:
			i, k := idx[l.t[0].s], l.t[0].k
			// k*x + c >= 0
			if c.op == opEQ {
				if l.c%k != 0 {
					return true
				}
				v := -l.c / k
				if v > lo[i] {
					lo[i] = v
				}
				if v < hi[i] {
					hi[i] = v
				}
			} else if k > 0 {
				v := -floorDiv(l.c, k)
				if v > lo[i] {
					lo[i] = v
				}
			} else {
				v := floorDiv(l.c, -k)
				if v < hi[i] {
					hi[i] = v
				}
			}
		default:
			g := int64(0)
			for _, t := range l.t {
				g = gcd(g, t.k)
			}
			if g > 1 {
				if c.op == opEQ && l.c%g != 0 {
					return true
				}
				r := Lin{c: floorDiv(l.c, g), t: make([]Term, len(l.t))}
				for j, t := range l.t {
					r.t[j] = Term{t.s, t.k / g}
				}
				l = r
			}
			multi = append(multi, Atom{c.op, l})
		}
	}
	for i := range lo {
		if lo[i] > hi[i] {
			return true
		}
	}
	// interval propagation
	for round := 0; round < 6; round++ {
		changed := false
		for _, c := range multi {
			for pass := 0; pass < 2; pass++ {
				l := c.l
				if pass == 1 {
					if c.op != opEQ {
						break
					}
					l = l.neg()
				}
				// sum k x + c >= 0
				max := l.c
				inf := 0
				infAt := -1
				for _, t := range l.t {
					i := idx[t.s]
					var m int64
					if t.k > 0 {
						m = rMul(hi[i], t.k)
					} else {
						m = rMul(lo[i], t.k)
					}
					if m >= posInf {
						inf++
						infAt = i
					} else {
						max = clampInf(max + m)
					}
				}
				if inf == 0 && max < 0 {
					return true
				}
				if inf > 1 {
					continue
				}
				for _, t := range l.t {
					i := idx[t.s]
					if inf == 1 && infAt != i {
						continue
					}
					rest := max
					if inf == 0 {
						if t.k > 0 {
							rest = max - rMul(hi[i], t.k)
						} else {
							rest = max - rMul(lo[i], t.k)
						}
					}
					if rest >= posInf || rest <= negInf {
						continue
					}
					// k x >= -rest
					if t.k > 0 {
						v := -floorDiv(rest, t.k)
						if v > lo[i] {
							lo[i] = v
							changed = true
						}
					} else {
						v := floorDiv(rest, -t.k)
						if v < hi[i] {
							hi[i] = v
							changed = true
						}
					}
					if lo[i] > hi[i] {
						return true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	return lpSearch(syms, idx, lo, hi, multi, nes, 0)
}

// parityConflict decides whether the equalities alone (pairs of opposite inequalities
// included) have no integer solution, by elimination with divisibility tests.
func parityConflict(rows []Atom) bool {
	big := 0
	for _, r := range rows {
		for _, t := range r.l.t {
			if t.k > 1 || t.k < -1 {
				big++
				break
			}
		}
	}
	if big < 2 {
		return false
	}
	var eqs []Lin
	seen := map[string]bool{}
	for _, r := range rows {
		if r.op == opEQ {
			eqs = append(eqs, r.l)
			continue
		}
		seen[r.l.key()] = true
	}
	for _, r := range rows {
		if r.op == opGE && len(r.l.t) > 0 && r.l.t[0].k > 0 && seen[r.l.neg().key()] {
			eqs = append(eqs, r.l)
		}
	}
	if len(eqs) < 2 {
		return false
	}
	for len(eqs) > 0 {
		// an equality with a unit coefficient is solved and substituted
		pick, at := -1, -1
		for i, l := range eqs {
			g := int64(0)
			for _, t := range l.t {
				g = gcd(g, t.k)
			}
			if g == 0 {
				if l.c != 0 {
					return true
				}
				continue
			}
			if l.c%g != 0 {
				return true
			}
			if g > 1 {
				r := Lin{c: l.c / g}
				for _, t := range l.t {
					r.t = append(r.t, Term{t.s, t.k / g})
				}
				eqs[i] = r
				l = r
			}
			if pick < 0 {
				for j, t := range l.t {
					if t.k == 1 || t.k == -1 {
						pick, at = i, j
						break
					}
				}
			}
		}
		if pick < 0 {
			return false
		}
		l := eqs[pick]
		t := l.t[at]
		eqs = append(eqs[:pick:pick], eqs[pick+1:]...)
		for i, m := range eqs {
			for _, u := range m.t {
				if u.s == t.s {
					if mul(u.k, t.k) > 1<<40 {
						return false
					}
					eqs[i] = m.sub(l.scale(u.k * t.k))
					break
				}
			}
		}
	}
	return false
}

func lpSearch(syms []*Sym, idx map[*Sym]int, lo, hi []int64, multi []Atom, nes []Lin, depth int) bool {
	n := len(syms)
	// fixed variables are substituted; live ones get columns
	col := make([]int, n)
	var live []int
	for i := range syms {
		if lo[i] > hi[i] {
			return true
		}
		if lo[i] == hi[i] {
			col[i] = -1
		} else {
			col[i] = len(live)
			live = append(live, i)
		}
	}
	type row struct {
		l    []Term // sym index in k field? kept as terms
		c    int64
		isEq bool
	}
	var rws []row
	for _, c := range multi {
		r := row{c: c.l.c, isEq: c.op == opEQ}
		mn, mx := c.l.c, c.l.c
		for _, t := range c.l.t {
			i := idx[t.s]
			if col[i] < 0 {
				v := rMul(lo[i], t.k)
				r.c = addI(r.c, v)
				mn, mx = rAdd(mn, v), rAdd(mx, v)
			} else {
				r.l = append(r.l, t)
				a, b := rMul(lo[i], t.k), rMul(hi[i], t.k)
				if t.k < 0 {
					a, b = b, a
				}
				mn, mx = rAdd(mn, a), rAdd(mx, b)
			}
		}
		if mx < 0 || r.isEq && mn > 0 {
			return true
		}
		if !r.isEq && mn >= 0 {
			continue // implied
		}
		if len(r.l) == 0 {
			continue
		}
		rws = append(rws, r)
	}
	m := len(rws)
	nl := len(live)
	s := &simplex{nv: nl + m}
	s.lo = make([]bound, s.nv)
	s.hi = make([]bound, s.nv)
	s.val = make([]rat, s.nv)
	s.rowOf = make([]int, s.nv)
	for j, i := range live {
		if lo[i] > negInf {
			s.lo[j] = bound{true, ri(lo[i])}
		}
		if hi[i] < posInf {
			s.hi[j] = bound{true, ri(hi[i])}
		}
		switch {
		case s.lo[j].ok && s.hi[j].ok && lo[i] <= 0 && hi[i] >= 0:
			s.val[j] = ri(0)
		case s.lo[j].ok && lo[i] > 0:
			s.val[j] = s.lo[j].v
		case s.hi[j].ok && hi[i] < 0:
			s.val[j] = s.hi[j].v
		default:
			s.val[j] = ri(0)
		}
		s.rowOf[j] = -1
	}
	for r, rw := range rws {
		v := nl + r
		s.rowOf[v] = r
		s.basic = append(s.basic, v)
		t := make([]rat, s.nv)
		for j := range t {
			t[j] = rat{0, 1}
		}
		val := ri(0)
		for _, tm := range rw.l {
			j := col[idx[tm.s]]
			t[j] = t[j].add(ri(tm.k))
			val = val.add(ri(tm.k).mul(s.val[j]))
		}
		s.tab = append(s.tab, t)
		s.val[v] = val
		s.lo[v] = bound{true, ri(-rw.c)}
		if rw.isEq {
			s.hi[v] = bound{true, ri(-rw.c)}
		}
	}
	ok := s.check()
	lpStats.steps += s.steps
	if !ok {
		return true
	}
	if depth >= 12 {
		return false
	}
	// integer branching
	best := -1
	for j, i := range live {
		if s.val[j].d != 1 {
			if best < 0 || hi[i]-lo[i] < hi[live[best]]-lo[live[best]] {
				best = j
			}
		}
	}
	if best >= 0 {
		if depth >= 6 {
			return false
		}
		i := live[best]
		f := floorDiv(s.val[best].n, s.val[best].d)
		h2 := append([]int64(nil), hi...)
		h2[i] = f
		if !lpSearch(syms, idx, lo, h2, multi, nes, depth+1) {
			return false
		}
		l2 := append([]int64(nil), lo...)
		l2[i] = f + 1
		return lpSearch(syms, idx, l2, hi, multi, nes, depth+1)
	}
	// disequalities violated by this point
	for _, l := range nes {
		v := ri(l.c)
		for _, t := range l.t {
			i := idx[t.s]
			x := ri(lo[i])
			if col[i] >= 0 {
				x = s.val[col[i]]
			}
			v = v.add(x.mul(ri(t.k)))
		}
		if v.isZero() {
			rest := make([]Lin, 0, len(nes))
			for _, o := range nes {
				if !o.eq(l) {
					rest = append(rest, o)
				}
			}
			for _, sg := range []int64{1, -1} {
				g := l.scale(sg).addc(-1)
				mm := append(append([]Atom(nil), multi...), Atom{opGE, g})
				lo2, hi2 := append([]int64(nil), lo...), append([]int64(nil), hi...)
				if len(g.t) == 1 {
					mm = multi
					i, k := idx[g.t[0].s], g.t[0].k
					if k > 0 {
						if v := -floorDiv(g.c, k); v > lo2[i] {
							lo2[i] = v
						}
					} else if v := floorDiv(g.c, -k); v < hi2[i] {
						hi2[i] = v
					}
				}
				if !lpSearch(syms, idx, lo2, hi2, mm, rest, depth+1) {
					return false
				}
			}
			return true
		}
	}
	lpPoint = make([]int64, n)
	for i := range syms {
		lpPoint[i] = lo[i]
		if col[i] >= 0 {
			lpPoint[i] = s.val[col[i]].n
		}
	}
	return false
}

func sortSyms(s []*Sym) { sort.Slice(s, func(i, j int) bool { return s[i].id < s[j].id }) }
