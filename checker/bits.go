package main

// Bit provenance: every bit of a value as a polynomial over GF(2) (algebraic normal
// form) of bits of other symbols. Decides bit operations exactly.

import (
	"fmt"
	"sort"
	"strings"
)

type bitAtom struct {
	s   *Sym
	bit int
}

var (
	bitAtoms   []bitAtom
	bitAtomTab = map[bitAtom]int{}
)

func atomID(s *Sym, bit int) int {
	a := bitAtom{s, bit}
	if id, ok := bitAtomTab[a]; ok {
		return id
	}
	id := len(bitAtoms)
	bitAtoms = append(bitAtoms, a)
	bitAtomTab[a] = id
	return id
}

// Mono is a product of distinct atoms, encoded as sorted fixed-width ids.
type Mono string

func mono(ids ...int) Mono {
	sort.Ints(ids)
	var sb strings.Builder
	last := -1
	for _, i := range ids {
		if i == last {
			continue
		}
		last = i
		fmt.Fprintf(&sb, "%06x", i)
	}
	return Mono(sb.String())
}

func (m Mono) atoms() []int {
	var r []int
	for i := 0; i+6 <= len(m); i += 6 {
		var v int
		fmt.Sscanf(string(m[i:i+6]), "%x", &v)
		r = append(r, v)
	}
	return r
}

// Poly is a sum (xor) of distinct monomials, sorted. The empty monomial is 1.
type Poly []Mono

var polyOne = Poly{""}

func polyXor(a, b Poly) Poly {
	m := map[Mono]bool{}
	for _, x := range a {
		m[x] = !m[x]
	}
	for _, x := range b {
		m[x] = !m[x]
	}
	return polyOf(m)
}

func polyOf(m map[Mono]bool) Poly {
	var r Poly
	for k, v := range m {
		if v {
			r = append(r, k)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

const polyLimit = 128

func polyAnd(a, b Poly) (Poly, bool) {
	if len(a)*len(b) > polyLimit*4 {
		return nil, false
	}
	m := map[Mono]bool{}
	for _, x := range a {
		for _, y := range b {
			k := mono(append(x.atoms(), y.atoms()...)...)
			m[k] = !m[k]
		}
	}
	r := polyOf(m)
	return r, len(r) <= polyLimit
}

func polyNot(a Poly) Poly { return polyXor(a, polyOne) }

func polyEq(a, b Poly) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func substPoly(p Poly, sb *Subst) (Poly, bool) {
	var r Poly
	for _, m := range p {
		cur := polyOne
		for _, id := range m.atoms() {
			at := bitAtoms[id]
			l := sb.sym(at.s)
			bv, ok := linToBV(l, at.bit+1)
			if !ok {
				return nil, false
			}
			cur, ok = polyAnd(cur, bv[at.bit])
			if !ok {
				return nil, false
			}
		}
		r = polyXor(r, cur)
	}
	return r, true
}

func bitLen(v int64) int {
	n := 0
	for v > 0 {
		n++
		v >>= 1
	}
	return n
}

func log2(v int64) int {
	if v <= 0 || v&(v-1) != 0 {
		return -1
	}
	return bitLen(v) - 1
}

// symBits gives the bits of a symbol with a known non-negative range.
func symBits(s *Sym) ([]Poly, bool) {
	if s.lo < 0 || s.hi >= 1<<33 {
		return nil, false
	}
	n := bitLen(s.hi)
	if s.kind == 'b' {
		return s.bits, true
	}
	if s.kind == 'd' {
		if k := log2(s.c); k > 0 {
			if bv, ok := linToBV(s.arg, n+k); ok {
				return bv[k:], true
			}
		}
	}
	r := make([]Poly, n)
	for i := range r {
		r[i] = Poly{mono(atomID(s, i))}
	}
	return r, true
}

// linToBV gives the low w bits of a linear expression, if its terms do not carry
// into each other.
func linToBV(a Lin, w int) ([]Poly, bool) {
	if w > 61 || w <= 0 {
		return nil, w == 0
	}
	for _, f := range []bool{false, true} {
		if r, ok := linToBV1(a, w, f); ok {
			return r, true
		}
	}
	// modulo 2^w the factor 2^(w-1) is its own negative
	half := int64(1) << uint(w-1)
	var flip []Lin
	for _, t := range a.t {
		if r := t.k - floorDiv(t.k, 2*half)*2*half; r == half {
			flip = append(flip, symL(t.s).scale(-2*half))
		}
	}
	if len(flip) > 3 {
		return nil, false
	}
	for s := 1; s < 1<<uint(len(flip)); s++ {
		b := a
		for i, f := range flip {
			if s>>uint(i)&1 == 1 {
				b = b.add(f)
			}
		}
		for _, f := range []bool{false, true} {
			if r, ok := linToBV1(b, w, f); ok {
				return r, true
			}
		}
	}
	return nil, false
}

func sharesTerm(a, b Lin) bool {
	for _, t := range a.t {
		for _, u := range b.t {
			if t.s == u.s {
				return true
			}
		}
	}
	return false
}

func linToBV1(a Lin, w int, fold bool) ([]Poly, bool) {
	out := make([]Poly, w)
	used := make([]bool, w)
	// only the value modulo 2^w counts: drop multiples of it, prefer small negative factors
	full := int64(1) << uint(w)
	m := con(a.c)
	if a.c < 0 {
		m = con(a.c - floorDiv(a.c, full)*full)
	}
	for _, t := range a.t {
		r := t.k - floorDiv(t.k, full)*full
		if r == 0 {
			continue
		}
		if log2(r) < 0 && log2(full-r) >= 0 {
			r -= full
		} else if t.k < 0 {
			r = t.k
		}
		m = m.add(symL(t.s).scale(r))
	}
	a = m
	// c*div(e,2^k)-c*x is c*div(e-2^k*x,2^k): undo the normal form
	for guard := 0; fold && guard < 4; guard++ {
		found := false
		for _, t := range a.t {
			if t.s.kind != 'd' || t.k <= 0 {
				continue
			}
			k, sh := log2(t.s.c), log2(t.k)
			if k <= 0 || sh < 0 || k+w > 61 {
				continue
			}
			x := Lin{}
			for _, u := range a.t {
				if u.k < 0 && u.k%t.k == 0 && u.s.kind == 'd' && sharesTerm(u.s.arg, t.s.arg) {
					x = x.add(symL(u.s).scale(u.k / t.k))
				}
			}
			if len(x.t) == 0 {
				continue
			}
			bv, ok := linToBV(t.s.arg.add(x.scale(t.s.c)), w+k)
			if !ok {
				return nil, false
			}
			for i := k; i < w+k; i++ {
				if at := i - k + sh; at < w && len(bv[i]) > 0 {
					if used[at] {
						return nil, false
					}
					out[at], used[at] = bv[i], true
				}
			}
			a = a.sub(symL(t.s).scale(t.k)).sub(x.scale(t.k))
			found = true
			break
		}
		if !found {
			break
		}
	}
	// reduce modulo terms: a = c*e - c*2^k*div(e,2^k) + rest
	for guard := 0; guard < 8; guard++ {
		found := false
		for _, t := range a.t {
			if t.s.kind != 'd' || t.k >= 0 {
				continue
			}
			k := log2(t.s.c)
			if k < 0 || (-t.k)%t.s.c != 0 {
				continue
			}
			c := -t.k / t.s.c
			sh := log2(c)
			if sh < 0 {
				continue
			}
			// e mod 2^k
			bv, ok := linToBV(t.s.arg, k)
			if !ok {
				return nil, false
			}
			for i, p := range bv {
				if i+sh < w && len(p) > 0 {
					if used[i+sh] {
						return nil, false
					}
					out[i+sh] = p
					used[i+sh] = true
				}
			}
			a = a.sub(t.s.arg.scale(c)).add(symL(t.s).scale(-t.k))
			found = true
			break
		}
		if !found {
			break
		}
	}
	// c*div(e,2^i) - c*2^(k-i)*div(e,2^k) is bits i to k-1 of e
	for guard := 0; guard < 16; guard++ {
		found := false
	pairs:
		for _, t := range a.t {
			if t.s.kind != 'd' || t.k >= 0 {
				continue
			}
			k := log2(t.s.c)
			if k < 0 {
				continue
			}
			for _, u := range a.t {
				if u.s.kind != 'd' || u.k <= 0 || u.s == t.s || !u.s.arg.eq(t.s.arg) {
					continue
				}
				i, sh := log2(u.s.c), log2(u.k)
				if i < 0 || i >= k || sh < 0 || u.k<<uint(k-i) != -t.k {
					continue
				}
				bv, ok := linToBV(t.s.arg, k)
				if !ok {
					return nil, false
				}
				for j := i; j < k; j++ {
					if at := j - i + sh; at < w && len(bv[j]) > 0 {
						if used[at] {
							return nil, false
						}
						out[at], used[at] = bv[j], true
					}
				}
				a = a.sub(symL(u.s).scale(u.k)).sub(symL(t.s).scale(t.k))
				found = true
				break pairs
			}
		}
		if !found {
			break
		}
	}
	place := func(i int, p Poly) bool {
		if len(p) == 0 {
			return true
		}
		if i >= w {
			return true
		}
		if used[i] {
			return false
		}
		used[i] = true
		out[i] = p
		return true
	}
	neg := false
	for _, t := range a.t {
		if t.k < 0 {
			neg = true
		}
	}
	if neg {
		// all-ones minus x is the complement of x
		lo, hi := a.neg().globalRange()
		_ = hi
		_ = lo
		if a.c > 0 && (a.c&(a.c+1)) == 0 {
			n := bitLen(a.c)
			x := a.neg().addc(a.c)
			if l, h := x.globalRange(); l >= 0 && h <= a.c {
				bv, ok := linToBV(x, n)
				if !ok {
					return nil, false
				}
				for i := 0; i < n; i++ {
					if !place(i, polyNot(bv[i])) {
						return nil, false
					}
				}
				return out, true
			}
		}
		return nil, false
	}
	if a.c < 0 {
		return nil, false
	}
	for _, t := range a.t {
		sh := log2(t.k)
		if sh < 0 {
			return nil, false
		}
		bv, ok := symBits(t.s)
		if !ok {
			return nil, false
		}
		for i, p := range bv {
			if !place(i+sh, p) {
				return nil, false
			}
		}
	}
	for i := 0; i < 62; i++ {
		if a.c>>uint(i)&1 == 1 && i < w {
			if used[i] {
				return nil, false
			}
			out[i] = polyOne
			used[i] = true
		}
	}
	return out, true
}

// bvToLin turns a vector of bits into a linear expression: runs of consecutive bits of
// one symbol become divisions and remainders of it, anything else a bit-vector symbol.
func bvToLin(bv []Poly) Lin {
	n := len(bv)
	for n > 0 && len(bv[n-1]) == 0 {
		n--
	}
	bv = bv[:n]
	simple := true
	for _, p := range bv {
		if len(p) == 0 || len(p) == 1 && len(p[0]) <= 6 {
			continue
		}
		simple = false
	}
	if !simple {
		var sb strings.Builder
		sb.WriteString("b:")
		for _, p := range bv {
			for _, m := range p {
				sb.WriteString(string(m))
				sb.WriteByte('+')
			}
			sb.WriteByte(';')
		}
		return symL(internSym(sb.String(), func() *Sym {
			return &Sym{kind: 'b', bits: bv, lo: 0, hi: int64(1)<<uint(n) - 1}
		}))
	}
	r := con(0)
	for i := 0; i < n; {
		p := bv[i]
		if len(p) == 0 {
			i++
			continue
		}
		if p[0] == "" {
			r = r.addc(int64(1) << uint(i))
			i++
			continue
		}
		at := bitAtoms[p[0].atoms()[0]]
		j := i + 1
		for j < n && len(bv[j]) == 1 && bv[j][0] != "" {
			b := bitAtoms[bv[j][0].atoms()[0]]
			if b.s != at.s || b.bit != at.bit+(j-i) {
				break
			}
			j++
		}
		cnt := j - i
		e := divL(symL(at.s), int64(1)<<uint(at.bit))
		if top := bitLen(at.s.hi); at.bit+cnt < top {
			e = e.sub(divL(symL(at.s), int64(1)<<uint(at.bit+cnt)).scale(int64(1) << uint(cnt)))
		}
		r = r.add(e.scale(int64(1) << uint(i)))
		i = j
	}
	return r
}

// bitOp computes a bitwise operation on w-bit unsigned values.
func bitOp(op string, a, b Lin, w int) (Lin, bool) {
	x, ok := linToBV(a, w)
	if !ok {
		return Lin{}, false
	}
	y, ok := linToBV(b, w)
	if !ok {
		return Lin{}, false
	}
	r := make([]Poly, w)
	for i := range r {
		switch op {
		case "^":
			r[i] = polyXor(x[i], y[i])
		case "&":
			r[i], ok = polyAnd(x[i], y[i])
		case "&^":
			r[i], ok = polyAnd(x[i], polyNot(y[i]))
		case "|":
			var p Poly
			p, ok = polyAnd(x[i], y[i])
			r[i] = polyXor(polyXor(x[i], y[i]), p)
		}
		if !ok {
			return Lin{}, false
		}
		if len(r[i]) > polyLimit {
			return Lin{}, false
		}
	}
	return bvToLin(r), true
}
