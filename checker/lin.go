package main

// Linear expressions over symbols, the numeric part of the abstract domain.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

const (
	negInf = int64(-1) << 62
	posInf = int64(1) << 62
)

// Sym is a symbolic integer. Symbols are interned by their definition, so that
// the same expression on two paths is the same symbol.
type Sym struct {
	id     int
	kind   byte // 'f' free, 'i' element of an input, 'd' floor division, 'b' bit vector, 'u' uninterpreted
	name   string
	lo, hi int64
	// kind 'i'
	base *Base
	off  Lin
	// kind 'd'
	arg Lin
	c   int64
	// kind 'b'
	bits []Poly
	// kind 'u'
	fn   string
	args []Lin
	snap *Snap // content the function is applied to, if any
}

// Base is a block of input data of unknown content: a peer's bytes, a caller's
// buffer, the initial content of a register bank, or a constant table.
type Base struct {
	id     int
	name   string
	lo, hi int64
	consts []int64
	width  int
	of     *Base // the bits of another base
}

// stamp is when the memory behind a base came up.
func (b *Base) stamp() int {
	if b.of != nil {
		return b.of.id
	}
	return b.id
}

// bitsOf is the memory of a base, bit by bit.
func bitsOf(b *Base) *Base {
	n := namedBase(fmt.Sprintf("bits(%s/%d)", b.name, b.id), 0, 1, 1)
	n.of = b
	return n
}

// Snap is a range of some content at some point of the execution.
type Snap struct {
	c   *Content
	off Lin
	n   Lin
}

var (
	symTab   = map[string]*Sym{}
	allSyms  []*Sym
	baseTab  = map[string]*Base{}
	nBases   int
	freshCnt int
)

func internSym(key string, mk func() *Sym) *Sym {
	if s, ok := symTab[key]; ok {
		return s
	}
	s := mk()
	s.id = len(allSyms)
	allSyms = append(allSyms, s)
	symTab[key] = s
	return s
}

func newBase(name string, lo, hi int64, width int) *Base {
	nBases++
	return &Base{id: nBases, name: name, lo: lo, hi: hi, width: width}
}

func namedBase(name string, lo, hi int64, width int) *Base {
	if b, ok := baseTab[name]; ok {
		return b
	}
	b := newBase(name, lo, hi, width)
	baseTab[name] = b
	return b
}

func constBase(name string, v []int64, width int) *Base {
	k := "const:" + name
	if b, ok := baseTab[k]; ok {
		return b
	}
	lo, hi := v[0], v[0]
	for _, x := range v {
		if x < lo {
			lo = x
		}
		if x > hi {
			hi = x
		}
	}
	b := newBase(name, lo, hi, width)
	b.consts = v
	baseTab[k] = b
	return b
}

func freshSym(name string, lo, hi int64) *Sym {
	freshCnt++
	nm := fmt.Sprintf("%s#%d", name, freshCnt)
	return internSym("f:"+nm, func() *Sym { return &Sym{kind: 'f', name: nm, lo: lo, hi: hi} })
}

func namedSym(name string, lo, hi int64) *Sym {
	return internSym("f:"+name, func() *Sym { return &Sym{kind: 'f', name: name, lo: lo, hi: hi} })
}

type Term struct {
	s *Sym
	k int64
}

// Lin is c + sum of k*s, terms sorted by symbol id, no zero coefficients.
type Lin struct {
	c int64
	t []Term
}

func con(c int64) Lin       { return Lin{c: c} }
func symL(s *Sym) Lin       { return Lin{t: []Term{{s, 1}}} }
func (a Lin) isConst() bool { return len(a.t) == 0 }

func (a Lin) constVal() (int64, bool) {
	if len(a.t) == 0 {
		return a.c, true
	}
	return 0, false
}

func (a Lin) add(b Lin) Lin {
	if len(b.t) == 0 {
		return Lin{satAdd(a.c, b.c), a.t}
	}
	if len(a.t) == 0 {
		return Lin{satAdd(a.c, b.c), b.t}
	}
	r := Lin{c: satAdd(a.c, b.c), t: make([]Term, 0, len(a.t)+len(b.t))}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || i < len(a.t) && a.t[i].s.id < b.t[j].s.id:
			r.t = append(r.t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].s.id < a.t[i].s.id:
			r.t = append(r.t, b.t[j])
			j++
		default:
			if k := a.t[i].k + b.t[j].k; k != 0 {
				r.t = append(r.t, Term{a.t[i].s, k})
			}
			i++
			j++
		}
	}
	return r
}

func (a Lin) scale(k int64) Lin {
	if k == 0 {
		return con(0)
	}
	if k == 1 {
		return a
	}
	r := Lin{c: satMul(a.c, k), t: make([]Term, len(a.t))}
	for i, t := range a.t {
		r.t[i] = Term{t.s, satMul(t.k, k)}
	}
	return r
}

func (a Lin) neg() Lin         { return a.scale(-1) }
func (a Lin) sub(b Lin) Lin    { return a.add(b.neg()) }
func (a Lin) addc(c int64) Lin { return Lin{satAdd(a.c, c), a.t} }

func (a Lin) eq(b Lin) bool {
	if a.c != b.c || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

func (a Lin) key() string {
	var sb strings.Builder
	sb.WriteString(strconv.FormatInt(a.c, 10))
	for _, t := range a.t {
		sb.WriteByte('|')
		sb.WriteString(strconv.FormatInt(t.k, 10))
		sb.WriteByte('*')
		sb.WriteString(strconv.Itoa(t.s.id))
	}
	return sb.String()
}

func (a Lin) String() string {
	if len(a.t) == 0 {
		return strconv.FormatInt(a.c, 10)
	}
	var sb strings.Builder
	for i, t := range a.t {
		k := t.k
		if k < 0 {
			sb.WriteString("-")
			k = -k
		} else if i > 0 {
			sb.WriteString("+")
		}
		if k != 1 {
			fmt.Fprintf(&sb, "%d*", k)
		}
		sb.WriteString(t.s.String())
	}
	if a.c > 0 {
		fmt.Fprintf(&sb, "+%d", a.c)
	} else if a.c < 0 {
		fmt.Fprintf(&sb, "%d", a.c)
	}
	return sb.String()
}

func (s *Sym) String() string {
	switch s.kind {
	case 'i':
		return fmt.Sprintf("%s[%s]", s.base.name, s.off)
	case 'd':
		return fmt.Sprintf("(%s)/%d", s.arg, s.c)
	case 'b':
		return fmt.Sprintf("bv%d", s.id)
	case 'u':
		var as []string
		for _, a := range s.args {
			as = append(as, a.String())
		}
		return s.fn + "(" + strings.Join(as, ",") + ")"
	}
	return s.name
}

func satAdd(a, b int64) int64 {
	c := a + b
	if (c > a) == (b > 0) || b == 0 {
		return c
	}
	if b > 0 {
		return posInf
	}
	return negInf
}

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	c := a * b
	if c/b == a && !(a == -1 && b == -1<<63) && !(b == -1 && a == -1<<63) {
		return c
	}
	if (a > 0) == (b > 0) {
		return posInf
	}
	return negInf
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// globalRange is the range of a linear expression from the ranges of its symbols alone.
func (a Lin) globalRange() (int64, int64) {
	lo, hi := a.c, a.c
	for _, t := range a.t {
		l, h := t.s.lo, t.s.hi
		if t.k < 0 {
			l, h = h, l
		}
		lo = rAdd(lo, rMul(l, t.k))
		hi = rAdd(hi, rMul(h, t.k))
	}
	return lo, hi
}

func rMul(a, k int64) int64 {
	if a <= negInf || a >= posInf {
		if (a > 0) == (k > 0) {
			return posInf
		}
		return negInf
	}
	r := satMul(a, k)
	return clampInf(r)
}

func clampInf(r int64) int64 {
	if r > posInf {
		return posInf
	}
	if r < negInf {
		return negInf
	}
	return r
}

func rAdd(a, b int64) int64 {
	if a <= negInf || b <= negInf {
		return negInf
	}
	if a >= posInf || b >= posInf {
		return posInf
	}
	return clampInf(a + b)
}

// divL is floor(a/c), c > 0, with multiples of c pulled out.
func divL(a Lin, c int64) Lin {
	if c == 1 {
		return a
	}
	out := con(floorDiv(a.c, c))
	rest := con(a.c - c*floorDiv(a.c, c))
	for _, t := range a.t {
		q := floorDiv(t.k, c)
		if t.k-q*c == 0 {
			out = out.add(Lin{t: []Term{{t.s, q}}})
			continue
		}
		// keep a positive remainder coefficient where that is smaller, so that equal
		// residues get equal forms
		if q != 0 {
			out = out.add(Lin{t: []Term{{t.s, q}}})
		}
		rest = rest.add(Lin{t: []Term{{t.s, t.k - q*c}}})
	}
	if len(rest.t) == 0 {
		return out
	}
	// common factor
	g := c
	for _, t := range rest.t {
		g = gcd(g, t.k)
	}
	if g > 1 {
		r2 := Lin{c: floorDiv(rest.c, g)}
		for _, t := range rest.t {
			r2.t = append(r2.t, Term{t.s, t.k / g})
		}
		rest, c = r2, c/g
		if c == 1 {
			return out.add(rest)
		}
	}
	lo, hi := rest.globalRange()
	if lo > negInf && hi < posInf && floorDiv(lo, c) == floorDiv(hi, c) {
		return out.addc(floorDiv(lo, c))
	}
	if c == 2 && rest.c == 1 { // rounding up is what rounding down leaves
		x := Lin{t: rest.t}
		return out.add(x).sub(divL(x, 2))
	}
	// nested division: floor(floor(e/a)/b) = floor(e/(a*b))
	if len(rest.t) == 1 && rest.t[0].k == 1 && rest.t[0].s.kind == 'd' {
		d := rest.t[0].s
		if cc := satMul(d.c, c); cc < 1<<40 {
			return out.add(divL(d.arg.addc(satMul(rest.c, d.c)), cc))
		}
	}
	return out.add(symL(divSym(rest, c)))
}

func divSym(a Lin, c int64) *Sym {
	return internSym("d:"+a.key()+"/"+strconv.FormatInt(c, 10), func() *Sym {
		lo, hi := a.globalRange()
		if lo > negInf {
			lo = floorDiv(lo, c)
		}
		if hi < posInf {
			hi = floorDiv(hi, c)
		}
		return &Sym{kind: 'd', arg: a, c: c, lo: lo, hi: hi}
	})
}

func modL(a Lin, c int64) Lin { return a.sub(divL(a, c).scale(c)) }

// inL is element off of a base.
func inL(b *Base, off Lin) Lin {
	if b.consts != nil {
		if v, ok := off.constVal(); ok && v >= 0 && v < int64(len(b.consts)) {
			return con(b.consts[v])
		}
	}
	return symL(internSym(fmt.Sprintf("i:%d:%s", b.id, off.key()), func() *Sym {
		return &Sym{kind: 'i', base: b, off: off, lo: b.lo, hi: b.hi}
	}))
}

// fnL is an uninterpreted function of linear arguments.
func fnL(fn string, lo, hi int64, args ...Lin) Lin {
	key := "u:" + fn
	for _, a := range args {
		key += ";" + a.key()
	}
	return symL(internSym(key, func() *Sym { return &Sym{kind: 'u', fn: fn, args: args, lo: lo, hi: hi} }))
}

// mentions reports whether the definition of s (transitively) mentions x.
func (s *Sym) mentions(f func(*Sym) bool) bool {
	if f(s) {
		return true
	}
	switch s.kind {
	case 'i':
		return s.off.mentions(f)
	case 'd':
		return s.arg.mentions(f)
	case 'u':
		for _, a := range s.args {
			if a.mentions(f) {
				return true
			}
		}
	case 'b':
		for _, p := range s.bits {
			for _, m := range p {
				for _, at := range m.atoms() {
					if bitAtoms[at].s.mentions(f) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (a Lin) mentions(f func(*Sym) bool) bool {
	for _, t := range a.t {
		if t.s.mentions(f) {
			return true
		}
	}
	return false
}

// Subst maps symbols to expressions.
type Subst struct {
	m    map[*Sym]Lin
	memo map[*Sym]Lin
}

func newSubst(m map[*Sym]Lin) *Subst { return &Subst{m: m, memo: map[*Sym]Lin{}} }

func (sb *Subst) lin(a Lin) Lin {
	if len(sb.m) == 0 {
		return a
	}
	changed := false
	for _, t := range a.t {
		if r := sb.sym(t.s); !(len(r.t) == 1 && r.c == 0 && r.t[0].s == t.s && r.t[0].k == 1) {
			changed = true
			break
		}
	}
	if !changed {
		return a
	}
	r := con(a.c)
	for _, t := range a.t {
		r = r.add(sb.sym(t.s).scale(t.k))
	}
	return r
}

func (sb *Subst) sym(s *Sym) Lin {
	if r, ok := sb.m[s]; ok {
		return r
	}
	if r, ok := sb.memo[s]; ok {
		return r
	}
	r := symL(s)
	switch s.kind {
	case 'i':
		if o := sb.lin(s.off); !o.eq(s.off) {
			r = inL(s.base, o)
		}
	case 'd':
		if o := sb.lin(s.arg); !o.eq(s.arg) {
			r = divL(o, s.c)
		}
	case 'u':
		ch := false
		as := make([]Lin, len(s.args))
		for i, a := range s.args {
			as[i] = sb.lin(a)
			ch = ch || !as[i].eq(a)
		}
		if ch {
			r = fnL(s.fn, s.lo, s.hi, as...)
		}
	case 'b':
		if s.mentions(func(x *Sym) bool { _, ok := sb.m[x]; return ok }) {
			bs := make([]Poly, len(s.bits))
			ok := true
			for i, p := range s.bits {
				var q Poly
				q, ok = substPoly(p, sb)
				if !ok {
					break
				}
				bs[i] = q
			}
			if ok {
				r = bvToLin(bs)
			} else {
				r = symL(freshSym("bvsubst", s.lo, s.hi))
			}
		}
	}
	sb.memo[s] = r
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
