package main

// Path conditions: conjunctions of linear atoms, with entailment.

type Op byte

const (
	opGE Op = iota // lin >= 0
	opEQ           // lin == 0
	opNE           // lin != 0
	opT
	opF
)

type Atom struct {
	op Op
	l  Lin
}

func ge(a, b Lin) Atom { return norm(Atom{opGE, a.sub(b)}) }
func gt(a, b Lin) Atom { return norm(Atom{opGE, a.sub(b).addc(-1)}) }
func le(a, b Lin) Atom { return ge(b, a) }
func lt(a, b Lin) Atom { return gt(b, a) }
func eq(a, b Lin) Atom { return norm(Atom{opEQ, a.sub(b)}) }
func ne(a, b Lin) Atom { return norm(Atom{opNE, a.sub(b)}) }

var aTrue, aFalse = Atom{op: opT}, Atom{op: opF}

func norm(a Atom) Atom {
	if a.op >= opT {
		return a
	}
	lo, hi := a.l.globalRange()
	switch a.op {
	case opGE:
		if lo >= 0 {
			return aTrue
		}
		if hi < 0 {
			return aFalse
		}
	case opEQ:
		if lo == 0 && hi == 0 {
			return aTrue
		}
		if lo > 0 || hi < 0 {
			return aFalse
		}
	case opNE:
		if lo == 0 && hi == 0 {
			return aFalse
		}
		if lo > 0 || hi < 0 {
			return aTrue
		}
	}
	// canonical sign for equalities
	if (a.op == opEQ || a.op == opNE) && len(a.l.t) > 0 && a.l.t[0].k < 0 {
		a.l = a.l.neg()
	}
	return a
}

func (a Atom) not() Atom {
	switch a.op {
	case opGE:
		return norm(Atom{opGE, a.l.neg().addc(-1)})
	case opEQ:
		return Atom{opNE, a.l}
	case opNE:
		return Atom{opEQ, a.l}
	case opT:
		return aFalse
	}
	return aTrue
}

func (a Atom) String() string {
	switch a.op {
	case opGE:
		return a.l.String() + " >= 0"
	case opEQ:
		return a.l.String() + " == 0"
	case opNE:
		return a.l.String() + " != 0"
	case opT:
		return "true"
	}
	return "false"
}

func (a Atom) key() string { return string('0'+byte(a.op)) + a.l.key() }

func (a Atom) subst(s *Subst) Atom {
	if a.op >= opT {
		return a
	}
	return norm(Atom{a.op, s.lin(a.l)})
}

// consNode is one constraint of a path condition; conditions share prefixes.
type consNode struct {
	parent *consNode
	a      Atom
	n      int
	flat   []Atom
	cache  map[string]bool

	models     []*model
	modelsInit bool
}

func (n *consNode) all() []Atom {
	if n == nil {
		return nil
	}
	if n.flat == nil {
		p := n.parent.all()
		n.flat = append(p[:len(p):len(p)], n.a)
	}
	return n.flat
}

// relevant returns the constraints connected with the given symbols.
func relevant(cs []Atom, seed []Lin) ([]Atom, []Lin) {
	mark := map[*Sym]bool{}
	var q []*Sym
	add := func(l Lin) {
		for _, t := range l.t {
			if !mark[t.s] {
				mark[t.s] = true
				q = append(q, t.s)
			}
		}
	}
	for _, l := range seed {
		add(l)
	}
	index := map[*Sym][]int{}
	for i, c := range cs {
		for _, t := range c.l.t {
			index[t.s] = append(index[t.s], i)
			// definitions connect as well
		}
	}
	// division symbols occurring in constraints connect their arguments
	done := make([]bool, len(cs))
	// map from argument symbols to div symbols that occur somewhere
	uses := map[*Sym][]*Sym{}
	var seen = map[*Sym]bool{}
	var reg func(s *Sym)
	reg = func(s *Sym) {
		if seen[s] {
			return
		}
		seen[s] = true
		if s.kind == 'd' {
			for _, t := range s.arg.t {
				uses[t.s] = append(uses[t.s], s)
				reg(t.s)
			}
		}
	}
	for _, c := range cs {
		for _, t := range c.l.t {
			reg(t.s)
		}
	}
	for len(q) > 0 {
		s := q[0]
		q = q[1:]
		if s.kind == 'd' {
			add(s.arg)
		}
		for _, d := range uses[s] {
			if !mark[d] {
				mark[d] = true
				q = append(q, d)
			}
		}
		for _, i := range index[s] {
			if !done[i] {
				done[i] = true
				add(cs[i].l)
			}
		}
	}
	var out []Atom
	var nes []Lin
	for i, c := range cs {
		if done[i] {
			if c.op == opNE {
				nes = append(nes, c.l)
			} else {
				out = append(out, c)
			}
		}
	}
	return out, nes
}

// condEntails reports that the condition implies the atom.
func condEntails(n *consNode, a Atom) bool {
	a = norm(a)
	switch a.op {
	case opT:
		return true
	case opEQ:
		return condEntails(n, Atom{opGE, a.l}) && condEntails(n, Atom{opGE, a.l.neg()})
	case opF:
		return condInfeasible(n)
	}
	var key string
	if n != nil {
		key = a.key()
		if r, ok := n.cache[key]; ok {
			return r
		}
	}
	var r bool
	if !n.refuted(a) {
		cs, nes := relevant(n.all(), []Lin{a.l})
		not := Atom{opEQ, a.l}
		if a.op == opGE {
			not = Atom{opGE, a.l.neg().addc(-1)}
		}
		var m *model
		r, m = infeasible(append(cs, not), nes)
		n.addModel(m)
	}
	if n != nil {
		if n.cache == nil {
			n.cache = map[string]bool{}
		}
		n.cache[key] = r
	}
	return r
}

func condInfeasible(n *consNode) bool {
	if n == nil {
		return false
	}
	if r, ok := n.cache["!"]; ok {
		return r
	}
	if n.satisfied() {
		return false
	}
	var cs []Atom
	var nes []Lin
	for _, c := range n.all() {
		if c.op == opNE {
			nes = append(nes, c.l)
		} else {
			cs = append(cs, c)
		}
	}
	r, m := infeasible(cs, nes)
	if m != nil {
		m.full = true
		n.addModel(m)
	}
	if n.cache == nil {
		n.cache = map[string]bool{}
	}
	n.cache["!"] = r
	return r
}
