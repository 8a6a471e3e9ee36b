package main

// Models of path conditions. An integer point found while searching for a contradiction
// refutes every other consequence it violates, so that most questions that have the answer
// "not implied" need no further search.

type model struct {
	v    map[*Sym]int64
	full bool // every symbol of the condition has a value
}

const modelMax = int64(1) << 44

// sym is the value of a symbol; quotients of known values are computed.
func (m *model) sym(s *Sym) (int64, bool) {
	if v, ok := m.v[s]; ok {
		return v, true
	}
	if s.kind == 'd' {
		if v, ok := m.eval(s.arg); ok {
			return floorDiv(v, s.c), true
		}
	}
	return 0, false
}

func (m *model) eval(l Lin) (int64, bool) {
	v := l.c
	if v > modelMax*64 || v < -modelMax*64 {
		return 0, false
	}
	for _, t := range l.t {
		x, ok := m.sym(t.s)
		if !ok {
			return 0, false
		}
		if x == 0 {
			continue
		}
		y := x * t.k
		if y/x != t.k || y > modelMax*64 || y < -modelMax*64 {
			return 0, false
		}
		if v += y; v > modelMax*64 || v < -modelMax*64 {
			return 0, false
		}
	}
	return v, true
}

// holds evaluates an atom; known is false if the model does not determine it.
func (m *model) holds(a Atom) (holds, known bool) {
	switch a.op {
	case opT:
		return true, true
	case opF:
		return false, true
	}
	v, ok := m.eval(a.l)
	if !ok {
		return false, false
	}
	switch a.op {
	case opGE:
		return v >= 0, true
	case opEQ:
		return v == 0, true
	case opNE:
		return v != 0, true
	}
	return false, false
}

// touches reports that a symbol of l, or of a quotient in it, has a value.
func (m *model) touches(l Lin) bool {
	for _, t := range l.t {
		if _, ok := m.v[t.s]; ok || t.s.kind == 'd' && m.touches(t.s.arg) {
			return true
		}
	}
	return false
}

// lpPoint is the integer point at which the last search for a contradiction ended, if any.
var lpPoint []int64

// newModel checks the point found against everything that was asked.
func newModel(syms []*Sym, pt []int64, rows []Atom, nes []Lin) *model {
	if pt == nil || len(pt) != len(syms) {
		return nil
	}
	m := &model{v: make(map[*Sym]int64, len(syms))}
	for i, s := range syms {
		if pt[i] < s.lo || pt[i] > s.hi || pt[i] > modelMax || pt[i] < -modelMax {
			return nil
		}
		m.v[s] = pt[i]
	}
	for _, s := range syms {
		if s.kind == 'd' {
			if v, ok := m.eval(s.arg); !ok || floorDiv(v, s.c) != m.v[s] {
				return nil
			}
		}
	}
	for _, r := range rows {
		if h, ok := m.holds(r); !h || !ok {
			return nil
		}
	}
	for _, l := range nes {
		if v, ok := m.eval(l); !ok || v == 0 {
			return nil
		}
	}
	return m
}

const nodeModels = 8

// extend gives values to the symbols of an atom that the condition says nothing about so far.
func (m *model) extend(a Atom) *model {
	if !m.full || a.op >= opT {
		return nil
	}
	var free []Term
	for _, t := range a.l.t {
		if _, ok := m.sym(t.s); ok {
			continue
		}
		if t.s.kind == 'd' {
			return nil
		}
		free = append(free, t)
	}
	if len(free) == 0 || len(free) > 4 {
		return nil
	}
	n := &model{v: make(map[*Sym]int64, len(m.v)+len(free)), full: true}
	for s, v := range m.v {
		n.v[s] = v
	}
	for _, t := range free {
		v := int64(0)
		if t.s.lo > v {
			v = t.s.lo
		}
		if t.s.hi < v {
			v = t.s.hi
		}
		n.v[t.s] = v
	}
	for _, t := range free {
		v, ok := n.eval(a.l)
		if !ok {
			return nil
		}
		x := n.v[t.s]
		rest := v - x*t.k // t.k*x + rest
		switch {
		case a.op == opNE && v == 0:
			if x < t.s.hi {
				x++
			} else {
				x--
			}
		case a.op == opEQ && rest%t.k == 0:
			x = -rest / t.k
		case a.op == opGE && v < 0 && t.k > 0:
			x = -floorDiv(rest, t.k)
		case a.op == opGE && v < 0:
			x = floorDiv(rest, -t.k)
		default:
			continue
		}
		if x > t.s.hi {
			x = t.s.hi
		}
		if x < t.s.lo {
			x = t.s.lo
		}
		if x > modelMax || x < -modelMax {
			return nil
		}
		n.v[t.s] = x
	}
	if h, ok := n.holds(a); !ok || !h {
		return nil
	}
	return n
}

// known are models of the constraints connected with the symbols they give values to.
func (n *consNode) known() []*model {
	if n == nil {
		return nil
	}
	if !n.modelsInit {
		n.modelsInit = true
		for _, m := range n.parent.known() {
			h, ok := m.holds(n.a)
			switch {
			case ok && h:
				n.models = append(n.models, m)
			case ok:
			case m.full:
				if m = m.extend(n.a); m != nil {
					n.models = append(n.models, m)
				}
			case n.a.op < opT && !m.touches(n.a.l):
				n.models = append(n.models, m)
			}
		}
	}
	return n.models
}

func (n *consNode) addModel(m *model) {
	if n == nil || m == nil {
		return
	}
	ms := n.known()
	if len(ms) >= nodeModels {
		// the oldest goes, the last that gives values to everything stays
		k := len(ms) - 1
		for k > 0 && ms[k].full {
			k--
		}
		ms = append(append([]*model(nil), ms[:k]...), ms[k+1:]...)
	}
	n.models = append([]*model{m}, ms...)
}

// refuted reports that a model of the condition violates the atom.
func (n *consNode) refuted(a Atom) bool {
	for _, m := range n.known() {
		if h, ok := m.holds(a); ok && !h {
			lpStats.models++
			return true
		}
	}
	return false
}

// satisfied reports that a model of the whole condition is known.
func (n *consNode) satisfied() bool {
	for _, m := range n.known() {
		if m.full {
			return true
		}
	}
	return false
}
