package main

// Loop summaries: loops are unrolled while their course is fixed, and otherwise replaced by
// an inductive description (closed forms for counters, inferred linear invariants, and
// descriptions of the array elements written so far).

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct{ header map[*ssa.BasicBlock]*Loop }

func (in *Interp) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := in.loops[fn]; ok {
		return li
	}
	li := &loopInfo{header: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := li.header[s]
			if l == nil {
				l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				li.header[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	in.loops[fn] = li
	return li
}

func (in *Interp) execLoop(fr *Frame, l *Loop, pred *ssa.BasicBlock, p *Path) []Exit {
	if pred != nil {
		for ph, v := range in.phiValues(fr, l.head, pred, p) {
			p.env[ph] = v
		}
	}
	if in.quiet == 0 {
		in.stats.loops++
	}
	if out, ok := in.unroll(fr, l, p.fork(p.st.clone())); ok {
		return out
	}
	g := &generaliser{in: in, fr: fr, l: l, entry: p}
	return g.run()
}

// headExits reports whether the loop is left from its header block.
func (l *Loop) headExits() bool {
	for _, s := range l.head.Succs {
		if !l.blocks[s] {
			return true
		}
	}
	return false
}

// iterate runs one iteration from a path at the loop header.
func (in *Interp) iterate(fr *Frame, l *Loop, p *Path) (backs []*Path, outs []Exit) {
	if !in.deadline.IsZero() && time.Now().After(in.deadline) {
		panic(abortErr{"out of time"})
	}
	for _, e := range in.execRegion(fr, l, l.head, nil, p, true) {
		if e.kind == exEdge && e.to == l.head {
			if !e.p.st.feasible() {
				continue
			}
			vals := in.phiValues(fr, l.head, e.from, e.p)
			q := e.p.fork(e.p.st)
			q.mux = nil
			for ph, v := range vals {
				q.env[ph] = v
			}
			backs = append(backs, q)
		} else {
			outs = append(outs, e)
		}
	}
	return
}

// headLoops reports whether the header block calls functions with loops, so that the end of the
// loop is decided by what a whole iteration finds and not by a condition.
func (in *Interp) headLoops(l *Loop) bool {
	seen := map[*ssa.Function]bool{}
	var loops func(fn *ssa.Function) bool
	calls := func(b *ssa.BasicBlock) bool {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				if fn := c.Common().StaticCallee(); fn != nil && loops(fn) {
					return true
				}
			}
		}
		return false
	}
	loops = func(fn *ssa.Function) bool {
		if seen[fn] || fn.Pkg == nil || fn.Pkg != l.head.Parent().Pkg {
			return false
		}
		seen[fn] = true
		if len(in.loopsOf(fn).header) > 0 {
			return true
		}
		for _, b := range fn.Blocks {
			if calls(b) {
				return true
			}
		}
		return false
	}
	return calls(l.head)
}

// leaves executes the header once more and reports the exits if the loop surely ends there.
func (in *Interp) leaves(fr *Frame, l *Loop, p *Path) ([]Exit, bool) {
	if l.headExits() && !in.headLoops(l) {
		es := in.execBlock(fr, l.head, nil, p.fork(p.st.clone()), true)
		stays := false
		for _, e := range es {
			stays = stays || e.kind == exEdge && l.blocks[e.to]
		}
		if !stays {
			return es, true
		}
	}
	if !in.lookahead {
		return nil, false
	}
	// a loop may also surely end within the next iteration
	ends := func() ([]Exit, bool) {
		backs, outs := in.iterate(fr, l, p.fork(p.st.clone()))
		for _, b := range backs {
			if b.st.feasible() {
				return nil, false
			}
		}
		return outs, true
	}
	in.quiet++
	outs, ok := ends()
	in.quiet--
	if ok && in.quiet == 0 {
		outs, ok = ends()
	}
	return outs, ok
}

func (in *Interp) unroll(fr *Frame, l *Loop, p *Path) ([]Exit, bool) {
	if !l.headExits() {
		return nil, false
	}
	cur := []*Path{p}
	var outs []Exit
	nondet := 0
	for it := 0; it < 6000; it++ {
		var next []*Path
		for _, q := range cur {
			backs, os := in.iterate(fr, l, q)
			headOut, other := false, len(backs) > 0
			for _, e := range os {
				if e.kind == exEdge && e.from == l.head {
					headOut = true
				} else {
					other = true
				}
			}
			if headOut && other {
				return nil, false
			}
			next = append(next, backs...)
			outs = append(outs, os...)
			if len(backs)+len(os) > 1 {
				nondet++
			}
		}
		if len(next) == 0 {
			return outs, true
		}
		if nondet > 10+in.wide || len(next) > 16+in.wide {
			return nil, false
		}
		cur = next
	}
	return nil, false
}

type slotKind byte

const (
	skPhi slotKind = iota
	skCell
	skArr
	skGhost
	skObj
)

type slot struct {
	kind   slotKind
	phi    *ssa.Phi
	obj    int
	path   string
	ghost  string
	typ    types.Type
	name   string
	fresh  bool // not tracked by components
	isBool bool
	comps  []*comp
}

// comp is one integer component of a changing variable.
type comp struct {
	sl       *slot
	which    byte // 'v', or 'o','l','c','n' of slices
	sym      *Sym
	stride   int64
	closed   bool
	noClosed bool
	init     Lin
}

type arrRep struct {
	kind byte // 'h' havoc, 'l' loop, 's' stream
	base *Base
	alts []loopAlt
	keys string
	// stream
	n, pos *comp
	sbase  *Base
	dst    Lin
	failed bool
}

type variant struct {
	key   string
	mon   map[string]string
	held  []heldLock
	bools map[*slot]bool
	cands map[string]Atom
	ghost map[string]Lin
	vals  map[string]Value // values of untracked variables that every arrival agrees on
}

type generaliser struct {
	in        *Interp
	fr        *Frame
	l         *Loop
	entry     *Path
	slots     []*slot
	byKey     map[string]*slot
	k         *Sym
	id        int
	vars      map[string]*variant
	order     []string
	arrs      map[int]*arrRep
	seedAtoms []Atom
	mark      int
	baseMark  int
	kinds     map[string]bool
	seedCands map[string]Atom
	varies    map[string]bool // variant and untracked variable with more than one value
	newVaries bool
}

func slotKey(s *slot) string {
	switch s.kind {
	case skPhi:
		return "phi:" + s.phi.Name()
	case skCell:
		return fmt.Sprintf("cell:%d:%s", s.obj, s.path)
	case skArr:
		return fmt.Sprintf("arr:%d", s.obj)
	case skObj:
		return fmt.Sprintf("obj:%d", s.obj)
	}
	return "ghost:" + s.ghost
}

func (g *generaliser) value(s *slot, p *Path) Value {
	switch s.kind {
	case skPhi:
		return p.env[s.phi]
	case skCell:
		return p.st.loadPath(p.st.obj(s.obj), s.path, s.typ)
	case skGhost:
		if l, ok := p.st.ghost[s.ghost]; ok {
			return VInt{l}
		}
		return VInt{zeroL}
	}
	return nil
}

func (g *generaliser) setValue(s *slot, p *Path, v Value) {
	switch s.kind {
	case skPhi:
		p.env[s.phi] = v
	case skCell:
		m := p.st.mut(s.obj)
		m.cells[s.path] = v
	case skGhost:
		p.st.ghost[s.ghost] = v.(VInt).l
	}
}

func (c *comp) of(v Value) (Lin, bool) {
	switch x := v.(type) {
	case VInt:
		return x.l, c.which == 'v'
	case VSlice:
		switch c.which {
		case 'o':
			return x.off, true
		case 'l':
			return x.len, true
		case 'c':
			return x.cap, true
		case 'n':
			return x.nil_, true
		}
	case VElem:
		return x.idx, c.which == 'i'
	}
	return Lin{}, false
}

func (g *generaliser) run() []Exit {
	in := g.in
	freshCnt++
	g.id = freshCnt
	g.byKey = map[string]*slot{}
	g.mark = len(allSyms)
	g.baseMark = nBases
	g.k = freshSym("k", 0, 1<<40)
	g.arrs = map[int]*arrRep{}
	g.kinds = map[string]bool{}
	g.varies = map[string]bool{}
	in.inLoop++
	defer func() { in.inLoop-- }()

	// discovery of what changes
	for round := 0; ; round++ {
		if round > 40 {
			panic(abortErr{"loop at " + in.pos(g.l.head.Instrs[0].Pos()) + " in " + g.fr.chain() + ": changing variables do not settle"})
		}
		var atoms []Atom
		g.newVaries = false
		backs, _ := g.pass(true, &atoms, nil)
		if more := g.newVaries; !g.discover(backs) && !more {
			g.seedAtoms = atoms
			g.closedForms(backs)
			break
		}
	}
	for attempt := 0; ; attempt++ {
		if attempt > 6 {
			panic(abortErr{"loop summary does not settle in " + g.fr.chain()})
		}
		g.makeCandidates()
		backs := g.fixpoint()
		if !g.contents(backs) {
			break
		}
	}
	// the reported run
	g.newVaries = false
	_, outs := g.pass(false, nil, func(v *variant, head *Path, backs []*Path) {
		if in.onBack != nil && in.quiet == 0 {
			for _, b := range backs {
				in.onBack(g, head, b)
			}
		}
	})
	if g.newVaries {
		panic(abortErr{"loop summary does not settle in " + g.fr.chain()})
	}
	return outs
}

// portable: the value means the same in the state before the loop.
func (g *generaliser) portable(v Value) bool {
	exists := func(id int) bool { _, ok := g.entry.st.heap[id]; return ok }
	switch x := v.(type) {
	case VIface:
		_, c := x.nil_.constVal()
		return x.typ == nil && c
	case VPtr:
		if n, c := x.nil_.constVal(); !c {
			return false
		} else if n == 1 {
			return true
		}
		return exists(x.obj)
	case VFunc:
		_, c := x.nil_.constVal()
		return c && x.fn == nil && len(x.bind) == 0
	case VRef:
		if n, c := x.nil_.constVal(); !c {
			return false
		} else if n == 1 {
			return true
		}
		return exists(x.obj)
	}
	return false
}

type backEdge struct {
	head *Path // generalised state the iteration started from
	p    *Path
	v    *variant
	to   string // key of the variant it arrives in
}

// pass runs the body once from every variant of the generalised state.
func (g *generaliser) pass(quiet bool, atoms *[]Atom, final func(*variant, *Path, []*Path)) ([]backEdge, []Exit) {
	in := g.in
	if quiet {
		in.quiet++
		defer func() { in.quiet-- }()
	}
	oldAtoms := in.atomsSeen
	in.atomsSeen = atoms
	defer func() { in.atomsSeen = oldAtoms }()
	oldVars := g.vars
	g.vars = map[string]*variant{}
	g.order = nil
	var out []Exit
	var all []backEdge
	for _, e := range g.splitBools(g.entry.fork(g.entry.st.clone())) {
		g.variantOf(e, oldVars)
	}
	for i := 0; i < len(g.order); i++ {
		if len(g.order) > 48 {
			panic(abortErr{"too many loop variants in " + g.fr.chain()})
		}
		v := g.vars[g.order[i]]
		head := g.build(v)
		if head == nil || !head.st.feasible() {
			continue
		}
		backs, outs := in.iterate(g.fr, g.l, head.fork(head.st.clone()))
		out = append(out, outs...)
		var kept []*Path
		for _, b := range backs {
			if len(b.defers) != len(head.defers) {
				panic(abortErr{"deferred call inside a loop in " + g.fr.chain()})
			}
			var ends []*Path
			for _, b2 := range g.splitBools(b) {
				if in.atBack == nil {
					ends = append(ends, b2)
					continue
				}
				for _, st := range in.atBack(g, b2.st) {
					ends = append(ends, b2.fork(st))
				}
			}
			for _, b2 := range ends {
				if es, ok := in.leaves(g.fr, g.l, b2); ok {
					out = append(out, es...)
					continue
				}
				for n := b2.st.ev; n != nil && n != head.st.ev; n = n.parent {
					g.kinds[n.e.kind] = true
				}
				nv := g.variantOf(b2, oldVars)
				all = append(all, backEdge{head, b2, v, nv.key})
				kept = append(kept, b2)
			}
		}
		if final != nil {
			final(v, head, kept)
		}
	}
	return all, out
}

func (g *generaliser) splitBools(p *Path) []*Path {
	cur := []*Path{p}
	for _, s := range g.slots {
		if !s.isBool || s.fresh {
			continue
		}
		var next []*Path
		for _, q := range cur {
			b, ok := g.value(s, q).(VBool)
			if !ok || b.a.op >= opT {
				next = append(next, q)
				continue
			}
			y, n := q.st.fork(b.a)
			if y != nil {
				q2 := q.fork(y)
				g.setValue(s, q2, VBool{aTrue})
				next = append(next, q2)
			}
			if n != nil {
				q2 := q.fork(n)
				g.setValue(s, q2, VBool{aFalse})
				next = append(next, q2)
			}
		}
		cur = next
	}
	return cur
}

func (g *generaliser) variantOf(p *Path, old map[string]*variant) *variant {
	var sb strings.Builder
	for _, k := range sortedKeys(p.st.mon) {
		sb.WriteString(k + "=" + p.st.mon[k] + ";")
	}
	sb.WriteString("|")
	for _, h := range p.st.held {
		fmt.Fprintf(&sb, "%s%c,", h.key, h.rw)
	}
	sb.WriteString("|")
	bools := map[*slot]bool{}
	for _, s := range g.slots {
		if s.isBool && !s.fresh {
			if b, ok := g.value(s, p).(VBool); ok {
				bools[s] = b.a.op == opT
				fmt.Fprintf(&sb, "%s=%v;", s.name, bools[s])
			}
		}
	}
	key := sb.String()
	if v, ok := g.vars[key]; ok {
		for _, s := range g.slots {
			if !s.fresh {
				continue
			}
			k := slotKey(s)
			if old, has := v.vals[k]; has && !valueEq(old, g.value(s, p)) {
				delete(v.vals, k)
				if !g.varies[key+"\n"+k] {
					g.varies[key+"\n"+k] = true
					g.newVaries = true
				}
			}
		}
		return v
	}
	v := &variant{key: key, mon: p.st.mon, held: p.st.held, bools: bools, vals: map[string]Value{}}
	for _, s := range g.slots {
		if !s.fresh {
			continue
		}
		k := slotKey(s)
		if x := g.value(s, p); !g.varies[key+"\n"+k] && g.portable(x) {
			v.vals[k] = x
		}
	}
	if o, ok := old[key]; ok {
		v.cands = o.cands
	}
	if v.cands == nil && g.seedCands != nil {
		// reached for the first time: every candidate, to be weakened
		v.cands = map[string]Atom{}
		for k, a := range g.seedCands {
			v.cands[k] = a
		}
	}
	g.vars[key] = v
	g.order = append(g.order, key)
	return v
}

// build makes the generalised state of a variant.
func (g *generaliser) build(v *variant) *Path {
	st := g.entry.st.clone()
	p := g.entry.fork(st)
	st.mon = map[string]string{}
	for k, x := range v.mon {
		st.mon[k] = x
	}
	st.held = v.held
	anyClosed := false
	for _, s := range g.slots {
		switch s.kind {
		case skArr:
			o := st.mut(s.obj)
			r := g.arrs[s.obj]
			if o.c == nil {
				o.gen++
				o.zero = false
				o.cells = map[string]Value{}
				continue
			}
			switch r.kind {
			case 'h':
				o.c = baseContent(r.base)
			case 'l':
				o.c = o.c.push(&Content{kind: cLoop, k: r.alts[0].guardK(), n: symL(g.k), alts: r.alts})
			case 's':
				n, pos := g.compL(r.n), g.compL(r.pos)
				o.c = o.c.push(&Content{kind: cHavoc, dst: r.dst, n: n, base: r.sbase, shift: pos.sub(n)})
			}
			continue
		case skObj:
			o := st.mut(s.obj)
			o.gen++
			o.zero = false
			o.open = true
			o.mapv = nil
			o.name = fmt.Sprintf("%s#L%d", o.name, g.id)
			if o.cells != nil {
				o.cells = map[string]Value{}
			}
			continue
		}
		cur := g.value(s, p)
		if s.isBool && !s.fresh {
			b, ok := v.bools[s]
			a := aFalse
			if ok && b {
				a = aTrue
			}
			g.setValue(s, p, VBool{a})
			continue
		}
		if s.fresh {
			if x, ok := v.vals[slotKey(s)]; ok {
				g.setValue(s, p, x)
				continue
			}
			g.setValue(s, p, g.in.unknown(st, s.typ, fmt.Sprintf("loop#%d.%s", g.id, s.name)))
			continue
		}
		switch x := cur.(type) {
		case VInt:
			g.setValue(s, p, VInt{g.compL(s.comps[0])})
		case VSlice:
			for _, c := range s.comps {
				l := g.compL(c)
				switch c.which {
				case 'o':
					x.off = l
				case 'l':
					x.len = l
				case 'c':
					x.cap = l
				case 'n':
					x.nil_ = l
				}
			}
			g.setValue(s, p, x)
		case VElem:
			x.idx = g.compL(s.comps[0])
			g.setValue(s, p, x)
		}
		for _, c := range s.comps {
			anyClosed = anyClosed || c.closed
		}
	}
	// type facts
	for _, s := range g.slots {
		for _, c := range s.comps {
			if c.closed {
				l := g.compL(c)
				if c.sym.lo > negInf {
					st.assume(ge(l, con(c.sym.lo)))
				}
				if c.sym.hi < posInf {
					st.assume(le(l, con(c.sym.hi)))
				}
			}
		}
	}
	sb := g.inst()
	for _, k := range sortedKeys(v.cands) {
		st.assume(v.cands[k].subst(sb))
	}
	var kinds []string
	for k := range g.kinds {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	st.addEvent(&Event{kind: "loop", name: strings.Join(kinds, ","), fn: g.fr.fn, fr: g.fr})
	_ = anyClosed
	return p
}

func (a loopAlt) guardK() *Sym { return a.kb }

func (g *generaliser) compL(c *comp) Lin {
	if c.closed {
		return c.init.add(symL(g.k).scale(c.stride))
	}
	return symL(c.sym)
}

func (g *generaliser) inst() *Subst {
	m := map[*Sym]Lin{}
	for _, s := range g.slots {
		for _, c := range s.comps {
			if c.closed {
				m[c.sym] = g.compL(c)
			}
		}
	}
	return newSubst(m)
}

func (g *generaliser) addSlot(s *slot) bool {
	k := slotKey(s)
	if _, ok := g.byKey[k]; ok {
		return false
	}
	g.byKey[k] = s
	g.slots = append(g.slots, s)
	return true
}

// discover adds the variables that a back edge changed; it reports whether anything is new.
func (g *generaliser) discover(backs []backEdge) bool {
	in := g.in
	changed := false
	note := func(s *slot, hv, bv Value) {
		k := slotKey(s)
		if old, ok := g.byKey[k]; ok {
			if old.fresh {
				return
			}
			// the representation must still fit
			switch x := bv.(type) {
			case VInt, VBool:
				return
			case VSlice:
				if h, ok := hv.(VSlice); ok && h.arr == x.arr {
					return
				}
			case VElem:
				if h, ok := hv.(VElem); ok && h.arr == x.arr {
					return
				}
			}
			old.fresh = true
			old.isBool = false
			old.comps = nil
			changed = true
			return
		}
		ev := g.value(s, g.entry)
		s.name = k
		mk := func(w byte, lo, hi int64, init Lin) {
			s.comps = append(s.comps, &comp{sl: s, which: w, sym: freshSym(k+string(w), lo, hi), init: init})
		}
		switch x := bv.(type) {
		case VInt:
			lo, hi := negInf, posInf
			if s.kind == skGhost {
				lo, hi = -(1 << 40), 1<<40
			} else if w, sg, ok := intInfo(s.typ); ok {
				lo, hi = rangeOf(w, sg)
			}
			e, ok := ev.(VInt)
			if !ok {
				s.fresh = true
				break
			}
			mk('v', lo, hi, e.l)
		case VBool:
			s.isBool = true
		case VSlice:
			e, ok := ev.(VSlice)
			if !ok {
				s.fresh = true
				break
			}
			if e.arr < 0 && x.arr >= 0 {
				// a nil slice that grows: give it an empty array of its own
				el := s.typ.Underlying().(*types.Slice).Elem()
				o := g.entry.st.newObj(kArray, el, "grow")
				o.n = zeroL
				if _, _, ok := intInfo(el); ok {
					o.c = zeroContent
				}
				g.setValue(s, g.entry, VSlice{arr: o.id, nil_: oneL})
				changed = true
				return
			}
			if e.arr != x.arr {
				s.fresh = true
				break
			}
			if !e.off.eq(x.off) {
				mk('o', 0, 1<<40, e.off)
			}
			mk('l', 0, 1<<40, e.len)
			mk('c', 0, 1<<40, e.cap)
			mk('n', 0, 1, e.nil_)
		case VElem:
			e, ok := ev.(VElem)
			if !ok || e.arr != x.arr {
				s.fresh = true
				break
			}
			mk('i', 0, 1<<40, e.idx)
		default:
			s.fresh = true
		}
		if g.addSlot(s) {
			changed = true
		}
	}
	for _, b := range backs {
		h := b.head
		for _, ins := range g.l.head.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if !valueEq(h.env[ph], b.p.env[ph]) {
				note(&slot{kind: skPhi, phi: ph, typ: ph.Type()}, h.env[ph], b.p.env[ph])
			}
		}
		for gk, v := range b.p.st.ghost {
			hv, ok := h.st.ghost[gk]
			if !ok {
				hv = zeroL
			}
			if !hv.eq(v) {
				note(&slot{kind: skGhost, ghost: gk}, VInt{hv}, VInt{v})
			}
		}
		var ids []int
		for id := range b.p.st.heap {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			bo := b.p.st.heap[id]
			ho, ok := h.st.heap[id]
			if !ok {
				if _, lazy := in.lazy[id]; !lazy || bornAfter(bo.name, g.id) {
					continue // allocated in the body
				}
				ho = h.st.obj(id)
			}
			if ho == bo {
				continue
			}
			if bo.kind == kArray {
				if bo.c != ho.c && !(bo.c != nil && ho.c != nil && bo.c.kind == cBase && ho.c.kind == cBase && bo.c.base == ho.c.base && bo.c.shift.eq(ho.c.shift)) || bo.gen != ho.gen || bo.c == nil && !objEq(b.p.st, h.st, bo, ho) {
					if g.addSlot(&slot{kind: skArr, obj: id, name: fmt.Sprintf("arr%d", id)}) {
						r := &arrRep{kind: 'h'}
						if w, sg, ok := intInfo(bo.typ); ok {
							lo, hi := rangeOf(w, sg)
							freshCnt++
							r.base = newBase(fmt.Sprintf("%s#L%d", ho.name, freshCnt), lo, hi, w)
						}
						g.arrs[id] = r
						changed = true
					}
				}
				if !bo.n.eq(ho.n) {
					// length of a growing backing array: not tracked
					_ = bo
				}
				continue
			}
			if bo.name != ho.name || bo.gen != ho.gen || len(bo.mapv) != len(ho.mapv) || bo.open != ho.open {
				if g.addSlot(&slot{kind: skObj, obj: id, name: fmt.Sprintf("obj%d", id)}) {
					changed = true
				}
				continue
			}
			if bo.kind != kCells {
				continue
			}
			if _, whole := g.byKey[fmt.Sprintf("obj:%d", id)]; whole {
				continue
			}
			for path, bv := range bo.cells {
				t := typeAt(bo.typ, path)
				if t == nil {
					continue
				}
				hv := h.st.loadPath(h.st.obj(id), path, t)
				if !valueEq(hv, bv) {
					note(&slot{kind: skCell, obj: id, path: path, typ: t}, hv, bv)
				}
			}
		}
	}
	return changed
}

// bornAfter: the name of an unknown object that a call of the given or a later number made.
func bornAfter(name string, id int) bool {
	for i := 0; i < len(name); i++ {
		if name[i] != '#' {
			continue
		}
		n, j := 0, i+1
		for ; j < len(name) && name[j] >= '0' && name[j] <= '9'; j++ {
			n = n*10 + int(name[j]-'0')
		}
		if n > id {
			return true
		}
	}
	return false
}

// closedForms proposes init + stride*k for components that change by a constant.
func (g *generaliser) closedForms(backs []backEdge) {
	for _, s := range g.slots {
		for _, c := range s.comps {
			count := map[int64]int{}
			for _, b := range backs {
				if l, ok := c.of(g.value(s, b.p)); ok {
					if d, ok := l.sub(symL(c.sym)).constVal(); ok {
						count[d]++
					}
				}
			}
			best, n := int64(0), 0
			var ds []int64
			for d := range count {
				ds = append(ds, d)
			}
			sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
			for _, d := range ds {
				ab, bb := d, best
				if ab < 0 {
					ab = -ab
				}
				if bb < 0 {
					bb = -bb
				}
				if count[d] > n || count[d] == n && ab < bb {
					best, n = d, count[d]
				}
			}
			if n > 0 && !c.noClosed {
				c.closed, c.stride = true, best
			}
		}
	}
}

// loopOnly: every symbol is a tracked component or existed before the loop.
func (g *generaliser) stable(a Lin, syms map[*Sym]bool) bool {
	return !a.mentions(func(s *Sym) bool {
		if syms[s] {
			return false
		}
		switch s.kind {
		case 'f':
			return s.id >= g.mark && strings.Contains(s.name, "#")
		case 'i':
			return s.base.stamp() > g.baseMark
		}
		return false
	})
}

func (g *generaliser) makeCandidates() {
	in := g.in
	syms := map[*Sym]bool{}
	strides := map[int64]bool{}
	var comps []*comp
	for _, s := range g.slots {
		for _, c := range s.comps {
			syms[c.sym] = true
			comps = append(comps, c)
			if c.closed && c.stride != 0 {
				d := c.stride
				if d < 0 {
					d = -d
				}
				strides[d] = true
			}
		}
	}
	cands := map[string]Atom{}
	mentions := func(l Lin) bool { return l.mentions(func(s *Sym) bool { return syms[s] }) }
	// by how much the expression changes per iteration
	step := func(l Lin) (d int64) {
		for _, c := range comps {
			for _, t := range l.t {
				if t.s == c.sym && c.closed {
					d += t.k * c.stride
				}
			}
		}
		if d < 0 {
			d = -d
		}
		return d
	}
	add := func(a Atom) {
		a = norm(a)
		if a.op >= opT || !mentions(a.l) || !g.stable(a.l, syms) {
			return
		}
		if len(cands) < 160 {
			cands[a.key()] = a
		}
	}
	seen := map[string]bool{}
	for _, a := range g.seedAtoms {
		if a.op >= opT || seen[a.key()] {
			continue
		}
		seen[a.key()] = true
		if !mentions(a.l) || !g.stable(a.l, syms) {
			continue
		}
		switch a.op {
		case opGE:
			n := a.l.neg().addc(-1)
			for _, l := range []Lin{a.l, n} {
				add(Atom{opGE, l})
				add(Atom{opGE, l.addc(1)})
				for d := range strides {
					if d > 1 {
						add(Atom{opGE, l.addc(d)})
						add(Atom{opGE, l.addc(d - 1)})
					}
				}
				if d := step(l); d > 1 && d <= 16 {
					add(Atom{opGE, l.addc(d)})
					add(Atom{opGE, l.addc(d + 1)})
					if u := unwrapped(l); len(u.t) < len(l.t) {
						add(Atom{opGE, u.addc(d)})
						add(Atom{opGE, u.addc(d + 1)})
					}
				}
			}
		case opEQ, opNE:
			add(Atom{opGE, a.l})
			add(Atom{opGE, a.l.neg()})
			add(Atom{opEQ, a.l})
			add(Atom{opNE, a.l})
		}
	}
	for i, c := range comps {
		if v, ok := c.init.constVal(); ok {
			add(Atom{opGE, symL(c.sym).addc(-v)})
			add(Atom{opGE, symL(c.sym).neg().addc(v)})
		} else {
			add(Atom{opGE, symL(c.sym).sub(c.init)})
			add(Atom{opGE, c.init.sub(symL(c.sym))})
		}
		for j := 0; j < i; j++ {
			d := comps[j]
			if c.closed && d.closed {
				continue
			}
			add(Atom{opEQ, symL(c.sym).sub(symL(d.sym)).sub(c.init.sub(d.init))})
			add(Atom{opGE, symL(c.sym).sub(symL(d.sym))})
			add(Atom{opGE, symL(d.sym).sub(symL(c.sym))})
			add(Atom{opEQ, symL(c.sym).add(symL(d.sym)).sub(c.init.add(d.init))})
		}
	}
	// entry: keep those that hold initially, per initial variant
	g.seedCands = cands
	m := map[*Sym]Lin{}
	for _, c := range comps {
		m[c.sym] = c.init
	}
	sb := newSubst(m)
	g.vars = map[string]*variant{}
	g.order = nil
	for _, e := range g.splitBools(g.entry.fork(g.entry.st.clone())) {
		v := g.variantOf(e, nil)
		if v.cands == nil {
			v.cands = map[string]Atom{}
			for k, a := range cands {
				v.cands[k] = a
			}
		}
		for k, a := range v.cands {
			if !e.st.entails(a.subst(sb)) {
				delete(v.cands, k)
			}
		}
	}
	_ = in
}

// unwrapped leaves out what undoes the wrapping of a 16 or 32 bit number.
func unwrapped(l Lin) Lin {
	r := con(l.c)
	for _, t := range l.t {
		if t.s.kind == 'd' && (t.k == 1<<16 || t.k == -1<<16 || t.k == 1<<32 || t.k == -1<<32) {
			continue
		}
		r = r.add(Lin{t: []Term{t}})
	}
	return r
}

// fixpoint weakens closed forms and candidates until they are inductive.
func (g *generaliser) fixpoint() []backEdge {
	for round := 0; ; round++ {
		if round > 60 {
			panic(abortErr{"loop invariants do not settle in " + g.fr.chain()})
		}
		prev := g.vars
		g.newVaries = false
		backs, _ := g.pass(true, nil, nil)
		for k, o := range prev {
			if _, ok := g.vars[k]; !ok {
				g.vars[k] = o // not reached this time
			}
		}
		again := g.newVaries
		for _, v := range g.vars {
			if o, ok := prev[v.key]; !ok || o.cands == nil {
				again = true // first seen
			}
		}
		for _, b := range backs {
			m := map[*Sym]Lin{g.k: symL(g.k).addc(1)}
			bad := map[*Sym]bool{}
			for _, s := range g.slots {
				for _, c := range s.comps {
					l, ok := c.of(g.value(s, b.p))
					if !ok {
						bad[c.sym] = true
						continue
					}
					m[c.sym] = l
					if c.closed {
						want := c.init.add(symL(g.k).addc(1).scale(c.stride))
						if !l.eq(want) && !b.p.st.entails(eq(l, want)) {
							c.closed, c.noClosed = false, true
							again = true
						}
					}
				}
			}
			sb := newSubst(m)
			to := g.vars[b.to]
			for k, a := range to.cands {
				na := a.subst(sb)
				drop := a.l.mentions(func(s *Sym) bool { return bad[s] }) || !b.p.st.entails(na)
				if drop {
					delete(to.cands, k)
					again = true
				}
			}
		}
		if !again {
			return backs
		}
	}
}

// contents turns the element writes of an iteration into descriptions; it reports whether
// a representation changed.
func (g *generaliser) contents(backs []backEdge) bool {
	changed := false
	for _, s := range g.slots {
		if s.kind != skArr {
			continue
		}
		r := g.arrs[s.obj]
		if r.base == nil {
			continue
		}
		switch r.kind {
		case 'h':
			if r.failed {
				continue
			}
			if g.tryStream(s, r, backs) {
				r.kind = 's'
				changed = true
				continue
			}
			alts, keys, ok := g.loopAlts(s, backs)
			if ok && len(alts) > 0 {
				r.kind, r.alts, r.keys = 'l', alts, keys
				changed = true
				continue
			}
			r.failed = true
		case 'l':
			_, keys, ok := g.loopAlts(s, backs)
			if !ok || !subsetKeys(keys, r.keys) {
				r.kind, r.failed = 'h', true
				changed = true
			}
		case 's':
			if !g.checkStream(s, r, backs) {
				r.kind, r.failed = 'h', true
				changed = true
			}
		}
	}
	return changed
}

func subsetKeys(a, b string) bool {
	have := map[string]bool{}
	for _, k := range strings.Split(b, "\n") {
		have[k] = true
	}
	for _, k := range strings.Split(a, "\n") {
		if !have[k] {
			return false
		}
	}
	return true
}

// loopAlts describes the writes of one iteration as a function of the iteration number.
func (g *generaliser) loopAlts(s *slot, backs []backEdge) ([]loopAlt, string, bool) {
	kb := namedSym(fmt.Sprintf("kb#%d.%d", g.id, s.obj), 0, 1<<40)
	syms := map[*Sym]bool{g.k: true}
	var alts []loopAlt
	var keys []string
	for _, b := range backs {
		ho, bo := b.head.st.obj(s.obj), b.p.st.obj(s.obj)
		var entries []*Content
		c := bo.c
		for c != nil && c != ho.c {
			if c.kind != cWrite && c.kind != cBits {
				return nil, "", false
			}
			entries = append([]*Content{c}, entries...)
			c = c.prev
		}
		if c == nil {
			return nil, "", false
		}
		// express with the bound symbol; symbols created by the body become functions of it
		m := map[*Sym]Lin{g.k: symL(kb)}
		bad := false
		collect := func(l Lin) {
			l.mentions(func(x *Sym) bool {
				if x == g.k || syms[x] {
					return false
				}
				if x.kind == 'i' && x.base.stamp() > g.baseMark {
					bad = true
				}
				if c := namedContent(x); c != nil && !g.older(c) {
					bad = true
				}
				if x.kind == 'f' && x.id >= g.mark && strings.Contains(x.name, "#") {
					for _, sl := range g.slots {
						for _, cp := range sl.comps {
							if cp.sym == x {
								bad = true
							}
						}
					}
					m[x] = fnL("iter:"+x.name, x.lo, x.hi, symL(kb))
				}
				return false
			})
		}
		for _, e := range entries {
			collect(e.dst)
			collect(e.val)
			collect(e.n)
		}
		if bad {
			return nil, "", false
		}
		var guards []Atom
		for n := b.p.st.cond; n != nil && n != b.head.st.cond; n = n.parent {
			a := n.a
			if !a.l.mentions(func(x *Sym) bool { return x == g.k }) {
				continue
			}
			ok := true
			a.l.mentions(func(x *Sym) bool {
				if x != g.k && x.kind == 'f' && x.id >= g.mark && strings.Contains(x.name, "#") {
					ok = false
				}
				if x.kind == 'i' && x.base.stamp() > g.baseMark {
					ok = false
				}
				if c := namedContent(x); c != nil && !g.older(c) {
					ok = false
				}
				return false
			})
			if ok {
				guards = append(guards, a)
			}
		}
		sb := newSubst(m)
		al := loopAlt{kb: kb}
		key := ""
		for _, a := range guards {
			na := a.subst(sb)
			al.guard = append(al.guard, na)
		}
		for _, e := range entries {
			ne := &Content{kind: e.kind, dst: sb.lin(e.dst), n: sb.lin(e.n), val: sb.lin(e.val), where: e.where}
			al.entries = append(al.entries, ne)
			key += ne.altKey()
		}
		keys = append(keys, key)
		dup := false
		for i := range alts {
			if altKey(alts[i]) == key && sameGuards(alts[i].guard, al.guard) {
				dup = true
			}
		}
		if !dup {
			alts = append(alts, al)
		}
	}
	// alternatives with the same writes need no guards
	if len(alts) > 1 {
		same := true
		for _, a := range alts {
			if altKey(a) != altKey(alts[0]) {
				same = false
			}
		}
		if same {
			a := alts[0]
			a.guard = nil
			alts = []loopAlt{a}
		}
	} else if len(alts) == 1 {
		alts[0].guard = nil
	}
	return alts, strings.Join(keys, "\n"), true
}

func altKey(a loopAlt) string {
	key := ""
	for _, e := range a.entries {
		key += e.altKey()
	}
	return key
}

func (c *Content) altKey() string {
	if c.kind == cBits {
		return "bits " + c.dst.key() + "+" + c.n.key() + ":=" + c.val.key() + ";"
	}
	return c.dst.key() + ":=" + c.val.key() + ";"
}

func sameGuards(a, b []Atom) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].key() != b[i].key() {
			return false
		}
	}
	return true
}

// tryStream looks for "the array holds the bytes received so far".
func (g *generaliser) tryStream(s *slot, r *arrRep, backs []backEdge) bool {
	var sbase *Base
	var pos *comp
	for _, b := range backs {
		ho, bo := b.head.st.obj(s.obj), b.p.st.obj(s.obj)
		for c := bo.c; c != nil && c != ho.c; c = c.prev {
			if c.kind == cBase {
				break // anything
			}
			if c.kind != cHavoc {
				return false
			}
			if c.base == sbase {
				continue
			}
			// other contents must be outside of what was received, which streamAt decides
			for _, sl := range g.slots {
				if sl.kind == skGhost && sl.ghost == "rx:"+c.base.name {
					if sbase != nil {
						return false
					}
					sbase, pos = c.base, sl.comps[0]
				}
			}
		}
	}
	if sbase == nil {
		return false
	}
	// where the data received in the loop begins, if n of it are there already
	starts := func(n *comp) []Lin {
		ds := []Lin{zeroL}
		for _, b := range backs {
			ho, bo := b.head.st.obj(s.obj), b.p.st.obj(s.obj)
			nv, ok := n.of(g.value(n.sl, b.head))
			for c := bo.c; ok && c != nil && c != ho.c && c.kind != cBase; c = c.prev {
				if c.base != sbase {
					continue
				}
				d := c.dst.sub(nv)
				known := len(ds) >= 4
				for _, e := range ds {
					known = known || e.eq(d)
				}
				for _, t := range d.t {
					known = known || t.s.id >= g.mark
				}
				if !known {
					ds = append(ds, d)
				}
			}
		}
		return ds
	}
	type choice struct {
		c   *comp
		dst Lin
	}
	var cs []choice
	for _, sl := range g.slots {
		if sl.kind != skPhi && sl.kind != skCell {
			continue
		}
		for _, c := range sl.comps {
			if c.which != 'v' && c.which != 'l' && c.which != 'o' {
				continue
			}
			for _, d := range starts(c) {
				cs = append(cs, choice{c, d})
			}
		}
	}
	{
		for _, ch := range cs {
			c := ch.c
			t := *r
			t.kind, t.n, t.pos, t.sbase, t.dst = 's', c, pos, sbase, ch.dst
			// entry
			if !g.streamAt(g.entry, s, &t) {
				continue
			}
			old := *r
			*r = t
			if g.checkStream(s, r, g.fixpoint()) {
				return true
			}
			// what is known of the array may be needed for what was given up without
			g.makeCandidates()
			if g.checkStream(s, r, g.fixpoint()) {
				return true
			}
			*r = old
			g.makeCandidates()
			g.fixpoint()
		}
	}
	return false
}

func (g *generaliser) streamAt(p *Path, s *slot, r *arrRep) bool {
	n, ok1 := r.n.of(g.value(r.n.sl, p))
	pos, ok2 := r.pos.of(g.value(r.pos.sl, p))
	if !ok1 || !ok2 {
		return false
	}
	st := p.st.clone()
	o := symL(freshSym("gi", 0, 1<<40))
	st.assume(lt(o, n))
	if !st.feasible() {
		return true
	}
	for _, a := range st.read(st.obj(s.obj).c, r.dst.add(o), r.sbase.width) {
		want := inL(r.sbase, o.add(pos).sub(n))
		if !a.st.feasible() {
			continue
		}
		if !a.val.eq(want) && !a.st.entails(eq(a.val, want)) && !sameInput(a.st, a.val, want) {
			return false
		}
	}
	return true
}

// sameInput: two input elements at provably equal offsets.
func sameInput(st *State, a, b Lin) bool {
	if len(a.t) != 1 || len(b.t) != 1 || a.c != 0 || b.c != 0 || a.t[0].k != 1 || b.t[0].k != 1 {
		return false
	}
	x, y := a.t[0].s, b.t[0].s
	return x.kind == 'i' && y.kind == 'i' && x.base == y.base && st.entails(eq(x.off, y.off))
}

func (g *generaliser) checkStream(s *slot, r *arrRep, backs []backEdge) bool {
	if !g.streamAt(g.entry, s, r) {
		return false
	}
	for _, b := range backs {
		if !g.streamAt(b.p, s, r) {
			return false
		}
	}
	return true
}
