package main

// Abstract values, objects and array contents.

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type VInt struct{ l Lin }
type VBool struct{ a Atom }
type VPtr struct {
	obj  int
	path string
	nil_ Lin // 1: nil
}
type VElem struct {
	arr int
	idx Lin
}
type VSlice struct {
	arr           int
	off, len, cap Lin
	nil_          Lin
}
type VStr struct {
	known bool
	s     string
	snap  *Snap
	ln    Lin
	id    string
	pre   string // a joined string that begins with a known part
	rest  *VStr
}
type VIface struct {
	typ  types.Type // nil: dynamic type unknown
	val  Value
	id   string
	nil_ Lin
}
type VFunc struct {
	fn   *ssa.Function
	bind []Value
	id   string // opaque
	recv Value  // bound method on opaque interface
	meth *types.Func
	nil_ Lin
}
type VStruct struct{ f []Value }
type VTuple struct{ v []Value }
type VRef struct { // map, chan
	obj  int
	nil_ Lin
}
type VOpaque struct {
	id  string
	arr *Obj // of an array value: its elements
}
type VSnap struct{ s *Snap } // a remembered content, in events only

var zeroL, oneL = con(0), con(1)

func isTrueL(l Lin) bool  { v, ok := l.constVal(); return ok && v == 1 }
func isFalseL(l Lin) bool { v, ok := l.constVal(); return ok && v == 0 }

type objKind byte

const (
	kCells objKind = iota
	kArray
	kMap
	kChan
)

// Obj is an abstract memory object.
type Obj struct {
	id    int
	kind  objKind
	typ   types.Type // of the object (element type for arrays)
	name  string
	zero  bool // unset cells are zero; otherwise unknown (named)
	gen   int
	cells map[string]Value
	c     *Content // integer arrays
	n     Lin      // array length
	owned bool     // allocated by the analysed code
	site  token.Pos
	// maps: known entries by constant key
	mapv  []mapEntry
	open  bool // map may hold further unknown entries
	owner *byte
}

type mapEntry struct {
	key Lin
	val Value
}

type contentKind byte

const (
	cBase contentKind = iota
	cZero
	cWrite
	cCopy
	cBEEnc
	cBEDec
	cLEEnc
	cLEDec
	cHexDec
	cHavoc
	cLoop
	cBits
)

// Content describes the elements of an integer array as a history of writes.
type Content struct {
	kind  contentKind
	prev  *Content
	base  *Base
	shift Lin // cBase: element o is base[o+shift]; cHavoc: base[o-dst]
	dst   Lin
	n     Lin
	val   Lin
	src   *Content
	soff  Lin
	// cLoop: for k in [0,n): entries of the alternative whose guard holds
	k    *Sym
	alts []loopAlt
	// cBits: bits [dst,dst+n) := low bits of val
	where token.Pos
	depth int
}

type loopAlt struct {
	kb      *Sym
	guard   []Atom
	entries []*Content // oldest first; cWrite or cBits
}

func baseContent(b *Base) *Content { return &Content{kind: cBase, base: b} }

var zeroContent = &Content{kind: cZero}

type evNode struct {
	parent *evNode
	e      *Event
	n      int
}

// Event is something observable that happened on a path.
type Event struct {
	kind   string
	name   string
	pos    token.Pos
	chain  string
	vals   []Value
	snap   *Snap
	cond   *consNode
	held   []heldLock
	fn     *ssa.Function
	fr     *Frame
	st     *State
	blocks bool // of a select: it waits
}

type heldLock struct {
	key  string
	obj  int
	path string
	rw   byte // 'w' or 'r'
	pos  token.Pos
}

type panicInfo struct {
	msg   string
	pos   token.Pos
	chain string
}

// State is one abstract state.
type State struct {
	in    *Interp
	cond  *consNode
	heap  map[int]*Obj
	ev    *evNode
	ghost map[string]Lin
	mon   map[string]string
	held  []heldLock
	pan   *panicInfo
	dead  bool
	tok   *byte
}

func (st *State) clone() *State {
	n := &State{in: st.in, cond: st.cond, ev: st.ev, pan: st.pan, dead: st.dead, tok: new(byte)}
	st.tok = new(byte)
	n.heap = make(map[int]*Obj, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.ghost = make(map[string]Lin, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.mon = make(map[string]string, len(st.mon))
	for k, v := range st.mon {
		n.mon[k] = v
	}
	n.held = st.held[:len(st.held):len(st.held)]
	st.in.stats.states++
	return n
}

func (st *State) assume(a Atom) {
	a = norm(a)
	switch a.op {
	case opT:
		return
	case opF:
		st.dead = true
	}
	n := 1
	if st.cond != nil {
		n = st.cond.n + 1
		if st.cond.n < 4000 {
			// skip exact repetitions near the tip
			for c, i := st.cond, 0; c != nil && i < 12; c, i = c.parent, i+1 {
				if c.a.op == a.op && c.a.l.eq(a.l) {
					return
				}
			}
		}
	}
	st.cond = &consNode{parent: st.cond, a: a, n: n}
}

func (st *State) entails(a Atom) bool { return condEntails(st.cond, a) }

// possible reports whether the atom may hold here.
func (st *State) possible(a Atom) bool {
	a = norm(a)
	switch a.op {
	case opT:
		return true
	case opF:
		return false
	}
	return !condEntails(st.cond, a.not())
}

func (st *State) feasible() bool {
	if st.dead {
		return false
	}
	return !condInfeasible(st.cond)
}

// fork splits the state on an atom; either side may be nil when impossible.
func (st *State) fork(a Atom) (yes, no *State) {
	a = norm(a)
	switch a.op {
	case opT:
		return st, nil
	case opF:
		return nil, st
	}
	if st.entails(a) {
		return st, nil
	}
	if st.entails(a.not()) {
		return nil, st
	}
	y, n := st.clone(), st
	y.assume(a)
	n2 := n.clone()
	n2.assume(a.not())
	return y, n2
}

func (st *State) obj(id int) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	mk, ok := st.in.lazy[id]
	if !ok {
		panic(fmt.Sprintf("no object %d", id))
	}
	o := mk(id)
	o.owner = nil
	st.heap[id] = o
	return o
}

// mut returns a private copy of an object.
func (st *State) mut(id int) *Obj {
	o := st.obj(id)
	if o.owner == st.tok {
		return o
	}
	n := *o
	n.owner = st.tok
	if o.cells != nil {
		n.cells = make(map[string]Value, len(o.cells)+1)
		for k, v := range o.cells {
			n.cells[k] = v
		}
	}
	n.mapv = o.mapv[:len(o.mapv):len(o.mapv)]
	st.heap[id] = &n
	return &n
}

func (st *State) newObj(kind objKind, typ types.Type, name string) *Obj {
	st.in.nObj++
	o := &Obj{id: st.in.nObj, kind: kind, typ: typ, name: fmt.Sprintf("%s@%d", name, st.in.nObj), zero: true, owned: true, owner: st.tok}
	if kind == kCells || kind == kArray {
		o.cells = map[string]Value{}
	}
	st.heap[o.id] = o
	return o
}

// lazyObj interns an object of unknown content by name.
func (in *Interp) lazyObj(kind objKind, typ types.Type, name string) int {
	key := fmt.Sprintf("%d:%s:%s", kind, name, typ)
	if id, ok := in.lazyTab[key]; ok {
		return id
	}
	in.nObj++
	id := in.nObj
	in.lazyTab[key] = id
	in.lazy[id] = func(id int) *Obj {
		o := &Obj{id: id, kind: kind, typ: typ, name: name}
		if kind == kCells {
			o.cells = map[string]Value{}
		}
		if kind == kArray {
			o.cells = map[string]Value{}
			o.n = symL(namedSym(name+".alen", 0, 1<<40))
			if w, sg, ok := intInfo(typ); ok {
				lo, hi := rangeOf(w, sg)
				o.c = baseContent(namedBase(name, lo, hi, w))
			}
		}
		if kind == kMap {
			o.open = true
		}
		return o
	}
	return id
}

func intInfo(t types.Type) (width int, signed bool, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func rangeOf(w int, signed bool) (int64, int64) {
	if w >= 64 {
		if signed {
			return negInf, posInf
		}
		return 0, posInf
	}
	if signed {
		return -(int64(1) << uint(w-1)), int64(1)<<uint(w-1) - 1
	}
	return 0, int64(1)<<uint(w) - 1
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intInfo(t); ok {
			return VInt{zeroL}
		}
		if u.Info()&types.IsBoolean != 0 {
			return VBool{aFalse}
		}
		if u.Info()&types.IsString != 0 {
			return VStr{known: true, ln: zeroL}
		}
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			return VPtr{obj: -1, nil_: oneL}
		}
		return VOpaque{id: "zero"}
	case *types.Pointer:
		return VPtr{obj: -1, nil_: oneL}
	case *types.Slice:
		return VSlice{arr: -1, nil_: oneL}
	case *types.Interface:
		return VIface{nil_: oneL, id: "nil"}
	case *types.Signature:
		return VFunc{nil_: oneL, id: "nil"}
	case *types.Map, *types.Chan:
		return VRef{obj: -1, nil_: oneL}
	case *types.Struct:
		s := VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, zeroValue(u.Field(i).Type()))
		}
		return s
	case *types.Tuple:
		s := VTuple{}
		for i := 0; i < u.Len(); i++ {
			s.v = append(s.v, zeroValue(u.At(i).Type()))
		}
		return s
	}
	return VOpaque{id: "zero"}
}

// unknown builds a value of which nothing is known but its type; the same name gives
// the same value.
func (in *Interp) unknown(st *State, t types.Type, name string) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, sg, ok := intInfo(t); ok {
			lo, hi := rangeOf(w, sg)
			return VInt{symL(namedSym(name, lo, hi))}
		}
		if u.Info()&types.IsBoolean != 0 {
			return VBool{norm(Atom{opGE, symL(namedSym(name, 0, 1)).addc(-1)})}
		}
		if u.Info()&types.IsString != 0 {
			b := namedBase(name, 0, 255, 8)
			ln := symL(namedSym("len("+name+")", 0, 1<<40))
			return VStr{id: name, ln: ln, snap: &Snap{baseContent(b), zeroL, ln}}
		}
		return VOpaque{id: name}
	case *types.Pointer:
		nilS := symL(namedSym(name+"==nil", 0, 1))
		if in.nonNil != nil && in.nonNil(t, name) {
			nilS = zeroL
		}
		return VPtr{obj: in.lazyObj(kCells, u.Elem(), "*"+name), nil_: nilS}
	case *types.Slice:
		arr := in.lazyObj(kArray, u.Elem(), name)
		ln := symL(namedSym("len("+name+")", 0, 1<<40))
		nl := symL(namedSym(name+"==nil", 0, 1))
		// a nil slice is empty: cap <= 2^40*(1-nil)
		cp := symL(namedSym("cap("+name+")", 0, 1<<40))
		st.assume(le(cp, con(1<<40).sub(nl.scale(1<<40))))
		st.assume(ge(cp, ln))
		return VSlice{arr: arr, off: zeroL, len: ln, cap: cp, nil_: nl}
	case *types.Interface:
		nl := symL(namedSym(name+"==nil", 0, 1))
		if in.nonNil != nil && in.nonNil(t, name) {
			nl = zeroL
		}
		return VIface{id: name, nil_: nl}
	case *types.Signature:
		nl := symL(namedSym(name+"==nil", 0, 1))
		if in.nonNil != nil && in.nonNil(t, name) {
			nl = zeroL
		}
		return VFunc{id: name, nil_: nl}
	case *types.Map:
		return VRef{obj: in.lazyObj(kMap, t, name), nil_: zeroL}
	case *types.Chan:
		return VRef{obj: in.lazyObj(kChan, t, name), nil_: zeroL}
	case *types.Struct:
		s := VStruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, in.unknown(st, u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return s
	case *types.Tuple:
		s := VTuple{}
		for i := 0; i < u.Len(); i++ {
			s.v = append(s.v, in.unknown(st, u.At(i).Type(), name+"#"+strconv.Itoa(i)))
		}
		return s
	}
	return VOpaque{id: name}
}

func (in *Interp) freshVal(st *State, t types.Type, name string) Value {
	freshCnt++
	return in.unknown(st, t, fmt.Sprintf("%s#%d", name, freshCnt))
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// typeAt follows a field path inside a type.
func typeAt(t types.Type, path string) types.Type {
	if path == "" {
		return t
	}
	for _, p := range strings.Split(path[1:], ".") {
		i, err := strconv.Atoi(p)
		if err != nil {
			return nil
		}
		s := structOf(t)
		if s == nil || i >= s.NumFields() {
			return nil
		}
		t = s.Field(i).Type()
	}
	return t
}

// fieldName renders a field path.
func fieldName(t types.Type, path string) string {
	if path == "" {
		return ""
	}
	var out []string
	for _, p := range strings.Split(path[1:], ".") {
		i, err := strconv.Atoi(p)
		s := structOf(t)
		if err != nil || s == nil || i >= s.NumFields() {
			out = append(out, p)
			break
		}
		out = append(out, s.Field(i).Name())
		t = s.Field(i).Type()
	}
	return strings.Join(out, ".")
}

func (st *State) load(p VPtr, t types.Type) Value {
	o := st.obj(p.obj)
	return st.loadPath(o, p.path, t)
}

// arrayOf is a copy of the elements of an array.
func arrayOf(o *Obj) *Obj {
	r := &Obj{kind: kArray, typ: o.typ, name: o.name, zero: o.zero, gen: o.gen, c: o.c, n: o.n, cells: map[string]Value{}}
	for k, v := range o.cells {
		r.cells[k] = v
	}
	return r
}

func (st *State) loadPath(o *Obj, path string, t types.Type) Value {
	if v, ok := o.cells[path]; ok {
		return v
	}
	if s := structOf(t); s != nil {
		r := VStruct{}
		for i := 0; i < s.NumFields(); i++ {
			o = st.obj(o.id)
			r.f = append(r.f, st.loadPath(o, path+"."+strconv.Itoa(i), s.Field(i).Type()))
		}
		return r
	}
	if o.kind == kArray && path == "" {
		freshCnt++
		return VOpaque{id: fmt.Sprintf("array#%d", freshCnt), arr: arrayOf(o)}
	}
	var v Value
	if o.zero {
		v = zeroValue(t)
		return v
	}
	name := o.name
	if o.gen > 0 {
		name += "~" + strconv.Itoa(o.gen)
	}
	if fn := fieldName(o.typ, path); fn != "" {
		name += "." + fn
	}
	if st.in.initCell != nil {
		if iv, ok := st.in.initCell(st, o, path, t, name); ok {
			v = iv
		}
	}
	if v == nil {
		v = st.in.unknown(st, t, name)
	}
	m := st.mut(o.id)
	m.cells[path] = v
	return v
}

func (st *State) store(p VPtr, t types.Type, v Value) {
	o := st.mut(p.obj)
	st.storePath(o, p.path, t, v)
}

func (st *State) storePath(o *Obj, path string, t types.Type, v Value) {
	if s := structOf(t); s != nil {
		sv, ok := v.(VStruct)
		if !ok {
			// unknown struct value: havoc the leaves
			for i := 0; i < s.NumFields(); i++ {
				st.storePath(o, path+"."+strconv.Itoa(i), s.Field(i).Type(), st.in.freshVal(st, s.Field(i).Type(), "unk"))
			}
			return
		}
		if s.NumFields() == 0 {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			st.storePath(o, path+"."+strconv.Itoa(i), s.Field(i).Type(), sv.f[i])
		}
		return
	}
	o.cells[path] = v
}

// ---- array contents ---------------------------------------------------------

type readAlt struct {
	st  *State
	val Lin
	ok  bool // exact
}

func (c *Content) push(n *Content) *Content {
	n.prev = c
	if c != nil {
		n.depth = c.depth + 1
	}
	return n
}

func inRangeAtoms(o, dst, n Lin) (lo, hi Atom) { return ge(o, dst), lt(o, dst.add(n)) }

// read returns the element at offset o, splitting the state where the position of the
// last write relative to o is undecided. width is the element width in bits.
func (st *State) read(c *Content, o Lin, width int) []readAlt {
	return st.readD(c, o, width, 0)
}

func (st *State) readD(c *Content, o Lin, width, depth int) []readAlt {
	fresh := func(s *State, why string) []readAlt {
		lo, hi := rangeOf(width, false)
		st.in.stats.imprecise[why]++
		return []readAlt{{s, symL(freshSym("?"+why, lo, hi)), false}}
	}
	if depth > 400 {
		return fresh(st, "depth")
	}
	if c == nil {
		return fresh(st, "nocontent")
	}
	// splitIn runs f where o is inside [dst,dst+n) and goes on with prev elsewhere
	splitIn := func(dst, n Lin, f func(*State) []readAlt) []readAlt {
		var out []readAlt
		lo, hi := inRangeAtoms(o, dst, n)
		y, below := st.fork(lo)
		if below != nil {
			out = append(out, below.readD(c.prev, o, width, depth+1)...)
		}
		if y != nil {
			in, above := y.fork(hi)
			if in != nil {
				out = append(out, f(in)...)
			}
			if above != nil {
				out = append(out, above.readD(c.prev, o, width, depth+1)...)
			}
		}
		return out
	}
	switch c.kind {
	case cZero:
		return []readAlt{{st, zeroL, true}}
	case cBase:
		return []readAlt{{st, inL(c.base, o.add(c.shift)), true}}
	case cWrite:
		return splitIn(c.dst, oneL, func(s *State) []readAlt { return []readAlt{{s, c.val, true}} })
	case cHavoc:
		return splitIn(c.dst, c.n, func(s *State) []readAlt {
			return []readAlt{{s, inL(c.base, o.sub(c.dst).add(c.shift)), true}}
		})
	case cCopy:
		return splitIn(c.dst, c.n, func(s *State) []readAlt {
			return s.readD(c.src, o.sub(c.dst).add(c.soff), width, depth+1)
		})
	case cBEEnc, cLEEnc:
		return splitIn(c.dst, c.n, func(s *State) []readAlt {
			j := o.sub(c.dst)
			q := divL(j, 2)
			var out []readAlt
			odd := eq(j.sub(q.scale(2)), oneL)
			y, n := s.fork(odd)
			for i, s2 := range []*State{y, n} {
				if s2 == nil {
					continue
				}
				isOdd := i == 0
				for _, a := range s2.readD(c.src, q.add(c.soff), 16, depth+1) {
					hi := divL(a.val, 256)
					v := hi
					if isOdd == (c.kind == cBEEnc) {
						v = a.val.sub(hi.scale(256))
					}
					out = append(out, readAlt{a.st, v, a.ok})
				}
			}
			return out
		})
	case cBEDec, cLEDec, cHexDec:
		return splitIn(c.dst, c.n, func(s *State) []readAlt {
			j := o.sub(c.dst).scale(2).add(c.soff)
			var out []readAlt
			for _, a := range s.readD(c.src, j, 8, depth+1) {
				for _, b := range a.st.readD(c.src, j.addc(1), 8, depth+1) {
					if c.kind == cHexDec {
						out = append(out, readAlt{b.st, fnL("hexdigit", 0, 15, a.val).scale(16).add(fnL("hexdigit", 0, 15, b.val)), a.ok && b.ok})
					} else if c.kind == cBEDec {
						out = append(out, readAlt{b.st, a.val.scale(256).add(b.val), a.ok && b.ok})
					} else {
						out = append(out, readAlt{b.st, b.val.scale(256).add(a.val), a.ok && b.ok})
					}
				}
			}
			return out
		})
	case cBits:
		// byte-wise read of bit-wise written content
		b0, bn := divL(c.dst, 8), divL(c.dst.add(c.n).addc(7), 8)
		return splitIn(b0, bn.sub(b0), func(s *State) []readAlt {
			if s.in.symBits {
				return []readAlt{{s, bytesOf(c, o), true}}
			}
			return fresh(s, "bitwrite")
		})
	case cLoop:
		return st.readLoop(c, o, width, depth)
	}
	return fresh(st, "content")
}

// readLoop reads from the writes of a summarised loop: for every k in [0,n) the entries of
// the alternative whose guard holds at k.
func (st *State) readLoop(c *Content, o Lin, width, depth int) []readAlt {
	fresh := func(s *State, why string) []readAlt {
		lo, hi := rangeOf(width, false)
		st.in.stats.imprecise[why]++
		return []readAlt{{s, symL(freshSym("?"+why, lo, hi)), false}}
	}
	var out []readAlt
	var work []*State
	// the set of distinct destinations a*k+b over all alternatives
	type dest struct {
		key string
		a   int64
		b   Lin
	}
	var dests []dest
	seen := map[string]bool{}
	for _, al := range c.alts {
		for _, e := range al.entries {
			if e.kind == cBits && st.in.symBits {
				return []readAlt{{st, bytesOf(c, o), true}}
			}
			if e.kind != cWrite {
				return fresh(st, "loopentry")
			}
			a := int64(0)
			b := con(e.dst.c)
			for _, t := range e.dst.t {
				if t.s == c.k {
					a = t.k
				} else {
					if t.s.mentions(func(x *Sym) bool { return x == c.k }) {
						return fresh(st, "loopindex")
					}
					b = b.add(Lin{t: []Term{t}})
				}
			}
			if a <= 0 {
				return fresh(st, "loopstride")
			}
			k := fmt.Sprintf("%d*k+%s", a, b.key())
			if !seen[k] {
				seen[k] = true
				dests = append(dests, dest{k, a, b})
			}
		}
	}
	// per destination form the element determines k; two forms must never meet
	for i := range dests {
		for j := 0; j < i; j++ {
			d := dests[i].b.sub(dests[j].b)
			v, ok := d.constVal()
			if !ok || dests[i].a != dests[j].a || v%dests[i].a == 0 {
				return fresh(st, "loopoverlap")
			}
		}
	}
	if len(dests) == 0 {
		return st.readD(c.prev, o, width, depth+1)
	}
	// every form has the same stride and a start at a fixed distance from the first: split
	// on the position modulo the stride
	stride, b0 := dests[0].a, dests[0].b
	if stride > 16 {
		return fresh(st, "loopstride")
	}
	K := divL(o.sub(b0), stride)
	rem := o.sub(b0).sub(K.scale(stride))
	work = nil
	left := st
	for r := int64(0); r < stride && left != nil; r++ {
		var cur *State
		if r == stride-1 {
			cur, left = left, nil
			cur = cur.clone()
			cur.assume(eq(rem, con(r)))
			if !cur.feasible() {
				continue
			}
		} else {
			cur, left = left.fork(eq(rem, con(r)))
			if cur == nil {
				continue
			}
		}
		hit := false
		for _, d := range dests {
			delta, _ := d.b.sub(b0).constVal()
			if (r-delta)%stride != 0 {
				continue
			}
			hit = true
			kk := K.addc((r - delta) / stride)
			y, n := cur.fork(ge(kk, zeroL))
			if n != nil {
				work = append(work, n)
			}
			if y == nil {
				break
			}
			y, n = y.fork(lt(kk, c.n))
			if n != nil {
				work = append(work, n)
			}
			if y == nil {
				break
			}
			sub := newSubst(map[*Sym]Lin{c.k: kk})
			for _, al := range c.alts {
				as := y.clone()
				okg := true
				for _, g := range al.guard {
					g2 := g.subst(sub)
					if !as.possible(g2) {
						okg = false
						break
					}
					as.assume(g2)
				}
				if !okg || !as.feasible() {
					continue
				}
				found := false
				for i := len(al.entries) - 1; i >= 0; i-- {
					e := al.entries[i]
					if as.entails(eq(sub.lin(e.dst), o)) {
						out = append(out, readAlt{as, sub.lin(e.val), true})
						found = true
						break
					}
				}
				if !found {
					// this iteration does not write it on this alternative
					out = append(out, fresh(as, "loopalt")...)
				}
			}
			break // two forms never meet
		}
		if !hit {
			work = append(work, cur)
		}
	}
	for _, s := range work {
		out = append(out, s.readD(c.prev, o, width, depth+1)...)
	}
	return out
}

func (st *State) addEvent(e *Event) {
	e.cond = st.cond
	e.held = st.held
	n := 1
	if st.ev != nil {
		n = st.ev.n + 1
	}
	st.ev = &evNode{st.ev, e, n}
}

func (st *State) events() []*Event {
	if st.ev == nil {
		return nil
	}
	r := make([]*Event, st.ev.n)
	for n := st.ev; n != nil; n = n.parent {
		r[n.n-1] = n.e
	}
	return r
}

func substValue(v Value, s *Subst) Value {
	switch x := v.(type) {
	case VInt:
		return VInt{s.lin(x.l)}
	case VBool:
		return VBool{x.a.subst(s)}
	case VPtr:
		x.nil_ = s.lin(x.nil_)
		return x
	case VElem:
		x.idx = s.lin(x.idx)
		return x
	case VSlice:
		x.off, x.len, x.cap, x.nil_ = s.lin(x.off), s.lin(x.len), s.lin(x.cap), s.lin(x.nil_)
		return x
	case VStruct:
		r := VStruct{}
		for _, f := range x.f {
			r.f = append(r.f, substValue(f, s))
		}
		return r
	case VTuple:
		r := VTuple{}
		for _, f := range x.v {
			r.v = append(r.v, substValue(f, s))
		}
		return r
	}
	return v
}
