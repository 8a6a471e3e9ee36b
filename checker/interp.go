package main

// The abstract interpreter: executes go/ssa functions on abstract states, inlining calls
// inside the analysed module, splitting states at branches and summarising loops.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Interp struct {
	prog     *ssa.Program
	pkg      *ssa.Package
	nObj     int
	lazy     map[int]func(int) *Obj
	lazyTab  map[string]int
	globals  map[*ssa.Global]int
	intr     map[string]intrinsic
	override map[string]intrinsic // per property
	nonNil   func(t types.Type, name string) bool
	initCell func(st *State, o *Obj, path string, t types.Type, name string) (Value, bool)

	lookahead bool      // loops that surely end within the next iteration are left to do so
	deadline  time.Time // for giving up, if set
	onEvent   func(fr *Frame, st *State, e *Event)
	onAccess  func(fr *Frame, st *State, o *Obj, path string, write bool, pos token.Pos, instr ssa.Instruction)
	onBack    func(g *generaliser, head, back *Path)
	atBack    func(g *generaliser, st *State) []*State // splits an end state of an iteration before it is generalised
	onCall    func(fr *Frame, st *State, fn *ssa.Function, args []Value)

	// interfere gives the states other threads may have brought about before an operation
	// that synchronises (besides the one at hand)
	interfere    func(ci *callInfo) []*State
	exactAtomics bool // atomic cells change only by what is analysed

	// goroutines started are run from the point where they start (their effects on the
	// thread that started them are left out)
	threads      bool
	inThread     int
	threadStart  func(st *State)
	threadPanics []callResult

	lockSites map[token.Pos]bool

	quiet     int // >0: exploratory run, do not report
	issues    []*Issue
	issueSeen map[string]bool
	loops     map[*ssa.Function]*loopInfo
	stats     struct {
		states, steps, obligations, discharged, paths, loops, calls int
		imprecise                                                   map[string]int
		funcs                                                       map[string]bool
		unmodelled                                                  map[string]bool
		sites                                                       map[string]bool
		fsites                                                      map[string]bool
	}
	maxSteps  int
	merge     bool
	inLoop    int
	ifaceIs   func(VIface, types.Type) (bool, bool)
	atomsSeen *[]Atom
	symBits   bool // shifts by a position within a byte stay symbolic (symbits.go)
	wide      int  // how many more paths an unrolled loop may have
	obligSeen map[string]bool
}

type abortErr struct{ msg string }

// Issue is something wrong found on a path.
type Issue struct {
	kind  string
	msg   string
	pos   token.Pos
	chain string
	st    *State
}

type Frame struct {
	fn     *ssa.Function
	parent *Frame
	bind   []Value
	site   token.Pos
	depth  int
	// path-insensitive marks
	deferred bool // running as a deferred call
}

func (fr *Frame) chain() string {
	var s []string
	for f := fr; f != nil; f = f.parent {
		s = append([]string{shortFn(f.fn)}, s...)
	}
	return strings.Join(s, " > ")
}

func shortFn(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.RelString(nil)
	if f.Pkg != nil {
		s = f.RelString(f.Pkg.Pkg)
	}
	return s
}

type deferredCall struct {
	call  *ssa.CallCommon
	fn    Value
	args  []Value
	pos   token.Pos
	instr ssa.Instruction
}

// Path is a state together with the registers of the current function.
type Path struct {
	st     *State
	env    map[ssa.Value]Value
	defers []deferredCall
	mux    *muxed // values of the phis of the next block, where both ways there were taken at once
}

func (p *Path) fork(st *State) *Path {
	e := make(map[ssa.Value]Value, len(p.env)+8)
	for k, v := range p.env {
		e[k] = v
	}
	return &Path{st: st, env: e, defers: p.defers[:len(p.defers):len(p.defers)], mux: p.mux}
}

type exitKind byte

const (
	exReturn exitKind = iota
	exPanic
	exEdge
)

type Exit struct {
	kind     exitKind
	p        *Path
	from, to *ssa.BasicBlock
	rets     []Value
}

type callResult struct {
	st    *State
	rets  []Value
	panic bool
}

func newInterp(prog *ssa.Program, pkg *ssa.Package) *Interp {
	in := &Interp{prog: prog, pkg: pkg, lazy: map[int]func(int) *Obj{}, lazyTab: map[string]int{},
		globals: map[*ssa.Global]int{}, lockSites: map[token.Pos]bool{},
		loops: map[*ssa.Function]*loopInfo{}, issueSeen: map[string]bool{},
		maxSteps: 6000000, override: map[string]intrinsic{}, obligSeen: map[string]bool{}}
	in.stats.imprecise = map[string]int{}
	in.stats.funcs = map[string]bool{}
	in.stats.unmodelled = map[string]bool{}
	in.stats.sites = map[string]bool{}
	in.stats.fsites = map[string]bool{}
	in.intr = intrinsics()
	return in
}

func (in *Interp) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := in.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return f + ":" + strconv.Itoa(q.Line)
}

func (in *Interp) issue(kind string, fr *Frame, st *State, pos token.Pos, msg string) {
	if in.quiet > 0 {
		return
	}
	ch := ""
	if fr != nil {
		ch = fr.chain()
	}
	k := kind + "|" + msg + "|" + in.pos(pos) + "|" + ch
	if in.issueSeen[k] {
		return
	}
	in.issueSeen[k] = true
	in.issues = append(in.issues, &Issue{kind: kind, msg: msg, pos: pos, chain: ch, st: st})
}

func (in *Interp) newState() *State {
	return &State{in: in, heap: map[int]*Obj{}, ghost: map[string]Lin{}, mon: map[string]string{}, tok: new(byte)}
}

func (in *Interp) isModule(fn *ssa.Function) bool {
	if fn.Pkg == in.pkg {
		return true
	}
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg == in.pkg {
			return true
		}
	}
	// synthetic wrappers of module types have no package
	if fn.Pkg == nil && fn.Synthetic != "" && len(fn.Blocks) > 0 {
		return true
	}
	return false
}

// callFn runs a function on a state.
func (in *Interp) callFn(parent *Frame, st *State, fn *ssa.Function, args []Value, bind []Value, site token.Pos, deferred bool) []callResult {
	fr := &Frame{fn: fn, parent: parent, bind: bind, site: site, deferred: deferred}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	if fr.depth > 40 {
		panic(abortErr{"call depth exceeded at " + fr.chain()})
	}
	in.stats.calls++
	in.stats.funcs[shortFn(fn)] = true
	if in.onCall != nil {
		in.onCall(fr, st, fn, args)
	}
	p := &Path{st: st, env: map[ssa.Value]Value{}}
	for i, prm := range fn.Params {
		p.env[prm] = args[i]
	}
	for i, fv := range fn.FreeVars {
		p.env[fv] = bind[i]
	}
	exits := in.execRegion(fr, nil, fn.Blocks[0], nil, p, false)
	var out []callResult
	for _, e := range exits {
		switch e.kind {
		case exReturn:
			out = append(out, callResult{st: e.p.st, rets: e.rets})
		case exPanic:
			out = append(out, in.unwind(fr, e.p)...)
		}
	}
	if in.merge {
		return mergeResults(out)
	}
	return out
}

// unwind runs the deferred calls of a panicking function.
func (in *Interp) unwind(fr *Frame, p *Path) []callResult {
	type item struct {
		st *State
		ds []deferredCall
	}
	work := []item{{p.st, p.defers}}
	var out []callResult
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if len(it.ds) == 0 {
			if it.st.pan == nil { // recovered
				if fr.fn.Recover != nil {
					pp := &Path{st: it.st, env: p.env}
					pp = pp.fork(it.st)
					pp.defers = nil
					for _, e := range in.execRegion(fr, nil, fr.fn.Recover, nil, pp, false) {
						if e.kind == exReturn {
							out = append(out, callResult{st: e.p.st, rets: e.rets})
						} else {
							out = append(out, callResult{st: e.p.st, panic: true})
						}
					}
				} else {
					var rs []Value
					for i := 0; i < fr.fn.Signature.Results().Len(); i++ {
						rs = append(rs, zeroValue(fr.fn.Signature.Results().At(i).Type()))
					}
					out = append(out, callResult{st: it.st, rets: rs})
				}
				continue
			}
			out = append(out, callResult{st: it.st, panic: true})
			continue
		}
		d := it.ds[len(it.ds)-1]
		rest := it.ds[: len(it.ds)-1 : len(it.ds)-1]
		for _, r := range in.callValue(fr, it.st, d.call, d.fn, d.args, d.pos, d.instr, true) {
			work = append(work, item{r.st, rest})
		}
	}
	return out
}

// mergeResults joins results that differ only in their path conditions.
func mergeResults(rs []callResult) []callResult {
	if len(rs) < 2 {
		return rs
	}
	var out []callResult
next:
	for _, r := range rs {
		for i := range out {
			o := &out[i]
			if o.panic == r.panic && len(o.rets) == len(r.rets) && sameMem(o.st, r.st) {
				same := true
				for j := range o.rets {
					if !valueEq(o.rets[j], r.rets[j]) {
						same = false
						break
					}
				}
				if same {
					o.st.cond = commonPrefix(o.st.cond, r.st.cond)
					continue next
				}
			}
		}
		out = append(out, r)
	}
	return out
}

func commonPrefix(a, b *consNode) *consNode {
	for a != b {
		if a == nil || b == nil {
			return nil
		}
		if a.n > b.n {
			a = a.parent
		} else if b.n > a.n {
			b = b.parent
		} else {
			a, b = a.parent, b.parent
		}
	}
	return a
}

func sameMem(a, b *State) bool {
	if a.ev != b.ev || (a.pan == nil) != (b.pan == nil) || len(a.held) != len(b.held) {
		return false
	}
	for i := range a.held {
		if a.held[i].key != b.held[i].key || a.held[i].rw != b.held[i].rw {
			return false
		}
	}
	if len(a.mon) != len(b.mon) || len(a.ghost) != len(b.ghost) {
		return false
	}
	for k, v := range a.mon {
		if b.mon[k] != v {
			return false
		}
	}
	for k, v := range a.ghost {
		if w, ok := b.ghost[k]; !ok || !w.eq(v) {
			return false
		}
	}
	for id, x := range a.heap {
		y, ok := b.heap[id]
		if !ok {
			if _, lazy := a.in.lazy[id]; lazy && objPristine(a, x) {
				continue
			}
			return false
		}
		if x != y && !objEq(a, b, x, y) {
			return false
		}
	}
	for id, y := range b.heap {
		if _, ok := a.heap[id]; !ok {
			if _, lazy := a.in.lazy[id]; lazy && objPristine(b, y) {
				continue
			}
			return false
		}
	}
	return true
}

func objPristine(st *State, o *Obj) bool {
	mk := st.in.lazy[o.id]
	z := mk(o.id)
	return objEq(st, st, o, z)
}

func objEq(a, b *State, x, y *Obj) bool {
	if x.kind != y.kind || x.c != y.c || !x.n.eq(y.n) || x.gen != y.gen || len(x.mapv) != len(y.mapv) || x.open != y.open {
		if !(x.c != nil && y.c != nil && x.c.kind == cBase && y.c.kind == cBase && x.c.base == y.c.base && x.c.shift.eq(y.c.shift)) {
			return false
		}
		if x.kind != y.kind || !x.n.eq(y.n) || x.gen != y.gen {
			return false
		}
	}
	for i := range x.mapv {
		if !x.mapv[i].key.eq(y.mapv[i].key) || !valueEq(x.mapv[i].val, y.mapv[i].val) {
			return false
		}
	}
	for k, v := range x.cells {
		w, ok := y.cells[k]
		if !ok {
			if !isInitial(a, x, k, v) {
				return false
			}
			continue
		}
		if !valueEq(v, w) {
			return false
		}
	}
	for k, w := range y.cells {
		if _, ok := x.cells[k]; !ok && !isInitial(b, y, k, w) {
			return false
		}
	}
	return true
}

// isInitial: the cell still has the value an unset cell would be given.
func isInitial(st *State, o *Obj, path string, v Value) bool {
	if o.kind != kCells {
		return false
	}
	t := typeAt(o.typ, path)
	if t == nil {
		return false
	}
	if o.zero {
		return valueEq(v, zeroValue(t))
	}
	name := o.name
	if o.gen > 0 {
		name += "~" + strconv.Itoa(o.gen)
	}
	if fn := fieldName(o.typ, path); fn != "" {
		name += "." + fn
	}
	scratch := &State{in: st.in, heap: map[int]*Obj{}, tok: new(byte)}
	if st.in.initCell != nil {
		if iv, ok := st.in.initCell(scratch, o, path, t, name); ok {
			return valueEq(v, iv)
		}
	}
	return valueEq(v, st.in.unknown(scratch, t, name))
}

func valueEq(a, b Value) bool {
	switch x := a.(type) {
	case VInt:
		y, ok := b.(VInt)
		return ok && x.l.eq(y.l)
	case VBool:
		y, ok := b.(VBool)
		return ok && x.a.op == y.a.op && x.a.l.eq(y.a.l)
	case VPtr:
		y, ok := b.(VPtr)
		return ok && x.obj == y.obj && x.path == y.path && x.nil_.eq(y.nil_)
	case VElem:
		y, ok := b.(VElem)
		return ok && x.arr == y.arr && x.idx.eq(y.idx)
	case VSlice:
		y, ok := b.(VSlice)
		return ok && x.arr == y.arr && x.off.eq(y.off) && x.len.eq(y.len) && x.cap.eq(y.cap) && x.nil_.eq(y.nil_)
	case VStr:
		y, ok := b.(VStr)
		return ok && x.known == y.known && x.s == y.s && x.id == y.id && x.ln.eq(y.ln) && (x.snap == y.snap || x.id != "" || x.snap != nil && y.snap != nil && x.snap.c == y.snap.c && x.snap.off.eq(y.snap.off))
	case VIface:
		y, ok := b.(VIface)
		if !ok || !x.nil_.eq(y.nil_) || x.id != y.id {
			return false
		}
		if (x.typ == nil) != (y.typ == nil) {
			return false
		}
		if x.typ == nil {
			return true
		}
		return types.Identical(x.typ, y.typ) && valueEq(x.val, y.val)
	case VFunc:
		y, ok := b.(VFunc)
		if !ok || x.fn != y.fn || x.id != y.id || len(x.bind) != len(y.bind) || !x.nil_.eq(y.nil_) {
			return false
		}
		for i := range x.bind {
			if !valueEq(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !valueEq(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case VTuple:
		y, ok := b.(VTuple)
		if !ok || len(x.v) != len(y.v) {
			return false
		}
		for i := range x.v {
			if !valueEq(x.v[i], y.v[i]) {
				return false
			}
		}
		return true
	case VRef:
		y, ok := b.(VRef)
		return ok && x.obj == y.obj && x.nil_.eq(y.nil_)
	case VOpaque:
		y, ok := b.(VOpaque)
		return ok && x.id == y.id
	case nil:
		return b == nil
	}
	return false
}

// execRegion executes from the start of block blk (entered from pred) until control leaves
// the given loop, returns to its header, or leaves the function. With atHeader the phis of
// blk are already set.
func (in *Interp) execRegion(fr *Frame, l *Loop, blk, pred *ssa.BasicBlock, p *Path, atHeader bool) []Exit {
	type item struct {
		blk, pred *ssa.BasicBlock
		p         *Path
		skipPhi   bool
	}
	work := []item{{blk, pred, p, atHeader}}
	var out []Exit
	li := in.loopsOf(fr.fn)
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if inner := li.header[it.blk]; inner != nil && inner != l && !(it.skipPhi && inner == l) {
			for _, e := range in.execLoop(fr, inner, it.pred, it.p) {
				if e.kind == exEdge {
					if l != nil && (!l.blocks[e.to] || e.to == l.head) {
						out = append(out, e)
					} else {
						work = append(work, item{e.to, e.from, e.p, false})
					}
				} else {
					out = append(out, e)
				}
			}
			continue
		}
		for _, e := range in.execBlock(fr, it.blk, it.pred, it.p, it.skipPhi) {
			if e.kind == exEdge {
				if l != nil && (!l.blocks[e.to] || e.to == l.head) {
					out = append(out, e)
				} else {
					work = append(work, item{e.to, e.from, e.p, false})
				}
			} else {
				out = append(out, e)
			}
		}
	}
	return out
}

// phiValues computes the phis of blk for an edge from pred.
func (in *Interp) phiValues(fr *Frame, blk, pred *ssa.BasicBlock, p *Path) map[*ssa.Phi]Value {
	if p.mux != nil && p.mux.blk == blk {
		return p.mux.vals
	}
	r := map[*ssa.Phi]Value{}
	idx := -1
	for i, b := range blk.Preds {
		if b == pred {
			idx = i
		}
	}
	for _, ins := range blk.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		r[ph] = in.get(fr, p, ph.Edges[idx])
	}
	return r
}

func (in *Interp) execBlock(fr *Frame, blk, pred *ssa.BasicBlock, p *Path, skipPhi bool) []Exit {
	if !skipPhi && pred != nil {
		for ph, v := range in.phiValues(fr, blk, pred, p) {
			p.env[ph] = v
		}
	}
	p.mux = nil
	type item struct {
		p *Path
		i int
	}
	work := []item{{p, 0}}
	var out []Exit
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		p := it.p
		done := false
		for i := it.i; i < len(blk.Instrs) && !done; i++ {
			ins := blk.Instrs[i]
			in.stats.steps++
			if in.stats.steps > in.maxSteps {
				panic(abortErr{"analysis budget exceeded in " + fr.chain()})
			}
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.Jump:
				out = append(out, Exit{kind: exEdge, p: p, from: blk, to: blk.Succs[0]})
				done = true
			case *ssa.If:
				a := in.boolAtom(p.st, in.get(fr, p, x.Cond))
				y, n := p.st.fork(a)
				if y != nil && n != nil {
					if e, ok := in.ifConvert(fr, p, blk, a, y, n); ok {
						out = append(out, e)
						done = true
						continue
					}
					if (a.op == opNE || a.op == opEQ) && a.l.c == 0 {
						// a bit that is not 0 is 1
						if v, _, _, at, ok := bitAtomOf(p.st, a); ok && a.op == opNE {
							y.assume(eq(v, con(1<<uint(at))))
						} else if ok {
							n.assume(eq(v, con(1<<uint(at))))
						}
					}
				}
				if in.atomsSeen != nil {
					*in.atomsSeen = append(*in.atomsSeen, a)
				}
				if y != nil && n != nil {
					in.stats.paths++
					out = append(out, Exit{kind: exEdge, p: p.fork(y), from: blk, to: blk.Succs[0]})
					out = append(out, Exit{kind: exEdge, p: p.fork(n), from: blk, to: blk.Succs[1]})
				} else if y != nil {
					p.st = y
					out = append(out, Exit{kind: exEdge, p: p, from: blk, to: blk.Succs[0]})
				} else {
					p.st = n
					out = append(out, Exit{kind: exEdge, p: p, from: blk, to: blk.Succs[1]})
				}
				done = true
			case *ssa.Return:
				var rs []Value
				for _, r := range x.Results {
					rs = append(rs, in.get(fr, p, r))
				}
				out = append(out, Exit{kind: exReturn, p: p, rets: rs})
				done = true
			case *ssa.Panic:
				in.raise(fr, p.st, x.Pos(), "explicit panic")
				out = append(out, Exit{kind: exPanic, p: p})
				done = true
			default:
				ps, exits := in.execInstr(fr, p, ins)
				out = append(out, exits...)
				if len(ps) == 1 {
					p = ps[0]
					continue
				}
				for _, q := range ps {
					work = append(work, item{q, i + 1})
				}
				done = true
			}
		}
	}
	return out
}

// raise marks a state as panicking.
func (in *Interp) raise(fr *Frame, st *State, pos token.Pos, msg string) {
	st.pan = &panicInfo{msg, pos, fr.chain()}
}

func (in *Interp) boolAtom(st *State, v Value) Atom {
	switch x := v.(type) {
	case VBool:
		return x.a
	}
	return norm(Atom{opGE, symL(freshSym("cond", 0, 1)).addc(-1)})
}

func (in *Interp) globalObj(g *ssa.Global) int {
	if id, ok := in.globals[g]; ok {
		return id
	}
	t := g.Type().(*types.Pointer).Elem()
	name := g.Name()
	if g.Pkg != nil && g.Pkg != in.pkg {
		name = g.Pkg.Pkg.Path() + "." + g.Name()
	}
	kind := kCells
	if a, ok := t.Underlying().(*types.Array); ok {
		kind = kArray
		t = a.Elem()
	}
	id := in.lazyObj(kind, t, name)
	in.globals[g] = id
	return id
}

func (in *Interp) get(fr *Frame, p *Path, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(x)
	case *ssa.Global:
		return VPtr{obj: in.globalObj(x), nil_: zeroL}
	case *ssa.Function:
		return VFunc{fn: x, nil_: zeroL}
	case *ssa.Builtin:
		return VOpaque{id: "builtin " + x.Name()}
	}
	if r, ok := p.env[v]; ok {
		return r
	}
	panic(abortErr{fmt.Sprintf("no value for %s in %s", v.Name(), fr.chain())})
}

func (in *Interp) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	switch c.Value.Kind() {
	case constant.Int:
		if _, _, ok := intInfo(t); ok {
			i, exact := constant.Int64Val(c.Value)
			if !exact {
				if constant.Sign(c.Value) > 0 {
					i = posInf
				} else {
					i = negInf
				}
			}
			return VInt{con(i)}
		}
		return VOpaque{id: "const " + c.Value.ExactString()}
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return VBool{aTrue}
		}
		return VBool{aFalse}
	case constant.String:
		return strConst(constant.StringVal(c.Value))
	}
	if _, _, ok := intInfo(t); ok {
		if v := constant.ToInt(c.Value); v.Kind() == constant.Int {
			i, _ := constant.Int64Val(v)
			return VInt{con(i)}
		}
	}
	return VOpaque{id: "const " + c.Value.ExactString()}
}

func strConst(s string) VStr {
	r := VStr{known: true, s: s, ln: con(int64(len(s)))}
	if len(s) > 0 {
		vs := make([]int64, len(s))
		for i := 0; i < len(s); i++ {
			vs[i] = int64(s[i])
		}
		r.snap = &Snap{baseContent(constBase("\""+s+"\"", vs, 8)), zeroL, r.ln}
	} else {
		r.snap = &Snap{zeroContent, zeroL, zeroL}
	}
	return r
}

// check splits off the failing side of a runtime check as a panic.
func (in *Interp) check(fr *Frame, p *Path, a Atom, pos token.Pos, what string) (*Path, *Exit) {
	a = norm(a)
	site := in.pos(pos) + " " + what
	if in.quiet == 0 {
		in.stats.obligations++
		in.stats.sites[site] = true
	}
	if in.atomsSeen != nil {
		*in.atomsSeen = append(*in.atomsSeen, a)
	}
	y, n := p.st.fork(a)
	if n == nil {
		if in.quiet == 0 {
			in.stats.discharged++
		}
		p.st = y
		return p, nil
	}
	if in.quiet == 0 {
		in.stats.fsites[site] = true
	}
	var ex *Exit
	q := p.fork(n)
	in.raise(fr, q.st, pos, what)
	ex = &Exit{kind: exPanic, p: q}
	if y == nil {
		return nil, ex
	}
	p.st = y
	return p, ex
}

func (in *Interp) access(fr *Frame, st *State, o *Obj, path string, write bool, ins ssa.Instruction) {
	if in.onAccess != nil && in.quiet == 0 {
		in.onAccess(fr, st, o, path, write, ins.Pos(), ins)
	}
}

func (in *Interp) execInstr(fr *Frame, p *Path, ins ssa.Instruction) (ps []*Path, exits []Exit) {
	st := p.st
	set2 := func(q *Path, v ssa.Value, x Value) []*Path {
		q.env[v] = x
		return []*Path{q}
	}
	set := func(v ssa.Value, x Value) []*Path {
		p.env[v] = x
		return []*Path{p}
	}
	alts := func(v ssa.Value, as []valAlt) []*Path {
		if len(as) == 1 {
			p.st = as[0].st
			p.env[v] = as[0].v
			return []*Path{p}
		}
		var r []*Path
		for _, a := range as {
			q := p.fork(a.st)
			q.env[v] = a.v
			r = append(r, q)
		}
		return r
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		nm := x.Comment
		if nm == "" {
			nm = "alloc"
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			o := st.newObj(kArray, a.Elem(), nm)
			o.n = con(a.Len())
			o.site = x.Pos()
			if _, _, ok := intInfo(a.Elem()); ok {
				o.c = zeroContent
			}
			return set(x, VPtr{obj: o.id, nil_: zeroL}), nil
		}
		o := st.newObj(kCells, t, nm)
		o.site = x.Pos()
		return set(x, VPtr{obj: o.id, nil_: zeroL}), nil

	case *ssa.BinOp:
		as, ex := in.binop(fr, p, x)
		return alts(x, as), ex

	case *ssa.UnOp:
		v := in.get(fr, p, x.X)
		switch x.Op {
		case token.MUL:
			return in.loadInstr(fr, p, x, v)
		case token.NOT:
			return set(x, VBool{in.boolAtom(st, v).not()}), nil
		case token.SUB:
			if iv, ok := v.(VInt); ok {
				w, sg, _ := intInfo(x.Type())
				return alts(x, intAlts(in.wrap(st, iv.l.neg(), w, sg))), nil
			}
			return set(x, in.freshVal(st, x.Type(), "neg")), nil
		case token.XOR:
			if iv, ok := v.(VInt); ok {
				w, sg, _ := intInfo(x.Type())
				if !sg && w < 62 {
					_, hi := rangeOf(w, sg)
					return set(x, VInt{con(hi).sub(iv.l)}), nil
				}
				return alts(x, intAlts(in.wrap(st, iv.l.neg().addc(-1), w, sg))), nil
			}
			return set(x, in.freshVal(st, x.Type(), "not")), nil
		case token.ARROW:
			in.event(fr, st, &Event{kind: "recv", name: chanName(v), pos: x.Pos(), vals: []Value{v}})
			return set(x, in.freshVal(st, x.Type(), "recv")), nil
		}

	case *ssa.Call:
		return in.callInstr(fr, p, x)

	case *ssa.ChangeInterface:
		return set(x, in.get(fr, p, x.X)), nil
	case *ssa.ChangeType:
		return set(x, in.get(fr, p, x.X)), nil
	case *ssa.MultiConvert:
		return set(x, in.freshVal(st, x.Type(), "conv")), nil

	case *ssa.Convert:
		return alts(x, in.convert(fr, st, in.get(fr, p, x.X), x.X.Type(), x.Type())), nil

	case *ssa.Defer:
		fn, args := in.callParts(fr, p, x.Common())
		p.defers = append(p.defers, deferredCall{x.Common(), fn, args, x.Pos(), x})
		return []*Path{p}, nil

	case *ssa.Go:
		fn, args := in.callParts(fr, p, x.Common())
		in.event(fr, st, &Event{kind: "go", pos: x.Pos(), vals: append([]Value{fn}, args...), st: st.clone()})
		if in.threads && in.quiet == 0 && in.inThread < 3 {
			t := st.clone()
			t.held = nil
			if in.threadStart != nil {
				in.threadStart(t)
			}
			in.inThread++
			for _, r := range in.callValue(fr, t, x.Common(), fn, args, x.Pos(), x, true) {
				if r.panic && r.st.feasible() {
					in.threadPanics = append(in.threadPanics, r)
				}
			}
			in.inThread--
		}
		return []*Path{p}, nil

	case *ssa.RunDefers:
		type item struct {
			st *State
			ds []deferredCall
		}
		work := []item{{st, p.defers}}
		for len(work) > 0 {
			it := work[len(work)-1]
			work = work[:len(work)-1]
			if len(it.ds) == 0 {
				q := p.fork(it.st)
				q.defers = nil
				ps = append(ps, q)
				continue
			}
			d := it.ds[len(it.ds)-1]
			rest := it.ds[: len(it.ds)-1 : len(it.ds)-1]
			for _, r := range in.callValue(fr, it.st, d.call, d.fn, d.args, d.pos, d.instr, true) {
				if r.panic {
					q := p.fork(r.st)
					q.defers = rest
					exits = append(exits, Exit{kind: exPanic, p: q})
					continue
				}
				work = append(work, item{r.st, rest})
			}
		}
		return ps, exits

	case *ssa.Extract:
		t := in.get(fr, p, x.Tuple)
		if tv, ok := t.(VTuple); ok && x.Index < len(tv.v) {
			return set(x, tv.v[x.Index]), nil
		}
		return set(x, in.freshVal(st, x.Type(), "extract")), nil

	case *ssa.Field:
		v := in.get(fr, p, x.X)
		if sv, ok := v.(VStruct); ok {
			return set(x, sv.f[x.Field]), nil
		}
		return set(x, in.freshVal(st, x.Type(), "field")), nil

	case *ssa.FieldAddr:
		v := in.get(fr, p, x.X)
		switch pv := v.(type) {
		case VPtr:
			q, ex := in.check(fr, p, eq(pv.nil_, zeroL), x.Pos(), "nil pointer dereference")
			if ex != nil {
				exits = append(exits, *ex)
			}
			if q == nil {
				return nil, exits
			}
			p = q
			p.env[x] = VPtr{obj: pv.obj, path: pv.path + "." + strconv.Itoa(x.Field), nil_: zeroL}
			return []*Path{p}, exits
		case VElem:
			if i, ok := pv.idx.constVal(); ok {
				return set(x, VPtr{obj: pv.arr, path: fmt.Sprintf("[%d].%d", i, x.Field), nil_: zeroL}), nil
			}
		}
		el := x.Type().(*types.Pointer).Elem()
		o := in.lazyObj(kCells, el, fmt.Sprintf("fld#%d", freshSym("f", 0, 1).id))
		return set(x, VPtr{obj: o, nil_: zeroL}), nil

	case *ssa.Index:
		v := in.get(fr, p, x.X)
		i := in.get(fr, p, x.Index)
		if sv, ok := v.(VStr); ok {
			return in.strIndex(fr, p, x, sv, i.(VInt).l)
		}
		if av, ok := v.(VOpaque); ok && av.arr != nil {
			il := i.(VInt).l
			q, ex := in.check(fr, p, ge(il, zeroL), x.Pos(), "index out of range")
			if ex != nil {
				exits = append(exits, *ex)
			}
			if q == nil {
				return nil, exits
			}
			q, ex = in.check(fr, q, lt(il, con(x.X.Type().Underlying().(*types.Array).Len())), x.Pos(), "index out of range")
			if ex != nil {
				exits = append(exits, *ex)
			}
			if q == nil {
				return nil, exits
			}
			if w, sg, ok := intInfo(x.Type()); ok && av.arr.c != nil && !sg {
				var r []*Path
				as := q.st.read(av.arr.c, il, w)
				for _, a := range as {
					t := q
					if len(as) > 1 {
						t = q.fork(a.st)
					} else {
						q.st = a.st
					}
					t.env[x] = VInt{a.val}
					r = append(r, t)
				}
				return r, exits
			}
			if k, ok := il.constVal(); ok {
				if c, ok := av.arr.cells[fmt.Sprintf("[%d]", k)]; ok {
					return set2(q, x, c), exits
				}
				if av.arr.zero {
					return set2(q, x, zeroValue(x.Type())), exits
				}
			}
			return set2(q, x, in.freshVal(q.st, x.Type(), "index")), exits
		}
		return set(x, in.freshVal(st, x.Type(), "index")), nil

	case *ssa.IndexAddr:
		v := in.get(fr, p, x.X)
		il := in.get(fr, p, x.Index).(VInt).l
		switch sv := v.(type) {
		case VSlice:
			q, ex := in.check(fr, p, ge(il, zeroL), x.Pos(), "index out of range")
			if ex != nil {
				exits = append(exits, *ex)
			}
			if q == nil {
				return nil, exits
			}
			q, ex = in.check(fr, q, lt(il, sv.len), x.Pos(), "index out of range")
			if ex != nil {
				exits = append(exits, *ex)
			}
			if q == nil {
				return nil, exits
			}
			q.env[x] = VElem{sv.arr, sv.off.add(il)}
			return []*Path{q}, exits
		case VPtr:
			o := st.obj(sv.obj)
			q, ex := in.check(fr, p, ge(il, zeroL), x.Pos(), "index out of range")
			if ex != nil {
				exits = append(exits, *ex)
			}
			if q == nil {
				return nil, exits
			}
			q, ex = in.check(fr, q, lt(il, o.n), x.Pos(), "index out of range")
			if ex != nil {
				exits = append(exits, *ex)
			}
			if q == nil {
				return nil, exits
			}
			q.env[x] = VElem{sv.obj, il}
			return []*Path{q}, exits
		}
		return set(x, VOpaque{id: "elem"}), nil

	case *ssa.Lookup:
		return in.lookup(fr, p, x)

	case *ssa.MakeChan:
		o := st.newObj(kChan, x.Type(), "chan")
		o.site = x.Pos()
		return set(x, VRef{o.id, zeroL}), nil

	case *ssa.MakeClosure:
		f := VFunc{fn: x.Fn.(*ssa.Function), nil_: zeroL}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, in.get(fr, p, b))
		}
		return set(x, f), nil

	case *ssa.MakeInterface:
		return set(x, VIface{typ: x.X.Type(), val: in.get(fr, p, x.X), nil_: zeroL}), nil

	case *ssa.MakeMap:
		o := st.newObj(kMap, x.Type(), "map")
		o.site = x.Pos()
		return set(x, VRef{o.id, zeroL}), nil

	case *ssa.MakeSlice:
		ln := in.get(fr, p, x.Len).(VInt).l
		cp := in.get(fr, p, x.Cap).(VInt).l
		q, ex := in.check(fr, p, ge(ln, zeroL), x.Pos(), "makeslice: len out of range")
		if ex != nil {
			exits = append(exits, *ex)
		}
		if q == nil {
			return nil, exits
		}
		q, ex = in.check(fr, q, ge(cp, ln), x.Pos(), "makeslice: cap out of range")
		if ex != nil {
			exits = append(exits, *ex)
		}
		if q == nil {
			return nil, exits
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		o := q.st.newObj(kArray, el, "make")
		o.n = cp
		o.site = x.Pos()
		if _, _, ok := intInfo(el); ok {
			o.c = zeroContent
		}
		q.env[x] = VSlice{arr: o.id, len: ln, cap: cp}
		return []*Path{q}, exits

	case *ssa.MapUpdate:
		m := in.get(fr, p, x.Map)
		k := in.get(fr, p, x.Key)
		v := in.get(fr, p, x.Value)
		if r, ok := m.(VRef); ok && r.obj >= 0 {
			o := st.mut(r.obj)
			in.access(fr, st, o, "[map]", true, x)
			if kv, ok := k.(VInt); ok {
				var es []mapEntry
				exact := true
				for _, e := range o.mapv {
					if e.key.eq(kv.l) {
						continue
					}
					if !st.entails(ne(e.key, kv.l)) {
						exact = false
					}
					es = append(es, e)
				}
				if !exact {
					// the written key may be one of the known ones: keep as an update in front
				}
				o.mapv = append([]mapEntry{{kv.l, v}}, es...)
			} else {
				o.open = true
			}
		}
		in.event(fr, st, &Event{kind: "mapupdate", pos: x.Pos(), vals: []Value{m, k, v}})
		return []*Path{p}, nil

	case *ssa.Range:
		return set(x, VTuple{[]Value{in.get(fr, p, x.X)}}), nil

	case *ssa.Next:
		tt := x.Type().(*types.Tuple)
		r := VTuple{}
		for i := 0; i < tt.Len(); i++ {
			r.v = append(r.v, in.freshNext(st, tt.At(i).Type()))
		}
		if src, ok := in.get(fr, p, x.Iter).(VTuple); ok && len(src.v) == 1 {
			if rf, ok := src.v[0].(VRef); ok && rf.obj >= 0 {
				in.access(fr, st, st.obj(rf.obj), "[map]", false, x)
			}
		}
		return set(x, r), nil

	case *ssa.Select:
		return in.selectInstr(fr, p, x)

	case *ssa.Send:
		c := in.get(fr, p, x.Chan)
		in.event(fr, st, &Event{kind: "send", name: chanName(c), pos: x.Pos(), vals: []Value{c, in.get(fr, p, x.X)}})
		return []*Path{p}, nil

	case *ssa.Slice:
		return in.sliceInstr(fr, p, x)

	case *ssa.SliceToArrayPointer:
		return set(x, in.freshVal(st, x.Type(), "arrptr")), nil

	case *ssa.Store:
		return in.storeInstr(fr, p, x)

	case *ssa.TypeAssert:
		return in.typeAssert(fr, p, x)
	}
	panic(abortErr{fmt.Sprintf("unsupported instruction %T in %s", ins, fr.chain())})
}

func (in *Interp) freshNext(st *State, t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VOpaque{id: "invalid"}
	}
	return in.freshVal(st, t, "next")
}

func chanName(v Value) string {
	if r, ok := v.(VRef); ok {
		return fmt.Sprintf("chan%d", r.obj)
	}
	return "?"
}

func (in *Interp) event(fr *Frame, st *State, e *Event) *Event {
	e.fr = fr
	if fr != nil {
		e.fn = fr.fn
		e.chain = fr.chain()
	}
	st.addEvent(e)
	if in.onEvent != nil {
		in.onEvent(fr, st, e)
	}
	return e
}

func intAlts(as []linAlt) []valAlt {
	var r []valAlt
	for _, a := range as {
		r = append(r, valAlt{a.st, VInt{a.l}})
	}
	return r
}

func (in *Interp) loadInstr(fr *Frame, p *Path, x *ssa.UnOp, v Value) ([]*Path, []Exit) {
	st := p.st
	switch pv := v.(type) {
	case VPtr:
		q, ex := in.check(fr, p, eq(pv.nil_, zeroL), x.Pos(), "nil pointer dereference")
		var exits []Exit
		if ex != nil {
			exits = append(exits, *ex)
		}
		if q == nil {
			return nil, exits
		}
		o := q.st.obj(pv.obj)
		in.access(fr, q.st, o, pv.path, false, x)
		q.env[x] = q.st.load(pv, x.Type())
		return []*Path{q}, exits
	case VElem:
		o := st.obj(pv.arr)
		in.access(fr, st, o, "[]", false, x)
		if w, sg, ok := intInfo(x.Type()); ok && o.c != nil && !sg {
			var r []*Path
			as := st.read(o.c, pv.idx, w)
			for _, a := range as {
				q := p
				if len(as) > 1 {
					q = p.fork(a.st)
				} else {
					p.st = a.st
				}
				q.env[x] = VInt{a.val}
				r = append(r, q)
			}
			return r, nil
		}
		if i, ok := pv.idx.constVal(); ok {
			if c, ok := o.cells[fmt.Sprintf("[%d]", i)]; ok {
				p.env[x] = c
				return []*Path{p}, nil
			}
			if o.zero {
				p.env[x] = zeroValue(x.Type())
				return []*Path{p}, nil
			}
			v := in.unknown(st, x.Type(), fmt.Sprintf("%s~%d[%d]", o.name, o.gen, i))
			st.mut(o.id).cells[fmt.Sprintf("[%d]", i)] = v
			p.env[x] = v
			return []*Path{p}, nil
		}
		p.env[x] = in.unknown(st, x.Type(), fmt.Sprintf("%s~%d[%s]", o.name, o.gen, pv.idx.key()))
		return []*Path{p}, nil
	}
	p.env[x] = in.freshVal(st, x.Type(), "load")
	return []*Path{p}, nil
}

func (in *Interp) storeInstr(fr *Frame, p *Path, x *ssa.Store) ([]*Path, []Exit) {
	st := p.st
	v := in.get(fr, p, x.Val)
	switch a := in.get(fr, p, x.Addr).(type) {
	case VPtr:
		q, ex := in.check(fr, p, eq(a.nil_, zeroL), x.Pos(), "nil pointer dereference")
		var exits []Exit
		if ex != nil {
			exits = append(exits, *ex)
		}
		if q == nil {
			return nil, exits
		}
		o := q.st.obj(a.obj)
		in.access(fr, q.st, o, a.path, true, x)
		if o.kind == kArray && a.path == "" {
			// whole-array assignment
			m := q.st.mut(a.obj)
			if av, ok := v.(VOpaque); ok && av.arr != nil && (av.arr.c != nil) == (m.c != nil) {
				c := arrayOf(av.arr)
				m.c, m.cells, m.zero = c.c, c.cells, c.zero
				if !c.zero {
					m.gen++
				}
				return []*Path{q}, exits
			}
			if m.c != nil {
				if _, isZero := v.(VOpaque); isZero {
					if c, ok := x.Val.(*ssa.Const); ok && c.Value == nil {
						m.c = zeroContent
					} else {
						m.c = baseContent(newBase(fmt.Sprintf("arr#%d", nBases), 0, 255, 8))
					}
				}
			}
			m.cells = map[string]Value{}
			return []*Path{q}, exits
		}
		in.event(fr, q.st, &Event{kind: "store", name: fieldName(o.typ, a.path), pos: x.Pos(), vals: []Value{a, v}})
		q.st.store(a, x.Val.Type(), v)
		return []*Path{q}, exits
	case VElem:
		o := st.mut(a.arr)
		in.access(fr, st, o, "[]", true, x)
		if iv, ok := v.(VInt); ok && o.c != nil {
			if e := bitStore(st, o.c, a.idx, iv.l); e != nil {
				e.where = x.Pos()
				o.c = o.c.push(e)
				return []*Path{p}, nil
			}
			o.c = o.c.push(&Content{kind: cWrite, dst: a.idx, n: oneL, val: iv.l, where: x.Pos()})
			return []*Path{p}, nil
		}
		if i, ok := a.idx.constVal(); ok {
			o.cells[fmt.Sprintf("[%d]", i)] = v
			return []*Path{p}, nil
		}
		o.gen++
		o.zero = false
		o.cells = map[string]Value{}
		return []*Path{p}, nil
	}
	return []*Path{p}, nil
}

func (in *Interp) strIndex(fr *Frame, p *Path, x ssa.Value, sv VStr, il Lin) ([]*Path, []Exit) {
	var exits []Exit
	q, ex := in.check(fr, p, ge(il, zeroL), x.Pos(), "index out of range")
	if ex != nil {
		exits = append(exits, *ex)
	}
	if q == nil {
		return nil, exits
	}
	q, ex = in.check(fr, q, lt(il, sv.ln), x.Pos(), "index out of range")
	if ex != nil {
		exits = append(exits, *ex)
	}
	if q == nil {
		return nil, exits
	}
	if sv.snap == nil {
		q.env[x] = in.freshVal(q.st, types.Typ[types.Uint8], "strbyte")
		return []*Path{q}, exits
	}
	as := q.st.read(sv.snap.c, sv.snap.off.add(il), 8)
	var r []*Path
	for _, a := range as {
		n := q.fork(a.st)
		n.env[x] = VInt{a.val}
		r = append(r, n)
	}
	return r, exits
}

func (in *Interp) lookup(fr *Frame, p *Path, x *ssa.Lookup) ([]*Path, []Exit) {
	st := p.st
	m := in.get(fr, p, x.X)
	k := in.get(fr, p, x.Index)
	if sv, ok := m.(VStr); ok {
		return in.strIndex(fr, p, x, sv, k.(VInt).l)
	}
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	mk := func(s *State, v Value, ok Atom) *Path {
		q := p.fork(s)
		if x.CommaOk {
			q.env[x] = VTuple{[]Value{v, VBool{ok}}}
		} else {
			q.env[x] = v
		}
		return q
	}
	r, ok := m.(VRef)
	if !ok || !isMap || r.obj < 0 {
		if !isMap {
			p.env[x] = in.freshVal(st, x.Type(), "lookup")
			return []*Path{p}, nil
		}
		return []*Path{mk(st, zeroValue(mt.Elem()), aFalse)}, nil
	}
	o := st.obj(r.obj)
	in.access(fr, st, o, "[map]", false, x)
	mk0 := mk
	mk = func(s *State, v Value, ok Atom) *Path {
		found := VInt{zeroL}
		if ok.op == opT {
			found = VInt{oneL}
		}
		in.event(fr, s, &Event{kind: "maplookup", pos: x.Pos(), vals: []Value{m, k, found, v}})
		return mk0(s, v, ok)
	}
	kv, isInt := k.(VInt)
	if !isInt {
		v := in.freshVal(st, mt.Elem(), "mapval")
		return []*Path{mk(st.clone(), v, aTrue), mk(st, zeroValue(mt.Elem()), aFalse)}, nil
	}
	var out []*Path
	cur := st
	for _, e := range o.mapv {
		if cur == nil {
			break
		}
		y, n := cur.fork(eq(kv.l, e.key))
		if y != nil {
			out = append(out, mk(y, e.val, aTrue))
		}
		cur = n
	}
	if cur != nil {
		if o.open {
			nm := o.name + "[" + kv.l.key() + "]"
			y, n := cur.fork(norm(Atom{opGE, symL(namedSym("has:"+nm, 0, 1)).addc(-1)}))
			if y != nil {
				v := in.unknown(y, mt.Elem(), nm)
				out = append(out, mk(y, v, aTrue))
			}
			cur = n
		}
		if cur != nil {
			out = append(out, mk(cur, zeroValue(mt.Elem()), aFalse))
		}
	}
	return out, nil
}

func (in *Interp) selectInstr(fr *Frame, p *Path, x *ssa.Select) ([]*Path, []Exit) {
	var out []*Path
	tt := x.Type().(*types.Tuple)
	n := len(x.States)
	mk := func(idx int) {
		st := p.st.clone()
		q := p.fork(st)
		var chosen Value
		var names []Value
		for _, s := range x.States {
			names = append(names, in.get(fr, p, s.Chan))
		}
		if idx >= 0 {
			chosen = names[idx]
		}
		in.event(fr, st, &Event{kind: "select", name: strconv.Itoa(idx), blocks: x.Blocking, pos: x.Pos(), vals: append([]Value{chosen}, names...)})
		r := VTuple{[]Value{VInt{con(int64(idx))}, VBool{norm(Atom{opGE, symL(freshSym("recvok", 0, 1)).addc(-1)})}}}
		for i := 2; i < tt.Len(); i++ {
			r.v = append(r.v, in.freshVal(st, tt.At(i).Type(), "selrecv"))
		}
		q.env[x] = r
		out = append(out, q)
	}
	for i := 0; i < n; i++ {
		mk(i)
	}
	if !x.Blocking {
		mk(-1)
	}
	return out, nil
}

func (in *Interp) sliceInstr(fr *Frame, p *Path, x *ssa.Slice) ([]*Path, []Exit) {
	v := in.get(fr, p, x.X)
	var exits []Exit
	opt := func(e ssa.Value) (Lin, bool) {
		if e == nil {
			return Lin{}, false
		}
		if iv, ok := in.get(fr, p, e).(VInt); ok {
			return iv.l, true
		}
		return Lin{}, false
	}
	lo, hasLo := opt(x.Low)
	hi, hasHi := opt(x.High)
	mx, hasMx := opt(x.Max)
	if !hasLo {
		lo = zeroL
	}
	chk := func(q *Path, a Atom, what string) *Path {
		if q == nil {
			return nil
		}
		q, ex := in.check(fr, q, a, x.Pos(), what)
		if ex != nil {
			exits = append(exits, *ex)
		}
		return q
	}
	switch sv := v.(type) {
	case VStr:
		if !hasHi {
			hi = sv.ln
		}
		q := chk(p, le(hi, sv.ln), "slice bounds out of range")
		q = chk(q, le(lo, hi), "slice bounds out of range")
		q = chk(q, ge(lo, zeroL), "slice bounds out of range")
		if q == nil {
			return nil, exits
		}
		if sv.known {
			if a, ok := lo.constVal(); ok {
				if b, ok := hi.constVal(); ok {
					q.env[x] = strConst(sv.s[a:b])
					return []*Path{q}, exits
				}
			}
		}
		r := VStr{ln: hi.sub(lo), id: fmt.Sprintf("%s[%s:%s]", sv.id, lo.key(), hi.key())}
		if sv.snap != nil {
			r.snap = &Snap{sv.snap.c, sv.snap.off.add(lo), hi.sub(lo)}
		}
		q.env[x] = r
		return []*Path{q}, exits
	case VSlice:
		if !hasHi {
			hi = sv.len
		}
		if !hasMx {
			mx = sv.cap
		}
		q := p
		if hasMx {
			q = chk(q, le(mx, sv.cap), "slice bounds out of range")
			q = chk(q, le(hi, mx), "slice bounds out of range")
		} else if hasHi {
			q = chk(q, le(hi, sv.cap), "slice bounds out of range")
		}
		q = chk(q, le(lo, hi), "slice bounds out of range")
		q = chk(q, ge(lo, zeroL), "slice bounds out of range")
		if q == nil {
			return nil, exits
		}
		q.env[x] = VSlice{arr: sv.arr, off: sv.off.add(lo), len: hi.sub(lo), cap: mx.sub(lo), nil_: sv.nil_}
		return []*Path{q}, exits
	case VPtr: // pointer to array
		q := chk(p, eq(sv.nil_, zeroL), "nil pointer dereference")
		if q == nil {
			return nil, exits
		}
		o := q.st.obj(sv.obj)
		if !hasHi {
			hi = o.n
		}
		if !hasMx {
			mx = o.n
		}
		if hasMx {
			q = chk(q, le(mx, o.n), "slice bounds out of range")
		}
		q = chk(q, le(hi, mx), "slice bounds out of range")
		q = chk(q, le(lo, hi), "slice bounds out of range")
		q = chk(q, ge(lo, zeroL), "slice bounds out of range")
		if q == nil {
			return nil, exits
		}
		q.env[x] = VSlice{arr: sv.obj, off: lo, len: hi.sub(lo), cap: mx.sub(lo)}
		return []*Path{q}, exits
	}
	p.env[x] = in.freshVal(p.st, x.Type(), "slice")
	return []*Path{p}, exits
}

func (in *Interp) typeAssert(fr *Frame, p *Path, x *ssa.TypeAssert) ([]*Path, []Exit) {
	st := p.st
	iv, ok := in.get(fr, p, x.X).(VIface)
	mk := func(s *State, v Value, ok Atom) *Path {
		q := p.fork(s)
		if x.CommaOk {
			q.env[x] = VTuple{[]Value{v, VBool{ok}}}
		} else {
			q.env[x] = v
		}
		return q
	}
	fail := func(s *State) ([]*Path, []Exit) {
		if x.CommaOk {
			return []*Path{mk(s, zeroValue(x.AssertedType), aFalse)}, nil
		}
		q := p.fork(s)
		in.raise(fr, q.st, x.Pos(), "type assertion failed")
		if in.quiet == 0 {
			in.stats.obligations++
			in.stats.fsites[in.pos(x.Pos())+" type assertion"] = true
		}
		return nil, []Exit{{kind: exPanic, p: q}}
	}
	if !ok {
		iv = VIface{id: "?assert#" + strconv.Itoa(freshSym("a", 0, 1).id), nil_: symL(freshSym("nil", 0, 1))}
	}
	isIface := types.IsInterface(x.AssertedType)
	var ps []*Path
	var exits []Exit
	nn, nl := st.fork(eq(iv.nil_, zeroL))
	if nl != nil {
		a, b := fail(nl)
		ps, exits = append(ps, a...), append(exits, b...)
	}
	if nn == nil {
		return ps, exits
	}
	if iv.typ != nil {
		var good bool
		var v Value
		if isIface {
			good = types.Implements(iv.typ, x.AssertedType.Underlying().(*types.Interface))
			v = iv
		} else {
			good = types.Identical(iv.typ, x.AssertedType)
			v = iv.val
		}
		if good {
			if in.quiet == 0 && !x.CommaOk {
				in.stats.obligations++
				in.stats.discharged++
			}
			return append(ps, mk(nn, v, aTrue)), exits
		}
		a, b := fail(nn)
		return append(ps, a...), append(exits, b...)
	}
	s := namedSym("is:"+iv.id+":"+x.AssertedType.String(), 0, 1)
	if in.ifaceIs != nil {
		if r, ok := in.ifaceIs(iv, x.AssertedType); ok {
			if r {
				nn.assume(eq(symL(s), oneL))
			} else {
				nn.assume(eq(symL(s), zeroL))
			}
		}
	}
	y, n := nn.fork(ge(symL(s), oneL))
	if y != nil {
		var v Value
		if isIface {
			v = VIface{id: iv.id, nil_: zeroL}
		} else {
			v = in.unknown(y, x.AssertedType, iv.id+".("+x.AssertedType.String()+")")
			if pv, ok := v.(VPtr); ok {
				pv.nil_ = zeroL
				v = pv
			}
		}
		ps = append(ps, mk(y, v, aTrue))
	}
	if n != nil {
		a, b := fail(n)
		ps, exits = append(ps, a...), append(exits, b...)
	}
	return ps, exits
}

func (in *Interp) callParts(fr *Frame, p *Path, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	fn := in.get(fr, p, c.Value)
	for _, a := range c.Args {
		args = append(args, in.get(fr, p, a))
	}
	return fn, args
}

func (in *Interp) callInstr(fr *Frame, p *Path, x *ssa.Call) ([]*Path, []Exit) {
	fn, args := in.callParts(fr, p, x.Common())
	var ps []*Path
	var exits []Exit
	for _, r := range in.callValue(fr, p.st, x.Common(), fn, args, x.Pos(), x, false) {
		q := p.fork(r.st)
		if r.panic {
			exits = append(exits, Exit{kind: exPanic, p: q})
			continue
		}
		switch n := x.Common().Signature().Results().Len(); {
		case n == 0:
		case len(r.rets) == 1 && n == 1:
			q.env[x] = r.rets[0]
		default:
			q.env[x] = VTuple{r.rets}
		}
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && len(r.rets) == 1 {
			_ = b
			q.env[x] = r.rets[0]
		}
		ps = append(ps, q)
	}
	return ps, exits
}

type callInfo struct {
	in       *Interp
	fr       *Frame
	st       *State
	args     []Value
	types    []types.Type
	sig      *types.Signature
	name     string
	pos      token.Pos
	instr    ssa.Instruction
	deferred bool
}

type intrinsic func(c *callInfo) []callResult

func (c *callInfo) ret(vs ...Value) []callResult { return []callResult{{st: c.st, rets: vs}} }

func (c *callInfo) unknownResults(st *State) []Value {
	var vs []Value
	for i := 0; i < c.sig.Results().Len(); i++ {
		vs = append(vs, c.in.freshVal(st, c.sig.Results().At(i).Type(), "ret:"+c.name))
	}
	return vs
}

// callValue performs a call of any kind.
func (in *Interp) callValue(fr *Frame, st *State, c *ssa.CallCommon, fv Value, args []Value, pos token.Pos, instr ssa.Instruction, deferred bool) []callResult {
	ci := &callInfo{in: in, fr: fr, st: st, args: args, sig: c.Signature(), pos: pos, instr: instr, deferred: deferred}
	for _, a := range c.Args {
		ci.types = append(ci.types, a.Type())
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(ci, b.Name())
	}
	if c.IsInvoke() {
		return in.invoke(ci, fv, c.Method, c.Value.Type())
	}
	f, ok := fv.(VFunc)
	if !ok {
		ci.name = "?"
		return []callResult{{st: st, rets: ci.unknownResults(st)}}
	}
	return in.callFunc(ci, f)
}

func (in *Interp) callFunc(ci *callInfo, f VFunc) []callResult {
	if f.fn == nil {
		var out []callResult
		y, n := ci.st.fork(eq(f.nil_, zeroL))
		if n != nil {
			in.raise(ci.fr, n, ci.pos, "call of nil function")
			out = append(out, callResult{st: n, panic: true})
		}
		if y != nil {
			ci.st = y
			in.passed(ci)
			if h, ok := in.override["callback"]; ok {
				ci.name = f.id
				return append(out, h(ci)...)
			}
			ci.name = f.id
			return append(out, in.callback(ci)...)
		}
		return out
	}
	fn := f.fn
	name := fn.String()
	ci.name = name
	if r := fn.Signature.Recv(); r != nil && len(ci.args) > 0 && fn.Synthetic == "" && in.libraryConn(r.Type()) {
		if p, ok := ci.args[0].(VPtr); ok {
			if h, ok := in.intr["invoke net.Conn."+fn.Name()]; ok {
				ci.args = append([]Value{VIface{typ: r.Type(), val: p, nil_: zeroL}}, ci.args[1:]...)
				return h(ci)
			}
			if h, ok := in.intr["invoke "+fn.Name()]; ok {
				ci.args = append([]Value{VIface{typ: r.Type(), val: p, nil_: zeroL}}, ci.args[1:]...)
				return h(ci)
			}
		}
	}
	if len(fn.Blocks) == 0 || !in.isModule(fn) {
		in.passed(ci)
	}
	if h, ok := in.override[name]; ok {
		if r := h(ci); r != nil {
			return r
		}
	}
	if h, ok := in.override[shortFn(fn)]; ok {
		if r := h(ci); r != nil {
			return r
		}
	}
	if h, ok := in.intr[name]; ok {
		return h(ci)
	}
	if len(fn.Blocks) > 0 && in.isModule(fn) {
		return in.callFn(ci.fr, ci.st, fn, ci.args, f.bind, ci.pos, ci.deferred)
	}
	return in.unmodelled(ci)
}

// unmodelled treats an external function conservatively: results unknown, memory reachable
// from slice and pointer arguments unknown afterwards.
func (in *Interp) unmodelled(ci *callInfo) []callResult {
	in.stats.unmodelled[ci.name] = true
	for _, a := range ci.args {
		in.havocArg(ci.st, a)
	}
	in.event(ci.fr, ci.st, &Event{kind: "ext", name: ci.name, pos: ci.pos, vals: ci.args})
	return []callResult{{st: ci.st, rets: ci.unknownResults(ci.st)}}
}

func (in *Interp) havocArg(st *State, a Value) {
	switch v := a.(type) {
	case VSlice:
		if v.arr >= 0 {
			in.havocArr(st, v.arr)
		}
	case VPtr:
		if v.obj >= 0 && !isTrueL(v.nil_) {
			o := st.mut(v.obj)
			if o.kind == kCells {
				for k := range o.cells {
					if v.path == "" || strings.HasPrefix(k, v.path) {
						delete(o.cells, k)
					}
				}
				o.gen++
				o.zero = false
				freshCnt++
				o.name = fmt.Sprintf("%s#%d", o.name, freshCnt)
			} else if o.kind == kArray {
				in.havocArr(st, v.obj)
			}
		}
	}
}

func (in *Interp) havocArr(st *State, id int) {
	o := st.mut(id)
	if o.c != nil {
		w, sg, _ := intInfo(o.typ)
		lo, hi := rangeOf(w, sg)
		freshCnt++
		o.c = baseContent(newBase(fmt.Sprintf("%s#%d", o.name, freshCnt), lo, hi, w))
	} else {
		o.gen++
		o.zero = false
		o.cells = map[string]Value{}
	}
}

// passed reports the memory handed to code outside the module as read by it (the models of
// functions that write report that themselves).
func (in *Interp) passed(ci *callInfo) {
	if in.onAccess == nil || in.quiet > 0 {
		return
	}
	var walk func(v Value, deep int)
	walk = func(v Value, deep int) {
		if iv, ok := v.(VIface); ok {
			if iv.val == nil {
				return
			}
			v = iv.val
		}
		s, ok := v.(VSlice)
		if !ok || s.arr < 0 {
			return
		}
		o := ci.st.obj(s.arr)
		in.access(ci.fr, ci.st, o, "[]", false, ci.instr)
		if deep > 0 && o.cells != nil {
			keys := make([]string, 0, len(o.cells))
			for k := range o.cells {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				walk(o.cells[k], deep-1)
			}
		}
	}
	for _, a := range ci.args {
		walk(a, 1)
	}
}

// callback is a call of user-supplied code.
func (in *Interp) callback(ci *callInfo) []callResult {
	in.event(ci.fr, ci.st, &Event{kind: "callback", name: ci.name, pos: ci.pos, vals: ci.args})
	for _, a := range ci.args {
		if s, ok := a.(VSlice); ok && s.arr >= 0 {
			in.havocArr(ci.st, s.arr)
		}
	}
	return []callResult{{st: ci.st, rets: ci.unknownResults(ci.st)}}
}

// libraryConn: a connection type of the standard library, whose methods are modelled as those
// of the interface.
func (in *Interp) libraryConn(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg() == in.pkg.Pkg {
		return false
	}
	c := 0
	for _, m := range []string{"Read", "Write", "Close", "SetDeadline", "RemoteAddr"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, m); o != nil {
			c++
		}
	}
	return c == 5
}

// invoke calls an interface method.
func (in *Interp) invoke(ci *callInfo, recv Value, m *types.Func, it types.Type) []callResult {
	iv, ok := recv.(VIface)
	ci.name = "invoke " + it.String() + "." + m.Name()
	if !ok {
		return []callResult{{st: ci.st, rets: ci.unknownResults(ci.st)}}
	}
	var out []callResult
	y, n := ci.st.fork(eq(iv.nil_, zeroL))
	if in.quiet == 0 {
		in.stats.obligations++
		in.stats.sites[in.pos(ci.pos)+" nil interface"] = true
	}
	if n != nil {
		in.raise(ci.fr, n, ci.pos, "method call on nil interface")
		out = append(out, callResult{st: n, panic: true})
	} else if in.quiet == 0 {
		in.stats.discharged++
	}
	if y == nil {
		return out
	}
	ci.st = y
	if iv.typ != nil && !in.libraryConn(iv.typ) {
		if fn := in.prog.LookupMethod(iv.typ, m.Pkg(), m.Name()); fn != nil {
			ci.args = append([]Value{iv.val}, ci.args...)
			return append(out, in.callFunc(ci, VFunc{fn: fn, nil_: zeroL})...)
		}
	}
	in.passed(ci)
	ci.args = append([]Value{iv}, ci.args...)
	ci.types = append([]types.Type{it}, ci.types...)
	key := "invoke " + m.Name()
	if h, ok := in.override[ci.name]; ok {
		if r := h(ci); r != nil {
			return append(out, r...)
		}
	}
	if h, ok := in.override[key]; ok {
		if r := h(ci); r != nil {
			return append(out, r...)
		}
	}
	if h, ok := in.intr[ci.name]; ok {
		return append(out, h(ci)...)
	}
	if h, ok := in.intr[key]; ok {
		return append(out, h(ci)...)
	}
	in.stats.unmodelled[ci.name] = true
	in.event(ci.fr, ci.st, &Event{kind: "ext", name: ci.name, pos: ci.pos, vals: ci.args})
	for _, a := range ci.args[1:] {
		in.havocArg(ci.st, a)
	}
	return append(out, callResult{st: ci.st, rets: ci.unknownResults(ci.st)})
}
