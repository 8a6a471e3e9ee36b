package main

// Setting up the server side for analysis: finding its parts by what they do, and sessions.

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calleesOf are the module functions a function calls or makes closures of.
func (p *Program) calleesOf(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok {
				if g, ok := mc.Fn.(*ssa.Function); ok {
					out = append(out, g)
				}
				continue
			}
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g := ci.Common().StaticCallee(); g != nil && g.Pkg == p.pkg {
				out = append(out, g)
			}
		}
	}
	return out
}

// does: the function or one it calls has an instruction of the kind.
func (p *Program) does(f *ssa.Function, is func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if is(ins) {
					return true
				}
			}
		}
		for _, g := range p.calleesOf(f) {
			if rec(g) {
				return true
			}
		}
		return false
	}
	return rec(f)
}

// reaches: f calls g, possibly through others.
func (p *Program) reaches(f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, h := range p.calleesOf(f) {
			if h == g || rec(h) {
				return true
			}
		}
		return false
	}
	return rec(f)
}

func (p *Program) isHandlerCall(ins ssa.Instruction) bool {
	ci, ok := ins.(ssa.CallInstruction)
	if !ok || ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil {
		return false
	}
	sg, ok := p.typ("FunctionHandler").Underlying().(*types.Signature)
	return ok && types.Identical(ci.Common().Value.Type().Underlying(), sg)
}

func isReadCall(ins ssa.Instruction) bool {
	ci, ok := ins.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if ci.Common().IsInvoke() {
		return ci.Common().Method.Name() == "Read" && isConnType(ci.Common().Value.Type())
	}
	g := ci.Common().StaticCallee()
	if g == nil || g.Pkg == nil {
		return false
	}
	pp := g.Pkg.Pkg.Path()
	return (pp == "io" || pp == "bufio") && (strings.HasPrefix(g.Name(), "Read") || strings.HasPrefix(g.Name(), "Copy") || g.Name() == "NewReader")
}

// topOf keeps the functions that no other of them calls.
func (p *Program) topOf(fs []*ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range fs {
		called := false
		for _, g := range fs {
			if g != f && p.reaches(g, f) {
				called = true
			}
		}
		if !called {
			out = append(out, f)
		}
	}
	return out
}

func (p *Program) serverFuncs(keep func(*ssa.Function) bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.funcs {
		if f.Synthetic == "" && f.Parent() == nil && keep(f) {
			out = append(out, f)
		}
	}
	return out
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	w, sg, ok := intInfo(s.Elem())
	return ok && w == 8 && !sg
}

func namedPtr(t types.Type, n types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && types.Identical(p.Elem(), n)
}

// frameFn is the function that takes one request frame, calls the handler and answers.
func (p *Program) frameFn() *ssa.Function {
	fs := p.topOf(p.serverFuncs(func(f *ssa.Function) bool {
		return p.does(f, p.isHandlerCall) && !p.does(f, isReadCall)
	}))
	if len(fs) != 1 {
		stop("%d functions answer a request frame", len(fs))
	}
	n := 0
	for _, prm := range fs[0].Params {
		if isByteSlice(prm.Type()) {
			n++
		}
	}
	if n != 1 {
		stop("%s does not take one request frame", shortFn(fs[0]))
	}
	return fs[0]
}

// sessionFn is the function that serves one connection.
func (p *Program) sessionFn() *ssa.Function {
	st := p.typ("ServerSession")
	fs := p.topOf(p.serverFuncs(func(f *ssa.Function) bool {
		ok := false
		for _, prm := range f.Params {
			ok = ok || namedPtr(prm.Type(), st)
		}
		return ok && p.does(f, p.isHandlerCall) && p.does(f, isReadCall)
	}))
	if len(fs) != 1 {
		stop("%d functions serve a connection", len(fs))
	}
	return fs[0]
}

// session is a server session in an arbitrary condition, with a connection.
type session struct {
	in    *Interp
	st    *State
	ptr   VPtr
	conn  VIface
	table int // object of the handler table
}

// fillSession sets the parts of a session object that every session has.
func (c *Ctx) fillSession(in *Interp, st *State, obj int, path, name string) (VIface, int) {
	t := c.p.typ("ServerSession")
	conn := VIface{id: "conn", nil_: zeroL}
	n, table := 0, -1
	leaves(t, path, func(p string, v *types.Var) {
		switch {
		case isConnType(v.Type()):
			st.mut(obj).cells[p] = conn
			n++
		case namedPtr(v.Type(), c.p.typ("serverCommon")):
			pv := in.unknown(st, v.Type(), name+".common").(VPtr)
			pv.nil_ = zeroL
			st.mut(obj).cells[p] = pv
			hp, ht := handlerField(c)
			if ref, ok := st.loadPath(st.obj(pv.obj), hp, ht).(VRef); ok {
				table = ref.obj
			}
		default:
			switch v.Type().Underlying().(type) {
			case *types.Pointer:
				pv := in.unknown(st, v.Type(), name+"."+v.Name()).(VPtr)
				pv.nil_ = zeroL
				st.mut(obj).cells[p] = pv
			}
		}
	})
	if n != 1 || table < 0 {
		stop("a session has %d connections", n)
	}
	return conn, table
}

func (c *Ctx) newSession() *session {
	in, st := c.interp()
	quietLogs(c, in)
	in.nonNil = func(t types.Type, name string) bool {
		if _, ok := t.Underlying().(*types.Signature); ok {
			return true
		}
		return defaultNonNil(t, name)
	}
	id := in.lazyObj(kCells, c.p.typ("ServerSession"), "session")
	s := &session{in: in, st: st, ptr: VPtr{obj: id, nil_: zeroL}}
	s.conn, s.table = c.fillSession(in, st, id, "", "session")
	return s
}

// args makes the arguments of a function of the session: the session itself, the given frame
// and unknown others.
func (s *session) args(c *Ctx, st *State, fn *ssa.Function, frame Value) []Value {
	var out []Value
	for i, prm := range fn.Params {
		switch {
		case namedPtr(prm.Type(), c.p.typ("ServerSession")):
			out = append(out, s.ptr)
		case frame != nil && isByteSlice(prm.Type()):
			out = append(out, frame)
		default:
			v := s.in.unknown(st, prm.Type(), "arg"+strconv.Itoa(i))
			switch x := v.(type) {
			case VIface:
				x.nil_ = zeroL
				v = x
			case VPtr:
				x.nil_ = zeroL
				v = x
			case VFunc:
				x.nil_ = zeroL
				v = x
			}
			out = append(out, v)
		}
	}
	return out
}

// handlerResult ways a handler may end.
var handlerEnds = []string{"data", "part of the request", "exception", "other error", "panic"}

// callHandler models a user-supplied or built-in handler: it may change the data it is given
// and then ends in one of the ways.
func callHandler(c *Ctx, ci *callInfo, way string) []callResult {
	in, st := ci.in, ci.st
	if !isHandlerSig(c, ci.sig) {
		return in.callback(ci)
	}
	d, ok := ci.args[1].(VSlice)
	if !ok {
		stop("a handler is called with data that is not understood")
	}
	in.event(ci.fr, st, &Event{kind: "callback", name: ci.name, pos: ci.pos, vals: ci.args, snap: sliceSnap(st, d)})
	if d.arr >= 0 {
		o := st.mut(d.arr)
		if o.c == nil {
			stop("a handler is called with data that is not understood")
		}
		freshCnt++
		o.c = o.c.push(&Content{kind: cHavoc, dst: d.off, n: d.cap, base: newBase("handled", 0, 255, 8), where: ci.pos})
	}
	res, _ := inputSlice(in, st, tByte, "result", 65533)
	err := Value(nilErr)
	done := func() []callResult {
		in.event(ci.fr, st, &Event{kind: "handled", name: way, pos: ci.pos, vals: []Value{res, err}, snap: sliceSnap(st, res)})
		return []callResult{{st: st, rets: []Value{res, err}}}
	}
	switch way {
	case "data":
	case "part of the request":
		a := symL(freshSym("part", 0, 1<<20))
		n := symL(freshSym("partlen", 0, 65533))
		st.assume(le(a.add(n), d.cap))
		res = VSlice{arr: d.arr, off: d.off.add(a), len: n, cap: d.cap.sub(a), nil_: zeroL}
	case "exception":
		et := c.p.typ("ExceptionError")
		id := in.lazyObj(kCells, et, "exception")
		err = VIface{typ: types.NewPointer(et), val: VPtr{obj: id, nil_: zeroL}, nil_: zeroL}
	case "other error":
		err = VIface{id: "err:handler", nil_: zeroL}
		st.assume(eq(symL(namedSym("is:err:handler:"+types.NewPointer(c.p.typ("ExceptionError")).String(), 0, 1)), zeroL))
	case "panic":
		in.event(ci.fr, st, &Event{kind: "handled", name: way, pos: ci.pos})
		in.raise(ci.fr, st, ci.pos, "handler panics")
		return []callResult{{st: st, panic: true}}
	}
	return done()
}

func isHandlerSig(c *Ctx, sg *types.Signature) bool {
	return sg != nil && types.Identical(sg, c.p.typ("FunctionHandler").Underlying())
}

// frameRun is the analysis of one request frame.
type frameRun struct {
	*session
	way string
	fn  *ssa.Function
	req *Snap // the request frame
	rs  []callResult
	c   *Ctx
}

// frames analyses the frame function for every way a handler may end; onWrite sees every
// write with the number of bytes written before.
func (c *Ctx) frames(onWrite func(r *frameRun, st *State, e *Event, before Lin), f func(r *frameRun)) {
	fn := c.p.frameFn()
	for _, way := range handlerEnds {
		r := &frameRun{session: c.newSession(), way: way, fn: fn, c: c}
		in, st := r.in, r.st
		req, _ := inputSlice(in, st, tByte, "request", 260)
		st.assume(ge(req.len, con(8)))
		r.req = sliceSnap(st, req)
		in.override["callback"] = func(ci *callInfo) []callResult { return callHandler(c, ci, way) }
		st.ghost["tx"] = zeroL
		in.onEvent = func(fr *Frame, st *State, e *Event) {
			if c.onFrame != nil {
				c.onFrame(r, st, e)
			}
			if e.kind != "write" {
				return
			}
			n, ok := e.vals[2].(VInt)
			if !ok {
				stop("a write of unknown size")
			}
			before := st.ghost["tx"]
			st.ghost["tx"] = before.add(n.l)
			if in.quiet == 0 && onWrite != nil {
				onWrite(r, st, e, before)
			}
		}
		r.rs = c.run(in, st, fn, r.args(c, st, fn, req))
		f(r)
	}
}

func (r *frameRun) at(i int64) Lin {
	return readSnap(r.in.newState(), r.req, con(i), 8)[0].val
}

// node: the lookup of the unit on the path; found only if there is exactly one answer.
func (r *frameRun) lookups(st *State, kind func(*Event) bool) []*Event {
	var out []*Event
	for _, e := range eventsOf(st, "mapload", "maplookup") {
		if kind(e) {
			out = append(out, e)
		}
	}
	return out
}

func (r *frameRun) unitLookups(st *State) []*Event {
	return r.lookups(st, func(e *Event) bool { return e.kind == "mapload" || !r.isTable(e) })
}

func (r *frameRun) handlerLookups(st *State) []*Event {
	return r.lookups(st, func(e *Event) bool { return e.kind == "maplookup" && r.isTable(e) })
}

func (r *frameRun) isTable(e *Event) bool {
	ref, ok := e.vals[0].(VRef)
	return ok && ref.obj == r.table
}

func foundAll(es []*Event) (all, none bool) {
	all, none = len(es) > 0, len(es) > 0
	for _, e := range es {
		v := e.vals[2].(VInt)
		all = all && isTrueL(v.l)
		none = none && isFalseL(v.l)
	}
	return
}

// response describes the answer the protocol prescribes on the path.
type response struct {
	total Lin
	fc    Lin // function code byte
	data  *Snap
	code  *Lin // exception code
}

// expected is the answer due on the path, nil if none is due; why says what is wrong.
func (r *frameRun) expected(st *State) (*response, string) {
	units := r.unitLookups(st)
	all, none := foundAll(units)
	if none {
		return nil, ""
	}
	if !all {
		return nil, "the unit is not looked up"
	}
	fc := r.at(7)
	hi, ok := r.in.bitwise(st, token.OR, fc, con(0x80), 8, false)
	if !ok {
		stop("no exception function code")
	}
	one := func(l Lin) *response { return &response{total: con(9), fc: hi, code: &l} }
	done := eventsOf(st, "handled")
	if len(done) == 0 {
		if _, none := foundAll(r.handlerLookups(st)); !none {
			return nil, "no handler is called"
		}
		return one(oneL), ""
	}
	if len(done) > 1 {
		return nil, "the handler is called more than once"
	}
	e := done[0]
	switch e.name {
	case "panic":
		return nil, ""
	case "exception":
		p := e.vals[1].(VIface).val.(VPtr)
		path, t, ok := fieldPath(r.c.p.typ("ExceptionError"), "ExceptionCode")
		if !ok {
			stop("ExceptionError has no ExceptionCode")
		}
		v := st.loadPath(st.obj(p.obj), path, t).(VInt)
		return one(v.l), ""
	case "other error":
		return one(con(4)), ""
	}
	return &response{total: e.snap.n.addc(8), fc: fc, data: e.snap}, ""
}

// header is byte i (0..7) of the answer.
func (r *frameRun) header(x *response, i int64) []Lin {
	n := x.total.addc(-6)
	switch i {
	case 4:
		return []Lin{divL(n, 256)}
	case 5:
		return []Lin{modL(n, 256)}
	case 7:
		return []Lin{x.fc}
	}
	return []Lin{r.at(i)}
}

// bytesRight: the bytes of a write are those of the answer from position before on.
func (r *frameRun) bytesRight(st *State, x *response, b *Snap, before Lin) (bool, string) {
	if !st.entails(le(before.add(b.n), x.total)) {
		return false, "more than one response is written"
	}
	for i := int64(0); i < 8; i++ {
		s := st.clone()
		j := con(i).sub(before)
		s.assume(ge(j, zeroL))
		s.assume(lt(j, b.n))
		if !s.feasible() {
			continue
		}
		for _, a := range readSnap(s, b, j, 8) {
			if want := r.header(x, i)[0]; !sameByte(a.st, a.val, want) {
				return false, "byte " + strconv.FormatInt(i, 10) + " of the response is " + a.val.String() + ", expected " + want.String()
			}
		}
	}
	s := st.clone()
	p := symL(freshSym("i", 8, 1<<20))
	s.assume(ge(p, before))
	s.assume(lt(p, before.add(b.n)))
	if !s.feasible() {
		return true, ""
	}
	for _, a := range readSnap(s, b, p.sub(before), 8) {
		if x.code != nil {
			if !sameByte(a.st, a.val, *x.code) {
				return false, "the exception code is " + a.val.String() + ", expected " + x.code.String()
			}
			continue
		}
		for _, w := range readSnap(a.st.clone(), x.data, p.addc(-8), 8) {
			if !provEq(w.st, a.val, w.val) {
				return false, "byte " + p.String() + " of the response is " + a.val.String() + ", expected " + w.val.String()
			}
		}
	}
	return true, ""
}

// sameByte: equal numerically or bit by bit.
func sameByte(st *State, a, b Lin) bool {
	if provEq(st, a, b) {
		return true
	}
	x, ok1 := linToBV(a, 8)
	y, ok2 := linToBV(b, 8)
	if !ok1 || !ok2 {
		return false
	}
	for i := range x {
		if !polyEq(x[i], y[i]) {
			return false
		}
	}
	return true
}
