package main

// Specifications of the server: S01, S02 and P02.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// answers decides the answer to one request frame.
func answers(c *Ctx) {
	n := 0
	c.frames(func(r *frameRun, st *State, e *Event, before Lin) {
		n++
		nm := "handler ends with " + r.way
		x, why := r.expected(st)
		if x == nil {
			if why == "" {
				why = "a response is written although none is due"
			}
			c.ob("only due responses are written", nm, false, r.in, st, e.pos, e.chain, "%s", why)
			return
		}
		c.ob("only due responses are written", nm, true, r.in, st, e.pos, e.chain, "")
		if !c.ob("written to the session's connection", nm, sameConn(e.vals[0], r.conn), r.in, st, e.pos, e.chain, "the response goes to another connection") {
			return
		}
		if e.snap == nil {
			c.ob("the response is the prescribed one", nm, false, r.in, st, e.pos, e.chain, "what is written is not known")
			return
		}
		ok, why := r.bytesRight(st, x, e.snap, before)
		c.ob("the response is the prescribed one", nm, ok, r.in, st, e.pos, e.chain, "%s", why)
	}, func(r *frameRun) {
		nm := "handler ends with " + r.way
		answered, silent := 0, 0
		for _, x := range r.rs {
			if x.panic {
				c.ob("the request is answered", nm, false, r.in, x.st, x.st.pan.pos, x.st.pan.chain, "panics: %s", x.st.pan.msg)
				continue
			}
			if !ioFailed(x.st) {
				for _, v := range x.rets {
					if iv, ok := v.(VIface); ok && iv.typ == nil || ok && types.Implements(iv.typ, errorType) {
						isNil, _ := nilness(x.st, v)
						c.ob("a request served leaves the session serving", nm, isNil, r.in, x.st, r.fn.Pos(), shortFn(r.fn), "an error is reported to the session, which ends it, although the connection is usable")
					}
				}
			}
			want, why := r.expected(x.st)
			if want == nil && why != "" {
				c.ob("the request is answered", nm, false, r.in, x.st, r.fn.Pos(), shortFn(r.fn), "%s", why)
				continue
			}
			if want == nil {
				silent++
				c.ob("nothing is written where no response is due", nm, x.st.entails(eq(x.st.ghost["tx"], zeroL)), r.in, x.st, r.fn.Pos(), shortFn(r.fn), "something is written")
				if _, none := foundAll(r.unitLookups(x.st)); none {
					c.ob("requests for unknown units change nothing", nm, len(eventsOf(x.st, "callback", "mapstore", "mapdel", "mapupdate", "mapdelete")) == 0, r.in, x.st, r.fn.Pos(), shortFn(r.fn), "a handler is called or the server changed")
				}
				continue
			}
			answered++
			ok := x.st.entails(eq(x.st.ghost["tx"], want.total))
			c.ob("the request is answered", nm, ok || ioFailed(x.st), r.in, x.st, r.fn.Pos(), shortFn(r.fn), "returns after %s of the %s bytes of the response are written", x.st.ghost["tx"], want.total)
		}
		c.ob("outcomes found", nm, answered > 0 && silent > 0, r.in, nil, r.fn.Pos(), "", "%d answered, %d silent paths", answered, silent)
	})
	c.atLeast("the response is the prescribed one", len(handlerEnds))
	c.atLeast("the request is answered", len(handlerEnds))
	if res := c.p.frameFn().Signature.Results(); res.Len() == 1 && types.Identical(res.At(0).Type(), types.Universe.Lookup("error").Type()) {
		c.atLeast("a request served leaves the session serving", len(handlerEnds))
	}
}

var errorType = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// sessionRun is the analysis of the loop that serves a connection.
type sessionRun struct {
	*session
	fn    *ssa.Function
	frame *ssa.Function
	rs    []callResult
}

// sessionLoop analyses the serving of a connection; requests are handed to a stand-in for the
// frame function, which may change the buffer.
func (c *Ctx) sessionLoop(onEvent func(r *sessionRun, st *State, e *Event), setup func(r *sessionRun)) *sessionRun {
	s := c.newSession()
	r := &sessionRun{session: s, fn: c.p.sessionFn(), frame: c.p.frameFn()}
	in, st := s.in, s.st
	in.override[shortFn(r.frame)] = func(ci *callInfo) []callResult {
		var d VSlice
		found := false
		for _, a := range ci.args {
			if s, ok := a.(VSlice); ok {
				d, found = s, true
			}
		}
		if !found {
			stop("a request frame that is not a slice")
		}
		snap := sliceSnap(ci.st, d)
		var out []callResult
		send := func(st *State, rets []Value, err Value) {
			e := &Event{kind: "frame", pos: ci.pos, vals: []Value{d, err}, snap: snap}
			headerFacts(st)
			if sameElems(st); !st.feasible() {
				return
			}
			ci.in.event(ci.fr, st, e)
			nextRequest(st)
			st.mon["after"] = "request"
			if d.arr >= 0 {
				ci.in.havocArr(st, d.arr)
			}
			out = append(out, callResult{st: st, rets: rets})
		}
		res := ci.sig.Results()
		if res.Len() == 1 && types.Identical(res.At(0).Type(), types.Universe.Lookup("error").Type()) {
			send(ci.st.clone(), []Value{nilErr}, nilErr)
			err := ci.newErr("frame")
			send(ci.st.clone(), []Value{err}, err)
		} else {
			send(ci.st, ci.unknownResults(ci.st), nilErr)
		}
		return out
	}
	st.ghost["rx:rx"] = zeroL
	nextRequest(st)
	in.onEvent = func(fr *Frame, st *State, e *Event) {
		if onEvent != nil {
			onEvent(r, st, e)
		}
		if e.kind == "read" {
			n, ok := e.vals[2].(VInt)
			if !ok {
				stop("a read of unknown size")
			}
			headerFacts(st)
			if h := st.mon["header"]; h == "protocol" || h == "short" {
				if sameElems(st); !st.feasible() {
					return
				}
				nextRequest(st)
			}
			delete(st.mon, "after")
			st.ghost["got"] = st.ghost["got"].add(n.l)
		}
	}
	in.atBack = headerSeen
	if setup != nil {
		setup(r)
	}
	r.rs = c.run(in, st, r.fn, s.args(c, st, r.fn, nil))
	return r
}

// nextRequest: the next byte received is the first of a request.
func nextRequest(st *State) {
	st.ghost["got"] = zeroL
	st.ghost["need"] = con(7)
	delete(st.mon, "header")
	delete(st.mon, "after")
}

// headerFacts: what is known once a header was seen complete. The ghost need is the length of
// the request it begins; the header of another protocol, or one whose length field leaves no
// room for a function code, begins no request: its bytes are dropped when reading goes on.
func headerFacts(st *State) {
	h := st.mon["header"]
	if h == "" {
		return
	}
	st.assume(ge(st.ghost["got"], con(7)))
	if h == "protocol" {
		st.assume(ne(headWord(st, 2), zeroL))
		return
	}
	st.assume(eq(st.ghost["need"], headWord(st, 4).addc(6)))
	st.assume(eq(headWord(st, 2), zeroL))
	if h == "short" {
		st.assume(le(headWord(st, 4), oneL))
	} else {
		st.assume(ge(headWord(st, 4), con(2)))
	}
}

// headerSeen notes at the end of an iteration what a header received by then begins.
func headerSeen(_ *generaliser, st *State) []*State {
	got := st.ghost["got"]
	if isZeroLin(got) {
		return []*State{st}
	}
	headerFacts(st)
	sameElems(st)
	if !st.feasible() {
		return nil
	}
	if st.mon["header"] != "" || !st.entails(ge(got, con(7))) {
		return []*State{st}
	}
	var out []*State
	add := func(st *State, is string) {
		if st == nil {
			return
		}
		sameElems(st)
		if !st.feasible() {
			return
		}
		st.mon["header"] = is
		if is != "protocol" {
			st.ghost["need"] = headWord(st, 4).addc(6)
		}
		out = append(out, st)
	}
	mod, other := st.fork(eq(headWord(st, 2), zeroL))
	add(other, "protocol")
	if mod != nil {
		long, short := mod.fork(ge(headWord(st, 4), con(2)))
		add(long, "seen")
		add(short, "short")
	}
	return out
}

// sameElems adds that elements at equal positions as those the header is read from are equal.
func sameElems(st *State) {
	var heads []*Sym
	seen := map[*Sym]bool{}
	for i := int64(2); i < 6; i++ {
		l := headByte(st, i)
		if len(l.t) == 1 && l.t[0].s.kind == 'i' {
			heads = append(heads, l.t[0].s)
			seen[l.t[0].s] = true
		}
	}
	var same []Atom
	for _, a := range st.cond.all() {
		a.l.mentions(func(y *Sym) bool {
			if y.kind != 'i' || seen[y] {
				return false
			}
			seen[y] = true
			for _, x := range heads {
				if y.base == x.base && st.entails(eq(x.off, y.off)) {
					same = append(same, eq(symL(x), symL(y)))
					break
				}
			}
			return false
		})
	}
	for _, a := range same {
		st.assume(a)
	}
}

func isZeroLin(l Lin) bool { v, ok := l.constVal(); return ok && v == 0 }

// headByte is byte i of the bytes received since the last request.
func headByte(st *State, i int64) Lin {
	return inL(rxBase(), rxCount(st).sub(st.ghost["got"]).addc(i))
}

func headWord(st *State, i int64) Lin { return headByte(st, i).scale(256).add(headByte(st, i+1)) }

// droppable: the header received is not one of a request (another protocol, or a length
// field that leaves no room for a function code).
func droppable(st *State) bool {
	return impossible2(st, eq(headWord(st, 2), zeroL), ge(headWord(st, 4), con(2)))
}

// impossible2 is impossible with elements at equal positions identified.
func impossible2(st *State, as ...Atom) bool {
	s := st.clone()
	for _, a := range as {
		s.assume(a)
	}
	if !s.feasible() {
		return true
	}
	s2, _ := congruent(s)
	return s2 != nil && !s2.feasible()
}

// framing decides that the session hands on exactly the request frames of the stream.
func framing(c *Ctx) {
	n := 0
	nm := ""
	r := c.sessionLoop(func(r *sessionRun, st *State, e *Event) {
		if r.in.quiet > 0 || e.kind != "frame" {
			return
		}
		n++
		nm := shortFn(r.fn)
		got := st.ghost["got"]
		L := e.snap.n
		c.ob("a request begins where the last one ended", nm, st.entails(eq(got, L)), r.in, st, e.pos, e.chain, "%s bytes were received since the last request, the frame has %s", got, L)
		c.ob("a request ends where its length field says", nm, provEq(st, L, headWord(st, 4).addc(6)), r.in, st, e.pos, e.chain, "the frame has %s bytes, its length field says %s", L, headWord(st, 4).addc(6))
		c.ob("a request is one of the protocol", nm, impossible2(st, ne(headWord(st, 2), zeroL)), r.in, st, e.pos, e.chain, "a frame whose protocol identifier need not be 0 is served")
		start := rxCount(st).sub(got)
		ok, why := allElems(st, e.snap, zeroL, L, 8, func(st *State, i Lin) []readAlt {
			return []readAlt{{st, inL(rxBase(), start.add(i)), true}}
		})
		c.ob("a request is handed on as received", nm, ok, r.in, st, e.pos, e.chain, "%s", why)
	}, nil)
	nm = shortFn(r.fn)
	c.ob("requests are handed on", nm, n > 0, r.in, nil, r.fn.Pos(), nm, "no request frame is handed on")
	exits := 0
	for _, x := range r.rs {
		if x.panic {
			continue // P02
		}
		exits++
		ok, why := sessionMayEnd(x.st)
		c.ob("a session ends only with its connection", nm, ok, r.in, x.st, r.fn.Pos(), nm, "%s", why)
	}
	c.ob("a session ends only with its connection", nm, exits > 0, r.in, nil, r.fn.Pos(), nm, "the session never ends")
}

// sessionMayEnd: the session ends for a reason: an error of the connection or of the answer,
// the stop signal, or a header that cannot be one of a request.
func sessionMayEnd(st *State) (bool, string) {
	es := st.events()
	for i := len(es) - 1; i >= 0; i-- {
		e := es[i]
		var err Value
		switch e.kind {
		case "select":
			if e.name != "-1" {
				return true, ""
			}
			continue
		case "ctxerr":
			if iv, ok := e.vals[1].(VIface); ok && !st.entails(eq(iv.nil_, oneL)) {
				return true, ""
			}
			continue
		case "read":
			err = e.vals[3]
		case "frame":
			err = e.vals[1]
		case "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
			err = e.vals[2]
		default:
			continue
		}
		iv, ok := err.(VIface)
		if !ok || !st.entails(eq(iv.nil_, oneL)) {
			return true, ""
		}
		if e.kind == "frame" {
			return false, "the session ends after a request was served"
		}
		if e.kind == "read" {
			break
		}
	}
	headerFacts(st)
	if impossible2(st) || droppable(st) || impossible2(st, le(headWord(st, 4), con(254))) {
		return true, ""
	}
	return false, "the session ends although the connection is usable and the request valid"
}

func s01(c *Ctx) {
	answers(c)
	framing(c)
}

// s02: dispatch.
func s02(c *Ctx) {
	c.frames(nil, func(r *frameRun) {
		nm := "handler ends with " + r.way
		calls, refused := 0, 0
		for _, x := range r.rs {
			st := x.st
			for _, e := range r.unitLookups(st) {
				k, ok := ifaceVal(e.vals[1]).(VInt)
				c.ob("the unit looked up is the one addressed", nm, ok && provEq(st, k.l, r.at(6)), r.in, st, e.pos, e.chain, "the unit looked up is %s", valStr(st, ifaceVal(e.vals[1])))
				c.ob("units are looked up by their id", nm, unitKey(e.vals[1]), r.in, st, e.pos, e.chain, "the key of the lookup is not a byte")
			}
			hl := r.handlerLookups(st)
			for _, e := range hl {
				k, ok := e.vals[1].(VInt)
				c.ob("the handler looked up is the one of the function code", nm, ok && provEq(st, k.l, r.at(7)), r.in, st, e.pos, e.chain, "the function code looked up is %s", valStr(st, e.vals[1]))
			}
			cbs := eventsOf(st, "callback")
			for _, e := range cbs {
				calls++
				id := ""
				for _, h := range hl {
					if f, ok := h.vals[3].(VFunc); ok && f.id == e.name {
						id = f.id
					}
				}
				c.ob("the handler called is the one looked up", nm, id != "", r.in, st, e.pos, e.chain, "the function called is not the handler registered for the function code")
				node, ok := e.vals[0].(VPtr)
				same := false
				for _, u := range r.unitLookups(st) {
					if n, isPtr := ifaceVal(u.vals[3]).(VPtr); isPtr && ok && n.obj == node.obj && n.path == node.path {
						same = true
					}
				}
				c.ob("the handler gets the bank of the addressed unit", nm, same, r.in, st, e.pos, e.chain, "the bank handed to the handler is not the one of the unit addressed")
				want := &Snap{r.req.c, r.req.off.addc(8), r.req.n.addc(-8)}
				eqLen := st.entails(eq(e.snap.n, want.n))
				ok, why := allElems(st, e.snap, zeroL, want.n, 8, fromSnap(want, 8))
				c.ob("the handler gets the data of the request", nm, eqLen && ok, r.in, st, e.pos, e.chain, "the handler gets %s bytes of the %s; %s", e.snap.n, want.n, why)
			}
			if x.panic {
				continue
			}
			if all, _ := foundAll(r.unitLookups(st)); all && len(cbs) == 0 {
				_, none := foundAll(hl)
				c.ob("only codes without handler are refused", nm, none, r.in, st, r.fn.Pos(), shortFn(r.fn), "no handler is called although one is registered")
				refused++
			}
			c.ob("at most one handler runs", nm, len(cbs) <= 1, r.in, st, r.fn.Pos(), shortFn(r.fn), "%d handlers are called", len(cbs))
		}
		c.ob("outcomes found", nm, calls > 0 && refused > 0, r.in, nil, r.fn.Pos(), "", "%d handler calls, %d refusals", calls, refused)
	})
	// a code without handler is answered with exception 1
	refusals := 0
	c.frames(func(r *frameRun, st *State, e *Event, before Lin) {
		if r.way != "data" || len(eventsOf(st, "callback")) > 0 {
			return
		}
		if all, _ := foundAll(r.unitLookups(st)); !all {
			return
		}
		x, _ := r.expected(st)
		if x == nil || e.snap == nil {
			c.ob("codes without handler are answered with exception 1", "refusal", false, r.in, st, e.pos, e.chain, "the answer is not known")
			return
		}
		refusals++
		ok, why := r.bytesRight(st, x, e.snap, before)
		c.ob("codes without handler are answered with exception 1", "refusal", ok, r.in, st, e.pos, e.chain, "%s", why)
	}, func(*frameRun) {})
	c.ob("codes without handler are answered with exception 1", "refusal", refusals > 0, nil, nil, 0, "", "no refusal is written")
	defaults(c)
	registering(c)
	unitTable(c)
	sessionTables(c)
	c.atLeast("the handler gets the bank of the addressed unit", len(handlerEnds))
	c.atLeast("the handler gets the data of the request", len(handlerEnds))
}

// sessionTables: a session answers from the tables of its server.
func sessionTables(c *Ctx) {
	common := c.p.typ("serverCommon")
	// the objects a pointer of an object leads to, and the ones it embeds
	tables := func(in *Interp, st *State, p VPtr, typ string) map[string]bool {
		out := map[string]bool{}
		leaves(c.p.typ(typ), "", func(path string, v *types.Var) {
			if namedPtr(v.Type(), common) {
				if q, ok := st.loadPath(st.obj(p.obj), p.path+path, v.Type()).(VPtr); ok {
					out[ptrKey(q)] = true
				}
			}
		})
		if path, ok := embedded(c.p.typ(typ), common); ok {
			out[ptrKey(VPtr{obj: p.obj, path: p.path + path, nil_: zeroL})] = true
		}
		return out
	}
	n := 0
	c.tcpServer(func(in *Interp, st *State, server, sess VPtr, e *Event) {
		n++
		a, b := tables(in, st, server, "TCPServer"), tables(in, st, sess, "ServerSession")
		same := len(a) == 1 && len(b) == 1
		for k := range b {
			same = same && a[k]
		}
		c.ob("a session answers from the tables of its server", "TCPServer", same, in, st, e.pos, e.chain, "the unit and handler tables of the session are not the ones of the server")
	})
	c.ob("a session answers from the tables of its server", "TCPServer", n > 0, nil, nil, 0, "", "no session of a server was found")
}

// unitKey: units are keyed by their id, a byte.
func unitKey(v Value) bool {
	iv, ok := v.(VIface)
	if !ok {
		_, isInt := v.(VInt) // a plain map, typed by the compiler
		return isInt
	}
	return iv.typ != nil && types.Identical(iv.typ, types.Typ[types.Uint8])
}

// defaults decides that each code's handler performs that code's function.
func defaults(c *Ctx) {
	c.handlers(func(r *handlerRun) {
		if !r.known {
			c.ob("default handlers", r.name, false, nil, nil, r.fn.Pos(), r.name, "a code without built-in function has a handler")
			return
		}
		n := 0
		r.outcomes(c, func(st *State, data Value, code string) {
			if code != "" {
				return
			}
			n++
			for _, k := range r.b.kinds {
				if k.name == r.write {
					continue
				}
				ok, _ := r.b.unchanged(st, k, 0)
				c.ob("the handler performs its code's function", r.name, ok, r.in, st, r.fn.Pos(), r.name, "the %s are written", k.name)
			}
			length := r.shape[:0:0]
			for _, cl := range r.shape {
				if len(cl) == 1 && cl[0].op == opEQ && mentionsSym(cl[0].l, r.data.n) {
					length = append(length, cl)
				}
			}
			ok, cl := length.surely(st)
			c.ob("the handler performs its code's function", r.name, ok && len(length) == 1, r.in, st, r.fn.Pos(), r.name, "requests of another form are accepted: %v", cl)
		})
		for _, k := range r.b.kinds {
			acc := r.touched[k.name]
			c.ob("the handler performs its code's function", r.name, acc[true] == (k.name == r.write), r.in, nil, r.fn.Pos(), r.name, "%s are written: %v", k.name, acc[true])
			if k.name == r.read {
				c.ob("the handler performs its code's function", r.name, acc[false], r.in, nil, r.fn.Pos(), r.name, "the %s are not read", k.name)
			} else if k.name != r.write {
				c.ob("the handler performs its code's function", r.name, !acc[false], r.in, nil, r.fn.Pos(), r.name, "the %s are read", k.name)
			}
		}
		c.ob("the handler performs its code's function", r.name, n > 0, r.in, nil, r.fn.Pos(), r.name, "no successful path")
	})
	c.atLeast("the handler performs its code's function", 10)
}

func mentionsSym(l, what Lin) bool {
	for _, t := range what.t {
		if l.mentions(func(s *Sym) bool { return s == t.s }) {
			return true
		}
	}
	return false
}

// registering: RegisterFunctionHandler replaces exactly the entry of its code.
func registering(c *Ctx) {
	s := c.newSession()
	in, st := s.in, s.st
	in.nonNil = defaultNonNil
	fn := c.method("serverCommon", "RegisterFunctionHandler")
	if len(fn.Params) != 3 {
		stop("RegisterFunctionHandler has another signature")
	}
	common := in.unknown(st, fn.Params[0].Type(), "session.common").(VPtr)
	common.nil_ = zeroL
	code := symL(namedSym("code", 0, 255))
	f := in.unknown(st, fn.Params[2].Type(), "newhandler").(VFunc)
	nm := "RegisterFunctionHandler"
	for _, x := range c.noPanics("registering returns", nm, in, c.run(in, st, fn, []Value{common, VInt{code}, f})) {
		ups := eventsOf(x.st, "mapupdate", "mapdelete", "mapstore", "mapdel")
		isNil, notNil := nilness(x.st, f)
		if !notNil && len(ups) > 0 {
			c.ob("no nil handler is registered", nm, false, in, x.st, ups[0].pos, ups[0].chain, "a nil handler may be stored")
			continue
		}
		c.ob("no nil handler is registered", nm, true, in, x.st, fn.Pos(), nm, "")
		if isNil {
			continue
		}
		ok, why := len(ups) == 1, fmt.Sprintf("%d changes of the handler table", len(ups))
		if ok {
			e := ups[0]
			ref, isRef := e.vals[0].(VRef)
			k, isInt := e.vals[1].(VInt)
			v, isFn := VFunc{}, false
			if len(e.vals) > 2 {
				v, isFn = e.vals[2].(VFunc)
			}
			ok = e.kind == "mapupdate" && isRef && ref.obj == s.table && isInt && provEq(x.st, k.l, code) && isFn && v.id == f.id
			why = "another entry or another function is stored"
		}
		c.ob("registering replaces exactly the handler of its code", nm, ok, in, x.st, fn.Pos(), nm, "%s", why)
	}
	c.atLeast("registering replaces exactly the handler of its code", 1)
	// nothing else writes the table
	mk := c.fn("newServerCommon")
	for _, g := range c.p.funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				up, ok := ins.(*ssa.MapUpdate)
				if !ok || !isHandlerTable(c, up.Map.Type()) {
					continue
				}
				ok = g == fn || g == mk || c.p.reaches(fn, g) || c.p.reaches(mk, g) || g.Name() == "init"
				c.ob("only registering changes the handler table", shortFn(g), ok, nil, nil, up.Pos(), shortFn(g), "the handler table is changed here")
			}
		}
	}
	for _, g := range []*ssa.Function{c.p.frameFn(), c.p.sessionFn()} {
		bad := g == fn || g == mk || c.p.reaches(g, fn) || c.p.reaches(g, mk)
		c.ob("only registering changes the handler table", shortFn(g), !bad, nil, nil, g.Pos(), shortFn(g), "serving requests changes the handler table")
	}
}

func isHandlerTable(c *Ctx, t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && types.Identical(m.Elem(), c.p.typ("FunctionHandler"))
}

// unitTable: units are stored, found and removed under their own id.
func unitTable(c *Ctx) {
	mk := func() (*Interp, *State, VPtr) {
		s := c.newSession()
		common := s.in.unknown(s.st, types.NewPointer(c.p.typ("serverCommon")), "session.common").(VPtr)
		common.nil_ = zeroL
		return s.in, s.st, common
	}
	idPath, idT, ok := fieldPath(c.p.typ("NodeRegister"), "slaveID")
	if !ok {
		stop("NodeRegister has no field slaveID")
	}
	in, st, common := mk()
	fn := c.method("serverCommon", "AddNodes")
	nodes := in.unknown(st, fn.Params[1].Type(), "nodes").(VSlice)
	in.nonNil = func(t types.Type, name string) bool {
		return namedPtr(t, c.p.typ("NodeRegister")) || defaultNonNil(t, name)
	}
	n := 0
	in.onEvent = func(fr *Frame, st *State, e *Event) {
		if in.quiet > 0 || e.kind != "mapstore" && e.kind != "mapupdate" {
			return
		}
		n++
		p, isPtr := ifaceVal(e.vals[2]).(VPtr)
		k, isInt := ifaceVal(e.vals[1]).(VInt)
		ok := isPtr && isInt && unitKey(e.vals[1])
		if ok {
			id, isId := st.loadPath(st.obj(p.obj), p.path+idPath, idT).(VInt)
			ok = isId && provEq(st, k.l, id.l)
		}
		c.ob("units are stored under their id", "AddNodes", ok, in, st, e.pos, e.chain, "a unit is stored under %s", valStr(st, ifaceVal(e.vals[1])))
		if iv, isI := e.vals[2].(VIface); isI {
			c.ob("units are stored under their id", "AddNodes", iv.typ != nil && namedPtr(iv.typ, c.p.typ("NodeRegister")), in, st, e.pos, e.chain, "what is stored is not a bank")
		}
	}
	c.noPanics("unit table operations return", "AddNodes", in, c.run(in, st, fn, []Value{common, nodes}))
	c.ob("units are stored under their id", "AddNodes", n > 0, in, nil, fn.Pos(), "AddNodes", "nothing is stored")
	// with one unit, it is stored whatever it is
	for _, cnt := range []int{1, 2} {
		in, st, common = mk()
		var vs []Value
		for i := 0; i < cnt; i++ {
			p := in.unknown(st, types.NewPointer(c.p.typ("NodeRegister")), fmt.Sprintf("unit%d", i)).(VPtr)
			p.nil_ = zeroL
			vs = append(vs, p)
		}
		args := sliceOf(st, types.NewPointer(c.p.typ("NodeRegister")), vs...)
		for _, x := range c.noPanics("unit table operations return", "AddNodes", in, c.run(in, st, fn, []Value{common, args})) {
			got, sorted, last := map[int]bool{}, true, -1
			for _, e := range eventsOf(x.st, "mapstore", "mapupdate") {
				if p, ok := ifaceVal(e.vals[2]).(VPtr); ok {
					got[p.obj] = true
					sorted = sorted && p.obj >= last
					last = p.obj
				}
			}
			c.ob("a later unit replaces an earlier one", fmt.Sprintf("AddNodes of %d", cnt), sorted, in, x.st, fn.Pos(), "AddNodes", "units are not stored in the order given")
			c.ob("adding removes nothing", fmt.Sprintf("AddNodes of %d", cnt), len(eventsOf(x.st, "mapdel", "mapdelete", "mapclear")) == 0, in, x.st, fn.Pos(), "AddNodes", "a unit is removed")
			c.ob("every unit is stored", fmt.Sprintf("AddNodes of %d", cnt), len(got) == cnt, in, x.st, fn.Pos(), "AddNodes", "%d of %d units are stored", len(got), cnt)
		}
	}
	id := symL(namedSym("id", 0, 255))
	in, st, common = mk()
	fn = c.method("serverCommon", "DeleteNode")
	for _, x := range c.noPanics("unit table operations return", "DeleteNode", in, c.run(in, st, fn, []Value{common, VInt{id}})) {
		es := eventsOf(x.st, "mapdel", "mapdelete")
		ok := len(es) == 1
		for _, e := range es {
			k, isInt := ifaceVal(e.vals[1]).(VInt)
			ok = ok && isInt && provEq(x.st, k.l, id) && unitKey(e.vals[1])
		}
		c.ob("a unit is removed by its id", "DeleteNode", ok, in, x.st, fn.Pos(), "DeleteNode", "not exactly the unit of the id is removed")
	}
	in, st, common = mk()
	fn = c.method("serverCommon", "GetNode")
	found, missing := 0, 0
	for _, x := range c.noPanics("unit table operations return", "GetNode", in, c.run(in, st, fn, []Value{common, VInt{id}})) {
		es := eventsOf(x.st, "mapload", "maplookup")
		all, none := foundAll(es)
		ok := all || none
		for _, e := range es {
			k, isInt := ifaceVal(e.vals[1]).(VInt)
			ok = ok && isInt && provEq(x.st, k.l, id) && unitKey(e.vals[1])
		}
		isNil, notNil := nilness(x.st, x.rets[1])
		if all {
			found++
			p, isPtr := x.rets[0].(VPtr)
			q, isPtr2 := ifaceVal(es[0].vals[3]).(VPtr)
			ok = ok && isNil && isPtr && isPtr2 && p.obj == q.obj && p.path == q.path
		} else {
			missing++
			ok = ok && notNil
		}
		c.ob("a unit is found by its id", "GetNode", ok, in, x.st, fn.Pos(), "GetNode", "the result is not the unit stored under the id, or no error without one")
	}
	c.ob("a unit is found by its id", "GetNode", found > 0 && missing > 0, in, nil, fn.Pos(), "GetNode", "%d found, %d missing", found, missing)
}

// p02: nothing a peer sends brings the server down.
func p02(c *Ctx) {
	c.frames(nil, func(r *frameRun) {
		nm := "handler ends with " + r.way
		c.noPanics("answering a request never panics", nm, r.in, r.rs)
		for _, x := range r.rs {
			if x.panic || r.way != "panic" || len(eventsOf(x.st, "callback")) == 0 {
				continue
			}
			for _, v := range x.rets {
				isNil, _ := nilness(x.st, v)
				c.ob("a panicking handler leaves the session serving", nm, isNil, r.in, x.st, r.fn.Pos(), shortFn(r.fn), "an error is reported to the session, which ends it")
			}
			ended := eventsOf(x.st, "connclose")
			c.ob("a panicking handler leaves the session serving", nm, len(ended) == 0 || ioFailed(x.st), r.in, x.st, r.fn.Pos(), shortFn(r.fn), "the connection is closed")
		}
	})
	// any bytes, also fewer than a request has
	fn := c.p.frameFn()
	s := c.newSession()
	req, _ := inputSlice(s.in, s.st, tByte, "request", 260)
	s.in.override["callback"] = func(ci *callInfo) []callResult { return callHandler(c, ci, "data") }
	c.noPanics("answering a request never panics", "any bytes", s.in, c.run(s.in, s.st, fn, s.args(c, s.st, fn, req)))
	r := c.sessionLoop(nil, nil)
	c.noPanics("serving a connection never panics", shortFn(r.fn), r.in, r.rs)
	c.handlers(func(r *handlerRun) {
		c.noPanics("built-in handlers do not panic", r.name, r.in, r.rs)
	})
	bitHelpers(c)
	c.atLeast("built-in handlers do not panic", 10)
	c.atLeast("a panicking handler leaves the session serving", 1)
}

func init() {
	register("S01", "The function that answers one request frame (found as the one that calls a FunctionHandler and does not read) is interpreted abstractly on an arbitrary frame, for each way a handler may end, the handler's data aliasing the request included; every write on every path must carry, at an arbitrary index, the prescribed response byte, and every return must follow the complete response, or none where none is due; unless input or output failed, an answered or unaddressed request must not be reported as an error that ends the session. The serving loop is interpreted with the received stream as a symbolic sequence; each frame handed on must be the bytes received since the last one, of the length its field says, and nothing else may be dropped than headers of another protocol or without room for a function code; a session ends only for an error, the stop signal or an invalid header.", s01)
	register("S02", "On every path of the frame function: the unit and handler lookups must use bytes 6 and 7 of the request, the function called must be the one the lookup returned, its arguments the bank the unit lookup returned and bytes 8.. of the request at an arbitrary index; without handler exception 1 is written. The table of a new server maps each code to a function with that code's accesses and request form; registering and the unit table operations are checked by their table updates.", s02)
	register("P02", "The frame function, the serving loop and the built-in handlers are interpreted abstractly on arbitrary bytes, errors and short reads; a path that ends in a panic (index, slice, nil, type assertion, conversion, library precondition) must be infeasible, except below a recover. A panicking handler must leave the frame function with a nil error and the connection open; goroutines started on the way are interpreted too.", p02)
}
