package main

// Life of connections and servers: V01, V02, V03, V06 and the server part of V04.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// obFor is ob for the obligations of one property in an analysis that several share.
func (c *Ctx) obFor(id, rule, construct string, ok bool, in *Interp, st *State, pos token.Pos, chain, msg string, a ...interface{}) {
	if c.id != "" && strings.Contains(" "+id+" ", " "+c.id+" ") && (in == nil || in.quiet == 0) {
		c.ob(rule, construct, ok, in, st, pos, chain, msg, a...)
	}
}

// ---- stop signals --------------------------------------------------------------

// chanKey names a channel: "done:<context>" or the object.
func chanKey(st *State, v Value) string {
	r, ok := v.(VRef)
	if !ok {
		return "?"
	}
	n := st.obj(r.obj).name
	if strings.HasPrefix(n, "done:") {
		return n
	}
	return fmt.Sprintf("chan%d", r.obj)
}

// ancestors of a context, itself included, by the derivations on the path.
func ancestors(st *State, id string) map[string]bool {
	out := map[string]bool{id: true}
	es := eventsOf(st, "withcancel")
	for i := len(es) - 1; i >= 0; i-- {
		e := es[i]
		if out[e.name] {
			if p, ok := e.vals[0].(VIface); ok {
				out[p.id] = true
			}
		}
	}
	return out
}

func isContext(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	return ok && hasMethod(it, "Done") && hasMethod(it, "Err") && hasMethod(it, "Deadline")
}

func isSignalChan(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok || ch.Dir() == types.SendOnly {
		return false
	}
	s := structOf(ch.Elem())
	return s != nil && s.NumFields() == 0
}

// signals are the keys of the stop channels among values of the given types.
func signalKey(st *State, t types.Type, v Value) (string, bool) {
	switch {
	case isContext(t):
		if iv, ok := v.(VIface); ok {
			return "done:" + iv.id, true
		}
	case isSignalChan(t):
		return chanKey(st, v), true
	}
	return "", false
}

// stopMon follows the stop signal: mon["poll"] is set while it was seen not given since the
// last blocking operation, mon["stopped"] once it was seen given.
type stopMon struct {
	sigs func(st *State) map[string]bool
}

func (m *stopMon) is(st *State, v Value) bool {
	k := chanKey(st, v)
	sg := m.sigs(st)
	if sg[k] {
		return true
	}
	if strings.HasPrefix(k, "done:") {
		for a := range ancestors(st, k[5:]) {
			if sg["done:"+a] {
				return true
			}
		}
	}
	return false
}

func (m *stopMon) event(st *State, e *Event) {
	switch e.kind {
	case "select":
		any := false
		for _, ch := range e.vals[1:] {
			any = any || m.is(st, ch)
		}
		if !any {
			return
		}
		if e.name != "-1" && m.is(st, e.vals[0]) {
			m.stop(st)
		} else {
			st.mon["poll"] = "1"
		}
	case "recv":
		if m.is(st, e.vals[0]) {
			m.stop(st)
		}
	case "ctxerr":
		iv := e.vals[0].(VIface)
		ok := false
		for a := range ancestors(st, iv.id) {
			ok = ok || m.sigs(st)["done:"+a]
		}
		if ok {
			st.mon["cerr"] = "1"
			st.ghost["ctxerr"] = e.vals[1].(VIface).nil_
		}
	}
}

func (m *stopMon) stop(st *State) {
	if st.mon["stopped"] == "" {
		st.mon["stopped"] = "1"
	}
	delete(st.mon, "poll")
}

// polled: the signal was seen not given since the last blocking operation.
func (m *stopMon) polled(st *State) bool {
	return st.mon["poll"] == "1" || st.mon["cerr"] == "1" && st.entails(eq(st.ghost["ctxerr"], oneL))
}

func (m *stopMon) given(st *State) bool {
	return st.mon["stopped"] != "" || st.mon["cerr"] == "1" && st.entails(eq(st.ghost["ctxerr"], zeroL))
}

// blocked: a blocking operation makes the observation old.
func (m *stopMon) blocked(st *State) {
	delete(st.mon, "poll")
	delete(st.mon, "cerr")
	delete(st.ghost, "ctxerr")
}

// round counts the iterations after the signal; it reports whether there are too many.
func (m *stopMon) round(st *State) bool {
	if st.mon["cerr"] == "1" && st.entails(eq(st.ghost["ctxerr"], zeroL)) {
		m.stop(st)
	}
	s := st.mon["stopped"]
	if s == "" {
		return false
	}
	if len(s) >= 5 {
		return true
	}
	st.mon["stopped"] = s + "1"
	return false
}

// ---- deadlines ------------------------------------------------------------------

const nowSlots = 3

// ioMon follows the deadlines of a connection through loops.
type ioMon struct {
	conn     Value
	rto, wto Lin
	sites    map[token.Pos]bool
	n        int
}

func nowKey(k string, i int) string { return fmt.Sprintf("now%s%d", k, i) }

// now is a time asked for since the last read (k r) or write (k w) plus 1, 0 for none.
func now(st *State, k string, i int) Lin {
	if l, ok := st.ghost[nowKey(k, i)]; ok {
		return l
	}
	return zeroL
}

func (m *ioMon) event(c *Ctx, in *Interp, nm string, st *State, e *Event) {
	switch e.kind {
	case "now":
		n, ok := e.vals[0].(VInt)
		if !ok {
			return
		}
		for _, k := range []string{"r", "w"} {
			for i := nowSlots - 1; i > 0; i-- {
				st.ghost[nowKey(k, i)] = now(st, k, i-1)
			}
			st.ghost[nowKey(k, 0)] = n.l.addc(1)
		}
	case "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
		if !sameConn(e.vals[0], m.conn) {
			return
		}
		err, ok := e.vals[2].(VIface)
		if !ok || !isTrueL(err.nil_) {
			return
		}
		if e.kind != "SetWriteDeadline" {
			st.mon["rd"] = m.right(st, e.vals[1], "r", m.rto)
		}
		if e.kind != "SetReadDeadline" {
			st.mon["wd"] = m.right(st, e.vals[1], "w", m.wto)
		}
	case "read", "write":
		k, nk := "rd", "r"
		if e.kind == "write" {
			k, nk = "wd", "w"
		}
		if in.quiet == 0 {
			m.n++
			m.sites[e.pos] = true
		}
		id := "V04"
		if e.kind == "read" {
			id = "V02 V04"
		}
		c.obFor(id, "operations on the connection of the session", nm+" ("+e.kind+")", sameConn(e.vals[0], m.conn), in, st, e.pos, e.chain, "a %s on something else than the connection of the session", e.kind)
		why := st.mon[k]
		if why == "" {
			why = "no deadline is set since the previous " + e.kind
		}
		c.obFor(id, "deadline set", nm+" ("+e.kind+")", why == "ok", in, st, e.pos, e.chain, "%s", why)
		delete(st.mon, k)
		for i := 0; i < nowSlots; i++ {
			st.ghost[nowKey(nk, i)] = zeroL
		}
	}
}

func (m *ioMon) right(st *State, v Value, fresh string, timeout Lin) string {
	t, ok := v.(VStruct)
	if !ok || len(t.f) < 2 {
		return "the deadline is not known"
	}
	base, ok1 := t.f[0].(VInt)
	ext, ok2 := t.f[1].(VInt)
	if !ok1 || !ok2 {
		return "the deadline is not known"
	}
	if !provEq(st, ext.l, timeout) {
		return "the deadline is not the timeout from now"
	}
	for i := 0; i < nowSlots; i++ {
		if provEq(st, base.l.addc(1), now(st, fresh, i)) {
			return "ok"
		}
	}
	return "the deadline is not computed from the current time"
}

// setterField finds the field of an object that a method sets to its argument.
func (c *Ctx) setterField(typ, method string) fieldAt {
	in, st := c.interp()
	quietLogs(c, in)
	fn := c.method(typ, method)
	id := in.lazyObj(kCells, c.p.typ(typ), "obj")
	if len(fn.Params) != 2 {
		stop("%s.%s has another signature", typ, method)
	}
	v := symL(namedSym("new:"+method, -1<<60, 1<<60))
	var out []fieldAt
	for _, r := range c.run(in, st, fn, []Value{VPtr{obj: id, nil_: zeroL}, VInt{v}}) {
		if r.panic {
			continue
		}
		leaves(c.p.typ(typ), "", func(path string, f *types.Var) {
			if n, ok := r.st.loadPath(r.st.obj(id), path, f.Type()).(VInt); ok && n.l.eq(v) {
				for _, o := range out {
					if o.path == path {
						return
					}
				}
				out = append(out, fieldAt{path, f.Type()})
			}
		})
	}
	if len(out) != 1 {
		stop("%s.%s sets %d fields", typ, method, len(out))
	}
	return out[0]
}

// sessionTimeouts are the fields of a session with its read and write timeout.
func (c *Ctx) sessionTimeouts() (rd, wr fieldAt) {
	in, ok := embedded(c.p.typ("TCPServerSpecial"), c.p.typ("ServerSession"))
	if !ok {
		stop("a reverse-connecting server has no session")
	}
	rd, wr = c.setterField("TCPServerSpecial", "SetReadTimeout"), c.setterField("TCPServerSpecial", "SetWriteTimeout")
	for _, f := range []*fieldAt{&rd, &wr} {
		if !strings.HasPrefix(f.path, in+".") {
			stop("a timeout of the reverse-connecting server is not one of its session")
		}
		f.path = strings.TrimPrefix(f.path, in)
	}
	return rd, wr
}

// ---- sessions --------------------------------------------------------------------

// life is what is known about the function that serves a connection.
type life struct {
	fn     *ssa.Function
	closes bool // closes the connection on every way out
	sites  map[token.Pos]bool
}

// sessionLife analyses the serving of a connection once per check.
func (c *Ctx) sessionLife() *life {
	if c.life != nil {
		return c.life
	}
	l := &life{sites: map[token.Pos]bool{}}
	c.life = l
	rf, wf := c.sessionTimeouts()
	timeout := func(st *State, ptr VPtr, f fieldAt) Lin {
		v, ok := st.loadPath(st.obj(ptr.obj), ptr.path+f.path, f.typ).(VInt)
		if !ok {
			stop("a timeout of a session is not known")
		}
		return v.l
	}
	// the frame function
	if c.id == "V04" {
		m := map[*frameRun]*ioMon{}
		n := 0
		c.onFrame = func(r *frameRun, st *State, e *Event) {
			if m[r] == nil {
				m[r] = &ioMon{conn: r.conn, rto: timeout(r.st, r.ptr, rf), wto: timeout(r.st, r.ptr, wf), sites: l.sites}
			}
			m[r].event(c, r.in, shortFn(r.fn), st, e)
		}
		c.frames(nil, func(r *frameRun) {
			if m[r] != nil {
				n += m[r].n
			}
		})
		c.onFrame = nil
		c.ob("operations found", shortFn(c.p.frameFn()), n > 0, nil, nil, 0, "", "the answer to a request is never written")
	}
	sm := &stopMon{}
	var mon *ioMon
	reads := 0
	nm := ""
	sigs := map[string]bool{}
	sm.sigs = func(*State) map[string]bool { return sigs }
	r := c.sessionLoop(func(r *sessionRun, st *State, e *Event) {
		if c.id == "V04" || c.id == "V02" {
			mon.event(c, r.in, nm, st, e)
		}
		if c.id == "V02" {
			sm.event(st, e)
		}
		switch e.kind {
		case "connclose":
			if sameConn(e.vals[0], r.conn) {
				st.mon["closed"] = "1"
			}
			return
		}
		if c.id == "V01" && e.kind == "read" {
			// a session whose peer has closed the connection must not go on reading
			if r.in.quiet == 0 {
				c.obFor("V01", "a session ends when its connection has ended", nm, st.mon["eof"] == "" && !endSeen(st, st.ev.parent, nil), r.in, st, e.pos, e.chain, "the session reads on although the read before may have reported the end or the failure of the connection")
			}
		}
		if c.id != "V02" {
			return
		}
		switch e.kind {
		case "read":
			if r.in.quiet == 0 {
				reads++
			}
			c.obFor("V02", "the stop signal is checked between reads", nm, st.mon["reads"] == "" || sm.polled(st), r.in, st, e.pos, e.chain, "a second read without a check of the stop signal after the first")
			c.obFor("V02", "nothing is read or answered after the stop signal", nm, !sm.given(st), r.in, st, e.pos, e.chain, "a read although the stop signal was seen")
			sm.blocked(st)
			st.mon["reads"] = "1"
		case "frame":
			c.obFor("V02", "nothing is read or answered after the stop signal", nm, !sm.given(st), r.in, st, e.pos, e.chain, "a request is answered although the stop signal was seen")
		case "send", "sleep":
			c.obFor("V02", "a session blocks only in reads", nm, false, r.in, st, e.pos, e.chain, "the session blocks (%s)", e.kind)
		}
	}, func(r *sessionRun) {
		nm = shortFn(r.fn)
		mon = &ioMon{conn: r.conn, rto: timeout(r.st, r.ptr, rf), wto: timeout(r.st, r.ptr, wf), sites: l.sites}
		// the stop signal: a context or channel handed to the session, or one it has
		args := r.args(c, r.st, r.fn, nil)
		for i, prm := range r.fn.Params {
			if k, ok := signalKey(r.st, prm.Type(), args[i]); ok {
				sigs[k] = true
			}
		}
		leaves(c.p.typ("ServerSession"), "", func(path string, v *types.Var) {
			if k, ok := signalKey(r.st, v.Type(), r.st.loadPath(r.st.obj(r.ptr.obj), r.ptr.path+path, v.Type())); ok {
				sigs[k] = true
			}
		})
		old := r.in.atBack
		r.in.atBack = func(g *generaliser, st *State) []*State {
			if c.id == "V01" && st.mon["eof"] == "" && endSeen(st, st.ev, g.entry.st.ev) {
				st = st.clone()
				st.mon["eof"] = "1"
			}
			if c.id == "V02" && sm.round(st) {
				c.obFor("V02", "a session ends soon after the stop signal", nm, false, r.in, st, r.fn.Pos(), nm, "the session goes on after the stop signal was seen")
			}
			return old(g, st)
		}
	})
	l.fn = r.fn
	c.obFor("V02", "the stop signal reaches the session", nm, len(sigs) > 0, r.in, nil, r.fn.Pos(), nm, "the session has no stop signal")
	c.obFor("V02", "reads found", nm, reads > 0, r.in, nil, r.fn.Pos(), nm, "the session reads nothing")
	c.obFor("V04", "operations found", nm, mon.n > 0, r.in, nil, r.fn.Pos(), nm, "the session reads nothing")
	exits, stopped := 0, 0
	l.closes = true
	for _, x := range r.rs {
		if x.panic {
			continue // P02
		}
		exits++
		if sm.given(x.st) {
			stopped++
		}
		l.closes = l.closes && x.st.mon["closed"] == "1"
	}
	if !l.closes {
		c.notes = append(c.notes, nm+" does not close its connection on every way out; its callers must")
	}
	c.obFor("V02", "a session ends soon after the stop signal", nm, stopped > 0, r.in, nil, r.fn.Pos(), nm, "no path ends because of the stop signal")
	c.obFor("V01", "ways out of a session", nm, exits > 0, r.in, nil, r.fn.Pos(), nm, "the session never ends")
	return l
}

// endSeen: the latest read between two points may have reported the end of the connection.
func endSeen(st *State, n, until *evNode) bool {
	for ; n != nil && n != until; n = n.parent {
		if n.e.kind != "read" {
			continue
		}
		err, ok := n.e.vals[3].(VIface)
		cnt, ok2 := n.e.vals[2].(VInt)
		if !ok || !ok2 || isTrueL(err.nil_) {
			return false
		}
		kinds, same := []Atom{eq(err.nil_, zeroL), eq(cnt.l, zeroL)}, []Atom{}
		seen := map[*Sym]bool{}
		for _, c := range st.cond.all() {
			for _, t := range c.l.t {
				if seen[t.s] || !strings.Contains(t.s.name, err.id) {
					continue
				}
				seen[t.s] = true
				switch a := eq(symL(t.s), zeroL); {
				case strings.HasPrefix(t.s.name, "ifeq:") || strings.HasPrefix(t.s.name, "errors.Is:"):
					same = append(same, a)
				case strings.HasPrefix(t.s.name, "is:") || strings.HasPrefix(t.s.name, "temporary:") || strings.HasPrefix(t.s.name, "timeout:"):
					kinds = append(kinds, a)
				}
			}
		}
		// the end of the input: an error that is no network error
		a, b := err.id, "io.EOF"
		if a > b {
			a, b = b, a
		}
		if withAll(st, append([]Atom{eq(symL(namedSym("ifeq:"+a+":"+b, 0, 1)), oneL)}, kinds...)...) != nil {
			return true
		}
		// an error of none of the kinds the code looks for
		return withAll(st, append(same, kinds...)...) != nil
	}
	return false
}

// serving replaces the session function by an event: session, connection, signal keys.
func (c *Ctx) serving(in *Interp) {
	fn := c.p.sessionFn()
	connPath, connTyp := "", types.Type(nil)
	leaves(c.p.typ("ServerSession"), "", func(path string, v *types.Var) {
		if isConnType(v.Type()) {
			connPath, connTyp = path, v.Type()
		}
	})
	in.override[shortFn(fn)] = func(ci *callInfo) []callResult {
		e := &Event{kind: "serve", pos: ci.pos}
		var sess VPtr
		var names []string
		for i, prm := range fn.Params {
			if namedPtr(prm.Type(), c.p.typ("ServerSession")) {
				sess, _ = ci.args[i].(VPtr)
			}
			if k, ok := signalKey(ci.st, prm.Type(), ci.args[i]); ok {
				names = append(names, k)
			}
		}
		if sess.obj == 0 || connTyp == nil {
			stop("a session that is not understood")
		}
		leaves(c.p.typ("ServerSession"), "", func(path string, v *types.Var) {
			if k, ok := signalKey(ci.st, v.Type(), ci.st.loadPath(ci.st.obj(sess.obj), sess.path+path, v.Type())); ok {
				names = append(names, k)
			}
		})
		for _, k := range names {
			if strings.HasPrefix(k, "done:") {
				for _, a := range sortedKeys(ancestors(ci.st, k[5:])) {
					if a != "background" && "done:"+a != k {
						names = append(names, "done:"+a)
					}
				}
			}
		}
		sort.Strings(names)
		e.name = strings.Join(names, " ")
		e.vals = []Value{sess, ci.st.loadPath(ci.st.obj(sess.obj), sess.path+connPath, connTyp)}
		in.event(ci.fr, ci.st, e)
		return []callResult{{st: ci.st, rets: ci.unknownResults(ci.st)}}
	}
}

// connKey names a connection.
func connKey(st *State, v Value) string {
	if iv, ok := v.(VIface); ok && iv.typ != nil {
		return valueKey(iv.val)
	}
	return valueKey(v)
}

// build constructs an object by its constructor.
func (c *Ctx) build(in *Interp, st *State, ctor string) (*State, VPtr) {
	fn := c.fn(ctor)
	rs := c.run(in, st, fn, nil)
	if len(rs) != 1 || rs[0].panic {
		stop("%s has no single outcome", ctor)
	}
	p, ok := rs[0].rets[0].(VPtr)
	if !ok {
		stop("%s does not return a pointer", ctor)
	}
	rs[0].st.ev = nil
	return rs[0].st, p
}

// nested runs a function as another thread would, seen by no monitor.
func (c *Ctx) nested(in *Interp, st *State, fn *ssa.Function, hook func(fr *Frame, st *State, e *Event), args ...Value) []callResult {
	oe, oi, ob := in.onEvent, in.interfere, in.atBack
	in.onEvent, in.interfere, in.atBack = hook, nil, nil
	defer func() { in.onEvent, in.interfere, in.atBack = oe, oi, ob }()
	s := st.clone()
	s.held = nil
	var out []callResult
	for _, r := range in.callFn(nil, s, fn, args, nil, fn.Pos(), false) {
		if r.st.feasible() {
			out = append(out, r)
		}
	}
	return out
}

// setters runs configuration methods, each of which must have one outcome.
func (c *Ctx) setter(in *Interp, st *State, p VPtr, typ, method string, args ...Value) *State {
	fn := c.method(typ, method)
	rs := c.nested(in, st, fn, nil, append([]Value{p}, args...)...)
	if len(rs) != 1 || rs[0].panic {
		stop("%s.%s has %d outcomes", typ, method, len(rs))
	}
	return rs[0].st
}

// ---- the TCP server -------------------------------------------------------------

// tcpServer is the analysis of ListenAndServe.
type tcpServer struct {
	c        *Ctx
	in       *Interp
	ptr      VPtr
	rto, wto Lin
	life     *life
	lisPath  string
	lisTyp   types.Type
	served   int
	onServe  func(in *Interp, st *State, server, sess VPtr, e *Event)
	names    map[string]bool
	closed   map[string]bool
	fn       *ssa.Function
}

func (c *Ctx) tcpServer(onServe func(in *Interp, st *State, server, sess VPtr, e *Event)) {
	s := &tcpServer{c: c, onServe: onServe, life: &life{fn: c.p.sessionFn(), closes: true}}
	if c.id == "V01" || c.id == "V02" || c.id == "V03" || c.id == "V04" {
		s.life = c.sessionLife()
	}
	in, st := c.interp()
	s.in = in
	quietLogs(c, in)
	c.serving(in)
	in.nonNil = defaultNonNil
	st, s.ptr = c.build(in, st, "NewTCPServer")
	s.rto, s.wto = symL(namedSym("readTimeout", -1<<60, 1<<60)), symL(namedSym("writeTimeout", -1<<60, 1<<60))
	st = c.setter(in, st, s.ptr, "TCPServer", "SetReadTimeout", VInt{s.rto})
	st = c.setter(in, st, s.ptr, "TCPServer", "SetWriteTimeout", VInt{s.wto})
	st.ev = nil
	s.fn = c.method("TCPServer", "ListenAndServe")
	cl := c.method("TCPServer", "Close")
	// closing a server that never ran is harmless
	for _, r := range c.nested(in, st, cl, nil, s.ptr) {
		c.obFor("V03", "closing is harmless before the server runs", "Close", !r.panic, in, r.st, cl.Pos(), "Close", "Close panics")
	}
	in.onEvent = s.event
	in.interfere = s.interfere
	in.atBack = s.atBack
	rs := c.run(in, st, s.fn, []Value{s.ptr, in.unknown(st, types.Typ[types.String], "addr")})
	nm := shortFn(s.fn)
	listened := 0
	for _, r := range rs {
		pos, chain := s.fn.Pos(), nm
		if r.panic {
			pos, chain = r.st.pan.pos, r.st.pan.chain
			c.obFor("V01", "the server does not panic", nm, false, in, r.st, pos, chain, "panics: %s", r.st.pan.msg)
		}
		s.settled(r.st, pos, chain, "the server ends")
		if r.st.mon["lis"] != "" {
			listened++
			c.obFor("V01", "the listener is closed when the server stops", nm, r.st.mon["lis"] == "closed", in, r.st, pos, chain, "the server ends without closing its listener")
		}
	}
	c.obFor("V01", "the listener is closed when the server stops", nm, listened > 0, in, nil, s.fn.Pos(), nm, "no path listens")
	for _, id := range []string{"V01", "V03", "V04"} {
		c.obFor(id, "sessions found", nm, s.served > 0, in, nil, s.fn.Pos(), nm, "no session is started")
	}
}

// settled: the connection accepted last was handed on or closed, and what was counted runs.
func (s *tcpServer) settled(st *State, pos token.Pos, chain, when string) {
	nm := shortFn(s.fn)
	if st.mon["acc"] != "" {
		s.c.obFor("V01 V03", "accepted connections are served or closed", nm, st.mon["acc"] != "open", s.in, st, pos, chain, "%s while an accepted connection is neither served nor closed", when)
	}
	s.c.obFor("V03", "every session counted is started", nm, st.mon["cnt"] == "", s.in, st, pos, chain, "%s while a session is counted that was not started", when)
	for _, k := range []string{"acc", "accid", "cnt", "addlocks"} {
		delete(st.mon, k)
	}
}

func (s *tcpServer) atBack(g *generaliser, st *State) []*State {
	if st.mon["accid"] != g.entry.st.mon["accid"] {
		s.settled(st, g.l.head.Instrs[0].Pos(), g.fr.chain(), "the next round begins")
	}
	return []*State{st}
}

// interfere: Close called by another thread before the operation.
func (s *tcpServer) interfere(ci *callInfo) []*State {
	st := ci.st
	if st.mon["ext"] != "" || st.mon["lis"] != "open" || len(st.held) > 0 {
		return nil
	}
	var out []*State
	s.in.quiet++
	defer func() { s.in.quiet-- }()
	for _, r := range s.c.nested(s.in, st, s.c.method("TCPServer", "Close"), nil, s.ptr) {
		if r.panic {
			continue
		}
		closed := false
		for n := r.st.ev; n != nil && n != st.ev; n = n.parent {
			if n.e.kind == "connclose" && connKey(r.st, n.e.vals[0]) == st.mon["lisid"] {
				closed = true
			}
		}
		if !closed {
			continue
		}
		r.st.ev = st.ev
		r.st.held = st.held
		r.st.mon["ext"] = "closed"
		r.st.mon["lis"] = "closed"
		out = append(out, r.st)
	}
	return out
}

func ptrKey(v Value) string {
	if p, ok := v.(VPtr); ok {
		return fmt.Sprintf("%d%s", p.obj, p.path)
	}
	return "?"
}

func lockKeys(st *State) string {
	var ks []string
	for _, h := range st.held {
		if h.rw == 'w' {
			ks = append(ks, h.key)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (s *tcpServer) event(fr *Frame, st *State, e *Event) {
	c, in, nm := s.c, s.in, shortFn(s.fn)
	switch e.kind {
	case "open":
		err, _ := e.vals[1].(VIface)
		switch e.name {
		case "listen":
			if isTrueL(err.nil_) {
				st.mon["lis"] = "open"
				st.mon["lisid"] = connKey(st, e.vals[0])
			}
		case "accept":
			s.settled(st, e.pos, e.chain, "the next connection is accepted")
			if isTrueL(err.nil_) {
				st.mon["acc"] = "open"
				st.mon["accid"] = connKey(st, e.vals[0])
			}
		}
	case "connclose":
		switch connKey(st, e.vals[0]) {
		case st.mon["lisid"]:
			st.mon["lis"] = "closed"
		case st.mon["accid"]:
			if st.mon["acc"] == "handed" {
				c.obFor("V01", "a connection has one owner", nm, false, in, st, e.pos, e.chain, "a connection is closed that was handed to a session")
			}
			st.mon["acc"] = "closed"
		}
	case "wgadd":
		d, ok := e.vals[1].(VInt)
		n, isC := d.l.constVal()
		c.obFor("V03", "sessions are counted one by one", nm, ok && isC && n == 1 && st.mon["cnt"] == "", in, st, e.pos, e.chain, "the wait group is changed by something else than one for the next session")
		st.mon["cnt"] = "1"
		st.mon["wg"] = ptrKey(e.vals[0])
		st.mon["addlocks"] = lockKeys(st)
		c.obFor("V03", "no session is counted after the server was closed", nm, st.mon["ext"] == "", in, st, e.pos, e.chain, "a session is counted although the server was closed before; Close may already have returned")
	case "wgdone":
		c.obFor("V03", "sessions are counted one by one", nm, st.mon["cnt"] == "1", in, st, e.pos, e.chain, "the wait group is counted down for a session that still runs or was not counted")
		delete(st.mon, "cnt")
	case "serve":
		s.serve(st, e)
		c.obFor("V03", "sessions run in goroutines of their own", nm, false, in, st, e.pos, e.chain, "a connection is served by the accepting goroutine itself, unknown to Close")
		st.mon["acc"] = "closed"
	case "go":
		s.goroutine(fr, st, e)
	}
}

// serve: a session is run, with the connection accepted last.
func (s *tcpServer) serve(st *State, e *Event) {
	c, in, nm := s.c, s.in, shortFn(s.fn)
	c.obFor("V01", "the session gets the accepted connection", nm, st.mon["accid"] != "" && connKey(st, e.vals[1]) == st.mon["accid"], in, st, e.pos, e.chain, "a session is run with another connection than the one accepted")
	if in.quiet > 0 {
		return
	}
	s.served++
	sess := e.vals[0].(VPtr)
	if s.onServe != nil {
		s.onServe(in, st, s.ptr, sess, e)
	}
	rf, wf := c.sessionTimeouts()
	for _, x := range []struct {
		f    fieldAt
		want Lin
		what string
	}{{rf, s.rto, "read"}, {wf, s.wto, "write"}} {
		v, ok := st.loadPath(st.obj(sess.obj), sess.path+x.f.path, x.f.typ).(VInt)
		c.obFor("V04", "sessions have the timeouts of their server", nm+" ("+x.what+")", ok && provEq(st, v.l, x.want), in, st, e.pos, e.chain, "the %s timeout of the session is not the one configured", x.what)
	}
}

// goroutine analyses a goroutine that is started.
func (s *tcpServer) goroutine(fr *Frame, st *State, e *Event) {
	c, in, nm := s.c, s.in, shortFn(s.fn)
	f, ok := e.vals[0].(VFunc)
	if !ok || f.fn == nil {
		stop("a goroutine at %s that is not understood", in.pos(e.pos))
	}
	oe, oi, ob := in.onEvent, in.interfere, in.atBack
	related := false
	sig := ""
	var serveAt *Event
	in.interfere = nil
	in.atBack = func(_ *generaliser, st *State) []*State { return []*State{st} }
	in.onEvent = func(fr *Frame, st *State, e *Event) {
		switch e.kind {
		case "serve":
			related = true
			serveAt = e
			sig = e.name
			s.serve(st, e)
			c.obFor("V01", "a connection has one owner", nm, st.mon["b:end"] == "" && st.mon["b:serve"] == "", in, st, e.pos, e.chain, "a connection is served that was closed or served before")
			st.mon["b:serve"] = "1"
			if s.life.closes {
				st.mon["b:end"] = "1"
			}
		case "connclose":
			if connKey(st, e.vals[0]) == st.mon["accid"] {
				related = true
				st.mon["b:end"] = "1"
			}
		case "wgdone":
			related = true
			c.obFor("V03", "a session is uncounted once, after it has ended", nm, st.mon["b:done"] == "" && st.mon["b:end"] == "1" && ptrKey(e.vals[0]) == st.mon["wg"], in, st, e.pos, e.chain, "the wait group is counted down before the session has ended, twice, or another one is")
			st.mon["b:done"] = "1"
		case "wgadd":
			c.obFor("V03", "every session is counted before it can run", nm, false, in, st, e.pos, e.chain, "the session counts itself when it runs; Close may have returned by then")
		case "store":
		}
	}
	b := e.st.clone()
	b.held = nil
	rs := in.callFn(nil, b, f.fn, e.vals[1:], f.bind, f.fn.Pos(), false)
	in.onEvent, in.interfere, in.atBack = oe, oi, ob
	if !related {
		return
	}
	c.paths += len(rs)
	for _, r := range rs {
		if !r.st.feasible() {
			continue
		}
		pos, chain := f.fn.Pos(), shortFn(f.fn)
		if r.panic {
			c.obFor("V03", "sessions do not panic", nm, false, in, r.st, r.st.pan.pos, r.st.pan.chain, "panics: %s", r.st.pan.msg)
			continue
		}
		c.obFor("V01 V02", "a session closes its connection on every way out", nm, r.st.mon["b:end"] == "1", in, r.st, pos, chain, "a way out of the session's goroutine leaves the connection open")
		c.obFor("V03", "a session is uncounted once, after it has ended", nm, r.st.mon["b:done"] == "1", in, r.st, pos, chain, "a way out of the session's goroutine does not count it down")
	}
	c.obFor("V01", "a connection has one owner", nm, st.mon["acc"] == "open", in, st, e.pos, e.chain, "a connection is handed to a session that was handed on or closed before")
	st.mon["acc"] = "handed"
	c.obFor("V03", "every session is counted before it can run", nm, st.mon["cnt"] == "1", in, st, e.pos, e.chain, "a session is started that was not counted")
	delete(st.mon, "cnt")
	if serveAt != nil {
		c.obFor("V03", "a connection accepted after closing is not served", nm, st.mon["ext"] == "", in, st, e.pos, e.chain, "a connection is served although the server was closed before")
	}
	if in.quiet > 0 {
		return
	}
	for _, name := range capturedVars(f.fn, e) {
		c.obFor("V01", "the session gets the accepted connection", nm, false, in, st, e.pos, e.chain, "the goroutine shares the variable %s, which is changed after it was started", name)
	}
	if st.mon["ext"] == "" && serveAt != nil {
		s.closing(e.st, st.mon["addlocks"], st.mon["wg"], sig, serveAt)
	}
}

// capturedVars are variables a goroutine shares with code that may change them after it was
// started.
func capturedVars(fn *ssa.Function, e *Event) []string {
	if e.fn == nil {
		return nil
	}
	var out []string
	for _, b := range e.fn.Blocks {
		for i, ins := range b.Instrs {
			g, ok := ins.(*ssa.Go)
			if !ok || g.Pos() != e.pos {
				continue
			}
			mc, ok := g.Call.Value.(*ssa.MakeClosure)
			if !ok {
				continue
			}
			for _, v := range mc.Bindings {
				al, ok := v.(*ssa.Alloc)
				if !ok {
					continue
				}
				if changedAfter(b, i, al) {
					out = append(out, al.Comment)
				}
			}
		}
	}
	return out
}

// changedAfter: a store to the variable is reachable after the instruction without passing
// the variable's allocation.
func changedAfter(b *ssa.BasicBlock, i int, al *ssa.Alloc) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) bool
	walk = func(b *ssa.BasicBlock, from int) bool {
		for _, ins := range b.Instrs[from:] {
			if ins == ssa.Instruction(al) {
				return false
			}
			if s, ok := ins.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
				return true
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(b, i+1)
}

// closing analyses Close while sessions run.
func (s *tcpServer) closing(at *State, addLocks, wg, sig string, serve *Event) {
	c, in := s.c, s.in
	cl := c.method("TCPServer", "Close")
	nm := shortFn(cl)
	want := map[string]bool{}
	for _, k := range strings.Fields(sig) {
		want[k] = true
		if strings.HasPrefix(k, "done:") {
			for a := range ancestors(at, k[5:]) {
				want["done:"+a] = true
			}
		}
	}
	check := func(st *State, first bool) []*State {
		lis := st.mon["lisid"]
		var out []*State
		n := 0
		hook := func(fr *Frame, st *State, e *Event) {
			switch e.kind {
			case "connclose":
				if connKey(st, e.vals[0]) == lis {
					st.mon["c:lis"] = "1"
					common := false
					for _, k := range strings.Split(lockKeys(st), ",") {
						for _, a := range strings.Split(addLocks, ",") {
							common = common || k != "" && k == a
						}
					}
					c.obFor("V03", "sessions are counted under the lock that closing takes", nm, common, in, st, e.pos, e.chain, "the server is closed and sessions are counted without a common lock; a session may be started that Close does not wait for")
				}
			case "callback":
				if strings.HasPrefix(e.name, "cancel:") && want["done:"+e.name[7:]] {
					st.mon["c:sig"] = "1"
				}
			case "closechan":
				if want[chanKey(st, e.vals[0])] {
					st.mon["c:sig"] = "1"
				}
			case "wgwait":
				if ptrKey(e.vals[0]) == wg {
					c.obFor("V02 V03", "Close signals the sessions before it waits", nm, !first || st.mon["c:sig"] == "1" && st.mon["c:lis"] == "1", in, st, e.pos, e.chain, "Close waits before the listener is closed and the sessions are signalled")
					st.mon["c:wait"] = "1"
				}
			}
		}
		b := st.clone()
		for _, r := range c.nested(in, b, cl, hook, s.ptr) {
			n++
			pos, chain := cl.Pos(), nm
			if r.panic {
				c.obFor("V03", "Close returns", nm, false, in, r.st, r.st.pan.pos, r.st.pan.chain, "panics: %s", r.st.pan.msg)
				continue
			}
			if first {
				c.obFor("V03", "Close closes the listener", nm, r.st.mon["c:lis"] == "1", in, r.st, pos, chain, "a path does not close the listener")
				c.obFor("V02 V03", "Close signals the sessions", nm, r.st.mon["c:sig"] == "1", in, r.st, pos, chain, "a path does not give the stop signal the sessions listen to")
			}
			c.obFor("V03", "Close waits for the sessions", nm, r.st.mon["c:wait"] == "1", in, r.st, pos, chain, "a path returns without waiting for the sessions")
			for _, k := range []string{"c:lis", "c:sig", "c:wait"} {
				delete(r.st.mon, k)
			}
			out = append(out, r.st)
		}
		c.obFor("V03", "Close returns", nm, n > 0, in, st, cl.Pos(), nm, "Close does not return")
		return out
	}
	for _, st := range check(at, true) {
		check(st, false) // a second call while the first waits
	}
}

// serverSessions calls f for every session a TCP server starts.
func (c *Ctx) serverSessions(f func(in *Interp, st *State, server, sess VPtr, e *Event)) {
	c.tcpServer(f)
}

func v01(c *Ctx) {
	c.sessionLife()
	c.tcpServer(nil)
	c.specials()
	c.atLeast("accepted connections are served or closed", 1)
}

func v02(c *Ctx) {
	c.sessionLife()
	c.tcpServer(nil)
	c.specials()
	c.atLeast("the stop signal is checked between reads", 1)
	c.atLeast("the stop signal is checked between connection attempts", 1)
}

func v03(c *Ctx) {
	c.tcpServer(nil)
	c.atLeast("Close waits for the sessions", 1)
	c.atLeast("every session is counted before it can run", 1)
}

// v04 is the client and the server part of V04.
func v04(c *Ctx) {
	sites := c.sessionLife().sites
	c.tcpServer(nil)
	c.specials()
	v04client(c, sites)
	// nothing else reads or writes
	n := 0
	for _, f := range c.p.funcs {
		if !c.reachable(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok || !connOperation(call.Common()) {
					continue
				}
				n++
				c.ob("every read and write is analysed", shortFn(f), sites[i.Pos()], nil, nil, i.Pos(), shortFn(f), "a read or write of a network connection that no analysed operation makes (deadlines unknown)")
			}
		}
	}
	c.ob("every read and write is analysed", "call sites", n >= 4, nil, nil, 0, "", "only %d reads and writes of network connections found", n)
}

// connOperation: the call reads from or writes to a network connection.
func connOperation(call *ssa.CallCommon) bool {
	var conn func(v ssa.Value) bool
	conn = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return conn(x.X)
		case *ssa.ChangeInterface:
			return conn(x.X)
		case *ssa.ChangeType:
			return conn(x.X)
		}
		ms := types.NewMethodSet(v.Type())
		return ms.Lookup(nil, "SetDeadline") != nil && ms.Lookup(nil, "Read") != nil && ms.Lookup(nil, "Write") != nil
	}
	if call.IsInvoke() {
		return conn(call.Value) && (call.Method.Name() == "Read" || call.Method.Name() == "Write")
	}
	f := call.StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	if f.Signature.Recv() != nil {
		return conn(call.Args[0]) && (f.Name() == "Read" || f.Name() == "Write" || f.Name() == "ReadFrom")
	}
	switch f.Pkg.Pkg.Path() {
	case "io", "bufio", "fmt", "encoding/binary", "io/ioutil":
		for _, a := range call.Args {
			if conn(a) {
				return true
			}
		}
	}
	return false
}
