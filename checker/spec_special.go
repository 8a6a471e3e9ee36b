package main

// The reverse-connecting server: V06 and its parts of V01, V02 and V04.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// special is a reverse-connecting server as its constructor and setters make it.
type special struct {
	c          *Ctx
	in         *Interp
	st         *State
	ptr        VPtr
	rto, wto   Lin
	cto        Lin
	rint, kint Lin
	tls        VPtr
	timers     map[int]string // what the timer of a channel waits
	auto, keep bool
	own        bool // handlers of the user
	life       *life

	// of one run
	nm     string
	sigs   map[string]bool
	sm     *stopMon
	served int
	opens  int
}

const (
	userConnect = "user:onConnect"
	userLost    = "user:onConnectionLost"
	userKeep    = "user:onKeepAlive"
)

// newSpecials are the reverse-connecting servers that one configuration may give.
func (c *Ctx) newSpecials(auto, keep, own bool) []*special {
	in, st := c.interp()
	quietLogs(c, in)
	c.serving(in)
	in.exactAtomics = true
	in.nonNil = defaultNonNil
	st, ptr := c.build(in, st, "NewTCPServerSpecial")
	// its remote server is set
	n := 0
	leaves(c.p.typ("TCPServerSpecial"), "", func(path string, v *types.Var) {
		if p, ok := v.Type().(*types.Pointer); ok && p.Elem().String() == "net/url.URL" {
			u := in.unknown(st, v.Type(), "remote").(VPtr)
			u.nil_ = zeroL
			st.mut(ptr.obj).cells[path] = u
			n++
		}
	})
	if n != 1 {
		stop("the remote address of a reverse-connecting server was not found")
	}
	T := "TCPServerSpecial"
	sym := func(n string) Lin { return symL(namedSym(n, -1<<60, 1<<60)) }
	base := special{c: c, in: in, ptr: ptr, auto: auto, keep: keep, own: own, rto: sym("readTimeout"), wto: sym("writeTimeout"), cto: sym("connectTimeout"), rint: sym("reconnectInterval")}
	st = c.setter(in, st, ptr, T, "SetReadTimeout", VInt{base.rto})
	st = c.setter(in, st, ptr, T, "SetWriteTimeout", VInt{base.wto})
	st = c.setter(in, st, ptr, T, "SetConnectTimeout", VInt{base.cto})
	st = c.setter(in, st, ptr, T, "SetReconnectInterval", VInt{base.rint})
	base.tls = in.unknown(st, c.method(T, "SetTLSConfig").Params[1].Type(), "tlsConfig").(VPtr)
	base.tls.nil_ = zeroL
	st = c.setter(in, st, ptr, T, "SetTLSConfig", base.tls)
	bl := func(b bool) Value {
		if b {
			return VBool{aTrue}
		}
		return VBool{aFalse}
	}
	user := func(id string) Value { return VFunc{id: id, nil_: zeroL} }
	nilF := Value(VFunc{nil_: oneL})
	on, lost, ka := nilF, nilF, nilF
	if own {
		on, lost, ka = user(userConnect), user(userLost), user(userKeep)
	}
	st = c.setter(in, st, ptr, T, "EnableAutoReconnect", bl(auto))
	st = c.setter(in, st, ptr, T, "SetOnConnectHandler", on)
	st = c.setter(in, st, ptr, T, "SetConnectionLostHandler", lost)
	in.override["callback"] = func(ci *callInfo) []callResult {
		if ci.name != userConnect {
			return in.callback(ci)
		}
		a, b := ci.st.clone(), ci.st.clone()
		err := ci.newErr("onConnect")
		in.event(ci.fr, a, &Event{kind: "callback", name: ci.name, pos: ci.pos, vals: append(ci.args[:len(ci.args):len(ci.args)], nilErr)})
		in.event(ci.fr, b, &Event{kind: "callback", name: ci.name, pos: ci.pos, vals: append(ci.args[:len(ci.args):len(ci.args)], err)})
		return []callResult{{st: a, rets: []Value{nilErr}}, {st: b, rets: []Value{err}}}
	}
	var out []*special
	// any interval, also one that is not accepted
	for _, r := range c.nested(in, st, c.method(T, "SetKeepAlive"), nil, ptr, bl(keep), VInt{sym("keepAliveInterval")}, ka) {
		if r.panic {
			stop("SetKeepAlive panics")
		}
		s := base
		s.timers = map[int]string{}
		s.st = r.st
		s.st.ev = nil
		s.kint = con(c.pkgConst("DefaultKeepAliveInterval"))
		if k := sym("keepAliveInterval"); r.st.entails(gt(k, zeroL)) {
			s.kint = k
		} else if !r.st.entails(le(k, zeroL)) {
			r.st.assume(le(k, zeroL))
			c.ob("a non-positive keep-alive interval is ignored", "SetKeepAlive", false, in, r.st, 0, "SetKeepAlive", "the interval is not checked")
		}
		s.life = &life{closes: true}
		if c.id == "V01" || c.id == "V02" || c.id == "V04" {
			s.life = c.sessionLife()
		}
		out = append(out, &s)
	}
	if len(out) == 0 || len(out) > 4 {
		stop("SetKeepAlive has %d outcomes", len(out))
	}
	return out
}

// ask is the answer of a status query, "" if it has no single one.
func (s *special) ask(st *State, method string) string {
	fn := s.c.method("TCPServerSpecial", method)
	s.in.quiet++
	defer func() { s.in.quiet-- }()
	out := ""
	for _, r := range s.c.nested(s.in, st, fn, nil, s.ptr) {
		if r.panic {
			return ""
		}
		b, ok := r.rets[0].(VBool)
		if !ok {
			return ""
		}
		v := ""
		switch {
		case b.a.op == opT || r.st.entails(b.a):
			v = "yes"
		case b.a.op == opF || r.st.entails(norm(b.a.not())):
			v = "no"
		}
		if v == "" || out != "" && out != v {
			return ""
		}
		out = v
	}
	return out
}

// started are the goroutines a call of Start begins that belong to the instance.
type started struct {
	st *State
	e  *Event
}

// starting analyses Start and Close and returns the state of the goroutine started.
func (s *special) starting() []*Event {
	c, in := s.c, s.in
	start, cl := c.method("TCPServerSpecial", "Start"), c.method("TCPServerSpecial", "Close")
	nm := shortFn(start)
	var runs []*Event
	count := func(fr *Frame, st *State, e *Event) {
		if e.kind == "go" {
			st.mon["spawn"] += "1"
		}
	}
	c.obFor("V06", "a server that was not started is closed", nm, s.ask(s.st, "IsClosed") == "yes" && s.ask(s.st, "IsConnected") == "no", in, s.st, start.Pos(), nm, "a new server is not reported as closed")
	// without a remote server
	bare := s.st.clone()
	leaves(c.p.typ("TCPServerSpecial"), "", func(path string, v *types.Var) {
		if p, ok := v.Type().(*types.Pointer); ok && p.Elem().String() == "net/url.URL" {
			bare.mut(s.ptr.obj).cells[path] = VPtr{obj: -1, nil_: oneL}
		}
	})
	for _, r := range c.nested(in, bare, start, count, s.ptr) {
		_, notNil := nilness(r.st, r.rets[0])
		c.obFor("V06", "starting without a remote server fails", nm, !r.panic && notNil && r.st.mon["spawn"] == "" && s.ask(r.st, "IsClosed") == "yes", in, r.st, start.Pos(), nm, "the server is started, or no error reported")
	}
	// once
	var after []*State
	n := 0
	for _, r := range c.nested(in, s.st, start, count, s.ptr) {
		n++
		if r.panic {
			c.obFor("V06", "starting runs one instance", nm, false, in, r.st, r.st.pan.pos, r.st.pan.chain, "panics: %s", r.st.pan.msg)
			continue
		}
		isNil, _ := nilness(r.st, r.rets[0])
		c.obFor("V06", "starting runs one instance", nm, isNil && r.st.mon["spawn"] == "1", in, r.st, start.Pos(), nm, "%d goroutines are started, or an error reported", len(r.st.mon["spawn"]))
		c.obFor("V06", "a started server is not closed", nm, s.ask(r.st, "IsClosed") == "no" && s.ask(r.st, "IsConnected") == "no", in, r.st, start.Pos(), nm, "the server is still reported as closed when Start returns, or already as connected")
		after = append(after, r.st)
		for _, e := range eventsOf(r.st, "go") {
			runs = append(runs, e)
		}
		// again while it runs
		for _, q := range c.nested(in, r.st, start, count, s.ptr) {
			c.obFor("V06", "starting runs one instance", nm+" twice", !q.panic && q.st.mon["spawn"] == "1", in, q.st, start.Pos(), nm, "a second call of Start starts another instance")
		}
	}
	c.obFor("V06", "starting runs one instance", nm, n > 0, in, nil, start.Pos(), nm, "Start does not return")
	// by two threads at once: the second at each point where the first synchronises
	if c.id == "V06" {
		oi, oe := in.interfere, in.onEvent
		in.onEvent = count
		points := 0
		in.interfere = func(ci *callInfo) []*State {
			if ci.st.mon["other"] != "" || len(ci.st.held) > 0 {
				return nil
			}
			points++
			var out []*State
			for _, r := range c.nested(in, ci.st, start, count, s.ptr) {
				if r.panic {
					continue
				}
				r.st.mon["other"] = "1"
				r.st.held = ci.st.held
				out = append(out, r.st)
			}
			return out
		}
		b := s.st.clone()
		for _, r := range in.callFn(nil, b, start, []Value{s.ptr}, nil, start.Pos(), false) {
			if !r.st.feasible() || r.panic {
				continue
			}
			c.obFor("V06", "starting runs one instance", nm+" concurrently", r.st.mon["spawn"] == "1", in, r.st, start.Pos(), nm, "two concurrent calls of Start start %d instances", len(r.st.mon["spawn"]))
		}
		in.interfere, in.onEvent = oi, oe
		c.ob("starting runs one instance", nm+" concurrently", points > 0, in, nil, start.Pos(), nm, "Start does not synchronise")
	}
	// closing right after
	for _, st := range after {
		sig := s.signals(st)
		c.obFor("V02 V06", "closing takes effect right after starting", "Close", len(sig) > 0, in, st, cl.Pos(), "Close", "the goroutine started has no stop signal")
		hook := func(fr *Frame, st *State, e *Event) {
			switch e.kind {
			case "callback":
				if strings.HasPrefix(e.name, "cancel:") && sig["done:"+e.name[7:]] {
					st.mon["c:sig"] = "1"
				}
			case "closechan":
				if sig[chanKey(st, e.vals[0])] {
					st.mon["c:sig"] = "1"
				}
			case "go":
				st.mon["spawn"] += "1"
			}
		}
		for _, r := range c.nested(in, st, cl, hook, s.ptr) {
			c.obFor("V02 V06", "closing takes effect right after starting", "Close", !r.panic && r.st.mon["c:sig"] == "1", in, r.st, cl.Pos(), "Close", "Close does not give the stop signal of the instance that Start started")
			for _, q := range c.nested(in, r.st, cl, nil, s.ptr) {
				c.obFor("V06", "closing is harmless at any time", "Close twice", !q.panic, in, q.st, cl.Pos(), "Close", "a second Close panics")
			}
			for _, q := range c.nested(in, r.st, start, hook, s.ptr) {
				c.obFor("V06", "starting runs one instance", nm+" after Close", !q.panic && len(q.st.mon["spawn"]) <= 1, in, q.st, start.Pos(), nm, "a second instance is started while the first has not ended")
			}
		}
	}
	for _, r := range c.nested(in, s.st, cl, nil, s.ptr) {
		c.obFor("V06", "closing is harmless at any time", "Close before Start", !r.panic, in, r.st, cl.Pos(), "Close", "Close panics on a server that was never started")
	}
	return runs
}

// signals are the stop signals of the goroutine started on the path.
func (s *special) signals(st *State) map[string]bool {
	out := map[string]bool{}
	add := func(k string) {
		out[k] = true
		if strings.HasPrefix(k, "done:") {
			for a := range ancestors(st, k[5:]) {
				if a != "background" {
					out["done:"+a] = true
				}
			}
		}
	}
	for _, e := range eventsOf(st, "go") {
		f, ok := e.vals[0].(VFunc)
		if !ok || f.fn == nil {
			stop("a goroutine that is not understood")
		}
		vals := func(t types.Type, v Value) {
			if k, ok := signalKey(st, t, v); ok {
				add(k)
			}
		}
		for i, p := range f.fn.Params {
			vals(p.Type(), e.vals[1+i])
		}
		for i, fv := range f.fn.FreeVars {
			vals(fv.Type(), f.bind[i])
			// a captured variable
			if p, ok := f.bind[i].(VPtr); ok {
				if pt, ok := fv.Type().(*types.Pointer); ok && (isContext(pt.Elem()) || isSignalChan(pt.Elem())) {
					vals(pt.Elem(), st.load(p, pt.Elem()))
				}
			}
		}
	}
	leaves(s.c.p.typ("TCPServerSpecial"), "", func(path string, v *types.Var) {
		if k, ok := signalKey(st, v.Type(), st.loadPath(st.obj(s.ptr.obj), path, v.Type())); ok {
			add(k)
		}
	})
	return out
}

// running analyses the goroutine that Start started.
func (s *special) running(e *Event) {
	c, in := s.c, s.in
	f := e.vals[0].(VFunc)
	s.nm = shortFn(f.fn)
	s.sigs = s.signals(s.withGo(e))
	s.sm = &stopMon{sigs: func(*State) map[string]bool { return s.sigs }}
	in.onEvent = s.event
	in.atBack = func(g *generaliser, st *State) []*State {
		if s.sm.round(st) {
			c.obFor("V02 V06", "a reverse-connecting server ends soon after the stop signal", s.nm, false, in, st, g.l.head.Instrs[0].Pos(), g.fr.chain(), "it goes on after the stop signal was seen")
		}
		return []*State{st}
	}
	st := s.withGo(e)
	st.held = nil
	delete(st.mon, "spawn")
	rs := in.callFn(nil, st, f.fn, e.vals[1:], f.bind, f.fn.Pos(), false)
	in.onEvent, in.atBack = nil, nil
	exits, stopped := 0, 0
	for _, r := range rs {
		if !r.st.feasible() {
			continue
		}
		c.paths++
		if r.panic {
			for _, id := range []string{"V01", "V06"} {
				c.obFor(id, "the goroutine of the server does not panic", s.nm, false, in, r.st, r.st.pan.pos, r.st.pan.chain, "panics: %s", r.st.pan.msg)
			}
			continue
		}
		exits++
		if c.id == "K01" && !s.sm.given(r.st) && r.st.mon["k:why"] == "" {
			s.noAttempt(r.st, f.fn.Pos(), s.nm)
		}
		s.settled(r.st, f.fn.Pos(), s.nm, "the server ends")
		given := s.sm.given(r.st)
		if given {
			stopped++
		}
		if s.auto {
			c.obFor("V06", "with auto reconnect the server ends only when closed", s.nm, given, in, r.st, f.fn.Pos(), s.nm, "the server ends without having been closed although auto reconnect is enabled")
		}
		c.obFor("V06", "a server that has ended is closed", s.nm, s.ask(r.st, "IsClosed") == "yes" && s.ask(r.st, "IsConnected") == "no", in, r.st, f.fn.Pos(), s.nm, "the server has ended but is not reported as closed")
		// it can be started again
		hook := func(fr *Frame, st *State, e *Event) {
			if e.kind == "go" {
				st.mon["again"] += "1"
			}
		}
		for _, q := range c.nested(in, r.st, c.method("TCPServerSpecial", "Start"), hook, s.ptr) {
			c.obFor("V06", "a server that has ended can be started again", s.nm, !q.panic && q.st.mon["again"] == "1", in, q.st, f.fn.Pos(), s.nm, "Start does nothing after the server has ended")
		}
	}
	for _, id := range []string{"V01", "V06"} {
		c.obFor(id, "connections found", s.nm, s.opens > 0 && s.served > 0, in, nil, f.fn.Pos(), s.nm, "%d connections opened, %d served", s.opens, s.served)
	}
	for _, id := range []string{"V02", "V06"} {
		c.obFor(id, "the server can be stopped", s.nm, stopped > 0 && exits > 0, in, nil, f.fn.Pos(), s.nm, "no path ends because of the stop signal")
	}
}

// withGo is the state in which a goroutine begins.
func (s *special) withGo(e *Event) *State {
	st := e.st.clone()
	st.addEvent(e)
	return st
}

// settled: no connection, call or keep-alive of the last connection is left over.
func (s *special) settled(st *State, pos token.Pos, chain, when string) {
	c, in := s.c, s.in
	c.obFor("V01 V02", "connections opened are served or closed", s.nm, st.mon["conn"] != "open", in, st, pos, chain, "%s while the connection opened last is neither served nor closed", when)
	if s.own {
		c.obFor("V06", "the lost handler is called once after serving", s.nm, st.mon["sp"] != "served", in, st, pos, chain, "%s without a call of the lost handler after serving", when)
	}
	c.obFor("V06", "connections are served once the connect handler agreed", s.nm, st.mon["sp"] != "greeted" || s.sm.given(st), in, st, pos, chain, "%s although the connect handler agreed to the connection, which was not served", when)
	c.obFor("V06", "the connect handler is called for every connection", s.nm, st.mon["sp"] != "opened" || s.sm.given(st), in, st, pos, chain, "%s without a call of the connect handler for the connection opened last", when)
	ka := st.mon["ka"] != "running"
	if !ka && s.sm.given(st) {
		ka = s.stopsWith(st)
	}
	c.obFor("V06", "keep-alive calls end with the connection", s.nm, ka, in, st, pos, chain, "%s while the keep-alive of the last connection still runs", when)
	for _, k := range []string{"conn", "connid", "sp", "ka", "kastop"} {
		delete(st.mon, k)
	}
}

// stopsWith: the keep-alive goroutine ends with the server itself.
func (s *special) stopsWith(st *State) bool {
	for _, k := range strings.Fields(st.mon["kastop"]) {
		if s.sigs[k] {
			return true
		}
		if strings.HasPrefix(k, "done:") {
			for a := range ancestors(st, k[5:]) {
				if s.sigs["done:"+a] {
					return true
				}
			}
		}
	}
	return false
}

// self: the server itself.
func (s *special) self(v Value) bool {
	p, ok := v.(VPtr)
	return ok && p.obj == s.ptr.obj && p.path == s.ptr.path
}

// status compares what the server reports with what it does.
func (s *special) status(st *State, e *Event, connected bool, when string) {
	if s.c.id != "V06" || s.in.quiet > 0 {
		return
	}
	want := "no"
	if connected {
		want = "yes"
	}
	s.c.ob("reported as connected exactly while served", s.nm+" ("+when+")", s.ask(st, "IsConnected") == want, s.in, st, e.pos, e.chain, "%s: the server does not report connected = %s", when, want)
	s.c.ob("not reported as closed while it runs", s.nm+" ("+when+")", s.ask(st, "IsClosed") == "no", s.in, st, e.pos, e.chain, "%s: the server reports that it is closed", when)
}

func (s *special) event(fr *Frame, st *State, e *Event) {
	c, in := s.c, s.in
	s.settings(fr, st, e)
	s.sm.event(st, e)
	switch e.kind {
	case "open":
		if e.name == "url" || e.name == "listen" {
			return
		}
		s.settled(st, e.pos, e.chain, "the next connection is opened")
		if in.quiet == 0 {
			s.opens++
		}
		c.obFor("V02 V06", "the stop signal is checked between connection attempts", s.nm, st.mon["opens"] == "" || s.sm.polled(st), in, st, e.pos, e.chain, "a second connection attempt without a check of the stop signal after the first")
		c.obFor("V02 V06", "no connection attempt after the stop signal", s.nm, !s.sm.given(st), in, st, e.pos, e.chain, "a connection attempt although the stop signal was seen")
		if !s.auto {
			c.obFor("V06", "no reconnecting without auto reconnect", s.nm, st.mon["opens"] == "", in, st, e.pos, e.chain, "another connection attempt although auto reconnect is disabled")
		}
		c.obFor("V04", "connecting uses the timeout", s.nm, dialTimeout(st, e, s.cto), in, st, e.pos, e.chain, "the connection attempt does not use the configured timeout")
		s.status(st, e, false, "connecting")
		s.sm.blocked(st)
		st.mon["opens"] = "1"
		if err, ok := e.vals[1].(VIface); ok && isTrueL(err.nil_) {
			st.mon["conn"] = "open"
			st.mon["connid"] = connKey(st, e.vals[0])
			st.mon["sp"] = "opened"
			if !s.own {
				st.mon["sp"] = "greeted"
			}
		}
	case "connclose":
		if connKey(st, e.vals[0]) == st.mon["connid"] {
			st.mon["conn"] = "closed"
			delete(st.mon, "connid")
		}
	case "callback":
		switch e.name {
		case userConnect:
			c.obFor("V06", "the connect handler is called once for each connection", s.nm, st.mon["sp"] == "opened" && st.mon["conn"] == "open", in, st, e.pos, e.chain, "the connect handler is called without a new connection, or again")
			c.obFor("V06", "handlers get the server", s.nm, len(e.vals) > 0 && s.self(e.vals[0]), in, st, e.pos, e.chain, "the connect handler gets another server")
			s.visible(st, e)
			s.status(st, e, false, "connect handler")
			err, ok := e.vals[len(e.vals)-1].(VIface)
			if ok && isTrueL(err.nil_) {
				st.mon["sp"] = "greeted"
			} else {
				st.mon["sp"] = "refused"
			}
		case userLost:
			c.obFor("V06", "the lost handler is called once after serving", s.nm, st.mon["sp"] == "served", in, st, e.pos, e.chain, "the lost handler is called without a connection having been served, or again")
			c.obFor("V06", "handlers get the server", s.nm, len(e.vals) > 0 && s.self(e.vals[0]), in, st, e.pos, e.chain, "the lost handler gets another server")
			s.status(st, e, false, "lost handler")
			st.mon["sp"] = "lost"
		case userKeep:
			c.obFor("V06", "keep-alive calls are made in turn with the stop signal", s.nm, false, in, st, e.pos, e.chain, "the keep-alive handler is called by the goroutine that serves")
		default:
			if strings.HasPrefix(e.name, "cancel:") {
				s.stopKeepAlive(st, e, "done:"+e.name[7:])
			}
		}
	case "closechan":
		s.stopKeepAlive(st, e, chanKey(st, e.vals[0]))
	case "serve":
		c.obFor("V06", "a connection is served after the connect handler agreed", s.nm, st.mon["sp"] == "greeted", in, st, e.pos, e.chain, "a connection is served that the connect handler did not agree to, or again")
		c.obFor("V01", "the session gets the connection opened", s.nm, st.mon["connid"] != "" && connKey(st, e.vals[1]) == st.mon["connid"] && st.mon["conn"] == "open", in, st, e.pos, e.chain, "the connection served is not the one opened last, or closed")
		c.obFor("V02 V06", "the session gets the stop signal", s.nm, s.signalled(st, e.name), in, st, e.pos, e.chain, "the session does not get the stop signal of the server")
		if s.keep && s.own {
			c.obFor("V06", "keep-alive runs while a connection is served", s.nm, st.mon["ka"] == "running", in, st, e.pos, e.chain, "a connection is served without keep-alive although it is enabled")
		}
		s.visible(st, e)
		s.status(st, e, true, "serving")
		if in.quiet == 0 {
			s.served++
			sess := e.vals[0].(VPtr)
			rf, wf := c.sessionTimeouts()
			for _, x := range []struct {
				f    fieldAt
				want Lin
				what string
			}{{rf, s.rto, "read"}, {wf, s.wto, "write"}} {
				v, ok := st.loadPath(st.obj(sess.obj), sess.path+x.f.path, x.f.typ).(VInt)
				c.obFor("V04", "sessions have the timeouts of their server", s.nm+" ("+x.what+")", ok && provEq(st, v.l, x.want), in, st, e.pos, e.chain, "the %s timeout of the session is not the one configured", x.what)
			}
		}
		st.mon["sp"] = "served"
		if !s.own {
			st.mon["sp"] = "lost"
		}
		if s.life.closes {
			st.mon["conn"] = "closed"
			delete(st.mon, "connid")
		}
		s.sm.blocked(st)
	case "sleep":
		s.status(st, e, false, "waiting")
	case "go":
		s.goroutine(st, e)
	}
}

// visible: UnderlyingConn gives the current connection.
func (s *special) visible(st *State, e *Event) {
	if s.c.id != "V06" || s.in.quiet > 0 {
		return
	}
	fn := s.c.method("TCPServerSpecial", "UnderlyingConn")
	s.in.quiet++
	rs := s.c.nested(s.in, st, fn, nil, s.ptr)
	s.in.quiet--
	ok := len(rs) > 0
	for _, r := range rs {
		ok = ok && !r.panic && connKey(r.st, r.rets[0]) == st.mon["connid"]
	}
	s.c.ob("the connection in use is the one reported", s.nm, ok, s.in, st, e.pos, e.chain, "UnderlyingConn does not give the current connection")
}

// signalled: the signal names of a session include the stop signal.
func (s *special) signalled(st *State, names string) bool {
	for _, k := range strings.Fields(names) {
		if s.sigs[k] {
			return true
		}
		if strings.HasPrefix(k, "done:") {
			for a := range ancestors(st, k[5:]) {
				if s.sigs["done:"+a] {
					return true
				}
			}
		}
	}
	return false
}

func (s *special) stopKeepAlive(st *State, e *Event, key string) {
	for _, k := range strings.Fields(st.mon["kastop"]) {
		hit := k == key
		if strings.HasPrefix(k, "done:") && strings.HasPrefix(key, "done:") {
			hit = hit || ancestors(st, k[5:])[key[5:]]
		}
		if hit {
			st.mon["ka"] = "stopped"
			delete(st.mon, "kastop")
			return
		}
	}
}

// goroutine analyses a goroutine started while the server runs.
func (s *special) goroutine(st *State, e *Event) {
	c, in := s.c, s.in
	f, ok := e.vals[0].(VFunc)
	if !ok || f.fn == nil {
		stop("a goroutine at %s that is not understood", in.pos(e.pos))
	}
	nm := shortFn(f.fn)
	oe, ob := in.onEvent, in.atBack
	var stops map[string]bool // channels every call is preceded by a look at
	calls := 0
	all := map[string]bool{}
	isStop := func(st *State, k string) bool { return all[k] }
	in.onEvent = func(fr *Frame, st *State, e *Event) {
		s.keepWait(st, e)
		switch e.kind {
		case "select":
			var keys []string
			for _, ch := range e.vals[1:] {
				k := chanKey(st, ch)
				if _, ticker := tickerChan(st, ch); !ticker {
					keys = append(keys, k)
					all[k] = true
				}
			}
			sort.Strings(keys)
			st.mon["k:poll"] = strings.Join(keys, " ")
			if e.name != "-1" && isStop(st, chanKey(st, e.vals[0])) {
				st.mon["k:stop"] += "1"
			}
		case "callback":
			if e.name != userKeep {
				return
			}
			if in.quiet == 0 {
				calls++
			}
			c.obFor("V06", "handlers get the server", nm, len(e.vals) > 0 && s.self(e.vals[0]), in, st, e.pos, e.chain, "the keep-alive handler gets another server")
			c.obFor("V06", "no keep-alive after the stop signal", nm, st.mon["k:stop"] == "", in, st, e.pos, e.chain, "the keep-alive handler is called although a stop signal was seen")
			c.obFor("V06", "keep-alive calls are made in turn with the stop signal", nm, st.mon["k:poll"] != "", in, st, e.pos, e.chain, "the keep-alive handler is called without a look at a stop signal since the last call")
			if in.quiet == 0 {
				now := map[string]bool{}
				for _, k := range strings.Fields(st.mon["k:poll"]) {
					if stops == nil || stops[k] {
						now[k] = true
					}
				}
				stops = now
			}
			delete(st.mon, "k:poll")
		case "open", "serve":
			c.obFor("V01", "connections are opened and served by the server's goroutine only", nm, false, in, st, e.pos, e.chain, "another goroutine handles connections")
		}
	}
	in.atBack = func(g *generaliser, st *State) []*State {
		if len(st.mon["k:stop"]) > 3 {
			c.obFor("V06", "keep-alive ends with its stop signal", nm, false, in, st, g.l.head.Instrs[0].Pos(), g.fr.chain(), "the keep-alive goroutine goes on after a stop signal")
			st.mon["k:stop"] = "111"
		}
		if st.mon["k:stop"] != "" {
			st.mon["k:stop"] += "1"
		}
		return []*State{st}
	}
	b := e.st.clone()
	b.held = nil
	quiet := in.quiet
	in.quiet = 0
	if quiet > 0 {
		// what the goroutine does matters to the exploration, its faults are reported later
		saved := c.id
		c.id = ""
		defer func() { c.id = saved }()
	}
	issues := in.issues
	rs := in.callFn(nil, b, f.fn, e.vals[1:], f.bind, f.fn.Pos(), false)
	in.quiet = quiet
	if quiet > 0 {
		in.issues = issues
	}
	in.onEvent, in.atBack = oe, ob
	if calls == 0 {
		return
	}
	ends := 0
	for _, r := range rs {
		if !r.st.feasible() {
			continue
		}
		if r.panic {
			c.obFor("V06", "keep-alive does not panic", nm, false, in, r.st, r.st.pan.pos, r.st.pan.chain, "panics: %s", r.st.pan.msg)
			continue
		}
		ends++
		c.obFor("V06", "keep-alive ends only with its stop signal", nm, r.st.mon["k:stop"] != "", in, r.st, f.fn.Pos(), nm, "keep-alive ends without a stop signal")
	}
	c.obFor("V06", "keep-alive does not panic", nm, ends > 0, in, nil, f.fn.Pos(), nm, "keep-alive never ends")
	c.obFor("V06", "keep-alive only if enabled", nm, s.keep, in, st, e.pos, e.chain, "keep-alive is started although it is not enabled")
	c.obFor("V06", "keep-alive runs for a connection", nm, st.mon["ka"] == "" && (st.mon["sp"] == "greeted" || st.mon["sp"] == "opened"), in, st, e.pos, e.chain, "keep-alive is started without a new connection, or twice")
	for _, name := range capturedVars(f.fn, e) {
		c.obFor("V06", "keep-alive does not share changing variables", nm, false, in, st, e.pos, e.chain, "the goroutine shares the variable %s, which is changed after it was started", name)
	}
	st.mon["ka"] = "running"
	st.mon["kastop"] = strings.Join(sortedKeys(stops), " ")
}

// tickerChan: the channel belongs to a ticker or timer, not a signal.
func tickerChan(st *State, v Value) (string, bool) {
	r, ok := v.(VRef)
	if !ok {
		return "", false
	}
	o := st.obj(r.obj)
	ch, ok := o.typ.Underlying().(*types.Chan)
	if !ok {
		return "", false
	}
	return o.name, structOf(ch.Elem()) == nil || ch.Elem().String() == "time.Time"
}

// specials analyses the reverse-connecting server in every configuration.
func (c *Ctx) specials() {
	n := 0
	for _, own := range []bool{true, false} {
		for _, auto := range []bool{true, false} {
			for _, keep := range []bool{true, false} {
				for _, s := range c.newSpecials(auto, keep, own) {
					for _, e := range s.starting() {
						n++
						s.running(e)
					}
				}
			}
		}
	}
	c.ob("configurations analysed", "TCPServerSpecial", n >= 8, nil, nil, 0, "", "only %d goroutines of reverse-connecting servers were analysed", n)
}

func v06(c *Ctx) {
	c.specials()
	c.atLeast("reported as connected exactly while served", 4)
	c.atLeast("keep-alive only if enabled", 1)
}

var _ = ssa.NaiveForm

func init() {
	register("V01", "Ownership typestate of connections. The accepting loop, the goroutine it starts for a connection and the goroutine of the reverse-connecting server (in every combination of its settings) are interpreted abstractly with the session function replaced by its summary; an accepted or opened connection must be closed or handed to exactly one session, which must get that connection, before the next one is accepted or opened and at every exit; the session function (interpreted on its own) closes its connection at every exit, or the code after it does; the listener is closed at every exit of the server. The serving loop must not read again after a read that may have reported the end of the input or an error of none of the kinds the code tells apart.", v01)
	register("V02", "The session function and the goroutine of the reverse-connecting server are interpreted with the stop signal (context or channel) unknown at every check: between two reads, and between two connection attempts, the signal must have been seen not given; after it was seen given no read, answer or connection attempt may follow and only a bounded number of iterations; some path must end because of it. The signal of the session is the one of its server.", v02)
	register("V03", "The accepting loop is interpreted with Close by another thread interleaved at every lock or atomic operation; a session goroutine may only be started counted, counted under the lock that Close takes, and not after Close; its body must count down exactly once after the session ended on every path. Close, interpreted in the state in which a session was started, must close the listener, give the signal the session listens to and then wait, on every path; also when called again.", v03)
	register("V04", "Typestate of deadlines. Client: on every path of the exchange functions of the TCP transport (interpreted abstractly with the peer and library failures unknown) the last deadline event before a read or write since the previous one of its kind must be on the same connection and be the current time plus the configured timeout (none only for no timeout); connection attempts use the timeout. Server: the session function and the frame function are interpreted with an automaton over deadline events kept through loops; the timeouts of a session handed to it are those set on its server, for the TCP server and the reverse-connecting one. Every call in the source that reads or writes a network connection must be among the operations analysed.", v04)
	register("V06", "Start, Close and the goroutine of the reverse-connecting server are interpreted for each combination of auto reconnect, keep-alive and own or default handlers; an automaton over connection attempts, handler calls, serving and ends, kept through loops, must never leave the prescribed order; the status queries are interpreted at each of these points and must give the prescribed answer; two calls of Start are interleaved at every synchronising operation; the keep-alive goroutine must look at a stop signal between calls, which is given after serving.", v06)
}
