package main

// Configuration (K01, K02) and the accepting loop's errors (V08).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// strSame: two strings are equal on every continuation of the path.
func strSame(st *State, a, b VStr) bool {
	if a.known && b.known {
		return a.s == b.s
	}
	if a.id != "" && a.id == b.id && provEq(st, a.ln, b.ln) {
		return true
	}
	sa, sb := strSnap(a), strSnap(b)
	if sa == nil || sb == nil || !provEq(st, a.ln, b.ln) {
		return false
	}
	ok, _ := allElems(st, sa, zeroL, a.ln, 8, fromSnap(sb, 8))
	return ok
}

func strSnap(s VStr) *Snap { return s.snap }

// sameVal: two values of a field are the same.
func sameVal(st *State, a, b Value) bool {
	switch x := a.(type) {
	case VInt:
		y, ok := b.(VInt)
		return ok && provEq(st, x.l, y.l)
	case VBool:
		y, ok := b.(VBool)
		return ok && (x.a.String() == y.a.String() || provAtom(st, x.a) && provAtom(st, y.a) || provAtom(st, norm(x.a.not())) && provAtom(st, norm(y.a.not())))
	case VStr:
		y, ok := b.(VStr)
		return ok && strSame(st, x, y)
	case VSlice:
		y, ok := b.(VSlice)
		return ok && x.arr == y.arr && provEq(st, x.off, y.off) && provEq(st, x.len, y.len)
	case VPtr:
		y, ok := b.(VPtr)
		return ok && (x.obj == y.obj && x.path == y.path || isTrueL(x.nil_) && isTrueL(y.nil_))
	case VFunc:
		y, ok := b.(VFunc)
		return ok && (x.fn == y.fn && x.id == y.id && len(x.bind) == len(y.bind) && (x.fn == nil || len(x.bind) == 0 || fmt.Sprint(x.bind) == fmt.Sprint(y.bind)))
	case VIface:
		y, ok := b.(VIface)
		return ok && (ifaceKey(x) == ifaceKey(y))
	case VRef:
		y, ok := b.(VRef)
		return ok && x.obj == y.obj
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameVal(st, x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// changedLeaves are the fields of an object that differ between two states.
func changedLeaves(t types.Type, before, after *State, p VPtr) []string {
	var out []string
	leaves(t, "", func(path string, v *types.Var) {
		a := before.loadPath(before.obj(p.obj), p.path+path, v.Type())
		b := after.loadPath(after.obj(p.obj), p.path+path, v.Type())
		if !sameVal(after, a, b) {
			out = append(out, path)
		}
	})
	return out
}

// pkgConst is the value of an exported constant.
func (c *Ctx) pkgConst(name string) int64 {
	k, ok := c.p.pkg.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		stop("constant %s not found", name)
	}
	v, ok := constant.Int64Val(constant.ToInt(k.Val()))
	if !ok {
		stop("constant %s is not an integer", name)
	}
	return v
}

// netArgs are the network and address of a dial or listen event.
func netArgs(e *Event) (network, addr VStr, ok bool) {
	t, isT := e.vals[2].(VTuple)
	if !isT {
		return
	}
	var s []VStr
	for _, a := range t.v {
		if x, isS := a.(VStr); isS {
			s = append(s, x)
		}
	}
	if len(s) != 2 {
		return
	}
	return s[0], s[1], true
}

func isTCP(s VStr) bool { return s.known && s.s == "tcp" }

// ---- clients ---------------------------------------------------------------------

// option makes an option of the package.
func (c *Ctx) option(in *Interp, st *State, name string, args ...Value) (*State, VFunc) {
	rs := c.run(in, st, c.fn(name), args)
	if len(rs) != 1 || rs[0].panic {
		stop("%s has no single outcome", name)
	}
	f, ok := rs[0].rets[0].(VFunc)
	if !ok || f.fn == nil {
		stop("%s does not return a function", name)
	}
	return rs[0].st, f
}

func serialConfig(c *Ctx, k transportKind) types.Type {
	var out types.Type
	var find func(t types.Type)
	find = func(t types.Type) {
		s := structOf(t)
		if s == nil {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if ft.String() == "github.com/goburrow/serial.Config" {
				out = ft
			} else if structOf(ft) != nil {
				find(ft)
			}
		}
	}
	find(c.p.typ(k.typ))
	if out == nil {
		stop("%s has no serial configuration", k.typ)
	}
	return out
}

func k01clients(c *Ctx) {
	var cfgT types.Type
	for _, k := range transports {
		if k.kind != "tcp" {
			cfgT = serialConfig(c, k)
		}
	}
	for _, k := range transports {
		for _, variant := range []string{"default", "configured"} {
			in, st := c.interp()
			quietLogs(c, in)
			in.nonNil = defaultNonNil
			nm := k.typ + " (" + variant + ")"
			cfg := in.unknown(st, cfgT, "config").(VStruct)
			tmo := symL(namedSym("timeout", -1<<60, 1<<60))
			var opts []Value
			if variant == "configured" {
				var a, b VFunc
				st, a = c.option(in, st, "WithSerialConfig", cfg)
				st, b = c.option(in, st, "WithTCPTimeout", VInt{tmo})
				opts = []Value{a, b}
			}
			ctor := c.fn(k.ctor)
			var args []Value
			var addr VStr
			for i, prm := range ctor.Params {
				if i == len(ctor.Params)-1 {
					args = append(args, sliceOf(st, c.p.typ("ClientProviderOption"), opts...))
					continue
				}
				v := in.unknown(st, prm.Type(), prm.Name())
				if s, ok := v.(VStr); ok {
					addr = s
				}
				args = append(args, v)
			}
			rs := c.run(in, st, ctor, args)
			if len(rs) != 1 || rs[0].panic {
				stop("%s has no single outcome", k.ctor)
			}
			ptr, ok := rs[0].rets[0].(VPtr)
			if !ok {
				stop("%s does not return a pointer", k.ctor)
			}
			base := rs[0].st
			base.ev = nil
			want := tmo
			if variant == "default" {
				want = con(c.pkgConst("TCPDefaultTimeout"))
			}
			for _, m := range []string{"Connect", "SendRawFrame"} {
				fn := c.method(k.typ, m)
				checksums(c, in)
				s := base.clone()
				s.ghost["rx:rx"] = zeroL
				ar := []Value{ptr}
				for _, prm := range fn.Params[1:] {
					ar = append(ar, in.unknown(s, prm.Type(), prm.Name()))
				}
				n := 0
				for _, r := range c.run(in, s, fn, ar) {
					for _, e := range eventsOf(r.st, "open") {
						n++
						if k.kind == "tcp" {
							nw, ad, ok := netArgs(e)
							c.ob("a client connects to its configured address", nm+"."+m, e.name == "dial" && ok && isTCP(nw), in, r.st, e.pos, e.chain, "the connection is not a TCP connection to an address")
							c.ob("a client connects to its configured address", nm+"."+m, ok && strSame(r.st, ad, addr), in, r.st, e.pos, e.chain, "another address than the one configured is dialled")
							c.ob("a client connects with its configured timeout", nm+"."+m, dialTimeout(r.st, e, want), in, r.st, e.pos, e.chain, "the connection attempt does not use the timeout configured")
							continue
						}
						c.ob("a client connects to its configured address", nm+"."+m, e.name == "serial", in, r.st, e.pos, e.chain, "something else than a serial port is opened")
						t, _ := e.vals[2].(VTuple)
						var p VPtr
						ok := false
						if len(t.v) == 1 {
							p, ok = t.v[0].(VPtr)
						}
						if !c.ob("a serial port is opened with the configured parameters", nm+"."+m, ok && provEq(r.st, p.nil_, zeroL), in, r.st, e.pos, e.chain, "the configuration handed on is not known") {
							continue
						}
						i := 0
						var each func(path string, t types.Type, w Value)
						each = func(path string, t types.Type, w Value) {
							if sv, ok := w.(VStruct); ok {
								s := structOf(t)
								for j := range sv.f {
									each(fmt.Sprintf("%s.%d", path, j), s.Field(j).Type(), sv.f[j])
								}
								return
							}
							i++
							g := r.st.loadPath(r.st.obj(p.obj), p.path+path, t)
							c.ob("a serial port is opened with the configured parameters", nm+"."+m, sameVal(r.st, g, w), in, r.st, e.pos, e.chain, "the serial parameter at field %s is not the one configured", path)
						}
						if variant == "configured" {
							each("", cfgT, cfg)
							c.ob("a serial port is opened with the configured parameters", nm+"."+m, i >= 6, in, r.st, e.pos, e.chain, "only %d serial parameters found", i)
							continue
						}
						for _, d := range []struct {
							f string
							v Value
						}{{"Address", strConst("/dev/ttyS0")}, {"BaudRate", VInt{con(19200)}}, {"DataBits", VInt{con(8)}}, {"StopBits", VInt{con(1)}},
							{"Parity", strConst("N")}, {"Timeout", VInt{con(1000 * 1000 * 1000)}}, {"RS485.Enabled", VBool{aFalse}}} {
							path, ft := "", types.Type(cfgT)
							ok := true
							for _, f := range strings.Split(d.f, ".") {
								var q string
								q, ft, ok = fieldPath(ft, f)
								if !ok {
									break
								}
								path += q
							}
							if !ok {
								stop("serial.Config has no field %s", d.f)
							}
							g := r.st.loadPath(r.st.obj(p.obj), p.path+path, ft)
							c.ob("without configuration the documented defaults are in force", nm+"."+m+" "+d.f, sameVal(r.st, g, d.v), in, r.st, e.pos, e.chain, "the default of %s is not the documented one (/dev/ttyS0 19200 8 1 N, timeout 1000 ms)", d.f)
						}
					}
				}
				c.ob("a client connects to its configured address", nm+"."+m, n > 0, in, nil, fn.Pos(), m, "no connection attempt found")
			}
		}
		// an option changes what it names, and nothing else
		in, st := c.interp()
		quietLogs(c, in)
		in.nonNil = defaultNonNil
		p := c.newProvider(k)
		in, st = p.in, p.st
		cfg := in.unknown(st, cfgT, "config")
		for _, o := range []struct {
			name string
			arg  Value
			want bool
		}{{"WithTCPTimeout", VInt{symL(namedSym("timeout", -1<<60, 1<<60))}, k.kind == "tcp"}, {"WithSerialConfig", cfg, k.kind != "tcp"}} {
			s, f := c.option(in, st.clone(), o.name, o.arg)
			prov := VIface{typ: types.NewPointer(c.p.typ(k.typ)), val: p.ptr, nil_: zeroL}
			rs := in.callFn(nil, s.clone(), f.fn, []Value{prov}, f.bind, f.fn.Pos(), false)
			pos := f.fn.Pos()
			for _, r := range rs {
				if !c.ob("a setting changes only what it names", k.typ+" "+o.name, !r.panic, in, r.st, pos, o.name, "panics") {
					continue
				}
				ch := changedLeaves(c.p.typ(k.typ), s, r.st, p.ptr)
				bad := ""
				for _, path := range ch {
					if !o.want || o.name == "WithTCPTimeout" && len(ch) > 1 || o.name == "WithSerialConfig" && !under(c.p.typ(k.typ), path, cfgT) {
						bad = path
					}
				}
				c.ob("a setting changes only what it names", k.typ+" "+o.name, bad == "", in, r.st, pos, o.name, "the option also changes field %s", bad)
				c.ob("a setting changes only what it names", k.typ+" "+o.name, !o.want || len(ch) > 0, in, r.st, pos, o.name, "the option changes nothing")
			}
			c.ob("a setting changes only what it names", k.typ+" "+o.name, len(rs) > 0, in, nil, pos, o.name, "no outcome")
		}
	}
}

// under: the field at path lies inside a field of type want.
func under(t types.Type, path string, want types.Type) bool {
	for _, s := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		if types.Identical(t, want) {
			return true
		}
		st := structOf(t)
		i := 0
		fmt.Sscan(s, &i)
		if st == nil || i >= st.NumFields() {
			return false
		}
		t = st.Field(i).Type()
	}
	return types.Identical(t, want)
}

// ---- settings of the servers -------------------------------------------------------

func k01setters(c *Ctx) {
	type setterOf struct {
		method string
		args   []Value
		n      int // fields it may change
	}
	sym := func(n string) Value { return VInt{symL(namedSym(n, -1<<60, 1<<60))} }
	user := func(id string) Value { return VFunc{id: id, nil_: zeroL} }
	nilF := VFunc{nil_: oneL}
	on := Value(VBool{norm(Atom{opGE, symL(namedSym("enable", 0, 1)).addc(-1)})})
	for _, T := range []string{"TCPServer", "TCPServerSpecial"} {
		list := []setterOf{{"SetReadTimeout", []Value{sym("rto")}, 1}, {"SetWriteTimeout", []Value{sym("wto")}, 1}}
		if T == "TCPServerSpecial" {
			list = append(list,
				setterOf{"SetConnectTimeout", []Value{sym("cto")}, 1}, setterOf{"SetReconnectInterval", []Value{sym("ri")}, 1},
				setterOf{"EnableAutoReconnect", []Value{on}, 1}, setterOf{"SetTLSConfig", []Value{nil}, 1},
				setterOf{"SetOnConnectHandler", []Value{user("u1")}, 1}, setterOf{"SetConnectionLostHandler", []Value{user("u2")}, 1},
				setterOf{"SetKeepAlive", []Value{on, sym("ki"), user("u3")}, 3},
				setterOf{"SetOnConnectHandler", []Value{nilF}, 0}, setterOf{"SetConnectionLostHandler", []Value{nilF}, 0},
				setterOf{"SetKeepAlive", []Value{on, VInt{con(0)}, nilF}, 1})
		}
		owner := map[string]string{}
		for _, m := range list {
			in, st := c.interp()
			quietLogs(c, in)
			fn := c.method(T, m.method)
			id := in.lazyObj(kCells, c.p.typ(T), "server")
			p := VPtr{obj: id, nil_: zeroL}
			args := []Value{p}
			for i, a := range m.args {
				if a == nil {
					v := in.unknown(st, fn.Params[1+i].Type(), "tls").(VPtr)
					v.nil_ = zeroL
					a = v
				}
				args = append(args, a)
			}
			// read every field once so that both states know it
			leaves(c.p.typ(T), "", func(path string, v *types.Var) {
				st.mut(id).cells[path] = in.unknown(st, v.Type(), "server"+path)
			})
			rs := c.run(in, st.clone(), fn, args)
			changed := map[string]bool{}
			for _, r := range rs {
				nm := T + "." + m.method
				if !c.ob("a setting changes only what it names", nm, !r.panic, in, r.st, fn.Pos(), nm, "panics") {
					continue
				}
				ch := changedLeaves(c.p.typ(T), st, r.st, p)
				for _, x := range ch {
					changed[x] = true
				}
				for i, a := range args[1:] {
					if z, ok := a.(VFunc); m.n == 0 || ok && isTrueL(z.nil_) {
						continue
					}
					if x, ok := a.(VInt); ok && m.method == "SetKeepAlive" && r.st.entails(le(x.l, zeroL)) {
						continue
					}
					found := false
					for _, x := range ch {
						f := typeAt(c.p.typ(T), x)
						found = found || types.AssignableTo(fn.Params[1+i].Type(), f) && sameVal(r.st, a, r.st.loadPath(r.st.obj(id), x, f))
					}
					c.ob("a setting takes effect", nm, found, in, r.st, fn.Pos(), nm, "on some path the value of %s is not kept", fn.Params[1+i].Name())
				}
				if len(r.rets) == 1 {
					q, ok := r.rets[0].(VPtr)
					c.ob("a setter returns its server", nm, ok && q.obj == id && q.path == "", in, r.st, fn.Pos(), nm, "the setter returns another server")
				}
			}
			nm := T + "." + m.method
			c.ob("a setting changes only what it names", nm, len(changed) <= m.n && (m.n == 0 || len(changed) > 0), in, nil, fn.Pos(), nm, "%d fields are changed, at most %d expected (a nil handler or interval of zero leaves the one in force)", len(changed), m.n)
			for x := range changed {
				o := owner[x]
				c.ob("a setting changes only what it names", nm, o == "" || o == m.method, in, nil, fn.Pos(), nm, "the field %s is also set by %s", x, o)
				owner[x] = m.method
			}
		}
		// defaults
		in, st := c.interp()
		quietLogs(c, in)
		st, ptr := c.build(in, st, "New"+T)
		for _, d := range []struct{ method, konst string }{{"SetReadTimeout", "TCPDefaultReadTimeout"}, {"SetWriteTimeout", "TCPDefaultWriteTimeout"},
			{"SetConnectTimeout", "DefaultConnectTimeout"}, {"SetReconnectInterval", "DefaultReconnectInterval"}} {
			if c.p.method(T, d.method) == nil {
				continue
			}
			f := c.setterField(T, d.method)
			v, ok := st.loadPath(st.obj(ptr.obj), ptr.path+f.path, f.typ).(VInt)
			fn := c.fn("New" + T)
			c.ob("without configuration the documented defaults are in force", T+" "+d.konst, ok && provEq(st, v.l, con(c.pkgConst(d.konst))), in, st, fn.Pos(), shortFn(fn), "the default is not %s", d.konst)
		}
	}
}

// ---- the reverse-connecting server -------------------------------------------------

var tlsSchemes = []string{"ssl", "tls", "tcps"}

// urlField is a string field of the remote URL.
func (s *special) urlField(st *State, name string) (VStr, bool) {
	u, ok := s.remote(st)
	if !ok {
		return VStr{}, false
	}
	t := st.obj(u.obj).typ
	f, ft, ok := fieldPath(t, name)
	if !ok {
		return VStr{}, false
	}
	v, ok := st.load(VPtr{obj: u.obj, path: u.path + f}, ft).(VStr)
	return v, ok
}

func (s *special) remote(st *State) (VPtr, bool) {
	var u VPtr
	n := 0
	leaves(s.c.p.typ("TCPServerSpecial"), "", func(path string, v *types.Var) {
		if p, ok := v.Type().(*types.Pointer); ok && p.Elem().String() == "net/url.URL" {
			if x, ok := st.loadPath(st.obj(s.ptr.obj), s.ptr.path+path, v.Type()).(VPtr); ok {
				u = x
				n++
			}
		}
	})
	return u, n == 1
}

// mayBe: the string may equal the constant on the path.
func (s *special) mayBe(st *State, v VStr, k string) bool {
	for _, a := range s.in.strEqual(st.clone(), strConst(k), v) {
		if y, _ := a.st.fork(a.a); y != nil && y.feasible() {
			return true
		}
	}
	return false
}

func (s *special) mustBe(st *State, v VStr, ks ...string) bool {
	cur := []*State{st.clone()}
	for _, k := range ks {
		var next []*State
		for _, x := range cur {
			for _, a := range s.in.strEqual(x.clone(), strConst(k), v) {
				if _, n := a.st.fork(a.a); n != nil && n.feasible() {
					next = append(next, n)
				}
			}
		}
		cur = next
	}
	return len(cur) == 0
}

// noAttempt: a round without a connection attempt is only right for an unknown scheme.
func (s *special) noAttempt(st *State, pos token.Pos, chain string) {
	if s.c.id != "K01" || s.in.quiet > 0 {
		return
	}
	sch, ok := s.urlField(st, "Scheme")
	good := ok
	for _, k := range append([]string{"tcp"}, tlsSchemes...) {
		good = good && !s.mayBe(st, sch, k)
	}
	s.c.ob("the scheme of the remote server decides how it is dialled", s.nm, good, s.in, st, pos, chain, "no connection attempt is made for a known scheme")
}

// settings follows what the settings are used for (K01).
func (s *special) settings(fr *Frame, st *State, e *Event) {
	c, in := s.c, s.in
	if c.id != "K01" {
		return
	}
	wait := func(d string) {
		if st.mon["k:why"] == "" {
			s.noAttempt(st, e.pos, e.chain)
			st.mon["k:why"] = "failed"
		}
		st.mon["k:wait"] = d
	}
	switch e.kind {
	case "open":
		if e.name != "dial" {
			return
		}
		why, w := st.mon["k:why"], st.mon["k:wait"]
		switch why {
		case "failed", "refused":
			c.ob("the reconnect interval is waited after a failed attempt", s.nm+" ("+why+")", w == "interval", in, st, e.pos, e.chain, "the next attempt is not made one reconnect interval after a %s one", why)
		case "lost":
			c.ob("a lost connection is retried after a pause", s.nm, w == "pause" || w == "interval", in, st, e.pos, e.chain, "the next attempt is not made half a second to a second after the connection was lost")
		}
		delete(st.mon, "k:wait")
		delete(st.mon, "k:why")
		if err, ok := e.vals[1].(VIface); ok && isTrueL(err.nil_) {
			st.mon["k:why"] = "connected"
		} else {
			st.mon["k:why"] = "failed"
		}
		if in.quiet > 0 {
			return
		}
		nw, ad, ok := netArgs(e)
		host, ok2 := s.urlField(st, "Host")
		c.ob("the remote server is dialled at its address", s.nm, ok && ok2 && isTCP(nw) && strSame(st, ad, host), in, st, e.pos, e.chain, "the connection is not a TCP connection to the host of the remote server")
		c.ob("connecting uses the connect timeout", s.nm, dialTimeout(st, e, s.cto), in, st, e.pos, e.chain, "the connection attempt does not use the connect timeout")
		sch, ok3 := s.urlField(st, "Scheme")
		enc := ""
		if len(e.vals) > 3 {
			enc = e.vals[3].(VStr).s
		}
		if strings.HasPrefix(enc, "crypto/tls.") {
			c.ob("the scheme of the remote server decides how it is dialled", s.nm+" (TLS)", ok3 && s.mustBe(st, sch, tlsSchemes...), in, st, e.pos, e.chain, "a TLS connection is made for another scheme than ssl, tls and tcps")
			good := false
			for _, a := range e.vals[2].(VTuple).v {
				if p, ok := a.(VPtr); ok && p.obj >= 0 && p.obj == s.tls.obj && p.path == s.tls.path {
					good = true
				}
			}
			c.ob("TLS uses the configuration set", s.nm, good, in, st, e.pos, e.chain, "the TLS configuration used is not the one set")
		} else {
			c.ob("the scheme of the remote server decides how it is dialled", s.nm+" (plain)", ok3 && s.mustBe(st, sch, "tcp"), in, st, e.pos, e.chain, "an unencrypted connection is made for another scheme than tcp")
		}
	case "callback":
		if e.name == userConnect {
			if err, ok := e.vals[len(e.vals)-1].(VIface); !ok || !isTrueL(err.nil_) {
				st.mon["k:why"] = "refused"
			}
		}
	case "serve":
		st.mon["k:why"] = "lost"
		delete(st.mon, "k:wait")
	case "sleep":
		if d, ok := e.vals[0].(VInt); ok {
			wait(s.span(st, d.l))
		}
	case "timeafter", "newticker":
		s.timer(st, e)
	case "select", "recv":
		if e.name != "-1" {
			if r, ok := e.vals[0].(VRef); ok && s.timers[r.obj] != "" {
				wait(s.timers[r.obj])
			}
		}
	}
}

// span is what a duration is.
func (s *special) span(st *State, d Lin) string {
	switch {
	case provEq(st, d, s.rint):
		return "interval"
	case provEq(st, d, s.kint):
		return "keep"
	case st.entails(ge(d, con(500*1000*1000))) && st.entails(le(d, con(1000*1000*1000))):
		return "pause"
	}
	return "other"
}

// timer marks the channel of a ticker or timer with its duration.
func (s *special) timer(st *State, e *Event) {
	d, ok := e.vals[0].(VInt)
	if !ok {
		return
	}
	v := e.vals[1]
	if p, ok := v.(VPtr); ok {
		f, ft, ok := fieldPath(st.obj(p.obj).typ, "C")
		if !ok {
			return
		}
		v = st.load(VPtr{obj: p.obj, path: p.path + f}, ft)
	}
	if r, ok := v.(VRef); ok {
		s.timers[r.obj] = s.span(st, d.l)
	}
}

// keepWait follows the waiting of the keep-alive goroutine.
func (s *special) keepWait(st *State, e *Event) {
	c, in := s.c, s.in
	if c.id != "K01" {
		return
	}
	switch e.kind {
	case "timeafter", "newticker":
		s.timer(st, e)
	case "sleep":
		if d, ok := e.vals[0].(VInt); ok {
			st.mon["k:kw"] = s.span(st, d.l)
		}
	case "select", "recv":
		if e.name != "-1" {
			if r, ok := e.vals[0].(VRef); ok && s.timers[r.obj] != "" {
				st.mon["k:kw"] = s.timers[r.obj]
			}
		}
	case "callback":
		if e.name == userKeep && in.quiet == 0 {
			c.ob("keep-alive calls are made at the configured interval", s.nm, st.mon["k:kw"] == "keep", in, st, e.pos, e.chain, "the keep-alive handler is not called one configured interval after the last call")
			delete(st.mon, "k:kw")
		}
	}
}

func k01(c *Ctx) {
	k01clients(c)
	k01setters(c)
	// the TCP server listens where it is told
	in, st := c.interp()
	quietLogs(c, in)
	c.serving(in)
	in.nonNil = defaultNonNil
	st, p := c.build(in, st, "NewTCPServer")
	fn := c.method("TCPServer", "ListenAndServe")
	addr := in.unknown(st, types.Typ[types.String], "addr").(VStr)
	n := 0
	in.onEvent = func(fr *Frame, st *State, e *Event) {
		if e.kind == "open" && e.name == "listen" && in.quiet == 0 {
			n++
			nw, ad, ok := netArgs(e)
			c.ob("the server listens at the address given", shortFn(fn), ok && isTCP(nw) && strSame(st, ad, addr), in, st, e.pos, e.chain, "the server does not listen with TCP at the address given")
		}
	}
	c.run(in, st, fn, []Value{p, addr})
	c.ob("the server listens at the address given", shortFn(fn), n > 0, in, nil, fn.Pos(), "", "no path listens")
	// what a reverse-connecting server does with its settings
	for _, auto := range []bool{true, false} {
		for _, s := range c.newSpecials(auto, true, true) {
			for _, e := range s.starting() {
				s.running(e)
			}
		}
	}
	c.atLeast("the scheme of the remote server decides how it is dialled", 3)
	c.atLeast("the reconnect interval is waited after a failed attempt", 2)
	c.atLeast("a lost connection is retried after a pause", 1)
	c.atLeast("keep-alive calls are made at the configured interval", 1)
	c.atLeast("TLS uses the configuration set", 1)
}

// ---- the remote address ------------------------------------------------------------

// k02: AddRemoteServer completes an address and keeps what it parsed.
func k02(c *Ctx) {
	in, st := c.interp()
	quietLogs(c, in)
	in.nonNil = defaultNonNil
	st, p := c.build(in, st, "NewTCPServerSpecial")
	fn := c.method("TCPServerSpecial", "AddRemoteServer")
	nm := shortFn(fn)
	s := &special{c: c, in: in, ptr: p}
	addr := in.unknown(st, types.Typ[types.String], "address").(VStr)
	leaves(c.p.typ("TCPServerSpecial"), "", func(path string, v *types.Var) {
		if p, ok := v.Type().(*types.Pointer); ok && p.Elem().String() == "net/url.URL" {
			u := in.unknown(st, v.Type(), "remote").(VPtr)
			u.nil_ = zeroL
			st.mut(s.ptr.obj).cells[path] = u
		}
	})
	old, ok := s.remote(st)
	if !ok {
		stop("the remote address of a reverse-connecting server was not found")
	}
	cases := 0
	for _, r := range c.run(in, st, fn, []Value{p, addr}) {
		if r.panic {
			c.ob("adding a remote server does not panic", nm, false, in, r.st, r.st.pan.pos, r.st.pan.chain, "panics: %s", r.st.pan.msg)
			continue
		}
		es := eventsOf(r.st, "open")
		if !c.ob("the address is parsed once", nm, len(es) == 1 && es[0].name == "url", in, r.st, fn.Pos(), nm, "the address is not parsed exactly once") {
			continue
		}
		e := es[0]
		isNil, notNil := nilness(r.st, r.rets[len(r.rets)-1])
		now, _ := s.remote(r.st)
		if err, _ := e.vals[1].(VIface); isTrueL(err.nil_) {
			u, isP := e.vals[0].(VPtr)
			c.ob("a valid address is stored", nm, isNil && isP && now.obj == u.obj && now.path == u.path, in, r.st, e.pos, e.chain, "a parsed address is not stored, or reported as an error")
		} else {
			c.ob("an invalid address is refused and changes nothing", nm, notNil && (now.obj == old.obj || isTrueL(now.nil_) && isTrueL(old.nil_)), in, r.st, e.pos, e.chain, "an address that cannot be parsed is stored, or not reported")
		}
		t, _ := e.vals[2].(VTuple)
		var got VStr
		okS := false
		if len(t.v) == 1 {
			got, okS = t.v[0].(VStr)
		}
		c.ob("an address is completed as documented", nm, okS, in, r.st, e.pos, e.chain, "what is parsed is not known")
		if !okS {
			continue
		}
		// the cases of the documentation
		colon, plain := r.st.fork(ge(addr.ln, oneL))
		var noColon []*State
		if plain != nil {
			noColon = append(noColon, plain)
		}
		var isColon []*State
		if colon != nil {
			for _, a := range colon.read(addr.snap.c, addr.snap.off, 8) {
				y, n := a.st.fork(eq(a.val, con(':')))
				if y != nil {
					isColon = append(isColon, y)
				}
				if n != nil {
					noColon = append(noColon, n)
				}
			}
		}
		one := func(sts []*State, full VStr) {
			for _, q := range sts {
				y, n := q.fork(contains(full, strConst("://")))
				if y != nil && y.feasible() {
					cases++
					c.ob("an address is completed as documented", nm, strSame(y, got, full), in, y, e.pos, e.chain, "an address with a scheme is not parsed as it is (after completing a missing host by 127.0.0.1)")
				}
				if n != nil && n.feasible() {
					cases++
					c.ob("an address is completed as documented", nm, strSame(n, got, in.concat(n, strConst("tcp://"), full).(VStr)), in, n, e.pos, e.chain, "an address without a scheme is not completed by tcp://")
				}
			}
		}
		one(isColon, in.concat(r.st, strConst("127.0.0.1"), addr).(VStr))
		one(noColon, addr)
	}
	c.ob("an address is completed as documented", nm, cases >= 4, in, nil, fn.Pos(), nm, "only %d cases found", cases)
}

// ---- errors of the accepting loop ----------------------------------------------------

// temporary: the accept error on the path may be a temporary one.
func mayBeTemporary(st *State, id string) bool {
	s := st.clone()
	for _, n := range []string{"is:" + id + ":net.Error", "is:" + id + ":interface{Temporary() bool}", "temporary:" + id} {
		s.assume(eq(symL(namedSym(n, 0, 1)), oneL))
	}
	return s.feasible()
}

func v08(c *Ctx) {
	in, st := c.interp()
	quietLogs(c, in)
	c.serving(in)
	in.nonNil = defaultNonNil
	st, p := c.build(in, st, "NewTCPServer")
	fn := c.method("TCPServer", "ListenAndServe")
	nm := shortFn(fn)
	fails, temps := 0, 0
	key := func(st *State) string { return st.mon["v8"] }
	settle := func(st *State, pos token.Pos, chain, what string) {
		id := key(st)
		if id == "" {
			return
		}
		if in.quiet == 0 {
			temps++
			t := st.clone()
			t.assume(eq(symL(namedSym("temporary:"+id, 0, 1)), zeroL))
			c.ob("only temporary errors are survived", nm, !t.feasible(), in, st, pos, chain, "%s after an error that is not known to be temporary", what)
			c.ob("a temporary error is followed by a bounded pause", nm, st.mon["v8w"] == "1", in, st, pos, chain, "%s without a pause of 5 ms to 1 s", what)
		}
		delete(st.mon, "v8")
		delete(st.mon, "v8w")
	}
	timers := map[int]string{}
	span := func(st *State, d Lin) string {
		if st.entails(ge(d, con(5*1000*1000))) && st.entails(le(d, con(1000*1000*1000))) {
			return "1"
		}
		return "x"
	}
	in.onEvent = func(fr *Frame, st *State, e *Event) {
		switch e.kind {
		case "open":
			if e.name != "accept" {
				return
			}
			settle(st, e.pos, e.chain, "the next connection is accepted")
			if err, ok := e.vals[1].(VIface); ok && !isTrueL(err.nil_) {
				st.mon["v8"] = err.id
				if in.quiet == 0 {
					fails++
				}
			}
		case "sleep":
			if d, ok := e.vals[0].(VInt); ok && key(st) != "" {
				st.mon["v8w"] = span(st, d.l)
			}
		case "timeafter":
			if r, ok := e.vals[1].(VRef); ok {
				if d, ok := e.vals[0].(VInt); ok {
					timers[r.obj] = span(st, d.l)
				}
			}
		case "select", "recv":
			if e.name != "-1" && key(st) != "" {
				if r, ok := e.vals[0].(VRef); ok && timers[r.obj] != "" {
					st.mon["v8w"] = timers[r.obj]
				}
				if strings.HasPrefix(chanKey(st, e.vals[0]), "done:") {
					st.mon["v8stop"] = "1"
				}
			}
		case "ctxerr":
			if err, ok := e.vals[1].(VIface); ok && st.entails(eq(err.nil_, zeroL)) {
				st.mon["v8stop"] = "1"
			}
		}
	}
	in.atBack = func(g *generaliser, st *State) []*State {
		if key(st) != g.entry.st.mon["v8"] {
			settle(st, g.l.head.Instrs[0].Pos(), g.fr.chain(), "the next round begins")
		}
		return []*State{st}
	}
	rs := c.run(in, st, fn, []Value{p, in.unknown(st, types.Typ[types.String], "addr")})
	ends := 0
	for _, r := range rs {
		if r.panic {
			continue
		}
		id := key(r.st)
		err, isI := r.rets[0].(VIface)
		if id == "" {
			// listening failed
			_, nn := nilness(r.st, r.rets[0])
			c.ob("failing to listen is reported", nm, nn, in, r.st, fn.Pos(), nm, "the server ends without an error before it has accepted anything")
			continue
		}
		if r.st.mon["v8stop"] != "" {
			continue
		}
		ends++
		c.ob("a temporary error does not end the server", nm, !mayBeTemporary(r.st, id), in, r.st, fn.Pos(), nm, "the server ends after an error that may be temporary")
		c.ob("the error that ends the server is returned", nm, isI && err.id == id, in, r.st, fn.Pos(), nm, "the error returned is not the one of the listener")
	}
	c.ob("a temporary error does not end the server", nm, fails > 0 && temps > 0 && ends > 0, in, nil, fn.Pos(), nm, "%d failing accepts, %d survived, %d ends found", fails, temps, ends)
	c.ob("failing to listen is reported", nm, len(rs) > ends, in, nil, fn.Pos(), nm, "no path fails to listen")
}

var _ = ssa.NaiveForm

func init() {
	register("K01", "Configuration flow. The transports are built by interpreting their constructors with and without options of symbolic values; every connection attempt of Connect and SendRawFrame must use exactly these values (address, timeout, every serial parameter) or the documented defaults. Every setter is interpreted on a server of arbitrary settings: exactly its own fields change, disjoint from those of the other setters, nil handlers and non-positive intervals change nothing. The goroutine of the reverse-connecting server is interpreted with symbolic settings: the host dialled, encryption per scheme with the TLS configuration set, the connect timeout, the wait between attempts and the keep-alive interval must be those set.", k01)
	register("K02", "AddRemoteServer is interpreted on an arbitrary string: on every path the string parsed, compared at an arbitrary index, is the documented completion (127.0.0.1 before a leading colon, tcp:// when there is no scheme), the result of parsing is stored exactly when it succeeded, and a failure is returned.", k02)
	register("V08", "The accepting loop is interpreted with Accept failing arbitrarily: a path that ends the server after an error, without the stop signal seen, must contradict that the error is temporary and return that error; a path that goes on must entail that it is temporary and have paused 5 ms to 1 s, with the pause as a loop invariant.", v08)
}
