package main

// Logging (M01): decided on every public object that logs.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type logObj struct {
	typ, ctor string
}

var logObjs = []logObj{
	{"RTUClientProvider", "NewRTUClientProvider"}, {"ASCIIClientProvider", "NewASCIIClientProvider"}, {"TCPClientProvider", "NewTCPClientProvider"},
	{"TCPServer", "NewTCPServer"}, {"TCPServerSpecial", "NewTCPServerSpecial"},
}

// logWorld is two objects of a type with log providers of their own.
type logWorld struct {
	c        *Ctx
	o        logObj
	in       *Interp
	st       *State
	a, b     VPtr
	analysed map[*ssa.Function]bool
	format   VStr
	args     VSlice
}

func userProvider(id string) VIface { return VIface{id: id, nil_: zeroL} }

func (w *logWorld) nm(what string) string { return w.o.typ + " " + what }

// call runs a method and requires one outcome.
func (w *logWorld) call(st *State, p VPtr, method string, args ...Value) *State {
	fn := w.c.method(w.o.typ, method)
	rs := w.c.run(w.in, st.clone(), fn, append([]Value{p}, args...))
	var out *State
	n := 0
	for _, r := range rs {
		if r.panic {
			w.c.ob("logging does not panic", w.nm(method), false, w.in, r.st, r.st.pan.pos, r.st.pan.chain, "%s may panic: %s", method, r.st.pan.msg)
			continue
		}
		n++
		out = r.st
	}
	if n != 1 {
		stop("%s.%s has %d outcomes", w.o.typ, method, n)
	}
	return out
}

// emitted are the provider calls a message causes.
func (w *logWorld) emitted(st *State, p VPtr, method string) ([][]*Event, *State) {
	fn := w.c.method(w.o.typ, method)
	s := st.clone()
	s.ev = nil
	var out [][]*Event
	for _, r := range w.c.run(w.in, s, fn, []Value{p, w.format, w.args}) {
		if r.panic {
			w.c.ob("logging does not panic", w.nm(method), false, w.in, r.st, r.st.pan.pos, r.st.pan.chain, "%s may panic: %s", method, r.st.pan.msg)
			continue
		}
		w.c.ob("logging does not panic", w.nm(method), true, w.in, nil, 0, "", "")
		var es []*Event
		for _, e := range eventsOf(r.st, "ext") {
			es = append(es, e)
		}
		out = append(out, es)
	}
	return out, st
}

// silent: a message on the object reaches no provider.
func (w *logWorld) silent(st *State, p VPtr, when string) {
	for _, m := range []string{"Debugf", "Errorf"} {
		outs, _ := w.emitted(st, p, m)
		for _, es := range outs {
			name := ""
			if len(es) > 0 {
				name = es[0].name
			}
			w.c.ob("silent while off", w.nm(m), len(es) == 0, w.in, st, w.c.method(w.o.typ, m).Pos(), m, "%s: a message reaches %s", when, name)
		}
		w.c.ob("silent while off", w.nm(m), len(outs) > 0, w.in, st, 0, m, "no outcome")
	}
}

// printed: the built-in provider prints the message, with the arguments given, and returns.
func (w *logWorld) printed(st *State, m string, es []*Event) {
	for _, e := range es {
		f := e.name[strings.LastIndex(e.name, ".")+1:]
		prints := strings.HasPrefix(f, "Print") || strings.HasPrefix(f, "Fprint") || strings.HasPrefix(f, "Log") || f == "Output" || f == "Write" || f == "WriteString"
		w.c.ob("the built-in provider prints and returns", w.nm(m), prints, w.in, st, e.pos, e.chain, "a message logged through the built-in provider calls %s", e.name)
		if f != "Printf" && f != "Fprintf" || len(e.vals) == 0 {
			continue
		}
		a, ok := e.vals[len(e.vals)-1].(VSlice)
		ok = ok && a.arr == w.args.arr && st.entails(eq(a.off, w.args.off)) && st.entails(eq(a.len, w.args.len))
		w.c.ob("the built-in provider prints and returns", w.nm(m), ok, w.in, st, e.pos, e.chain, "the arguments printed are others than those given")
	}
}

// heard: a message on the object reaches exactly its provider, unchanged.
func (w *logWorld) heard(st *State, p VPtr, prov VIface, when string) {
	for _, m := range []string{"Debugf", "Errorf"} {
		pos := w.c.method(w.o.typ, m).Pos()
		outs, _ := w.emitted(st, p, m)
		w.c.ob("messages reach the provider while on", w.nm(m), len(outs) > 0, w.in, st, pos, m, "no outcome")
		for _, es := range outs {
			if !w.c.ob("messages reach the provider while on", w.nm(m), len(es) == 1, w.in, st, pos, m, "%s: %d calls of the provider for one message", when, len(es)) {
				continue
			}
			e := es[0]
			ok := strings.HasSuffix(e.name, "LogProvider."+m) && len(e.vals) == 3
			w.c.ob("messages reach the provider while on", w.nm(m), ok, w.in, st, e.pos, e.chain, "%s: %s is called", when, e.name)
			if !ok {
				continue
			}
			r, isI := e.vals[0].(VIface)
			w.c.ob("messages reach the object's own provider", w.nm(m), isI && r.id == prov.id && r.typ == nil, w.in, st, e.pos, e.chain, "%s: another provider is called", when)
			f, isS := e.vals[1].(VStr)
			w.c.ob("format and arguments unchanged", w.nm(m), isS && !f.known && f.id == w.format.id, w.in, st, e.pos, e.chain, "the format handed to the provider is another string")
			a, isA := e.vals[2].(VSlice)
			ok = isA && a.arr == w.args.arr && st.entails(eq(a.off, w.args.off)) && st.entails(eq(a.len, w.args.len))
			w.c.ob("format and arguments unchanged", w.nm(m), ok, w.in, st, e.pos, e.chain, "the arguments handed to the provider are others")
		}
	}
}

func m01(c *Ctx) {
	analysed := map[*ssa.Function]bool{}
	for _, o := range logObjs {
		w := &logWorld{c: c, o: o, analysed: analysed}
		w.in, w.st = c.interp()
		w.in.onCall = func(fr *Frame, st *State, fn *ssa.Function, args []Value) { analysed[fn] = true }
		st := w.st
		mk := func() VPtr {
			fn := c.fn(o.ctor)
			var args []Value
			for i, prm := range fn.Params {
				if i == len(fn.Params)-1 && fn.Signature.Variadic() {
					args = append(args, VSlice{arr: -1, nil_: oneL})
					continue
				}
				args = append(args, w.in.unknown(st, prm.Type(), prm.Name()))
			}
			rs := c.run(w.in, st, fn, args)
			if len(rs) != 1 || rs[0].panic {
				stop("%s has no single outcome", o.ctor)
			}
			st = rs[0].st
			p, ok := rs[0].rets[0].(VPtr)
			if !ok {
				stop("%s does not return a pointer", o.ctor)
			}
			return p
		}
		w.a, w.b = mk(), mk()
		st.ev = nil
		w.format = w.in.unknown(st, types.Typ[types.String], "format").(VStr)
		w.args = w.in.unknown(st, types.NewSlice(types.NewInterfaceType(nil, nil)), "args").(VSlice)
		pa, pb, pn := userProvider("provider a"), userProvider("provider b"), VIface{id: "nil", nil_: oneL}
		on, off := VBool{aTrue}, VBool{aFalse}

		// with the provider of the constructor: works, silent at first
		w.silent(st, w.a, "never switched on")
		s := w.call(st, w.a, "LogMode", on)
		for _, m := range []string{"Debugf", "Errorf"} {
			outs, _ := w.emitted(s, w.a, m)
			for _, es := range outs {
				c.ob("messages reach the provider while on", w.nm(m), len(es) == 1, w.in, s, c.method(o.typ, m).Pos(), m, "%d calls for one message with the provider of the constructor", len(es))
				w.printed(s, m, es)
			}
		}
		w.silent(s, w.b, "another object was switched on")
		s = w.call(s, w.a, "setLogProvider", pn)
		for _, m := range []string{"Debugf", "Errorf"} {
			outs, _ := w.emitted(s, w.a, m)
			for _, es := range outs {
				c.ob("a nil provider is never installed", w.nm(m), len(es) == 1, w.in, s, c.method(o.typ, "setLogProvider").Pos(), "setLogProvider", "the provider is lost when nil is set")
			}
		}
		c.ob("a nil provider is never installed", w.nm("setLogProvider"), true, w.in, nil, 0, "", "")

		// with providers of the user
		st = w.call(st, w.a, "setLogProvider", pa)
		st = w.call(st, w.b, "setLogProvider", pb)
		w.silent(st, w.a, "never switched on")
		s = w.call(st, w.a, "LogMode", on)
		w.heard(s, w.a, pa, "switched on")
		w.silent(s, w.b, "another object was switched on")
		s2 := w.call(s, w.b, "LogMode", on)
		w.heard(s2, w.b, pb, "both switched on")
		w.heard(s2, w.a, pa, "both switched on")
		s3 := w.call(s2, w.a, "LogMode", off)
		w.silent(s3, w.a, "switched off")
		w.heard(s3, w.b, pb, "another object was switched off")
		s4 := w.call(s3, w.a, "LogMode", on)
		w.heard(s4, w.a, pa, "switched on again")
		s5 := w.call(s, w.a, "LogMode", on)
		w.heard(s5, w.a, pa, "switched on twice")
		s6 := w.call(w.call(s, w.a, "LogMode", off), w.a, "LogMode", off)
		w.silent(s6, w.a, "switched off twice")
		s7 := w.call(s, w.a, "setLogProvider", pn)
		w.heard(s7, w.a, pa, "after setting a nil provider")
		s8 := w.call(s, w.a, "setLogProvider", pb)
		w.heard(s8, w.a, pb, "after setting another provider")
	}
	// the options of the transports
	for _, k := range transports {
		w := &logWorld{c: c, o: logObj{k.typ, k.ctor}, analysed: analysed}
		w.in, w.st = c.interp()
		w.in.onCall = func(fr *Frame, st *State, fn *ssa.Function, args []Value) { analysed[fn] = true }
		p := c.fn(k.ctor)
		st := w.st
		w.format = w.in.unknown(st, types.Typ[types.String], "format").(VStr)
		w.args = w.in.unknown(st, types.NewSlice(types.NewInterfaceType(nil, nil)), "args").(VSlice)
		pa := userProvider("provider a")
		option := func(name string, args ...Value) VFunc {
			rs := c.run(w.in, st, c.fn(name), args)
			if len(rs) != 1 || rs[0].panic {
				stop("%s has no single outcome", name)
			}
			st = rs[0].st
			f, ok := rs[0].rets[0].(VFunc)
			if !ok || f.fn == nil {
				stop("%s does not return a function", name)
			}
			return f
		}
		opts := []Value{option("WithLogProvider", pa), option("WithEnableLogger")}
		for _, both := range []bool{true, false} {
			use := opts
			if !both {
				use = opts[:1]
			}
			s := st.clone()
			var args []Value
			for i, prm := range p.Params {
				if i == len(p.Params)-1 {
					args = append(args, sliceOf(s, c.p.typ("ClientProviderOption"), use...))
					continue
				}
				args = append(args, w.in.unknown(s, prm.Type(), prm.Name()))
			}
			rs := c.run(w.in, s, p, args)
			n := 0
			for _, r := range rs {
				if r.panic {
					c.ob("logging does not panic", w.nm("options"), false, w.in, r.st, r.st.pan.pos, r.st.pan.chain, "may panic: %s", r.st.pan.msg)
					continue
				}
				n++
				ptr := r.rets[0].(VPtr)
				if both {
					w.heard(r.st, ptr, pa, "enabled by option")
				} else {
					w.silent(r.st, ptr, "not enabled by option")
				}
			}
			c.ob("messages reach the provider while on", w.nm("options"), n > 0, w.in, nil, p.Pos(), "", "no outcome")
		}
	}
	// the sessions of a server log through the server
	sessionLogs(c)
	// nothing else calls or replaces a provider
	lp := c.p.typ("LogProvider")
	in := &Interp{prog: c.p.prog, pkg: c.p.pkg}
	calls, stores := 0, 0
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && types.Identical(ci.Common().Value.Type(), lp) {
					calls++
					c.ob("providers are called only by the logger", shortFn(f), analysed[f], in, nil, ins.Pos(), shortFn(f), "a log provider is called outside the analysed logging functions")
				}
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(st.Val.Type(), lp) {
					_ = fa
					stores++
					c.ob("providers are set only by the logger", shortFn(f), analysed[f], in, nil, ins.Pos(), shortFn(f), "a log provider is replaced outside the analysed functions")
				}
			}
		}
	}
	c.ob("providers are called only by the logger", "package", calls > 0, nil, nil, 0, "", "no call of a log provider was found")
	c.ob("providers are set only by the logger", "package", stores > 0, nil, nil, 0, "", "no place sets a log provider")
	c.atLeast("silent while off", 2*len(logObjs))
	c.atLeast("format and arguments unchanged", 2*len(logObjs))
	c.atLeast("a nil provider is never installed", len(logObjs))
	c.atLeast("the built-in provider prints and returns", 2*len(logObjs))
}

// sessionLogs: a session of a server uses the log switch and provider of the server.
func sessionLogs(c *Ctx) {
	logT := c.p.typ("logger")
	sv, ok := embedded(c.p.typ("TCPServer"), logT)
	if !ok {
		stop("TCPServer has no logger")
	}
	n := 0
	session := c.p.sessionFn()
	c.serverSessions(func(in *Interp, st *State, server, sess VPtr, e *Event) {
		n++
		good, found := true, false
		leaves(c.p.typ("ServerSession"), "", func(path string, v *types.Var) {
			if !namedPtr(v.Type(), logT) {
				return
			}
			found = true
			p, isPtr := st.loadPath(st.obj(sess.obj), sess.path+path, v.Type()).(VPtr)
			good = good && isPtr && p.obj == server.obj && p.path == sv
		})
		c.ob("sessions log through their server", shortFn(session), found && good, in, st, e.pos, e.chain, "the logger of the session is not the logger of the server")
	})
	c.ob("sessions log through their server", shortFn(session), n > 0, nil, nil, 0, "", "no session of a server was found")
}

func init() {
	register("M01", "The public objects that log (three transports, both servers) are built twice by interpreting their constructors; after every sequence of switching and provider settings of a fixed set the logging methods are interpreted with an unknown message: while off no provider may be called, while on exactly one call, of the method of the same name, of the object's own provider with the same format and argument slice. Every call of a log provider and every assignment of one in the source must be inside the functions analysed; the session of a server must log through the server's logger.", m01)
}
