package main

// Lock discipline of every operation (L02) and races on shared state (L03).

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rootRun is the analysis of one thread of control: an exported operation or a goroutine.
type rootRun struct {
	name    string
	fn      *ssa.Function
	in      *Interp
	rs      []callResult
	goro    bool
	serving bool     // the serving of a connection, in the goroutine that calls it
	gos     []*Event // goroutines started
}

type rootHooks struct {
	event  func(r *rootRun, fr *Frame, st *State, e *Event)
	access func(r *rootRun, fr *Frame, st *State, o *Obj, path string, write bool, pos token.Pos)
	done   func(r *rootRun)
}

func exportedRoot(f *ssa.Function) bool {
	return f.Object() != nil && f.Object().Exported() && f.Parent() == nil && f.Synthetic == ""
}

// recvNamed is the named type a method belongs to.
func recvNamed(f *ssa.Function) *types.Named {
	r := f.Signature.Recv()
	if r == nil {
		return nil
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// roots analyses every exported operation of the package, and every goroutine started, as a
// thread of its own.
func (c *Ctx) roots(h rootHooks) []*rootRun {
	var out []*rootRun
	shared := c.sharedFields()
	// what other threads may have changed when a lock is taken
	interfere := func(in *Interp, st *State, e *Event) {
		h := st.held[len(st.held)-1]
		if h.obj < 0 || st.obj(h.obj).owned {
			return
		}
		for _, o := range st.held[:len(st.held)-1] {
			if o.obj == h.obj {
				return
			}
		}
		o := st.obj(h.obj)
		n, _ := o.typ.(*types.Named)
		if n == nil {
			return
		}
		for _, path := range sortedKeys(shared[n.Obj().Name()]) {
			t := typeAt(o.typ, path)
			switch t.Underlying().(type) {
			case *types.Interface, *types.Pointer, *types.Signature:
				freshCnt++
				st.mut(h.obj).cells[path] = in.unknown(st, t, fmt.Sprintf("shared%s#%d", path, freshCnt))
			}
		}
	}
	install := func(r *rootRun) {
		in := r.in
		seen := map[*ssa.Function]int{}
		in.onEvent = func(fr *Frame, st *State, e *Event) {
			if e.kind == "lock" {
				interfere(in, st, e)
			}
			if in.quiet > 0 {
				return
			}
			if e.kind == "go" {
				if f, ok := e.vals[0].(VFunc); ok && f.fn != nil && seen[f.fn] < 4 {
					seen[f.fn]++
					r.gos = append(r.gos, e)
				}
			}
			if h.event != nil {
				h.event(r, fr, st, e)
			}
		}
		in.onAccess = func(fr *Frame, st *State, o *Obj, path string, write bool, pos token.Pos, ins ssa.Instruction) {
			if h.access != nil {
				h.access(r, fr, st, o, path, write, pos)
			}
		}
		in.override["callback"] = func(ci *callInfo) []callResult {
			// context.CancelFunc and plain func() values come from the standard library
			sg := ci.sig
			kind := "user"
			if sg.Params().Len() == 0 && sg.Results().Len() == 0 {
				kind = "library"
			}
			ci.in.event(ci.fr, ci.st, &Event{kind: "calls", name: kind, pos: ci.pos})
			return in.callback(ci)
		}
	}
	var finish func(r *rootRun)
	finish = func(r *rootRun) {
		out = append(out, r)
		if h.done != nil {
			h.done(r)
		}
		for _, e := range r.gos {
			f := e.vals[0].(VFunc)
			g := &rootRun{name: r.name + " > go " + shortFn(f.fn), fn: f.fn, in: r.in, goro: true}
			install(g)
			st := e.st.clone()
			st.held = nil
			st.ev = nil
			for _, x := range g.in.callFn(nil, st, f.fn, e.vals[1:], f.bind, f.fn.Pos(), false) {
				if x.st.feasible() {
					g.rs = append(g.rs, x)
					c.paths++
				}
			}
			finish(g)
		}
	}
	session, frame := c.p.sessionFn(), c.p.frameFn()
	standIn := func(in *Interp, f *ssa.Function) {
		in.override[shortFn(f)] = func(ci *callInfo) []callResult {
			for _, a := range ci.args {
				if s, ok := a.(VSlice); ok {
					in.havocArg(ci.st, s)
				}
			}
			return []callResult{{st: ci.st, rets: ci.unknownResults(ci.st)}}
		}
	}
	// serving a connection: of a server, and of a reverse-connecting server
	for _, f := range []*ssa.Function{session, frame} {
		for _, owner := range []string{"ServerSession", "TCPServerSpecial"} {
			s := c.newSession()
			path := ""
			if owner != "ServerSession" {
				p, ok := embedded(c.p.typ(owner), c.p.typ("ServerSession"))
				if !ok {
					continue
				}
				path = p
				id := s.in.lazyObj(kCells, c.p.typ(owner), "special")
				s.ptr = VPtr{obj: id, path: path, nil_: zeroL}
				s.conn, s.table = c.fillSession(s.in, s.st, id, path, "session")
			}
			r := &rootRun{name: owner + " > " + shortFn(f), fn: f, in: s.in, serving: true}
			install(r)
			if f == session {
				standIn(s.in, frame)
			}
			s.st.ghost["rx:rx"] = zeroL
			var data Value
			if f == frame {
				d, _ := inputSlice(s.in, s.st, tByte, "request", 260)
				s.st.assume(ge(d.len, con(8)))
				data = d
			}
			r.rs = c.run(s.in, s.st, f, s.args(c, s.st, f, data))
			finish(r)
		}
	}
	isTransport := map[string]transportKind{}
	for _, k := range transports {
		isTransport[k.typ] = k
	}
	done := map[string]bool{}
	for _, k := range transports {
		for _, m := range c.methodsOf(k.typ) {
			f := c.method(k.typ, m)
			if !token.IsExported(m) {
				continue
			}
			switch m {
			case "Errorf", "Debugf", "LogMode":
				continue // methods of the logger, analysed below
			}
			r := &rootRun{name: k.typ + "." + m, fn: f}
			done[r.name] = true
			switch m {
			case "Send", "SendPdu", "SendRawFrame":
				x := c.exchange(k, m, func(x *exchange) { x.st.mut(x.ptr.obj).owned = false; r.in = x.in; install(r) })
				r.rs = x.rs
			default:
				_, _, rs := c.transportCall(k, m, func(p *provider) { p.st.mut(p.ptr.obj).owned = false; r.in = p.in; install(r) })
				r.rs = rs
			}
			finish(r)
		}
	}
	for _, op := range bankOps {
		r := &rootRun{name: "NodeRegister." + op.name, fn: c.method("NodeRegister", op.name)}
		done[r.name] = true
		b := c.bankRun(op, false, func(b *bankRun) { b.b.st.mut(b.b.ptr.obj).owned = false; r.in = b.in; install(r) })
		r.rs = b.rs
		finish(r)
	}
	builtin := c.builtinHandlers()
	for _, f := range c.p.funcs {
		if !exportedRoot(f) && !builtin[f] {
			continue
		}
		nm := f.Name()
		if n := recvNamed(f); n != nil {
			nm = n.Obj().Name() + "." + nm
			if _, ok := isTransport[n.Obj().Name()]; ok || done[nm] {
				continue
			}
			if n.Obj().Name() == "serialPort" || n.Obj().Name() == "logger" && (f.Name() == "Errorf" || f.Name() == "Debugf") {
				continue // serial port operations are analysed as those of the transports
			}
		}
		in, st := c.interp()
		quietLogs(c, in)
		standIn(in, session)
		in.nonNil = func(t types.Type, name string) bool {
			if _, ok := t.Underlying().(*types.Signature); ok {
				return true
			}
			return defaultNonNil(t, name)
		}
		r := &rootRun{name: nm, fn: f, in: in}
		if builtin[f] {
			bitHelpersModel(c, in)
		}
		var args []Value
		for i, prm := range f.Params {
			if i == 0 && namedPtr(prm.Type(), c.p.typ("NodeRegister")) {
				b := c.newBank(in, st, "bank", false)
				st.mut(b.ptr.obj).owned = false
				args = append(args, b.ptr)
				continue
			}
			v := in.unknown(st, prm.Type(), "arg"+strconv.Itoa(i))
			if i == 0 && f.Signature.Recv() != nil {
				if p, ok := v.(VPtr); ok {
					p.nil_ = zeroL
					v = p
				}
			}
			args = append(args, v)
		}
		st.ghost["rx:rx"] = zeroL
		install(r)
		r.rs = c.run(in, st, f, args)
		finish(r)
	}
	return out
}

// l02: locks are released on every path, never taken twice, and not held over user code.
func l02(c *Ctx) {
	locks := map[string]bool{}
	inter := map[string]bool{}
	rs := c.roots(rootHooks{
		event: func(r *rootRun, fr *Frame, st *State, e *Event) {
			switch e.kind {
			case "lock":
				locks[e.name[strings.LastIndex(e.name, ".")+1:]] = true
				inter[r.name] = true
			case "calls":
				if e.name == "user" {
					c.ob("no lock held while user code runs", r.name, len(st.held) == 0, r.in, st, e.pos, e.chain, "user-supplied code is called while %s is held", heldNames(st))
				}
			case "ext":
				if strings.Contains(e.name, "ClientProvider.") {
					c.ob("no lock held while user code runs", r.name, len(st.held) == 0, r.in, st, e.pos, e.chain, "a user-supplied transport is called while %s is held", heldNames(st))
				}
			}
		},
		done: func(r *rootRun) {
			for _, x := range r.rs {
				how := "returns"
				pos, chain := r.fn.Pos(), shortFn(r.fn)
				if x.panic {
					how = "panics"
					if x.st.pan != nil {
						pos, chain = x.st.pan.pos, x.st.pan.chain
						how += " (" + x.st.pan.msg + ")"
					}
				}
				c.ob("every lock taken is released", r.name, len(x.st.held) == 0, r.in, x.st, pos, chain, "the operation %s while %s is held", how, heldNames(x.st))
			}
		},
	})
	seen := map[*Interp]bool{}
	for _, r := range rs {
		if seen[r.in] {
			continue
		}
		seen[r.in] = true
		bad := 0
		for _, i := range r.in.issues {
			if i.kind == "relock" || i.kind == "unlock" {
				bad++
				c.ob("locks are taken and released in turn", r.name, false, r.in, i.st, i.pos, i.chain, "%s", i.msg)
			}
		}
		if bad == 0 {
			c.ob("locks are taken and released in turn", r.name, true, r.in, nil, 0, "", "")
		}
	}
	// every use of a lock in the source was analysed
	analysed := map[token.Pos]bool{}
	for in := range seen {
		for p := range in.lockSites {
			analysed[p] = true
		}
	}
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || !isLockCall(ci.Common()) {
					continue
				}
				if _, deferred := ins.(*ssa.Defer); deferred && strings.Contains(ci.Common().StaticCallee().Name(), "Unlock") {
					continue // runs at the exits analysed
				}
				c.ob("every lock operation is analysed", shortFn(f), analysed[ins.Pos()] || !c.reachable(f), &Interp{prog: c.p.prog, pkg: c.p.pkg}, nil, ins.Pos(), shortFn(f), "this lock operation is not reached by any analysed operation")
			}
		}
	}
	c.ob("operations with locks found", "package", len(inter) >= 20, nil, nil, 0, "", "only %d operations take a lock", len(inter))
	c.ob("locks found", "package", len(locks) >= 4, nil, nil, 0, "", "only %d different locks", len(locks))
	c.atLeast("every lock taken is released", 80)
	c.atLeast("no lock held while user code runs", 2)
}

func heldNames(st *State) string {
	var s []string
	for _, h := range st.held {
		s = append(s, h.path)
	}
	return strings.Join(s, ", ")
}

func isLockCall(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	switch f.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock",
		"(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock", "(*sync.RWMutex).TryRLock":
		return true
	}
	return false
}

// reachable: the function is called from somewhere or exported.
func (c *Ctx) reachable(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Object() != nil && f.Object().Exported() || len(c.p.refsTo(f)) > 0
}

// ---- L03 ---------------------------------------------------------------------

// sharedAccess is one access to a shared field.
type sharedAccess struct {
	root   *rootRun
	write  bool
	atomic bool
	held   []string // locks of the same object ("w:" or "r:" and the name)
	pos    token.Pos
	chain  string
	st     *State
}

func (a sharedAccess) under(p string) bool {
	if p == "atomic" {
		return a.atomic
	}
	for _, h := range a.held {
		if h == "w:"+p || h == "r:"+p && !a.write {
			return true
		}
	}
	return false
}

// sharedFields finds, by type and role, the fields L03 speaks about, per object type.
func (c *Ctx) sharedFields() map[string]map[string]string {
	out := map[string]map[string]string{}
	add := func(typ, path, what string) {
		if out[typ] == nil {
			out[typ] = map[string]string{}
		}
		out[typ][path] = what
	}
	need := func(ok bool, what string) {
		if !ok {
			stop("%s not found", what)
		}
	}
	isCancel := func(t types.Type) bool {
		sg, ok := t.Underlying().(*types.Signature)
		return ok && sg.Params().Len() == 0 && sg.Results().Len() == 0
	}
	var ln, cn bool
	leaves(c.p.typ("TCPServer"), "", func(path string, v *types.Var) {
		if it, ok := v.Type().Underlying().(*types.Interface); ok && hasMethod(it, "Accept") {
			add("TCPServer", path, "listener of the server")
			ln = true
		}
		if isCancel(v.Type()) {
			add("TCPServer", path, "cancel function of the server")
			cn = true
		}
	})
	need(ln && cn, "listener or cancel function of the server")
	cn = false
	var conn bool
	leaves(c.p.typ("TCPServerSpecial"), "", func(path string, v *types.Var) {
		if isConnType(v.Type()) {
			add("TCPServerSpecial", path, "connection of the reverse-connecting server")
			conn = true
		}
		if isCancel(v.Type()) {
			add("TCPServerSpecial", path, "cancel function of the reverse-connecting server")
			cn = true
		}
	})
	need(conn && cn, "connection or cancel function of the reverse-connecting server")
	// what the status queries read
	for _, m := range []string{"IsConnected", "IsClosed"} {
		n := 0
		for path := range c.fieldsRead("TCPServerSpecial", m) {
			add("TCPServerSpecial", path, "status of the reverse-connecting server")
			n++
		}
		need(n > 0, "status of the reverse-connecting server")
	}
	bank := 0
	leaves(c.p.typ("NodeRegister"), "", func(path string, v *types.Var) {
		if w, _, ok := intInfo(v.Type()); ok && w == 8 {
			add("NodeRegister", path, "unit id of a bank")
			bank++
		}
	})
	need(bank > 0, "unit id of a bank")
	lg := 0
	leaves(c.p.typ("logger"), "", func(path string, v *types.Var) {
		_, _, isInt := intInfo(v.Type())
		if isInt || isBool(v.Type()) {
			for _, t := range []string{"logger"} {
				add(t, path, "log switch")
				lg++
			}
			c.shareVar = append(c.shareVar, v)
		}
	})
	need(lg > 0, "log switch")
	p := c.newProvider(kindOf("tcp"))
	x := &exchange{provider: p}
	add("TCPClientProvider", x.tidField().path, "transaction counter")
	return out
}

func hasMethod(it *types.Interface, name string) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
	}
	return false
}

// fieldsRead are the fields of its receiver a method looks at.
func (c *Ctx) fieldsRead(typ, method string) map[string]bool {
	in, st := c.interp()
	quietLogs(c, in)
	fn := c.method(typ, method)
	id := in.lazyObj(kCells, c.p.typ(typ), "obj")
	out := map[string]bool{}
	note := func(path string) {
		if t := typeAt(c.p.typ(typ), path); t != nil && structOf(t) == nil {
			out[path] = true
		}
	}
	in.onAccess = func(fr *Frame, st *State, o *Obj, path string, write bool, pos token.Pos, ins ssa.Instruction) {
		if o.id == id && !write {
			note(path)
		}
	}
	in.onEvent = func(fr *Frame, st *State, e *Event) {
		if strings.HasPrefix(e.kind, "atomic") || e.kind == "cas" {
			if p, ok := e.vals[0].(VPtr); ok && p.obj == id {
				note(p.path)
			}
		}
	}
	c.run(in, st, fn, []Value{VPtr{obj: id, nil_: zeroL}})
	return out
}

// l03: shared state is accessed under one protection.
func l03(c *Ctx) {
	shared := c.sharedFields()
	acc := map[string][]sharedAccess{}
	tables := map[string]bool{}
	typName := func(o *Obj) string {
		if n, ok := o.typ.(*types.Named); ok {
			return n.Obj().Name()
		}
		return ""
	}
	// the field an access means: of the object, or of a part of it with rules of its own
	what := func(o *Obj, path string) (string, bool) {
		tn := typName(o)
		if w := shared[tn][path]; w != "" {
			return w, true
		}
		// the log switch inside any object
		if v := varAt(o.typ, path); v != nil {
			for _, s := range c.shareVar {
				if v == s {
					return "log switch", true
				}
			}
		}
		return "", false
	}
	locksOf := func(st *State, obj int) []string {
		var hs []string
		for _, h := range st.held {
			if obj < 0 || h.obj == obj {
				n := "?"
				if h.obj >= 0 {
					o := st.obj(h.obj)
					n = typName(o) + "." + fieldName(o.typ, strings.TrimPrefix(h.key, strconv.Itoa(h.obj)))
				}
				hs = append(hs, string(h.rw)+":"+n)
			}
		}
		return hs
	}
	record := func(w string, r *rootRun, st *State, obj int, write, atomic bool, pos token.Pos, chain string) {
		acc[w] = append(acc[w], sharedAccess{root: r, write: write, atomic: atomic, held: locksOf(st, obj), pos: pos, chain: chain, st: st})
	}
	unitT := "unit table"
	others := map[string][]sharedAccess{}
	other := func(r *rootRun, st *State, o *Obj, path string, write, atomic bool, pos token.Pos, chain string) {
		if configures(r.name) {
			return
		}
		tn := typName(o)
		nm := ""
		switch {
		case isGlobalObj(r.in, o):
			nm = "package variable " + o.name
			if n := fieldName(o.typ, path); n != "" {
				nm += "." + n
			}
		case sharedTypes[tn] && path != "":
			v := varAt(o.typ, path)
			if v == nil || isSyncType(v.Type()) {
				return
			}
			nm = "field " + tn + "." + fieldName(o.typ, path)
		default:
			return
		}
		var hs []string
		for _, h := range st.held {
			switch {
			case h.obj == o.id:
				hs = append(hs, string(h.rw)+":"+tn+"."+fieldName(o.typ, strings.TrimPrefix(h.key, strconv.Itoa(h.obj))))
			case h.obj >= 0 && (typName(st.obj(h.obj)) != tn || isGlobalObj(r.in, st.obj(h.obj))):
				hs = append(hs, string(h.rw)+":"+st.obj(h.obj).name+"."+h.path)
			}
		}
		others[nm] = append(others[nm], sharedAccess{root: r, write: write, atomic: atomic, held: hs, pos: pos, chain: chain, st: st})
	}
	c.roots(rootHooks{
		access: func(r *rootRun, fr *Frame, st *State, o *Obj, path string, write bool, pos token.Pos) {
			if o.owned || o.kind != kCells {
				return
			}
			if _, named := what(o, path); !named {
				other(r, st, o, path, write, false, pos, fr.chain())
			}
			if w, ok := what(o, path); ok {
				record(w, r, st, o.id, write, false, pos, fr.chain())
				return
			}
			// the whole object or an enclosing part copied or overwritten
			for p, w := range shared[typName(o)] {
				if strings.HasPrefix(p, path+".") {
					record(w, r, st, o.id, write, false, pos, fr.chain())
				}
			}
		},
		event: func(r *rootRun, fr *Frame, st *State, e *Event) {
			switch e.kind {
			case "atomicload", "atomicstore", "atomicadd", "cas":
				p, ok := e.vals[0].(VPtr)
				if !ok || p.obj < 0 || st.obj(p.obj).owned {
					return
				}
				if w, ok := what(st.obj(p.obj), p.path); ok {
					record(w, r, st, p.obj, e.kind != "atomicload", true, e.pos, e.chain)
				} else {
					other(r, st, st.obj(p.obj), p.path, e.kind != "atomicload", true, e.pos, e.chain)
				}
			case "mapload", "mapstore", "mapdel", "maprange":
				// sync.Map synchronises itself
				tables[unitT] = true
				record(unitT, r, st, -1, e.kind == "mapstore" || e.kind == "mapdel", true, e.pos, e.chain)
			case "maplookup", "mapupdate", "mapdelete", "mapiter":
				ref, ok := e.vals[0].(VRef)
				if !ok || st.obj(ref.obj).owned {
					return
				}
				w := ""
				if m, ok := st.obj(ref.obj).typ.Underlying().(*types.Map); ok {
					switch {
					case types.Identical(m.Elem(), c.p.typ("FunctionHandler")):
						w = "handler table"
					case namedPtr(m.Elem(), c.p.typ("NodeRegister")):
						w = unitT
					}
				}
				if w == "" {
					return
				}
				record(w, r, st, -1, e.kind == "mapupdate" || e.kind == "mapdelete", false, e.pos, e.chain)
			}
		},
	})
	names := []string{unitT, "handler table", "unit id of a bank", "listener of the server", "cancel function of the server",
		"status of the reverse-connecting server", "connection of the reverse-connecting server", "cancel function of the reverse-connecting server",
		"log switch", "transaction counter"}
	in := &Interp{prog: c.p.prog, pkg: c.p.pkg}
	// everything else operations change in what they share
	for _, w := range sortedKeys(others) {
		as := others[w]
		first := -1
		alone := true
		for i, a := range as {
			if a.write && first < 0 {
				first = i
			}
			// one goroutine of a reverse-connecting server, or the accepting loop
			g := a.root.goro && strings.Contains(w, "TCPServerSpecial.") || a.root.serving && strings.Contains(w, "TCPServerSpecial.") || strings.HasPrefix(a.root.name, "TCPServer.ListenAndServe") && !a.root.goro
			alone = alone && g && (as[0].root.fn == a.root.fn || as[0].root.goro && c.p.reaches(as[0].root.fn, a.root.fn) || a.root.goro && c.p.reaches(a.root.fn, as[0].root.fn))
		}
		if first < 0 || alone || c.p.setOnce(w) {
			c.ob("what operations change is protected", w, true, nil, nil, 0, "", "")
			continue
		}
		cands := map[string]bool{"atomic": true}
		for _, a := range as {
			for _, h := range a.held {
				cands[h[2:]] = true
			}
		}
		ok := false
		for _, p := range sortedKeys(cands) {
			all := true
			for _, a := range as {
				all = all && a.under(p)
			}
			ok = ok || all
		}
		a := as[first]
		c.ob("what operations change is protected", w, ok, a.root.in, a.st, a.pos, a.chain, "the %s is changed by an operation that may run concurrently with others, and no lock or atomic operation covers all its accesses", w)
	}
	for _, w := range names {
		as := acc[w]
		c.ob("accesses found", w, len(as) > 0, nil, nil, 0, "", "no access to the %s was found", w)
		var writers []*rootRun
		for _, a := range as {
			if a.write {
				writers = append(writers, a.root)
			}
		}
		c.ob("accesses found", w+" (changed)", len(writers) > 0, nil, nil, 0, "", "the %s is never changed", w)
		one := len(writers) > 0
		for _, r := range writers {
			one = one && r.goro && r.fn == writers[0].fn
		}
		// candidates for the protection
		cands := map[string]bool{"atomic": true}
		for _, a := range as {
			for _, h := range a.held {
				cands[h[2:]] = true
			}
		}
		var cs []string
		for k := range cands {
			cs = append(cs, k)
		}
		sort.Strings(cs)
		best, bestN := "", -1
		var bad []sharedAccess
		for _, p := range cs {
			var miss []sharedAccess
			for _, a := range as {
				// the goroutine that makes all changes may read without protection
				if a.under(p) || one && !a.write && (a.root.goro && a.root.fn == writers[0].fn || a.root.serving && c.p.reaches(writers[0].fn, a.root.fn)) {
					continue
				}
				miss = append(miss, a)
			}
			if bestN < 0 || len(miss) < bestN {
				best, bestN, bad = p, len(miss), miss
			}
		}
		c.ob("one protection for all accesses", w, bestN == 0, nil, nil, 0, "", "the %s has no common protection (nearest: %s)", w, best)
		for _, a := range bad {
			verb := "read"
			if a.write {
				verb = "changed"
			}
			c.ob("one protection for all accesses", w, false, a.root.in, a.st, a.pos, a.chain, "the %s is %s without %s", w, verb, protName(best))
		}
		for range as {
			c.ob("accesses analysed", w, true, nil, nil, 0, "", "")
		}
	}
	// each use of such a field in the source was analysed
	_ = in
	c.atLeast("one protection for all accesses", len(names))
}

// sharedTypes are the types of which several goroutines use one object.
var sharedTypes = map[string]bool{"TCPServer": true, "TCPServerSpecial": true, "serverCommon": true, "NodeRegister": true, "logger": true,
	"RTUClientProvider": true, "ASCIIClientProvider": true, "TCPClientProvider": true, "serialPort": true, "client": true, "pool": true}

// configures: an operation for use before anything else runs.
func configures(root string) bool {
	i := strings.IndexByte(root, '.')
	if i < 0 {
		return false
	}
	t, m := root[:i], root[i+1:]
	return (t == "TCPServer" || t == "TCPServerSpecial") && (strings.HasPrefix(m, "Set") || m == "EnableAutoReconnect" || m == "AddRemoteServer")
}

func isGlobalObj(in *Interp, o *Obj) bool {
	for g, id := range in.globals {
		if id == o.id {
			return g.Pkg == in.pkg && !isSyncType(g.Type()) && g.Name() != "init$guard"
		}
	}
	return false
}

func protName(p string) string {
	if p == "atomic" {
		return "an atomic operation"
	}
	return "holding " + p
}

// embedded is the path of a struct inside another.
func embedded(t, inner types.Type) (string, bool) {
	s := structOf(t)
	if s == nil {
		return "", false
	}
	for i := 0; i < s.NumFields(); i++ {
		p := "." + strconv.Itoa(i)
		if types.Identical(s.Field(i).Type(), inner) {
			return p, true
		}
		if q, ok := embedded(s.Field(i).Type(), inner); ok {
			return p + q, true
		}
	}
	return "", false
}

// varAt is the field at a path.
func varAt(t types.Type, path string) *types.Var {
	var out *types.Var
	for path != "" {
		s := structOf(t)
		if s == nil || path[0] != '.' {
			return nil
		}
		rest := path[1:]
		i := strings.IndexByte(rest, '.')
		head := rest
		if i >= 0 {
			head, path = rest[:i], rest[i:]
		} else {
			path = ""
		}
		k, err := strconv.Atoi(head)
		if err != nil || k >= s.NumFields() {
			return nil
		}
		out = s.Field(k)
		t = out.Type()
	}
	return out
}

var _ = fmt.Sprint

func init() {
	register("L02", "Typestate of locks on every path of every exported operation of the package and of every goroutine it starts: the set of locks held is tracked through calls, deferred calls and panics; it must be empty at every exit and at every call of user-supplied code; taking a lock held or releasing one not held (or in another mode) is a violation; every lock operation in the source must be among those analysed.", l02)
	register("L03", "Lockset analysis: the accesses to each shared field (found by type and role) on every path of every exported operation and every goroutine are collected with the locks of the object held and whether they are atomic; one protection must cover all of them (writes under the exclusive mode), except reads by the one goroutine that makes all changes. The same is asked of every other field of a shared object and every package variable that an operation or goroutine writes to (setters of settings excepted, which are used before a start).", l03)
}
