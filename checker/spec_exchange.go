package main

// One request and its reply on each transport: T04 to T08, V04, V05, V07, L01, L04.

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// matches are the conditions under which a received frame answers the request.
func (x *exchange) matches(v *frameView, fc Lin) []Atom {
	as := []Atom{eq(v.slave, x.slave), eq(v.fc, fc), ge(v.n, oneL)}
	if x.kind == "tcp" {
		as = append(as, eq(v.tid, x.tid()), eq(v.proto, zeroL))
	}
	return as
}

func wrote(st *State) bool { return len(eventsOf(st, "write")) > 0 }

// errIs: what is known of an error result being an exception error.
func exceptionOf(c *Ctx, st *State, v Value) (VPtr, bool) {
	iv, ok := v.(VIface)
	if !ok || iv.typ == nil {
		return VPtr{}, false
	}
	pt, ok := iv.typ.Underlying().(*types.Pointer)
	if !ok {
		return VPtr{}, false
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok || n.Obj().Name() != "ExceptionError" || n.Obj().Pkg() != c.p.tp {
		return VPtr{}, false
	}
	p, ok := iv.val.(VPtr)
	return p, ok
}

// exchanges decides a rule on every path through Send and SendPdu of every transport.
func (c *Ctx) exchanges(f func(x *exchange, nm string, r callResult)) {
	for _, k := range transports {
		for _, m := range []string{"Send", "SendPdu"} {
			x := c.exchange(k, m, nil)
			nm := k.typ + "." + m
			for _, r := range x.rs {
				if !r.panic {
					f(x, nm, r)
				}
			}
		}
	}
}

// withAll assumes atoms; nil if impossible.
func withAll(st *State, as ...Atom) *State {
	s := st.clone()
	for _, a := range as {
		s.assume(a)
	}
	if !s.feasible() {
		return nil
	}
	return s
}

func t04(c *Ctx) {
	c.exchanges(func(x *exchange, nm string, r callResult) {
		pos := x.fn.Pos()
		yes, no := splitNil(r.st, r.rets[1])
		if yes != nil {
			v := view(x.kind, yes, rxSnap(yes))
			for _, a := range x.matches(v, x.fc) {
				c.ob("reply answers the request", nm, provAtom(yes, a), x.in, yes, pos, "", "a reply is accepted although %s is not ensured", a)
			}
			// the PDU of the reply
			var got *Snap
			fcOK := true
			off := zeroL
			n := v.n
			switch p := r.rets[0].(type) {
			case VStruct: // Send
				fi, ok1 := p.f[0].(VInt)
				d, ok2 := p.f[1].(VSlice)
				fcOK = ok1 && ok2 && provEq(yes, fi.l, v.fc)
				if ok2 {
					got = sliceSnap(yes, d)
				}
			case VSlice:
				got = sliceSnap(yes, p)
				n = n.addc(1)
				off = oneL
				fcOK, _ = elemIs(yes, got, zeroL, 8, v.fc)
			}
			ok := got != nil && provEq(yes, got.n, n)
			why := "its length differs"
			if ok {
				ok, why = allElems(yes, got, off, v.n, 8, v.data)
			}
			c.ob("reply handed over", nm, ok && fcOK, x.in, yes, pos, "", "the result is not the PDU of the reply: %s", why)
		}
		if no != nil && !ioFailed(no) {
			v := view(x.kind, no, rxSnap(no))
			if !v.hexFailed {
				as := append(append(append([]Atom{}, v.conds...), v.sum...), x.matches(v, x.fc)...)
				s := withAll(no, as...)
				if s != nil {
					if s2, _ := congruent(s); s2 != nil && !s2.feasible() {
						s = nil
					}
				}
				c.ob("right reply accepted", nm, s == nil, x.in, s, pos, "", "a reply that answers the request may be refused")
			}
		}
	})
	c.atLeast("reply answers the request", 6)
	c.atLeast("reply handed over", 6)
	c.atLeast("right reply accepted", 6)
}

func t05(c *Ctx) {
	c.exchanges(func(x *exchange, nm string, r callResult) {
		pos := x.fn.Pos()
		n := x.req.n // data bytes
		rng := []Atom{ge(n, zeroL), le(n, con(252))}
		if wrote(r.st) {
			for _, e := range eventsOf(r.st, "write") {
				st := r.st.clone()
				st.cond = e.cond
				for _, a := range rng {
					c.ob("oversized request not written", nm, st.entails(a), x.in, st, e.pos, e.chain, "something is written for a request with %s data bytes", n)
				}
			}
			return
		}
		yes, _ := splitNil(r.st, r.rets[1])
		c.ob("refusal reported", nm, yes == nil, x.in, yes, pos, "", "nothing is written but no error is returned")
		if !ioFailed(r.st) {
			s := withAll(r.st, rng...)
			c.ob("fitting request sent", nm, s == nil, x.in, s, pos, "", "a request that fits a frame is refused")
		}
	})
	c.atLeast("oversized request not written", 6)
	c.atLeast("fitting request sent", 6)
	// whole frames: the bytes written are the whole frame of the specification
	for _, k := range transports {
		for _, m := range []string{"Send", "SendPdu"} {
			x := c.exchange(k, m, nil)
			for _, r := range x.rs {
				if r.panic && !wrote(r.st) {
					s := withAll(r.st, lt(x.req.n, zeroL))
					if s == nil {
						s = withAll(r.st, gt(x.req.n, con(252)))
					}
					if s != nil {
						c.ob("refusal reported", k.typ+"."+m, false, x.in, s, r.st.pan.pos, r.st.pan.chain, "an oversized request panics instead of being refused: %s", r.st.pan.msg)
					}
				}
				for _, e := range eventsOf(r.st, "write") {
					st := r.st.clone()
					st.cond = e.cond
					if r.panic || e.snap == nil || !st.feasible() {
						continue
					}
					want := map[string]Lin{"rtu": x.req.n.addc(4), "tcp": x.req.n.addc(8), "ascii": x.req.n.scale(2).addc(9)}[k.kind]
					c.ob("request sent whole", k.typ+"."+m, provEq(st, e.snap.n, want), x.in, st, e.pos, e.chain, "%s bytes are written, expected %s", e.snap.n, want)
				}
			}
		}
	}
	c.atLeast("request sent whole", 6)
	x := c.exchange(kindOf("rtu"), "SendRawFrame", nil)
	nm := x.typ + ".SendRawFrame"
	for _, r := range x.rs {
		if r.panic {
			continue
		}
		touched := len(eventsOf(r.st, "write", "read", "open")) > 0
		if touched {
			c.ob("short raw frame refused", nm, r.st.entails(ge(x.raw.n, con(4))), x.in, r.st, x.fn.Pos(), "", "a raw frame of fewer than 4 bytes reaches the port")
			continue
		}
		yes, no := splitNil(r.st, r.rets[1])
		c.ob("short raw frame refused", nm, yes == nil, x.in, yes, x.fn.Pos(), "", "nothing is done but no error is returned")
		if no != nil {
			s := withAll(no, ge(x.raw.n, con(4)))
			c.ob("raw frame sent", nm, s == nil, x.in, s, x.fn.Pos(), "", "a raw frame is refused without cause")
		}
	}
	c.atLeast("short raw frame refused", 1)
}

// expected is the reply length of one kind of request: cases of (condition, length).
type lenCase struct {
	conds []Atom
	n     Lin
	what  string
}

func rtuLengths(raw *Snap, st *State) []lenCase {
	at := func(i int64) Lin { return readSnap(st, raw, con(i), 8)[0].val }
	fc := at(1)
	q := at(4).scale(256).add(at(5))
	rfc := rxAt(1)
	fifo := rxAt(2).scale(256).add(rxAt(3)).addc(6)
	var out []lenCase
	same := eq(rfc, fc)
	one := func(code int64, n Lin, what string) {
		out = append(out, lenCase{[]Atom{eq(fc, con(code)), same}, n, what})
	}
	for _, k := range []int64{1, 2} {
		one(k, divL(q.addc(7), 8).addc(5), "bit read")
	}
	for _, k := range []int64{3, 4, 23} {
		one(k, q.scale(2).addc(5), "register read")
	}
	for _, k := range []int64{5, 6, 15, 16} {
		one(k, con(8), "write")
	}
	one(22, con(10), "mask write")
	one(24, fifo, "FIFO read")
	other := []Atom{same}
	for _, k := range []int64{1, 2, 3, 4, 5, 6, 15, 16, 22, 23, 24} {
		other = append(other, ne(fc, con(k)))
	}
	out = append(out, lenCase{other, con(4), "other function"})
	out = append(out, lenCase{[]Atom{lt(fc, con(128)), eq(rfc, fc.addc(128))}, con(5), "exception"})
	return out
}

func t06(c *Ctx) {
	k := kindOf("rtu")
	type rd struct {
		e  *Event
		st *State
	}
	var reads []rd
	x := c.exchange(k, "SendRawFrame", func(x *exchange) {
		x.st.assume(ge(x.raw.n, con(6)))
		x.in.onEvent = func(fr *Frame, st *State, e *Event) {
			if e.kind == "read" && x.in.quiet == 0 {
				reads = append(reads, rd{e, st.clone()})
			}
		}
	})
	nm := x.typ + ".SendRawFrame"
	cases := rtuLengths(x.raw, x.st)
	fits := func(n Lin) Atom { return le(n, con(256)) }
	for _, r := range reads {
		min, ok1 := r.e.vals[4].(VInt)
		rx, ok2 := r.e.vals[5].(VInt)
		for _, lc := range cases {
			s := withAll(r.st, append(lc.conds, fits(lc.n))...)
			if s == nil {
				continue
			}
			ok := ok1 && ok2 && s.entails(le(rx.l.add(min.l), lc.n))
			c.ob("waits for no more than the reply", nm+" ("+lc.what+")", ok, x.in, s, r.e.pos, r.e.chain, "waits for %s bytes, the reply has %s", rx.l.add(min.l), lc.n)
		}
	}
	for _, r := range x.rs {
		if r.panic {
			continue
		}
		yes, _ := splitNil(r.st, r.rets[1])
		if yes == nil {
			continue
		}
		n := rxCount(yes)
		nr := len(eventsOf(yes, "read"))
		for _, lc := range cases {
			s := withAll(yes, append(lc.conds, fits(lc.n))...)
			if s == nil {
				continue
			}
			ok := s.entails(ge(n, lc.n)) && (nr <= 1 || provEq(s, n, lc.n))
			c.ob("reads the whole reply", nm+" ("+lc.what+")", ok, x.in, s, x.fn.Pos(), "", "%s bytes are taken as the reply, it has %s", n, lc.n)
		}
	}
	c.atLeast("waits for no more than the reply", 7)
	c.atLeast("reads the whole reply", 7)
	// the length function itself, on every frame
	in, st := c.interp()
	f := c.fn("calculateResponseLength")
	buf, _ := inputSlice(in, st, tByte, "request", 0)
	st.assume(ge(buf.len, con(6)))
	raw := sliceSnap(st, buf)
	for _, r := range c.noPanics("length function does not panic", "calculateResponseLength", in, c.run(in, st.clone(), f, []Value{buf})) {
		for _, lc := range rtuLengths(raw, r.st) {
			if lc.what == "FIFO read" || lc.what == "exception" {
				continue
			}
			s := withAll(r.st, lc.conds...)
			if s == nil {
				continue
			}
			v, ok := r.rets[0].(VInt)
			c.ob("reply length", "calculateResponseLength ("+lc.what+")", ok && provEq(s, v.l, lc.n), in, s, f.Pos(), "", "the length is not %s", lc.n)
		}
	}
	c.atLeast("reply length", 4)
}

func t07(c *Ctx) {
	c.exchanges(func(x *exchange, nm string, r callResult) {
		pos := x.fn.Pos()
		v := view(x.kind, r.st, rxSnap(r.st))
		exc, isExc := exceptionOf(c, r.st, r.rets[1])
		if isExc {
			ok := !r.st.possible(eq(v.fc, x.fc))
			if !ok {
				s2, _ := congruent(r.st, eq(v.fc, x.fc))
				if s2 != nil {
					s2.assume(eq(v.fc, x.fc))
					ok = !s2.feasible()
				}
			}
			c.ob("exception only for another function code", nm, ok, x.in, r.st, pos, "", "an exception error is made although the reply may carry the function code of the request")
		}
		if ioFailed(r.st) || v.hexFailed {
			return
		}
		as := append(append(append([]Atom{}, v.conds...), v.sum...), x.matches(v, x.fc.addc(128))...)
		as = append(as, lt(x.fc, con(128)))
		s := withAll(r.st, as...)
		if s == nil {
			return
		}
		if s2, _ := congruent(s); s2 != nil {
			if !s2.feasible() {
				return
			}
		}
		ok := isExc
		why := "it is not reported as an exception error"
		if ok {
			why = "the code reported is not that of the reply"
			f, t, okf := fieldPath(typeAt(s.obj(exc.obj).typ, exc.path), "ExceptionCode")
			ok = okf
			if ok {
				code, isI := s.load(VPtr{obj: exc.obj, path: exc.path + f}, t).(VInt)
				ok = isI
				if ok {
					for _, d := range v.data(s.clone(), zeroL) {
						if d.st.feasible() && !provEq(d.st, code.l, d.val) {
							ok = false
						}
					}
				}
			}
		}
		c.ob("exception reply reported", nm, ok, x.in, s, pos, "", "the reply is an exception and %s", why)
	})
	c.atLeast("exception reply reported", 6)
}

func t08(c *Ctx) {
	for _, k := range transports {
		var backs []func()
		var x *exchange
		nm := k.typ + ".SendRawFrame"
		none := func(st *State) bool { return !st.feasible() || impossible2(st) }
		x = c.exchange(k, "SendRawFrame", func(y *exchange) {
			x = y
			y.in.onBack = func(g *generaliser, head, back *Path) {
				if k.kind != "ascii" {
					return
				}
				st := back.st.clone()
				n := rxCount(st)
				at := func(d int64) Lin { return inL(rxBase(), n.addc(d)) }
				st.assume(ge(n, con(9)))
				st.assume(eq(at(-2), con('\r')))
				st.assume(eq(at(-1), con('\n')))
				ok := none(st)
				if !ok {
					// the loop may find out where it begins again
					ok = true
					old := y.in.onEvent
					y.in.onEvent = func(fr *Frame, st *State, e *Event) {
						if e.kind == "read" && !none(st) {
							ok = false
						}
					}
					y.in.quiet++
					y.in.iterate(g.fr, g.l, back.fork(st))
					y.in.quiet--
					y.in.onEvent = old
				}
				backs = append(backs, func() {
					c.ob("reading ends with the frame", nm, ok, x.in, st, g.l.head.Instrs[0].Pos(), g.fr.chain(), "reading goes on after the end of a frame was received")
				})
			}
		})
		for _, b := range backs {
			b()
		}
		pos := x.fn.Pos()
		for _, r := range x.rs {
			if r.panic {
				continue
			}
			ws := eventsOf(r.st, "write")
			io := eventsOf(r.st, "read", "write", "open")
			for _, e := range r.st.events() {
				if e.kind == "loop" && strings.Contains(e.name, "write") {
					ws = append(ws, e, e)
				}
			}
			c.ob("written once", nm, len(ws) <= 1, x.in, r.st, pos, "", "the request may be written more than once")
			for i, e := range io {
				switch e.kind {
				case "read":
					ok := false
					for _, p := range io[:i] {
						ok = ok || p.kind == "write"
					}
					c.ob("written before reading", nm, ok, x.in, r.st, e.pos, e.chain, "a reply is read before the request is written")
				case "open":
					st := r.st.clone()
					st.cond = e.cond
					n, _ := nilness(st, x.conn0)
					c.ob("opened if none", nm, n && len(eventsOf(r.st, "open")) == 1, x.in, st, e.pos, e.chain, "a connection is opened although there is one")
				case "write":
					st := r.st.clone()
					st.cond = e.cond
					ok := e.snap != nil && provEq(st, e.snap.n, x.raw.n)
					why := "its length differs"
					if ok {
						ok, why = allElems(st, e.snap, zeroL, x.raw.n, 8, fromSnap(x.raw, 8))
					}
					c.ob("request written as given", nm, ok, x.in, st, e.pos, e.chain, "%s", why)
				}
			}
			yes, no := splitNil(r.st, r.rets[1])
			rx := rxSnap(r.st)
			if yes != nil {
				ok := len(ws) == 1 && !ioFailed(yes)
				c.ob("success only after a whole exchange", nm, ok, x.in, yes, pos, "", "success is reported although the request was not written or an operation failed")
				s, isS := r.rets[0].(VSlice)
				why := "its length differs"
				ok = isS && provEq(yes, s.len, rx.n)
				if ok {
					ok, why = allElems(yes, sliceSnap(yes, s), zeroL, rx.n, 8, fromSnap(rx, 8))
				}
				c.ob("bytes received returned", nm, ok, x.in, yes, pos, "", "the result is not the bytes received: %s", why)
				switch k.kind {
				case "tcp":
					ln := rxAt(4).scale(256).add(rxAt(5))
					c.ob("ends where the framing says", nm, provEq(yes, rx.n, ln.addc(6)), x.in, yes, pos, "", "%s bytes are taken as the reply, its header announces %s after the sixth", rx.n, ln)
				case "ascii":
					at := func(d int64) Lin { return inL(rxBase(), rx.n.addc(d)) }
					ok := yes.entails(ge(rx.n, con(513)))
					if !ok {
						// the last read may also have delivered nothing
						es := eventsOf(yes, "read")
						s := yes.clone()
						if len(es) > 0 {
							if n, isI := es[len(es)-1].vals[2].(VInt); isI {
								s.assume(gt(n.l, zeroL))
							}
						}
						s.assume(lt(rx.n, con(513)))
						ok = !s.feasible() || provAtom(s, eq(at(-1), con('\n'))) && provAtom(s, eq(at(-2), con('\r')))
					}
					c.ob("ends where the framing says", nm, ok, x.in, yes, pos, "", "the reply is taken as complete although no end of frame was received")
				}
			}
			if no != nil {
				s, isS := r.rets[0].(VSlice)
				ok := isS && no.entails(eq(s.len, zeroL))
				c.ob("no partial reply", nm, ok, x.in, no, pos, "", "an error comes with data")
				if !ioFailed(no) {
					s := no.clone()
					switch k.kind {
					case "rtu":
						fc := inL(rxBase(), oneL)
						s.assume(ge(x.raw.n, con(4)))
						if s.feasible() {
							req := readSnap(s, x.raw, oneL, 8)[0].val
							bad := []*State{withAll(s, eq(fc, req)), withAll(s, lt(req, con(128)), eq(fc, req.addc(128)))}
							s.dead = bad[0] == nil && bad[1] == nil
						}
					case "tcp":
						ln := rxAt(4).scale(256).add(rxAt(5))
						s.assume(ge(ln, oneL))
						s.assume(le(ln, con(254)))
					}
					c.ob("error only for cause", nm, !s.feasible(), x.in, s, pos, "", "an exchange without any failure ends in an error")
				}
			}
		}
	}
	c.atLeast("request written as given", 3)
	c.atLeast("bytes received returned", 3)
	c.atLeast("written before reading", 3)
	c.atLeast("opened if none", 3)
	c.atLeast("reading ends with the frame", 1)
}

// ---- connection life --------------------------------------------------------

// method runs a method of a transport without arguments.
func (c *Ctx) transportCall(k transportKind, method string, pre func(p *provider)) (*provider, *ssa.Function, []callResult) {
	p := c.newProvider(k)
	checksums(c, p.in)
	fn := c.method(k.typ, method)
	args := []Value{p.ptr}
	for _, prm := range fn.Params[1:] {
		args = append(args, p.in.unknown(p.st, prm.Type(), prm.Name()))
	}
	if fn.Synthetic != "" && len(fn.Params) > 0 {
		args[0] = p.ptr
	}
	p.st.ghost["rx:rx"] = zeroL
	if pre != nil {
		pre(p)
	}
	return p, fn, c.run(p.in, p.st.clone(), fn, args)
}

// methodsOf lists the methods of a type (with promoted ones).
func (c *Ctx) methodsOf(typ string) []string {
	t := c.p.typ(typ)
	if t == nil {
		stop("type %s not found", typ)
	}
	ms := types.NewMethodSet(types.NewPointer(t))
	var out []string
	for i := 0; i < ms.Len(); i++ {
		out = append(out, ms.At(i).Obj().Name())
	}
	return out
}

func sameConn(a, b Value) bool {
	x, ok1 := a.(VIface)
	y, ok2 := b.(VIface)
	if !ok1 || !ok2 {
		return false
	}
	if isTrueL(x.nil_) || isTrueL(y.nil_) {
		return isTrueL(x.nil_) && isTrueL(y.nil_)
	}
	return valueKey(x) == valueKey(y)
}

// connAfter: condition of the connection field at the end: nil, or the given connection.
func connNil(st *State, v VIface) bool {
	n, _ := nilness(st, v)
	return n
}

func v05(c *Ctx) {
	for _, k := range transports {
		x := c.exchange(k, "SendRawFrame", nil)
		nm := k.typ + ".SendRawFrame"
		pos := x.fn.Pos()
		for _, r := range x.rs {
			if r.panic {
				continue
			}
			end := x.conn(r.st)
			var used Value
			for _, e := range eventsOf(r.st, "write", "read") {
				used = e.vals[0]
			}
			if used == nil {
				continue
			}
			dropped := func(st *State, why string) {
				ok := connNil(st, end)
				closed := false
				for _, e := range eventsOf(r.st, "connclose") {
					closed = closed || sameConn(e.vals[0], used)
				}
				c.ob("broken connection closed and forgotten", nm, ok && closed, x.in, st, pos, "", "%s, but the connection is kept", why)
			}
			yes, no := splitNil(r.st, r.rets[1])
			if yes != nil {
				ok := sameConn(end, used) && len(eventsOf(r.st, "connclose")) == 0
				c.ob("working connection kept", nm, ok, x.in, yes, pos, "", "the connection is closed or lost by a successful exchange")
			}
			if no == nil {
				continue
			}
			failed := false
			for _, e := range eventsOf(no, "write", "read") {
				err, _ := e.vals[3].(VIface)
				if isTrueL(err.nil_) {
					continue
				}
				failed = true
				if e.kind == "write" {
					dropped(no, "the request could not be written")
					continue
				}
				if k.kind != "tcp" {
					continue
				}
				m := e.vals[2].(VInt).l
				rx := e.vals[5].(VInt).l
				if s := withAll(no, ge(m.add(rx), oneL)); s != nil {
					dropped(s, "the reply broke off in the middle")
				}
				i1, i2 := err.id, "io.EOF"
				if i1 > i2 {
					i1, i2 = i2, i1
				}
				if s := withAll(no, eq(symL(namedSym("ifeq:"+i1+":"+i2, 0, 1)), oneL), eq(m, zeroL)); s != nil {
					dropped(s, "the peer closed the connection")
				}
			}
			if k.kind == "tcp" && !failed && !ioFailed(no) {
				dropped(no, "the reply announced an invalid length")
			}
		}
	}
	c.atLeast("broken connection closed and forgotten", 3)
	c.atLeast("working connection kept", 3)
}

func v07(c *Ctx) {
	for _, k := range transports {
		for _, m := range []string{"Connect", "Close", "IsConnected", "SendRawFrame"} {
			p, fn, rs := c.transportCall(k, m, nil)
			nm := k.typ + "." + m
			pos := fn.Pos()
			for _, r := range rs {
				if r.panic {
					continue
				}
				st := r.st
				var cur Value = p.conn0
				for _, e := range eventsOf(st, "open", "connclose", "loop") {
					switch e.kind {
					case "loop":
						c.ob("opened only if none", nm, !strings.Contains(e.name, "open") && !strings.Contains(e.name, "connclose"), p.in, st, pos, "", "connections are opened or closed in a loop")
					case "open":
						n, _ := nilness(st, cur)
						c.ob("opened only if none", nm, n, p.in, st, e.pos, e.chain, "a connection is opened while another is held")
						if ev, ok := e.vals[1].(VIface); ok && isTrueL(ev.nil_) {
							cur = e.vals[0]
						}
					case "connclose":
						_, nn := nilness(st, cur)
						c.ob("closed once", nm, nn && sameConn(e.vals[0], cur), p.in, st, e.pos, e.chain, "a connection that is not the held one is closed")
						cur = VIface{id: "nil", nil_: oneL}
					}
				}
				end := p.conn(st)
				ok := sameConn(end, cur)
				if !ok {
					a, _ := nilness(st, end)
					b, _ := nilness(st, cur)
					ok = a && b
				}
				c.ob("record matches the connection held", nm, ok, p.in, st, pos, "", "the recorded connection differs from the one held at the end")
				ret := r.rets[len(r.rets)-1]
				switch m {
				case "Connect":
					yes, no := splitNil(st, ret)
					if yes != nil {
						_, nn := nilness(yes, end)
						c.ob("reported truthfully", nm, nn, p.in, yes, pos, "", "Connect succeeds without a connection")
					}
					if no != nil {
						c.ob("reported truthfully", nm, ioFailed(no) && connNil(no, end), p.in, no, pos, "", "Connect fails without cause or leaves a connection recorded")
					}
				case "IsConnected":
					b, ok := ret.(VBool)
					if ok {
						y, n := st.fork(b.a)
						if y != nil && y.feasible() {
							_, nn := nilness(y, end)
							ok = ok && nn
						}
						if n != nil && n.feasible() {
							ok = ok && connNil(n, end)
						}
					}
					c.ob("reported truthfully", nm, ok && len(eventsOf(st, "open", "connclose")) == 0, p.in, st, pos, "", "IsConnected does not say whether a connection is held")
				case "Close":
					c.ob("closing forgets the connection", nm, connNil(st, end), p.in, st, pos, "", "a connection is recorded after Close")
					cl := eventsOf(st, "connclose")
					y, _ := splitNil(st, p.conn0)
					if y != nil && len(cl) == 0 {
						nilErr, _ := nilness(y, ret)
						c.ob("closing without a connection is harmless", nm, nilErr, p.in, y, pos, "", "Close without a connection fails")
					}
				}
			}
		}
	}
	c.atLeast("record matches the connection held", 12)
	c.atLeast("reported truthfully", 6)
	c.atLeast("closed once", 6)
	c.atLeast("opened only if none", 6)
}

// l01: the connection is only touched under one lock of its client, held over the exchange.
func l01(c *Ctx) {
	analysed := map[*ssa.Function]bool{}
	fields := map[*types.Var]bool{}
	var in *Interp
	for _, k := range transports {
		var keys map[string]bool
		n := 0
		for _, m := range c.methodsOf(k.typ) {
			if !token.IsExported(m) {
				continue // reached from the exported ones
			}
			touch := func(p *provider) func(held []heldLock, pos token.Pos, chain, what string, st *State) {
				return func(held []heldLock, pos token.Pos, chain, what string, st *State) {
					n++
					mine := map[string]bool{}
					for _, h := range held {
						if h.obj == p.ptr.obj && h.rw == 'w' {
							mine[h.path[strings.Index(h.path, ".")+1:]] = true
						}
					}
					c.ob("connection touched under the lock", k.typ+"."+m, len(mine) > 0, p.in, st, pos, chain, "%s without the lock of the client", what)
					if len(mine) == 0 {
						return
					}
					if keys == nil {
						keys = mine
						return
					}
					common := map[string]bool{}
					for h := range mine {
						if keys[h] {
							common[h] = true
						}
					}
					c.ob("same lock everywhere", k.typ+"."+m, len(common) > 0, p.in, st, pos, chain, "%s under another lock than elsewhere", what)
					if len(common) > 0 {
						keys = common
					}
				}
			}
			p, fn, rs := c.transportCall(k, m, func(p *provider) {
				t := touch(p)
				p.in.onAccess = func(fr *Frame, st *State, o *Obj, path string, write bool, pos token.Pos, ins ssa.Instruction) {
					if o.id == p.ptr.obj && path == p.connPath {
						if fr != nil {
							analysed[fr.fn] = true
						}
						t(st.held, pos, fr.chain(), "the connection is looked at or changed", st)
					}
				}
				p.in.onEvent = func(fr *Frame, st *State, e *Event) {
					if p.in.quiet > 0 {
						return
					}
					switch e.kind {
					case "read", "write", "open", "connclose", "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
						t(st.held, e.pos, e.chain, e.kind+" on the connection", st)
					}
				}
			})
			for _, r := range rs {
				if r.panic {
					continue
				}
				es := r.st.events()
				first, last := -1, -1
				for i, e := range es {
					if e.kind == "write" && first < 0 {
						first = i
					}
					if e.kind == "read" || e.kind == "write" || e.kind == "loop" && strings.Contains(e.name, "read") {
						last = i
					}
				}
				if first < 0 {
					continue
				}
				ok := true
				for i := first; i <= last; i++ {
					if es[i].kind == "unlock" || es[i].kind == "loop" && strings.Contains(es[i].name, "unlock") {
						ok = false
					}
				}
				c.ob("lock held over the exchange", k.typ+"."+m, ok, p.in, r.st, fn.Pos(), "", "the lock is released between writing the request and reading the reply")
			}
		}
		c.ob("connection accesses found", k.typ, n >= 6, nil, nil, 0, "", "only %d accesses to the connection were found", n)
		p := c.newProvider(k)
		in = p.in
		leaves(p.st.obj(p.ptr.obj).typ, "", func(path string, v *types.Var) {
			if path == p.connPath {
				fields[v] = true
			}
		})
	}
	// no other code touches the field
	for _, f := range c.p.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				s := derefStruct(fa.X.Type())
				if s == nil || !fields[s.Field(fa.Field)] || freshBase(fa) {
					continue
				}
				c.ob("all accesses analysed", shortFn(f), analysed[f], in, nil, fa.Pos(), shortFn(f), "the connection field is used outside the analysed operations")
			}
		}
	}
	c.atLeast("lock held over the exchange", 9)
}

// l04: pooled buffers.
func l04(c *Ctx) {
	for _, k := range transports {
		for _, m := range []string{"Send", "SendPdu"} {
			nm := k.typ + "." + m
			var late []func()
			var x *exchange
			x = c.exchange(k, m, func(y *exchange) {
				x = y
				// an access to the array of a frame after it went back
				y.in.onAccess = func(fr *Frame, st *State, o *Obj, path string, write bool, pos token.Pos, ins ssa.Instruction) {
					if st.mon[poolKey(o.id)] == "" {
						return
					}
					s := st
					ch := fr.chain()
					late = append(late, func() {
						c.ob("not used after return", nm, false, x.in, s, pos, ch, "a pooled buffer is used after it was given back")
					})
				}
				// a goroutine may run after the frame went back
				y.in.threadStart = func(st *State) {
					for _, e := range eventsOf(st, "poolget") {
						if len(e.vals) > 1 {
							if pv, ok := ifaceVal(e.vals[1]).(VPtr); ok {
								st.mon[poolKey(pv.obj)] = "put"
								for _, a := range frameArrays(st, pv) {
									st.mon[poolKey(a.arr)] = "put"
								}
							}
						}
					}
				}
				y.in.onEvent = func(fr *Frame, st *State, e *Event) {
					if e.kind == "poolput" && len(e.vals) > 1 {
						if pv, ok := ifaceVal(e.vals[1]).(VPtr); ok {
							st.mon[poolKey(pv.obj)] = "put"
							for _, a := range frameArrays(st, pv) {
								st.mon[poolKey(a.arr)] = "put"
							}
						}
					}
				}
			})
			for _, l := range late {
				l()
			}
			c.ob("not used after return", nm, len(late) == 0, nil, nil, 0, "", "a pooled buffer is used after it was given back")
			for _, r := range x.rs {
				st := r.st
				pos := x.fn.Pos()
				got := map[int]*Event{}
				gets := eventsOf(st, "poolget")
				puts := eventsOf(st, "poolput")
				for _, e := range eventsOf(st, "loop") {
					if strings.Contains(e.name, "pool") {
						c.ob("given back once", nm, false, x.in, st, pos, "", "pool operations in a loop")
					}
				}
				for _, e := range gets {
					pv, ok := VPtr{}, false
					if len(e.vals) > 1 {
						pv, ok = ifaceVal(e.vals[1]).(VPtr)
					}
					if !ok {
						c.ob("given back once", nm, false, x.in, st, e.pos, e.chain, "what comes from the pool is not known")
						continue
					}
					cnt := 0
					samePool := true
					for _, q := range puts {
						if qv, ok := ifaceVal(q.vals[1]).(VPtr); ok && qv.obj == pv.obj {
							cnt++
							samePool = samePool && valueKey(q.vals[0]) == valueKey(e.vals[0])
						}
					}
					c.ob("given back once", nm, cnt == 1, x.in, st, e.pos, e.chain, "a buffer taken from the pool is given back %d times", cnt)
					c.ob("given back to its pool", nm, samePool, x.in, st, e.pos, e.chain, "a buffer is given back to another pool")
					got[pv.obj] = e
					// condition in which it goes back
					arrs := frameArrays(st, pv)
					for _, a := range arrs {
						full := st.obj(a.arr).n
						ok := provEq(st, a.off, zeroL) && provEq(st, a.cap, full) && st.entails(ge(full, con(k.cap)))
						c.ob("full capacity kept", nm, ok, x.in, st, pos, "", "a buffer goes back with capacity %s from %s of an array of %s", a.cap, a.off, full)
					}
					c.ob("frame buffer found", nm, len(arrs) == 1, x.in, st, pos, "", "the frame holds %d buffers", len(arrs))
					// results and the request must not share memory with it
					if !r.panic {
						for _, ret := range r.rets {
							for _, s := range slicesIn(st, ret) {
								for _, a := range arrs {
									c.ob("result does not share the buffer", nm, s.arr != a.arr, x.in, st, pos, "", "the result shares memory with a pooled buffer")
								}
							}
						}
					}
				}
				for _, q := range puts {
					qv, ok := ifaceVal(q.vals[1]).(VPtr)
					c.ob("only own buffers given back", nm, ok && got[qv.obj] != nil, x.in, st, q.pos, q.chain, "something not taken from the pool is given back")
				}
				if wrote(st) {
					c.ob("buffer from the pool", nm, len(gets) == 1, x.in, st, pos, "", "%d buffers are taken for one request", len(gets))
				}
			}
		}
	}
	c.atLeast("given back once", 6)
	c.atLeast("result does not share the buffer", 6)
	c.atLeast("full capacity kept", 6)
}

func poolKey(obj int) string { return "pool" + strconv.Itoa(obj) }

// frameArrays are the slices inside a pooled frame.
func frameArrays(st *State, p VPtr) []VSlice {
	var out []VSlice
	o := st.obj(p.obj)
	leaves(o.typ, "", func(path string, v *types.Var) {
		if s, ok := st.loadPath(o, path, v.Type()).(VSlice); ok && s.arr >= 0 {
			out = append(out, s)
		}
	})
	return out
}

// slicesIn collects the slices reachable in a result.
func slicesIn(st *State, v Value) []VSlice {
	switch x := v.(type) {
	case VSlice:
		if x.arr >= 0 {
			return []VSlice{x}
		}
	case VStruct:
		var out []VSlice
		for _, f := range x.f {
			out = append(out, slicesIn(st, f)...)
		}
		return out
	}
	return nil
}

// ---- deadlines of the TCP client --------------------------------------------

// timeoutField finds the field the timeout option sets.
func (c *Ctx) timeoutField(p *provider) fieldAt {
	var out []fieldAt
	st := p.st.clone()
	fn := c.method(p.typ, "setTCPTimeout")
	t := symL(namedSym("newtimeout", -1<<40, 1<<40))
	rs := c.run(p.in, st, fn, []Value{p.ptr, VInt{t}})
	for _, r := range rs {
		leaves(r.st.obj(p.ptr.obj).typ, "", func(path string, v *types.Var) {
			if n, ok := r.st.loadPath(r.st.obj(p.ptr.obj), path, v.Type()).(VInt); ok && n.l.eq(t) {
				out = append(out, fieldAt{path, v.Type()})
			}
		})
	}
	if len(out) != 1 {
		stop("the timeout of the TCP client was not found")
	}
	return out[0]
}

func v04client(c *Ctx, sites map[token.Pos]bool) {
	k := kindOf("tcp")
	for _, m := range []string{"SendRawFrame", "Connect", "Send", "SendPdu"} {
		p, _, rs := c.transportCall(k, m, nil)
		nm := k.typ + "." + m
		tf := c.timeoutField(p)
		timeout := p.st.loadPath(p.st.obj(p.ptr.obj), tf.path, tf.typ).(VInt).l
		for _, r := range rs {
			if !r.panic {
				c.deadlines(p.in, nm, r.st, timeout, true)
				for _, kind := range []string{"read", "write"} {
					for _, e := range eventsOf(r.st, kind) {
						sites[e.pos] = true
					}
				}
				for _, e := range eventsOf(r.st, "open") {
					c.ob("connecting uses the timeout", nm, dialTimeout(r.st, e, timeout), p.in, r.st, e.pos, e.chain, "the connection attempt does not use the configured timeout")
				}
			}
		}
	}
}

// dialTimeout: a dial event uses the timeout.
func dialTimeout(st *State, e *Event, timeout Lin) bool {
	t, ok := e.vals[2].(VTuple)
	if !ok {
		return false
	}
	for _, a := range t.v {
		switch x := a.(type) {
		case VInt:
			if provEq(st, x.l, timeout) {
				return true
			}
		case VPtr:
			if !st.entails(eq(x.nil_, zeroL)) {
				continue
			}
			o := st.obj(x.obj)
			if n, ok := typeAt(o.typ, x.path).(*types.Named); ok && n.Obj().Name() == "Dialer" {
				f, ft, ok := fieldPath(n, "Timeout")
				if !ok {
					continue
				}
				v, ok := st.load(VPtr{obj: x.obj, path: x.path + f}, ft).(VInt)
				return ok && provEq(st, v.l, timeout) && onlyTimeout(st, x, n)
			}
		}
	}
	return false
}

// onlyTimeout: nothing but its timeout limits what a dialer does.
func onlyTimeout(st *State, x VPtr, dialer types.Type) bool {
	for _, nm := range []string{"Deadline", "LocalAddr", "Cancel", "Control", "ControlContext"} {
		f, ft, ok := fieldPath(dialer, nm)
		if !ok {
			continue
		}
		switch v := st.load(VPtr{obj: x.obj, path: x.path + f}, ft).(type) {
		case VStruct:
			if len(v.f) == 0 {
				return false
			}
			if s, isInt := v.f[0].(VInt); !isInt || !provEq(st, s.l, zeroL) {
				return false
			}
		default:
			if isNil, _ := nilness(st, v); !isNil {
				return false
			}
		}
	}
	return true
}

// deadlines decides that every read and write on a path has its deadline.
func (c *Ctx) deadlines(in *Interp, nm string, st *State, timeout Lin, zeroClears bool) {
	es := st.events()
	for i, e := range es {
		if e.kind != "read" && e.kind != "write" {
			continue
		}
		want := map[string]bool{"SetDeadline": true, "SetReadDeadline": e.kind == "read", "SetWriteDeadline": e.kind == "write"}
		ok := false
		why := "no deadline is set"
	back:
		for j := i - 1; j >= 0; j-- {
			d := es[j]
			if d.kind == e.kind || d.kind == "loop" && strings.Contains(d.name, e.kind) {
				why = "no deadline is set since the previous " + e.kind
				break
			}
			if !want[d.kind] {
				continue
			}
			if !sameConn(d.vals[0], e.vals[0]) {
				why = "the deadline is set on another connection"
				break
			}
			ok, why = deadlineRight(st, es[:j], e.kind, d.vals[1], timeout, zeroClears)
			break back
		}
		c.ob("deadline set", nm+" ("+e.kind+")", ok, in, st, e.pos, e.chain, "%s", why)
	}
}

func deadlineRight(st *State, before []*Event, kind string, v Value, timeout Lin, zeroClears bool) (bool, string) {
	t, ok := v.(VStruct)
	if !ok || len(t.f) < 2 {
		return false, "the deadline is not known"
	}
	now, ok1 := t.f[0].(VInt)
	ext, ok2 := t.f[1].(VInt)
	if !ok1 || !ok2 {
		return false, "the deadline is not known"
	}
	isZero := st.entails(eq(now.l, zeroL)) && st.entails(eq(ext.l, zeroL))
	if isZero {
		if zeroClears && st.entails(le(timeout, zeroL)) {
			return true, ""
		}
		return false, "no deadline is set although there is a timeout"
	}
	if zeroClears && !st.entails(gt(timeout, zeroL)) {
		return false, "a deadline is set although there may be no timeout"
	}
	if !provEq(st, ext.l, timeout) {
		return false, "the deadline is not the timeout from now"
	}
	for j := len(before) - 1; j >= 0; j-- {
		switch before[j].kind {
		case "now":
			if n, ok := before[j].vals[0].(VInt); ok && n.l.eq(now.l) {
				return true, ""
			}
		case kind:
			return false, "the deadline is computed from a time before the previous " + kind
		}
	}
	return false, "the deadline is not computed from the current time"
}

// p01: nothing a caller or a peer does makes the client panic.
func p01(c *Ctx) {
	sites := map[string]int{}
	report := func(nm string, in *Interp, rs []callResult) {
		c.noPanics("no panic", nm, in, rs)
		sites[nm] = len(rs)
	}
	for _, r := range clientRuns(c, false) {
		report("client."+r.op.name, r.in, r.rs)
	}
	for _, k := range transports {
		for _, m := range c.methodsOf(k.typ) {
			if !token.IsExported(m) && m != "setSerialConfig" && m != "setTCPTimeout" && m != "setLogProvider" {
				continue
			}
			switch m {
			case "Send", "SendPdu", "SendRawFrame":
				x := c.exchange(k, m, nil)
				report(k.typ+"."+m, x.in, x.rs)
				// what the client operations rely on
				for _, r := range x.rs {
					d, ok := VSlice{}, false
					if !r.panic && m == "Send" {
						if p, isP := r.rets[0].(VStruct); isP && len(p.f) > 1 {
							d, ok = p.f[1].(VSlice)
						}
						yes, _ := splitNil(r.st, r.rets[1])
						c.ob("a reply handed on has data", k.typ+"."+m, yes == nil || ok && yes.entails(ge(d.len, oneL)), x.in, yes, x.fn.Pos(), m, "a reply without data is handed to the client operations, which use its first byte")
					}
				}
			case "Errorf", "Debugf", "LogMode", "setLogProvider":
				continue // decided by M01
			default:
				p, _, rs := c.transportCall(k, m, nil)
				report(k.typ+"."+m, p.in, rs)
			}
		}
		in, st := c.interp()
		ctor := c.fn(k.ctor)
		var args []Value
		for i, prm := range ctor.Params {
			if i == len(ctor.Params)-1 {
				args = append(args, VSlice{arr: -1, nil_: oneL})
				continue
			}
			args = append(args, in.unknown(st, prm.Type(), prm.Name()))
		}
		report(k.ctor, in, c.run(in, st, ctor, args))
	}
	in, st := c.interp()
	f := c.method("ExceptionError", "Error")
	var recv Value = in.unknown(st, f.Params[0].Type(), "e")
	if p, ok := recv.(VPtr); ok {
		p.nil_ = zeroL
		recv = p
	}
	report("ExceptionError.Error", in, c.run(in, st, f, []Value{recv}))
	// the helpers on arbitrary input
	for _, d := range []string{"decodeRTUFrame", "decodeASCIIFrame", "decodeTCPFrame", "calculateResponseLength", "CRC16"} {
		in, st := c.interp()
		if d == "CRC16" {
			onceRuns(in)
		} else {
			checksums(c, in)
		}
		buf, _ := inputSlice(in, st, tByte, "adu", 65535)
		report(d, in, c.run(in, st, c.fn(d), []Value{buf}))
	}
	c.atLeast("no panic", 15+3*8)
}

const exchangeRule = "Abstract interpretation of the transports (RTU, ASCII, TCP) on a client in an arbitrary condition, with unknown arguments, unknown reply bytes delivered in unknown pieces, and a success and a failure outcome for every library operation. "

func init() {
	register("T04", exchangeRule+"Every success path of Send and SendPdu must entail that the received frame answers the request and the result is, for every index, the PDU of that frame; on every failing path without an I/O failure the conditions of an answering frame must be contradictory.", t04)
	register("T05", exchangeRule+"Every write must entail a PDU within 1 to 253 bytes and carry the whole frame; a path without a write must return an error and, without an I/O failure, contradict a fitting size.", t05)
	register("T06", exchangeRule+"For every kind of request the bytes waited for at each read, and the bytes taken at each success, are compared with the reply length of the protocol as a linear expression in the request (and for FIFO reads the reply).", t06)
	register("T07", exchangeRule+"Every path on which the received frame is an exception reply to the request must return an *ExceptionError whose code is the data byte of that frame; a path returning one must contradict equal function codes.", t07)
	register("T08", exchangeRule+"On every path of SendRawFrame the sequence of open, write and read events, the bytes written and the bytes returned are compared, for every index, with the request and the peer's stream; loops are summarised by inductive invariants.", t08)
	register("V05", exchangeRule+"For every path of SendRawFrame the connection field at the exit and the close events are compared with what failed on the path.", v05)
	register("V07", exchangeRule+"The connection held is tracked through the open and close events of Connect, Close, IsConnected and SendRawFrame, starting from any condition (inductive: every operation starts and ends with the record matching the connection held).", v07)
	register("L01", "Lockset analysis: every access to the connection field and every operation on the connection, on every path of every exported operation of the transports, must happen under one and the same lock of the client, which is not released between writing a request and the last read (a goroutine started on the way holds no lock); every use of the field in the source must be among the analysed accesses.", l01)
	register("L04", "Typestate of pooled buffers on every path of Send and SendPdu (panicking ones included): taken once, given back exactly once, to the same pool, with its full capacity, no access to its memory afterwards, results not sharing memory with it; a goroutine started on the way counts as running after the buffer was given back.", l04)
	register("P01", "Every operation of the client interface over an arbitrary transport, and every exported operation of the three transports on arbitrary arguments, peer bytes and library failures, is interpreted abstractly; every index, slice, assertion, nil, division and library precondition is an obligation, and every feasible panicking path a violation; goroutines started on the way are interpreted too. A reply handed to the client operations must have data, as they use its first byte.", p01)
}
