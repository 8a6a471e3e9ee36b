package main

// The client operations: arguments, requests, replies, returned values (C01-C04, P01).

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var (
	tByte   = types.Typ[types.Uint8]
	tWord   = types.Typ[types.Uint16]
	tBool   = types.Typ[types.Bool]
	tString = types.Typ[types.String]
)

// clientOp specifies one operation of the Client interface.
type clientOp struct {
	name  string
	fc    int64
	read  bool   // the lower bound of the address range applies
	args  string // after the slave id: a address, q quantity, v value, o on/off, m mask, b bytes, w words
	reply string // 'bits', 'regs', 'echo', 'fifo'
	words bool   // returns words
}

var clientOps = []clientOp{
	{"ReadCoils", 1, true, "aq", "bits", false},
	{"ReadDiscreteInputs", 2, true, "aq", "bits", false},
	{"WriteSingleCoil", 5, false, "ao", "echo", false},
	{"WriteMultipleCoils", 15, false, "aqb", "echo", false},
	{"ReadInputRegistersBytes", 4, true, "aq", "regs", false},
	{"ReadInputRegisters", 4, true, "aq", "regs", true},
	{"ReadHoldingRegistersBytes", 3, true, "aq", "regs", false},
	{"ReadHoldingRegisters", 3, true, "aq", "regs", true},
	{"WriteSingleRegister", 6, false, "av", "echo", false},
	{"WriteMultipleRegistersBytes", 16, false, "aqb", "echo", false},
	{"WriteMultipleRegisters", 16, false, "aqw", "echo", false},
	{"MaskWriteRegister", 22, false, "amm", "echo", false},
	{"ReadWriteMultipleRegistersBytes", 23, true, "aqAQb", "regs", false},
	{"ReadWriteMultipleRegisters", 23, true, "aqAQb", "regs", true},
	{"ReadFIFOQueue", 24, true, "a", "fifo", false},
}

// qRange is the quantity range of a function.
func qRange(fc int64, second bool) (int64, int64) {
	switch fc {
	case 1, 2:
		return 1, 2000
	case 15:
		return 1, 1968
	case 3, 4:
		return 1, 125
	case 16:
		return 1, 123
	case 23:
		if second {
			return 1, 121
		}
		return 1, 125
	}
	return 0, 65535
}

type clientRun struct {
	op        clientOp
	in        *Interp
	st0       *State
	fn        *ssa.Function
	legal     []Atom
	illegal   [][]Atom
	slave     Lin
	words     []Lin // fixed words of the request after the function code
	payload   *Snap // payload as given by the caller (elements in its own width)
	payW      int
	callerObj int // the array of the caller's payload
	plen      Lin // payload bytes of the request
	rs        []callResult
	req       *Event
}

// clientRuns analyses every operation of the client made by NewClient over an unknown
// transport.
func clientRuns(c *Ctx, defaults bool) []*clientRun {
	var out []*clientRun
	for _, op := range clientOps {
		in, st := c.interp()
		r := &clientRun{op: op, in: in}
		// the transport: any reply with at least one data byte, or an error
		in.override["invoke Send"] = func(ci *callInfo) []callResult {
			recv, ok := ci.args[0].(VIface)
			if !ok || recv.id != "transport" {
				return nil
			}
			a, b := ci.st.clone(), ci.st.clone()
			pdu, _ := ci.args[2].(VStruct)
			mk := func(s *State, vals ...Value) *Event {
				e := &Event{kind: "transport", name: "Send", pos: ci.pos, vals: append([]Value{ci.args[1], ci.args[2]}, vals...)}
				if len(pdu.f) == 2 {
					if d, ok := pdu.f[1].(VSlice); ok {
						e.snap = sliceSnap(s, d)
					}
				}
				return in.event(ci.fr, s, e)
			}
			rt := ci.sig.Results().At(0).Type()
			rsp := in.unknown(a, rt, "reply").(VStruct)
			rl := rsp.f[1].(VSlice)
			a.assume(ge(rl.len, oneL))
			a.assume(le(rl.len, con(252)))
			mk(a, rsp, nilErr, VSnap{sliceSnap(a, rl)})
			err := VIface{id: "senderr", nil_: zeroL}
			rsp2 := in.unknown(b, rt, "errreply").(VStruct)
			mk(b, rsp2, err, VSnap{&Snap{zeroContent, zeroL, zeroL}})
			return []callResult{{st: a, rets: []Value{rsp, nilErr}}, {st: b, rets: []Value{rsp2, err}}}
		}
		amin, amax := symL(namedSym("addressMin", 0, 255)), symL(namedSym("addressMax", 0, 255))
		prov := VIface{id: "transport", nil_: zeroL}
		optT := c.p.typ("Option")
		if optT == nil {
			stop("type Option not found")
		}
		opts := VSlice{arr: -1, nil_: oneL}
		if defaults {
			amin, amax = con(1), con(247)
		} else {
			var fs []Value
			for i, n := range []string{"WithAddressMin", "WithAddressMax"} {
				rs := c.run(in, st, c.fn(n), []Value{VInt{[]Lin{amin, amax}[i]}})
				if len(rs) != 1 || rs[0].panic {
					stop("%s has no single outcome", n)
				}
				st = rs[0].st
				fs = append(fs, rs[0].rets[0])
			}
			opts = sliceOf(st, optT, fs...)
		}
		rs := c.run(in, st, c.fn("NewClient"), []Value{prov, opts})
		if len(rs) != 1 || rs[0].panic {
			stop("NewClient has no single outcome")
		}
		st = rs[0].st
		cl, ok := rs[0].rets[0].(VIface)
		if !ok || cl.typ == nil {
			stop("NewClient does not return a known client type")
		}
		r.fn = c.p.prog.LookupMethod(cl.typ, c.p.tp, op.name)
		if r.fn == nil {
			stop("client operation %s not found", op.name)
		}
		if len(r.fn.Params) != 2+len(op.args) {
			stop("client operation %s has another signature", op.name)
		}
		r.slave = symL(namedSym("slave", 0, 255))
		args := []Value{cl.val, VInt{r.slave}}
		r.legal = []Atom{le(r.slave, amax)}
		if op.read {
			r.legal = append(r.legal, ge(r.slave, amin))
		}
		r.plen = zeroL
		var q Lin
		for i, ch := range op.args {
			nm := op.args[:i+1]
			switch ch {
			case 'a', 'A', 'v', 'm':
				s := symL(namedSym("arg."+nm, 0, 65535))
				args = append(args, VInt{s})
				r.words = append(r.words, s)
			case 'q', 'Q':
				q = symL(namedSym("arg."+nm, 0, 65535))
				args = append(args, VInt{q})
				r.words = append(r.words, q)
				lo, hi := qRange(op.fc, ch == 'Q')
				r.legal = append(r.legal, ge(q, con(lo)), le(q, con(hi)))
			case 'o':
				b := symL(namedSym("arg."+nm, 0, 1))
				args = append(args, VBool{ge(b, oneL)})
				r.words = append(r.words, b.scale(0xFF00))
			case 'b', 'w':
				el, w := types.Type(tByte), 8
				if ch == 'w' {
					el, w = tWord, 16
				}
				s, n := inputSlice(in, st, el, "arg.payload", 0)
				args = append(args, s)
				r.callerObj = s.arr
				r.payload, r.payW = sliceSnap(st, s), w
				switch {
				case op.fc == 15:
					r.legal = append(r.legal, ge(n.scale(8), q))
					r.plen = divL(q.addc(7), 8)
				case w == 16:
					r.legal = append(r.legal, eq(n, q))
					r.plen = q.scale(2)
				default:
					r.legal = append(r.legal, eq(n, q.scale(2)))
					r.plen = q.scale(2)
				}
			}
		}
		r.st0 = st
		r.rs = c.run(in, st.clone(), r.fn, args)
		out = append(out, r)
	}
	return out
}

func resultErr(r callResult) Value { return r.rets[len(r.rets)-1] }

func init() {
	register("C01", "Every path of every client operation, for unknown arguments and an unknown configured address range, is followed through the type-checked SSA program: a path that hands a request to the transport must imply every argument rule of the protocol; a path that returns without sending must be infeasible once all argument rules are assumed, must return an error, and no path sends twice.", func(c *Ctx) {
		for _, def := range []bool{false, true} {
			for _, r := range clientRuns(c, def) {
				nm := r.op.name
				if def {
					nm += " (default range)"
				}
				for _, res := range r.rs {
					if res.panic {
						continue // P01
					}
					sends := eventsOf(res.st, "transport")
					c.ob("one request", nm, len(sends) <= 1, r.in, res.st, r.fn.Pos(), "", "a path sends %d requests", len(sends))
					if len(sends) > 0 {
						for _, a := range r.legal {
							ok := condEntails(sends[0].cond, a)
							c.ob("sent implies legal", nm, ok, r.in, res.st, sends[0].pos, sends[0].chain, "a request is sent although %s is not ensured", a)
						}
						continue
					}
					_, bad := nilness(res.st, resultErr(res))
					c.ob("refusal is an error", nm, bad, r.in, res.st, r.fn.Pos(), "", "a call that sends nothing may return no error")
					c.ob("legal implies sent", nm, impossible(res.st, r.legal), r.in, res.st, r.fn.Pos(), "", "a call with legal arguments may be refused")
				}
				n := 0
				for _, res := range r.rs {
					if len(eventsOf(res.st, "transport")) > 0 {
						n++
					}
				}
				c.ob("operation sends", nm, n > 0, r.in, nil, r.fn.Pos(), "", "the operation never sends a request")
			}
		}
		c.atLeast("sent implies legal", 2*len(clientOps))
	})

	register("C02", "On every path of every client operation that reaches the transport, the abstract content of the request (slave id, function code, every fixed byte, and the payload at an arbitrary index) is compared symbolically with the layout of the protocol; the memory of the caller's payload must be the same after every path.", func(c *Ctx) {
		for _, r := range clientRuns(c, false) {
			nm := r.op.name
			for _, res := range r.rs {
				if r.payload != nil {
					c.ob("the caller's memory is left alone", nm, res.st.obj(r.callerObj).c == r.st0.obj(r.callerObj).c, r.in, res.st, r.fn.Pos(), shortFn(r.fn), "the operation writes into the memory of the caller's slice")
				}
				for _, e := range eventsOf(res.st, "transport") {
					st := res.st.clone()
					st.cond = e.cond
					for _, a := range r.legal {
						st.assume(a)
					}
					if !st.feasible() {
						continue
					}
					sl, _ := e.vals[0].(VInt)
					c.ob("slave id", nm, provEq(st, sl.l, r.slave), r.in, st, e.pos, e.chain, "the request goes to %s", sl.l)
					pdu, ok := e.vals[1].(VStruct)
					if !ok || e.snap == nil {
						c.ob("function code", nm, false, r.in, st, e.pos, e.chain, "the request PDU is unknown")
						continue
					}
					fc, _ := pdu.f[0].(VInt)
					c.ob("function code", nm, provEq(st, fc.l, con(r.op.fc)), r.in, st, e.pos, e.chain, "function code %s instead of %d", fc.l, r.op.fc)
					fixed := int64(2 * len(r.words))
					want := con(fixed)
					if r.payload != nil {
						want = want.addc(1).add(r.plen)
					}
					if !c.ob("length", nm, provEq(st, e.snap.n, want), r.in, st, e.pos, e.chain, "the request data has %s bytes, expected %s", e.snap.n, want) {
						continue
					}
					for i, w := range r.words {
						hi := divL(w, 256)
						for j, b := range []Lin{hi, w.sub(hi.scale(256))} {
							ok, why := elemIs(st, e.snap, con(int64(2*i+j)), 8, b)
							c.ob("fixed fields", nm, ok, r.in, st, e.pos, e.chain, "byte %d of the request data %s", 2*i+j, why)
						}
					}
					if r.payload != nil {
						ok, why := elemIs(st, e.snap, con(fixed), 8, r.plen)
						c.ob("byte count", nm, ok, r.in, st, e.pos, e.chain, "byte count %s", why)
						want := fromSnap(r.payload, 8)
						if r.payW == 16 {
							pl := &Content{kind: cBEEnc, src: r.payload.c, soff: r.payload.off, n: r.payload.n.scale(2), prev: zeroContent}
							want = fromSnap(&Snap{pl, zeroL, pl.n}, 8)
						}
						ok, why = allElems(st, e.snap, con(fixed+1), r.plen, 8, want)
						c.ob("payload", nm, ok, r.in, st, e.pos, e.chain, "payload: %s", why)
					}
				}
			}
		}
		c.atLeast("function code", len(clientOps))
		c.atLeast("fixed fields", len(clientOps))
		c.atLeast("payload", 5)
		c.atLeast("the caller's memory is left alone", 5)
	})

	register("C03", "For every path of every client operation after the transport has answered: a path that reports success must imply every consistency rule between request and reply; a path that reports an error must be infeasible once all these rules are assumed; a path on which the transport failed must return the transport's error.", func(c *Ctx) {
		for _, r := range clientRuns(c, false) {
			nm := r.op.name
			for _, res := range r.rs {
				sends := eventsOf(res.st, "transport")
				if res.panic || len(sends) == 0 {
					continue
				}
				e := sends[0]
				rerr := resultErr(res).(VIface)
				if terr := e.vals[3].(VIface); !isTrueL(terr.nil_) {
					c.ob("transport error passed on", nm, valueEq(rerr, terr), r.in, res.st, r.fn.Pos(), "", "an error of the transport is not returned to the caller")
					continue
				}
				rules := replyRules(r, res.st, e)
				yes, no := splitNil(res.st, rerr)
				if yes != nil {
					for _, w := range rules {
						c.ob("success implies consistent reply", nm, w(yes, true), r.in, yes, r.fn.Pos(), "", "a reply is accepted that does not answer the request")
					}
				}
				if no != nil {
					s := no.clone()
					for _, w := range rules {
						w(s, false)
					}
					c.ob("consistent reply accepted", nm, !s.feasible(), r.in, no, r.fn.Pos(), "", "a reply that answers the request may be refused")
				}
			}
		}
		c.atLeast("success implies consistent reply", len(clientOps))
		c.atLeast("transport error passed on", len(clientOps))
	})

	register("C04", "For every successful path of every client read the returned slice is compared, at an arbitrary index, with the payload of the reply (big-endian decoded for the word variants) and in length; failing paths must return no data.", func(c *Ctx) {
		for _, r := range clientRuns(c, false) {
			nm := r.op.name
			if r.op.reply == "echo" {
				continue
			}
			for _, res := range r.rs {
				if res.panic {
					continue
				}
				data, ok := res.rets[0].(VSlice)
				if !ok {
					c.ob("payload returned", nm, false, r.in, res.st, r.fn.Pos(), "", "result unknown")
					continue
				}
				rerr := resultErr(res)
				yes, no := splitNil(res.st, rerr)
				if no != nil {
					c.ob("no data on failure", nm, no.entails(eq(data.len, zeroL)), r.in, no, r.fn.Pos(), "", "data is returned together with an error")
				}
				sends := eventsOf(res.st, "transport")
				if yes == nil || len(sends) == 0 {
					continue
				}
				src := sends[0].vals[4].(VSnap).s
				skip := int64(1)
				if r.op.reply == "fifo" {
					skip = 4
				}
				src = &Snap{src.c, src.off.addc(skip), src.n.addc(-skip)}
				got := sliceSnap(yes, data)
				if !r.op.words {
					ok := provEq(yes, data.len, src.n)
					c.ob("payload length", nm, ok, r.in, yes, r.fn.Pos(), "", "%s bytes are returned for %s bytes of payload", data.len, src.n)
					ok, why := allElems(yes, got, zeroL, src.n, 8, fromSnap(src, 8))
					c.ob("payload returned", nm, ok, r.in, yes, r.fn.Pos(), "", "%s", why)
					continue
				}
				n := divL(src.n, 2)
				ok = provEq(yes, data.len, n)
				c.ob("payload length", nm, ok, r.in, yes, r.fn.Pos(), "", "%s words are returned for %s bytes of payload", data.len, src.n)
				dec := &Content{kind: cBEDec, src: src.c, soff: src.off, n: n, prev: zeroContent}
				ok, why := allElems(yes, got, zeroL, n, 16, fromSnap(&Snap{dec, zeroL, n}, 16))
				c.ob("payload returned", nm, ok, r.in, yes, r.fn.Pos(), "", "%s", why)
			}
		}
		c.atLeast("payload returned", 9)
		c.atLeast("no data on failure", 9)
	})
}

// replyRules are the consistency rules of a reply; each either proves itself (prove) or
// assumes itself.
func replyRules(r *clientRun, st *State, e *Event) []func(st *State, prove bool) bool {
	rsp := e.vals[2].(VStruct).f[1].(VSlice)
	sn := e.vals[4].(VSnap).s
	at := func(s *State, i int64) Lin {
		as := s.read(sn.c, sn.off.addc(i), 8)
		if len(as) == 0 {
			return symL(freshSym("?", 0, 255))
		}
		return as[0].val
	}
	var rules []func(*State, bool) bool
	atom := func(f func(s *State) Atom) {
		rules = append(rules, func(s *State, prove bool) bool {
			a := f(s)
			if prove {
				return s.entails(a)
			}
			s.assume(a)
			return true
		})
	}
	word := func(i int64) func(s *State) Lin {
		return func(s *State) Lin { return at(s, i).scale(256).add(at(s, i+1)) }
	}
	var q Lin
	for i, ch := range r.op.args {
		if ch == 'q' {
			q = r.words[i]
		}
	}
	switch r.op.reply {
	case "bits":
		atom(func(s *State) Atom { return eq(at(s, 0), divL(q.addc(7), 8)) })
		atom(func(s *State) Atom { return eq(rsp.len, at(s, 0).addc(1)) })
	case "regs":
		atom(func(s *State) Atom { return eq(at(s, 0), q.scale(2)) })
		atom(func(s *State) Atom { return eq(rsp.len, at(s, 0).addc(1)) })
	case "echo":
		n := 2
		if r.op.fc == 22 {
			n = 3
		}
		atom(func(s *State) Atom { return eq(rsp.len, con(int64(2*n))) })
		for i := 0; i < n; i++ {
			w := r.words[i]
			f := word(int64(2 * i))
			atom(func(s *State) Atom { return eq(f(s), w) })
		}
	case "fifo":
		atom(func(s *State) Atom { return ge(rsp.len, con(4)) })
		atom(func(s *State) Atom { return eq(rsp.len, word(0)(s).addc(2)) })
		atom(func(s *State) Atom { return le(word(2)(s), con(31)) })
		atom(func(s *State) Atom { return eq(rsp.len.addc(-4), word(2)(s).scale(2)) })
	}
	return rules
}
