package main

// The transports of the client: frames, replies, sizes, connection life (T01-T08, P01, V04,
// V05, V07, L01, L04).

import (
	"fmt"
	"go/types"
)

const hexDigits = "0123456789ABCDEF"

func hexBase() *Base {
	v := make([]int64, 16)
	for i := range v {
		v[i] = int64(hexDigits[i])
	}
	return constBase("\""+hexDigits+"\"", v, 8)
}

// isHexOf: got is the upper case hexadecimal character of the high or low half of v.
func isHexOf(st *State, got, v Lin, high bool) bool {
	nib := divL(v, 16)
	if !high {
		nib = modL(v, 16)
	}
	if c, ok := nib.constVal(); ok {
		return st.entails(eq(got, con(int64(hexDigits[c&15]))))
	}
	if provEq(st, got, inL(hexBase(), nib)) {
		return true
	}
	if len(v.t) != 1 || v.t[0].k != 1 || v.c != 0 {
		return false
	}
	for j := int64(0); j < 16; j++ {
		f := symL(freshSym("half", 0, 15))
		w := f.addc(16 * j)
		if !high {
			w = f.scale(16).addc(j)
		}
		s := st.clone()
		s.assume(eq(v, w))
		if !s.feasible() {
			continue
		}
		sub := newSubst(map[*Sym]Lin{v.t[0].s: w})
		want := con(int64(hexDigits[j]))
		if !s.entails(eq(got, want)) && !s.entails(eq(sub.lin(got), want)) {
			return false
		}
	}
	return true
}

// pduLen is the length of the request PDU.
func (x *exchange) pduLen() Lin { return x.req.n.addc(1) }

// checkFrame compares the bytes written with the frame the transport prescribes.
func (c *Ctx) checkFrame(x *exchange, st *State, e *Event) {
	nm := x.typ + "." + x.method
	w := e.snap
	bad := func(rule string, ok bool, why string, a ...interface{}) bool {
		return c.ob(rule, nm, ok, x.in, st, e.pos, e.chain, why, a...)
	}
	if w == nil {
		bad("frame length", false, "the bytes written are unknown")
		return
	}
	fixed := func(i Lin, want Lin, what string) {
		ok, why := elemIs(st, w, i, 8, want)
		bad("frame fields", ok, "%s: byte %s %s", what, i, why)
	}
	d := x.req.n
	switch x.kind {
	case "rtu":
		n := d.addc(4)
		if !bad("frame length", provEq(st, w.n, n), "%s bytes are written, expected %s", w.n, n) {
			return
		}
		fixed(con(0), x.slave, "slave address")
		fixed(con(1), x.fc, "function code")
		ok, why := allElems(st, w, con(2), d, 8, fromSnap(x.req, 8))
		bad("frame data", ok, "%s", why)
		crc, why := sumOver(st, "crc", w, zeroL, n.addc(-2))
		if !bad("checksum coverage", crc != nil, "%s", why) {
			return
		}
		fixed(n.addc(-2), modL(*crc, 256), "CRC low byte")
		fixed(n.addc(-1), divL(*crc, 256), "CRC high byte")
	case "tcp":
		n := d.addc(8)
		if !bad("frame length", provEq(st, w.n, n), "%s bytes are written, expected %s", w.n, n) {
			return
		}
		ln := d.addc(2)
		tid := x.tid()
		for i, b := range []Lin{modL(divL(tid, 256), 256), modL(tid, 256), zeroL, zeroL, divL(ln, 256), modL(ln, 256), x.slave, x.fc} {
			fixed(con(int64(i)), b, []string{"transaction id", "transaction id", "protocol id", "protocol id", "length", "length", "unit id", "function code"}[i])
		}
		ok, why := allElems(st, w, con(8), d, 8, fromSnap(x.req, 8))
		bad("frame data", ok, "%s", why)
	case "ascii":
		n := d.scale(2).addc(9)
		if !bad("frame length", provEq(st, w.n, n), "%s bytes are written, expected %s", w.n, n) {
			return
		}
		fixed(zeroL, con(':'), "start")
		fixed(n.addc(-2), con('\r'), "end")
		fixed(n.addc(-1), con('\n'), "end")
		// what the LRC was computed over
		lrc, why := lrcOver(st, x)
		bad("checksum coverage", lrc != nil, "%s", why)
		hexAt := func(st *State, i, v Lin, what string) {
			for h := int64(0); h < 2; h++ {
				for _, a := range readSnap(st.clone(), w, i.addc(h), 8) {
					bad("frame fields", isHexOf(a.st, a.val, v, h == 0), "%s: byte %s is %s", what, i.addc(h), a.val)
				}
			}
		}
		hexAt(st, con(1), x.slave, "slave address")
		hexAt(st, con(3), x.fc, "function code")
		if lrc != nil {
			hexAt(st, n.addc(-4), *lrc, "LRC")
		}
		s2 := st.clone()
		i := symL(freshSym("i", 0, 1<<40))
		s2.assume(lt(i, d))
		if s2.feasible() {
			for _, v := range readSnap(s2, x.req, i, 8) {
				for h := int64(0); h < 2; h++ {
					for _, a := range readSnap(v.st.clone(), w, i.scale(2).addc(5+h), 8) {
						bad("frame data", isHexOf(a.st, a.val, v.val, h == 0), "data byte %s is written as %s", i, a.val)
					}
				}
			}
		}
	}
}

// tid is the transaction counter before the exchange.
func (x *exchange) tid() Lin {
	f := x.tidField()
	v, ok := x.st.load(VPtr{obj: x.ptr.obj, path: f.path}, f.typ).(VInt)
	if !ok {
		stop("the transaction counter is not a number")
	}
	return modL(v.l.addc(1), 65536)
}

type fieldAt struct {
	path string
	typ  types.Type
}

// tidField is the only counter of the TCP transport.
func (x *exchange) tidField() fieldAt {
	var out []fieldAt
	leaves(x.st.obj(x.ptr.obj).typ, "", func(path string, v *types.Var) {
		if b, ok := v.Type().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && len(path) > 0 && v.Pkg() != nil {
			if s := structOf(x.st.obj(x.ptr.obj).typ); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i) == v {
						out = append(out, fieldAt{path, v.Type()})
					}
				}
			}
		}
	})
	// or the number in one of the atomic types
	if s := structOf(x.st.obj(x.ptr.obj).typ); s != nil && len(out) == 0 {
		for i := 0; i < s.NumFields(); i++ {
			n, ok := s.Field(i).Type().(*types.Named)
			a := structOf(s.Field(i).Type())
			if !ok || a == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync/atomic" || n.Obj().Name() == "Bool" {
				continue
			}
			v := a.Field(a.NumFields() - 1)
			if b, ok := v.Type().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				out = append(out, fieldAt{fmt.Sprintf(".%d.%d", i, a.NumFields()-1), v.Type()})
			}
		}
	}
	if len(out) != 1 {
		stop("the transaction counter of the TCP transport was not found")
	}
	return out[0]
}

// sumOver finds a checksum computed over exactly the given part of a content.
func sumOver(st *State, kind string, w *Snap, from, n Lin) (*Lin, string) {
	why := "no " + kind + " is computed"
	es := eventsOf(st, kind)
	for i := len(es) - 1; i >= 0; i-- {
		e := es[i]
		if e.snap == nil || !provEq(st, e.snap.n, n) {
			why = fmt.Sprintf("the %s does not cover the %s bytes before it", kind, n)
			continue
		}
		ok, m := allElems(st, e.snap, zeroL, n, 8, func(s *State, i Lin) []readAlt { return readSnap(s, w, from.add(i), 8) })
		if ok {
			l := e.vals[0].(VInt).l
			return &l, ""
		}
		why = "covered bytes: " + m
	}
	return nil, why
}

// lrcOver finds the LRC of slave, function code and request data.
func lrcOver(st *State, x *exchange) (*Lin, string) {
	why := "no LRC is computed"
	for _, e := range eventsOf(st, "lrc") {
		if e.snap == nil || !provEq(st, e.snap.n, x.req.n.addc(2)) {
			why = "the LRC does not cover slave address, function code and data"
			continue
		}
		ok1, w1 := elemIs(st, e.snap, zeroL, 8, x.slave)
		ok2, w2 := elemIs(st, e.snap, oneL, 8, x.fc)
		ok3, w3 := allElems(st, e.snap, con(2), x.req.n, 8, fromSnap(x.req, 8))
		if ok1 && ok2 && ok3 {
			l := e.vals[0].(VInt).l
			return &l, ""
		}
		why = "LRC covers " + w1 + w2 + w3
	}
	return nil, why
}

// frameView is a received frame taken apart as its specification says.
type frameView struct {
	slave, fc  Lin
	tid, proto Lin
	n          Lin // data bytes after the function code
	data       func(*State, Lin) []readAlt
	conds      []Atom // shape
	sum        []Atom // checksum; nil: not computed over the right bytes
	sumWhy     string
	hexFailed  bool // the characters are not hexadecimal
	hexSeen    bool
}

func one(st *State, s *Snap, i Lin) Lin {
	as := st.read(s.c, s.off.add(i), 8)
	if len(as) != 1 {
		return symL(freshSym("?", 0, 255))
	}
	return as[0].val
}

// view describes the frame held by adu; the checksum events of the path tell which
// checksum belongs to it.
func view(kind string, st *State, adu *Snap) *frameView {
	at := func(i Lin) Lin { return one(st, adu, i) }
	ci := func(i int64) Lin { return at(con(i)) }
	v := &frameView{}
	n := adu.n
	switch kind {
	case "rtu":
		v.slave, v.fc, v.n = ci(0), ci(1), n.addc(-4)
		v.data = func(s *State, i Lin) []readAlt { return readSnap(s, adu, i.addc(2), 8) }
		v.conds = []Atom{ge(n, con(4))}
		if st.possible(v.conds[0]) {
			s2 := st.clone()
			s2.assume(v.conds[0])
			crc, why := sumOver(s2, "crc", adu, zeroL, n.addc(-2))
			v.sumWhy = why
			if crc != nil {
				v.sum = []Atom{eq(*crc, at(n.addc(-2)).add(at(n.addc(-1)).scale(256)))}
			}
		}
	case "tcp":
		v.tid, v.proto = ci(0).scale(256).add(ci(1)), ci(2).scale(256).add(ci(3))
		v.slave, v.fc, v.n = ci(6), ci(7), n.addc(-8)
		v.data = func(s *State, i Lin) []readAlt { return readSnap(s, adu, i.addc(8), 8) }
		v.conds = []Atom{ge(n, con(8)), eq(ci(4).scale(256).add(ci(5)), n.addc(-6))}
		v.sum = []Atom{}
	case "ascii":
		m := divL(n.addc(-3), 2) // decoded bytes
		dec := func(s *State, i Lin) []readAlt {
			var out []readAlt
			for _, a := range readSnap(s, adu, i.scale(2).addc(1), 8) {
				for _, b := range readSnap(a.st, adu, i.scale(2).addc(2), 8) {
					out = append(out, readAlt{b.st, fnL("hexdigit", 0, 15, a.val).scale(16).add(fnL("hexdigit", 0, 15, b.val)), true})
				}
			}
			return out
		}
		d := func(i Lin) Lin {
			return fnL("hexdigit", 0, 15, at(i.scale(2).addc(1))).scale(16).add(fnL("hexdigit", 0, 15, at(i.scale(2).addc(2))))
		}
		v.slave, v.fc, v.n = d(zeroL), d(oneL), m.addc(-3)
		v.data = func(s *State, i Lin) []readAlt { return dec(s, i.addc(2)) }
		v.conds = []Atom{ge(n, con(9)), eq(n.addc(-3), m.scale(2)), eq(ci(0), con(':')), eq(at(n.addc(-2)), con('\r')), eq(at(n.addc(-1)), con('\n'))}
		for _, e := range eventsOf(st, "hexdecode", "hexfail") {
			if e.snap == nil || !provEq(st, e.snap.n, n.addc(-3)) {
				continue
			}
			if ok, _ := allElems(st, e.snap, zeroL, n.addc(-3), 8, func(s *State, i Lin) []readAlt { return readSnap(s, adu, i.addc(1), 8) }); ok {
				if e.kind == "hexfail" {
					v.hexFailed = true
				} else {
					v.hexSeen = true
				}
			}
		}
		s2 := st.clone()
		for _, a := range v.conds {
			s2.assume(a)
		}
		v.sumWhy = "no LRC is computed over the decoded bytes"
		for _, e := range eventsOf(st, "lrc") {
			if e.snap == nil || !provEq(s2, e.snap.n, m.addc(-1)) {
				continue
			}
			ok, why := allElems(s2, e.snap, zeroL, m.addc(-1), 8, dec)
			if ok {
				v.sum = []Atom{eq(e.vals[0].(VInt).l, d(m.addc(-1)))}
			} else {
				v.sumWhy = why
			}
		}
	}
	return v
}

// decodeCheck decides a frame decoder: accepts exactly the frames of the specification and
// takes them apart rightly.
func (c *Ctx) decodeCheck(kind, fname string) {
	in, st := c.interp()
	checksums(c, in)
	fn := c.fn(fname)
	buf, _ := inputSlice(in, st, tByte, "adu", 1<<20)
	adu := sliceSnap(st, buf)
	rs := c.noPanics("decoder does not panic", fname, in, c.run(in, st.clone(), fn, []Value{buf}))
	nOK := 0
	for _, r := range rs {
		if len(r.rets) != 3 {
			stop("%s has another signature", fname)
		}
		bad := func(rule string, ok bool, s *State, why string, a ...interface{}) {
			c.ob(rule, fname, ok, in, s, fn.Pos(), "", why, a...)
		}
		v := view(kind, r.st, adu)
		yes, no := splitNil(r.st, r.rets[2])
		if no != nil && !v.hexFailed {
			s := no.clone()
			for _, a := range append(v.conds, v.sum...) {
				s.assume(a)
			}
			bad("valid frame accepted", !s.feasible(), no, "a frame of the specified form may be refused")
		}
		if yes == nil {
			continue
		}
		nOK++
		for _, a := range v.conds {
			bad("accepted frame valid", provAtom(yes, a), yes, "a frame is accepted although %s is not ensured", a)
		}
		if v.sum == nil {
			bad("accepted frame valid", false, yes, "%s", v.sumWhy)
		}
		for _, a := range v.sum {
			bad("accepted frame valid", provAtom(yes, a), yes, "the checksum is not compared rightly (%s)", a)
		}
		if kind == "ascii" {
			bad("accepted frame valid", v.hexSeen, yes, "the characters between colon and CR LF are not decoded")
		}
		switch h := r.rets[0].(type) {
		case VInt:
			bad("fields taken apart", provEq(yes, h.l, v.slave), yes, "slave address is %s", h.l)
		case VStruct:
			ok := len(h.f) == 4
			if ok {
				want := []Lin{v.tid, v.proto, v.n.addc(2), v.slave}
				for i, f := range h.f {
					fi, isI := f.(VInt)
					ok = ok && isI && provEq(yes, fi.l, want[i])
				}
			}
			bad("fields taken apart", ok, yes, "header fields are not those of the frame")
		default:
			bad("fields taken apart", false, yes, "unknown result")
		}
		pdu, ok := r.rets[1].(VSlice)
		if !ok || !provEq(yes, pdu.len, v.n.addc(1)) {
			bad("PDU taken apart", false, yes, "the PDU has %s bytes, expected %s", sliceLen(r.rets[1]), v.n.addc(1))
			continue
		}
		got := sliceSnap(yes, pdu)
		e0, w0 := elemIs(yes, got, zeroL, 8, v.fc)
		e1, w1 := allElems(yes, got, oneL, v.n, 8, v.data)
		bad("PDU taken apart", e0 && e1, yes, "function code %s; data %s", w0, w1)
	}
	c.ob("decoder accepts", fname, nOK > 0, in, nil, fn.Pos(), "", "no frame is accepted")
}

func kindOf(k string) transportKind {
	for _, t := range transports {
		if t.kind == k {
			return t
		}
	}
	panic("kind")
}

// framing decides T01 to T03.
func (c *Ctx) framing(kind, decoder string) {
	k := kindOf(kind)
	for _, m := range []string{"Send", "SendPdu"} {
		x := c.exchange(k, m, nil)
		nm := k.typ + "." + m
		for _, r := range x.rs {
			if r.panic {
				continue
			}
			for _, e := range eventsOf(r.st, "write") {
				st := r.st.clone()
				st.cond = e.cond
				if !st.feasible() {
					continue
				}
				c.checkFrame(x, st, e)
			}
			if kind == "tcp" {
				// the counter moves to the next value whenever something is written
				if len(eventsOf(r.st, "write")) > 0 {
					f := x.tidField()
					old := x.st.load(VPtr{obj: x.ptr.obj, path: f.path}, f.typ).(VInt).l
					now, ok := r.st.load(VPtr{obj: x.ptr.obj, path: f.path}, f.typ).(VInt)
					w, _, _ := intInfo(f.typ)
					ok = ok && (provEq(r.st, modL(now.l, 65536), modL(old.addc(1), 65536)) && w >= 16)
					c.ob("transaction id advances", nm, ok, x.in, r.st, x.fn.Pos(), "", "the transaction counter does not move to its next value")
				}
			}
			// what is accepted has the specified form
			ret := r.rets[len(r.rets)-1]
			yes, _ := splitNil(r.st, ret)
			if yes == nil {
				continue
			}
			v := view(kind, yes, rxSnap(yes))
			ok := v.sum != nil
			for _, a := range append(v.conds, v.sum...) {
				if !provAtom(yes, a) {
					ok = false
					v.sumWhy += "; not ensured: " + a.String()
				}
			}
			c.ob("reply frame checked", nm, ok, x.in, yes, x.fn.Pos(), "", "a reply whose frame is not valid may be accepted %s", v.sumWhy)
		}
	}
	c.decodeCheck(kind, decoder)
	c.atLeast("frame length", 2)
	c.atLeast("frame data", 2)
	c.atLeast("reply frame checked", 2)
}

const framingRule = "Send and SendPdu of the transport are interpreted abstractly with unknown slave, function code and data of unknown length, on a client in an arbitrary condition. " +
	"At every write event the bytes handed to the connection are compared, for every index, with the frame of the specification; the accepted replies must have the specified form and checksum on every success path. " +
	"The frame decoder is decided on unknown input of unknown length: it accepts exactly the frames of the specification and takes them apart rightly. "

func init() {
	register("T01", framingRule+"CRC16 is decided separately as a fold: its loop carries an accumulator starting at 0xFFFF, changed per byte as the reflected polynomial 0xA001 says for each of the 256 table entries, over all bytes in order, and its table is set up once before use.", func(c *Ctx) {
		c.framing("rtu", "decodeRTUFrame")
		crcFold(c)
		c.globalsOnce()
	})
	register("T02", framingRule+"LRC is decided separately as a fold: after Reset and Pushes, Value is minus the sum of the bytes modulo 256.", func(c *Ctx) {
		c.framing("ascii", "decodeASCIIFrame")
		lrcFold(c)
	})
	register("T03", framingRule+"The transaction counter moves to its next 16 bit value with every request written; interpreted once more with other goroutines changing the counter before every atomic or lock operation, each change must be one step from the value just before it, made once, and the frame must carry the value it led to.", func(c *Ctx) {
		c.framing("tcp", "decodeTCPFrame")
		c.tidConcurrent()
	})
}
