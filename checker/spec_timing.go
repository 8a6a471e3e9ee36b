package main

import (
	"fmt"
	"go/types"
)

// baudRates: the usual rates of serial lines, the limits of the rule and rates that do not
// divide the bit times evenly; 0 and less is "not configured".
var baudRates = []int64{-1, 0, 1, 50, 75, 110, 134, 150, 200, 300, 600, 1200, 1800, 2400, 4800, 7200, 9600, 14400, 19199, 19200, 19201, 28800, 38400, 57600, 115200, 230400, 460800, 921600, 4000000}

// t09: the pause between a request on the serial line and reading its reply.
func t09(c *Ctx) {
	for _, b := range baudRates {
		ms := []string{"SendRawFrame"}
		if b == 9600 {
			ms = append(ms, "Send", "SendPdu")
		}
		for _, m := range ms {
			t09rate(c, m, b)
		}
	}
	c.atLeast("pauses for request and reply", len(baudRates))
}

func t09rate(c *Ctx, m string, baud int64) {
	// bit times of a character and of the silence between frames, in µs
	perMin, perMax, gapMin, gapMax := int64(750_000), int64(750_000), int64(1_750_000), int64(1_750_000)
	if baud > 0 && baud <= 19200 {
		perMin, perMax = 15_000_000/baud*1000, (15_000_000_000+baud-1)/baud
		gapMin, gapMax = 35_000_000/baud*1000, (35_000_000_000+baud-1)/baud
	}
	nm := fmt.Sprintf("RTUClientProvider.%s at %d baud", m, baud)
	n := 0
	x := c.exchange(kindOf("rtu"), m, func(x *exchange) {
		set := 0
		o := x.st.mut(x.ptr.obj)
		for _, l := range leafPaths(o.typ, "BaudRate") {
			o.cells[l] = VInt{con(baud)}
			set++
		}
		if set != 1 {
			stop("the RTU client has %d baud rates", set)
		}
		x.in.onEvent = func(fr *Frame, st *State, e *Event) {
			if e.kind != "read" || x.in.quiet > 0 {
				return
			}
			pause := zeroL
			var w *Event
			timers := map[int]Lin{}
			for _, p := range eventsOf(st, "write", "read", "sleep", "timeafter", "recv") {
				switch p.kind {
				case "write":
					w, pause = p, zeroL
				case "sleep":
					if d, ok := p.vals[0].(VInt); ok {
						pause = pause.add(d.l)
					} else {
						stop("a pause of unknown length")
					}
				case "timeafter":
					if ch, ok := p.vals[1].(VRef); ok {
						if d, ok := p.vals[0].(VInt); ok {
							timers[ch.obj] = d.l
						}
					}
				case "recv":
					if ch, ok := p.vals[0].(VRef); ok {
						if d, ok := timers[ch.obj]; ok {
							pause = pause.add(d)
						}
					}
				case "read":
					if p != e && w != nil {
						return // not the first read of the reply
					}
				}
			}
			if w == nil || w.snap == nil {
				c.ob("pauses for request and reply", nm, false, x.in, st, e.pos, e.chain, "reads before it has sent a request")
				return
			}
			n++
			at := func(i int64) Lin { return readSnap(st, w.snap, con(i), 8)[0].val }
			chk := func(st *State, reply Lin, what string) {
				if st == nil {
					return
				}
				chars := w.snap.n.add(reply)
				ok := st.entails(ge(pause, chars.scale(perMin).addc(gapMin))) && st.entails(le(pause, chars.scale(perMax).addc(gapMax)))
				for _, k := range [][2]int64{{perMin, gapMin}, {perMax, gapMax}} {
					if ok {
						break
					}
					// the same per character: compare the numbers of characters
					if q, exact := divExact(pause.addc(-k[1]), k[0]); exact {
						ok = provEq(st, q, chars)
					}
				}
				c.ob("pauses for request and reply", nm+" ("+what+")", ok, x.in, st, e.pos, e.chain, "pauses %s ns before reading the reply to %s bytes, of %s bytes", pause, w.snap.n, reply)
			}
			chk(withAll(st, lt(w.snap.n, con(6))), con(4), "short request")
			long := withAll(st, ge(w.snap.n, con(6)))
			if long == nil {
				return
			}
			for _, lc := range rtuLengths(w.snap, long) {
				switch lc.what {
				case "exception":
				case "FIFO read": // its length is not known yet
					chk(withAll(long, eq(at(1), con(24))), con(4), lc.what)
				case "other function":
					chk(withAll(long, lc.conds[1:]...), con(4), lc.what)
				default:
					chk(withAll(long, lc.conds[0], le(lc.n, con(256))), lc.n, lc.what)
				}
			}
		}
	})
	c.noPanics("pausing does not panic", nm, x.in, x.rs)
	c.ob("pauses for request and reply", nm, n > 0, x.in, nil, x.fn.Pos(), "", "no reply is read")
}

// divExact divides a linear form whose coefficients are all multiples of k.
func divExact(a Lin, k int64) (Lin, bool) {
	q := con(a.c / k)
	if k == 0 || a.c%k != 0 {
		return q, false
	}
	for _, t := range a.t {
		if t.k%k != 0 {
			return q, false
		}
		q = q.add(symL(t.s).scale(t.k / k))
	}
	return q, true
}

func leafPaths(t types.Type, name string) []string {
	var out []string
	leaves(t, "", func(path string, v *types.Var) {
		if v.Name() == name {
			out = append(out, path)
		}
	})
	return out
}

func init() {
	register("T09", exchangeRule+"The baud rate of the client is set to each of the usual rates, the limits of the rule and some others; at the first read after the request was written, the sum of the pauses since is compared with the character and frame times, as a linear expression in the lengths of the request and the expected reply.", t09)
}
