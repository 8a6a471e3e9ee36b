package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Transaction ids of concurrent requests.
//
// Send and SendPdu are interpreted with other goroutines using the same client: before
// every operation that synchronises (atomic or lock), the counter may have become any
// value. Each change the method makes must then be one step from the value just before
// it, there must be exactly one by the time the request is written, and the frame must
// carry the value it led to; so no two requests get the same id within one round of the
// counter. Where every access happens under a lock, other goroutines cannot interfere
// while it is held.

const (
	tidBefore = "tid:before"
	tidNow    = "tid:now"
	tidSteps  = "tid:steps"
)

func (c *Ctx) tidConcurrent() {
	k := kindOf("tcp")
	methods := []string{"Send", "SendPdu"}
	locked := true
	for _, m := range methods {
		c.exchange(k, m, func(x *exchange) {
			f := x.tidField()
			at := func(p Value) bool {
				q, ok := p.(VPtr)
				return ok && q.obj == x.ptr.obj && q.path == f.path
			}
			x.in.onAccess = func(fr *Frame, st *State, o *Obj, path string, write bool, pos token.Pos, instr ssa.Instruction) {
				if o.id == x.ptr.obj && path == f.path && len(st.held) == 0 {
					locked = false
				}
			}
			x.in.onEvent = func(fr *Frame, st *State, e *Event) {
				switch e.kind {
				case "atomicload", "atomicstore", "atomicadd", "cas":
					if at(e.vals[0]) && len(st.held) == 0 {
						locked = false
					}
				}
			}
		})
	}
	for _, m := range methods {
		m := m
		c.exchange(k, m, func(x *exchange) {
			nm := k.typ + "." + m
			f := x.tidField()
			w, sg, _ := intInfo(f.typ)
			p := VPtr{obj: x.ptr.obj, path: f.path}
			cell := func(st *State) Lin {
				v, ok := st.load(p, f.typ).(VInt)
				if !ok {
					stop("the transaction counter is not a number")
				}
				return v.l
			}
			x.in.exactAtomics = true
			x.st.ghost[tidBefore] = cell(x.st)
			x.st.mon[tidSteps] = "0"
			x.in.interfere = func(ci *callInfo) []*State {
				if ci.st.mon["written"] != "" || locked && len(ci.st.held) > 0 {
					return nil
				}
				st := ci.st.clone()
				lo, hi := rangeOf(w, sg)
				v := symL(freshSym("counter", lo, hi))
				st.store(p, f.typ, VInt{v})
				st.ghost[tidBefore] = v
				return []*State{st}
			}
			x.in.onEvent = func(fr *Frame, st *State, e *Event) {
				if st.mon["written"] != "" {
					return
				}
				switch e.kind {
				case "atomicstore", "atomicadd", "cas", "lock", "unlock", "write":
				default:
					return
				}
				now, old := cell(st), st.ghost[tidBefore]
				if !provEq(st, now, old) {
					ok := provEq(st, modL(now, 65536), modL(old.addc(1), 65536))
					if x.in.quiet == 0 {
						c.ob("the counter moves by one step whatever others do", nm, ok, x.in, st, e.pos, e.chain, "the transaction counter changes from %s to %s although another request may have changed it since it was read", old, now)
					}
					st.ghost[tidBefore], st.ghost[tidNow] = now, now
					if st.mon[tidSteps] == "0" {
						st.mon[tidSteps] = "1"
					} else {
						st.mon[tidSteps] = "many"
					}
				}
				if e.kind != "write" {
					return
				}
				st.mon["written"] = "yes"
				if x.in.quiet > 0 {
					return
				}
				ok := e.snap != nil && st.mon[tidSteps] == "1"
				if ok {
					id := modL(st.ghost[tidNow], 65536)
					a, _ := elemIs(st, e.snap, zeroL, 8, modL(divL(id, 256), 256))
					b, _ := elemIs(st, e.snap, oneL, 8, modL(id, 256))
					ok = a && b
				}
				c.ob("a request carries the id its own step led to", nm, ok, x.in, st, e.pos, e.chain, "the request written does not carry the one value its step of the transaction counter led to")
			}
		})
	}
	c.atLeast("the counter moves by one step whatever others do", 2)
	c.atLeast("a request carries the id its own step led to", 2)
}
