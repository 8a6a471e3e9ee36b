package main

// What operations do while they hold a lock (L05).

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// waits tells whether an event may wait for the network, a timer or another goroutine.
func waits(e *Event) string {
	switch e.kind {
	case "read", "write":
		return "the network"
	case "open":
		if e.name == "url" {
			return ""
		}
		return "the network (" + e.name + ")"
	case "sleep":
		return "a timer"
	case "recv", "send":
		return "another goroutine (channel " + e.kind + ")"
	case "select":
		if e.blocks {
			return "another goroutine (select)"
		}
	case "wgwait":
		return "other goroutines"
	}
	return ""
}

// mayWait: an unknown library function of a package whose functions may wait, or of an interface.
func mayWait(name string) bool {
	if strings.HasPrefix(name, "invoke ") {
		return true
	}
	for _, p := range []string{"net", "os", "io", "bufio", "time", "tls", "syscall", "exec", "http", "rpc", "serial", "log"} {
		for _, pre := range []string{"", "(", "(*", "/"} {
			if strings.HasPrefix(name, pre+p+".") || strings.Contains(name, "/"+p+".") {
				return true
			}
		}
	}
	return false
}

func l05(c *Ctx) {
	client := map[string]bool{}
	for _, k := range transports {
		client[k.typ] = true
	}
	owner := func(st *State, h heldLock) string {
		if h.obj < 0 {
			return "a global"
		}
		return baseType(st.obj(h.obj).typ)
	}
	class := func(st *State, h heldLock) string {
		return owner(st, h) + "." + h.path[strings.LastIndex(h.path, ".")+1:]
	}
	type edge struct {
		pos   token.Pos
		chain string
		st    *State
		r     *rootRun
	}
	order := map[string]map[string]edge{}
	locks := map[string]bool{}
	n := map[string]int{}
	c.roots(rootHooks{
		event: func(r *rootRun, fr *Frame, st *State, e *Event) {
			switch e.kind {
			case "lock":
				h := st.held[len(st.held)-1]
				cl := class(st, h)
				locks[cl] = true
				for _, o := range st.held[:len(st.held)-1] {
					if order[class(st, o)] == nil {
						order[class(st, o)] = map[string]edge{}
					}
					order[class(st, o)][cl] = edge{e.pos, e.chain, st, r}
				}
				return
			case "ext":
				if !mayWait(e.name) {
					return
				}
				var srv []string
				for _, h := range st.held {
					if !client[owner(st, h)] {
						srv = append(srv, class(st, h))
					}
				}
				if len(srv) > 0 {
					c.ob("nothing is waited for under a lock of a server or bank", r.name, false, r.in, st, e.pos, e.chain, "%s, which may wait, is called while %s is held", e.name, strings.Join(srv, ", "))
				}
				return
			}
			w := waits(e)
			if w == "" {
				return
			}
			n[e.kind]++
			for _, h := range st.held {
				if client[owner(st, h)] {
					ok := e.kind == "read" || e.kind == "write" || e.kind == "open" && e.name != "accept" || e.kind == "sleep" || e.kind == "recv" && len(eventsOf(st, "timeafter")) > 0
					c.ob("a client waits for its own exchange only", r.name, ok, r.in, st, e.pos, e.chain, "waits for %s while %s is held", w, class(st, h))
					continue
				}
				c.ob("nothing is waited for under a lock of a server or bank", r.name, false, r.in, st, e.pos, e.chain, "waits for %s while %s is held", w, class(st, h))
			}
			if len(st.held) == 0 {
				c.ob("nothing is waited for under a lock of a server or bank", r.name, true, r.in, st, e.pos, e.chain, "")
			}
		},
	})
	// nested locks are always taken in one order, and never two of a kind
	reach := func(a, b string) bool {
		seen := map[string]bool{}
		var walk func(x string) bool
		walk = func(x string) bool {
			if x == b {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for y := range order[x] {
				if walk(y) {
					return true
				}
			}
			return false
		}
		return walk(a)
	}
	var froms []string
	for a := range order {
		froms = append(froms, a)
	}
	sort.Strings(froms)
	for _, a := range froms {
		for b, e := range order[a] {
			c.ob("locks are nested in one order", fmt.Sprintf("%s, then %s", a, b), !reach(b, a), e.r.in, e.st, e.pos, e.chain, "%s is taken while %s is held, and elsewhere %s while %s is held", b, a, a, b)
		}
	}
	c.ob("locks are nested in one order", "all locks", len(locks) >= 5, nil, nil, token.NoPos, "", "only %d locks were seen", len(locks))
	for _, k := range []string{"read", "write", "open", "sleep", "wgwait"} {
		c.ob("waits were analysed", k, n[k] > 0, nil, nil, token.NoPos, "", "no %s was seen", k)
	}
	c.atLeast("nothing is waited for under a lock of a server or bank", 4)
	c.atLeast("a client waits for its own exchange only", 6)
}

func init() {
	register("L05", "Every exported operation and goroutine is interpreted abstractly with the locks it holds; at each network read, write, dial or accept, pause, channel operation, blocking select and WaitGroup wait, no lock may be held but, for the exchange of a client with its device, that client's own. Locks taken while another is held give an order between them, which must have no cycle.", l05)
}

// baseType is the name of the type of the object a lock is in.
func baseType(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}
