package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) >= 4 && os.Args[1] == "debug" {
		debugRun(os.Args[2], os.Args[3])
		return
	}
	os.Exit(cli(os.Args[1:]))
}

func valStr(st *State, v Value) string {
	switch x := v.(type) {
	case VInt:
		return x.l.String()
	case VBool:
		return x.a.String()
	case VSlice:
		if x.arr < 0 {
			return "nil-slice"
		}
		return fmt.Sprintf("%s[%s:+%s]{%s}", st.obj(x.arr).name, x.off, x.len, contentStr(st.obj(x.arr).c, 6))
	case VStruct:
		var s []string
		for _, f := range x.f {
			s = append(s, valStr(st, f))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case VIface:
		if isTrueL(x.nil_) {
			return "nil"
		}
		if x.typ != nil {
			return fmt.Sprintf("iface(%s %s)", x.typ, valStr(st, x.val))
		}
		return fmt.Sprintf("iface<%s nil=%s>", x.id, x.nil_)
	case VPtr:
		if isTrueL(x.nil_) {
			return "nil"
		}
		o := st.obj(x.obj)
		r := fmt.Sprintf("&%s%s nil=%s", o.name, x.path, x.nil_)
		if o.kind == kCells && o.owned {
			for _, k := range sortedKeys(o.cells) {
				r += fmt.Sprintf(" %s:%s", k, valStr(st, o.cells[k]))
			}
		}
		return r
	case VStr:
		if x.known {
			return fmt.Sprintf("%q", x.s)
		}
		return "str<" + x.id + ">"
	case VFunc:
		return "func " + shortFn(x.fn) + x.id
	}
	return fmt.Sprintf("%T%v", v, v)
}

func contentStr(c *Content, n int) string {
	if c == nil {
		return "-"
	}
	if n == 0 {
		return "..."
	}
	switch c.kind {
	case cBase:
		return "base " + c.base.name + "+" + c.shift.String()
	case cZero:
		return "0"
	case cWrite:
		return fmt.Sprintf("[%s]=%s; ", c.dst, c.val) + contentStr(c.prev, n-1)
	case cLoop:
		s := fmt.Sprintf("loop k<%s", c.n)
		for _, a := range c.alts {
			s += " {"
			for _, g := range a.guard {
				s += g.String() + ","
			}
			s += ":"
			for _, e := range a.entries {
				s += fmt.Sprintf("[%s]=%s ", e.dst, e.val)
			}
			s += "}"
		}
		return s + "; " + contentStr(c.prev, n-1)
	case cHavoc:
		return fmt.Sprintf("havoc[%s,+%s]=%s+%s; ", c.dst, c.n, c.base.name, c.shift) + contentStr(c.prev, n-1)
	}
	return fmt.Sprintf("k%d[%s,+%s] src(%s)+%s; ", c.kind, c.dst, c.n, contentStr(c.src, 2), c.soff) + contentStr(c.prev, n-1)
}

func debugRun(dir, name string) {
	p, err := load(dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abortErr); ok {
				fmt.Println("ABORT", a.msg)
				os.Exit(2)
			}
			panic(r)
		}
	}()
	t0 := time.Now()
	in := newInterp(p.prog, p.pkg)
	in.nonNil = defaultNonNil
	st := p.initState(in)
	var f *ssa.Function
	if i := strings.Index(name, "."); i >= 0 {
		f = p.method(name[:i], name[i+1:])
	} else {
		f = p.fn(name)
	}
	if f == nil {
		fmt.Println("no function", name)
		os.Exit(2)
	}
	var args []Value
	for _, prm := range f.Params {
		v := in.unknown(st, prm.Type(), prm.Name())
		if pv, ok := v.(VPtr); ok {
			pv.nil_ = zeroL
			v = pv
		}
		args = append(args, v)
	}
	rs := in.callFn(nil, st, f, args, nil, 0, false)
	for i, r := range rs {
		fmt.Printf("--- result %d panic=%v feasible=%v\n", i, r.panic, r.st.feasible())
		if r.panic {
			fmt.Println("   panic:", r.st.pan.msg, in.pos(r.st.pan.pos), r.st.pan.chain)
		}
		for _, v := range r.rets {
			fmt.Println("   ret", valStr(r.st, v))
		}
		for _, a := range r.st.cond.all() {
			fmt.Println("   if", a)
		}
		for _, e := range r.st.events() {
			fmt.Print("   ev ", e.kind, " ", e.name, " @", in.pos(e.pos))
			for _, v := range e.vals {
				fmt.Print(" ", valStr(r.st, v))
			}
			fmt.Println()
		}
	}
	for _, is := range in.issues {
		fmt.Println("ISSUE", is.kind, is.msg, in.pos(is.pos), is.chain)
	}
	fmt.Printf("time %.2fs stats %+v\n", time.Since(t0).Seconds(), in.stats)
}

func defaultNonNil(t types.Type, name string) bool {
	// the sentinel errors of the standard library are set
	switch name {
	case "io.EOF", "io.ErrUnexpectedEOF", "io.ErrShortWrite", "os.Stderr", "os.Stdout", "context.Canceled", "io.ErrShortBuffer", "io.ErrNoProgress", "io.ErrClosedPipe":
		return true
	}
	return false
}
