package main

// Setting up the client transports for analysis.

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// fieldUse says how the fields of the module's structs are used outside constructors.
type fieldUse struct {
	stored map[*types.Var]bool // stored through, or address taken of, a non-fresh object
}

func derefStruct(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return structOf(t)
}

// freshBase: the address is inside an object allocated by the same function.
func freshBase(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Alloc:
			return true
		default:
			return false
		}
	}
}

func (p *Program) fieldUses() *fieldUse {
	if p.uses != nil {
		return p.uses
	}
	u := &fieldUse{stored: map[*types.Var]bool{}}
	var all func(t types.Type)
	all = func(t types.Type) {
		s := structOf(t)
		if s == nil {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if structOf(f.Type()) != nil {
				all(f.Type())
			}
			u.stored[f] = true
		}
	}
	for _, f := range p.funcs {
		if f.Synthetic != "" && f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || freshBase(fa) {
					continue
				}
				s := derefStruct(fa.X.Type())
				if s == nil {
					continue
				}
				fv := s.Field(fa.Field)
				for _, r := range *fa.Referrers() {
					switch x := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.FieldAddr:
					case *ssa.Store:
						if x.Addr == ssa.Value(fa) {
							u.stored[fv] = true
							if structOf(fv.Type()) != nil {
								all(fv.Type())
							}
						} else {
							u.stored[fv] = true
						}
					default:
						// address handed on: locks, atomics, library configuration
						if structOf(fv.Type()) == nil {
							u.stored[fv] = true
						}
					}
				}
			}
		}
	}
	p.uses = u
	return u
}

// leaves calls f for every non-struct field of a struct type.
func leaves(t types.Type, path string, f func(path string, v *types.Var)) {
	s := structOf(t)
	if s == nil {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		fl := s.Field(i)
		p := path + "." + strconv.Itoa(i)
		if structOf(fl.Type()) != nil {
			if n, ok := fl.Type().(*types.Named); ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic") {
				continue
			}
			leaves(fl.Type(), p, f)
			continue
		}
		f(p, fl)
	}
}

// havocMutable replaces every field of an object that changes after construction by an
// unknown value.
func (c *Ctx) havocMutable(in *Interp, st *State, obj int, name string) {
	o := st.mut(obj)
	u := c.p.fieldUses()
	leaves(o.typ, "", func(path string, v *types.Var) {
		if !u.stored[v] {
			return
		}
		switch v.Type().Underlying().(type) {
		case *types.Slice, *types.Map, *types.Chan:
			return
		}
		val := in.unknown(st, v.Type(), name+"."+v.Name())
		st.mut(obj).cells[path] = val
	})
}

// isConnType: values of the type are read, written and closed.
func isConnType(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	n := 0
	for i := 0; i < it.NumMethods(); i++ {
		switch it.Method(i).Name() {
		case "Read", "Write", "Close":
			n++
		}
	}
	return n == 3
}

type transportKind struct {
	kind string // rtu, ascii, tcp
	typ  string
	ctor string
	cap  int64 // size of a frame buffer
}

var transports = []transportKind{
	{"rtu", "RTUClientProvider", "NewRTUClientProvider", 256},
	{"ascii", "ASCIIClientProvider", "NewASCIIClientProvider", 513},
	{"tcp", "TCPClientProvider", "NewTCPClientProvider", 260},
}

// provider makes a transport in an arbitrary reachable condition: as built by its
// constructor, with every field that changes later unknown.
type provider struct {
	transportKind
	in       *Interp
	st       *State
	ptr      VPtr
	connPath string
	connTyp  types.Type
	conn0    VIface
}

// quietLogs replaces the logger's output methods by nothing; they are decided by M01.
func quietLogs(c *Ctx, in *Interp) {
	for _, m := range []string{"Errorf", "Debugf"} {
		if f := c.p.method("logger", m); f != nil {
			in.override[shortFn(f)] = func(ci *callInfo) []callResult { return ci.ret() }
		}
	}
}

func (c *Ctx) newProvider(k transportKind) *provider {
	in, st := c.interp()
	quietLogs(c, in)
	ctor := c.fn(k.ctor)
	var args []Value
	for i, prm := range ctor.Params {
		if i == len(ctor.Params)-1 {
			args = append(args, VSlice{arr: -1, nil_: oneL})
			continue
		}
		args = append(args, in.unknown(st, prm.Type(), prm.Name()))
	}
	rs := c.run(in, st, ctor, args)
	if len(rs) != 1 || rs[0].panic {
		stop("%s has no single outcome", k.ctor)
	}
	p := &provider{transportKind: k, in: in, st: rs[0].st}
	ptr, ok := rs[0].rets[0].(VPtr)
	if !ok {
		stop("%s does not return a pointer", k.ctor)
	}
	p.ptr = ptr
	p.st.ev = nil
	c.havocMutable(in, p.st, ptr.obj, "client")
	n := 0
	leaves(p.st.obj(ptr.obj).typ, "", func(path string, v *types.Var) {
		if isConnType(v.Type()) {
			p.connPath, p.connTyp = path, v.Type()
			n++
		}
	})
	if n != 1 {
		stop("%s has %d connection fields", k.typ, n)
	}
	p.conn0 = VIface{id: "conn0", nil_: symL(namedSym("conn0==nil", 0, 1))}
	p.st.mut(ptr.obj).cells[p.connPath] = p.conn0
	return p
}

func (p *provider) conn(st *State) VIface {
	v, _ := st.loadPath(st.obj(p.ptr.obj), p.connPath, p.connTyp).(VIface)
	return v
}

// exchange is the analysis of one operation of a transport.
type exchange struct {
	*provider
	fn     *ssa.Function
	method string
	slave  Lin
	fc     Lin
	data   VSlice // request data after the function code
	req    *Snap  // request data
	raw    *Snap  // raw request (SendRawFrame), or PDU (SendPdu)
	rs     []callResult
}

// checksums replaces the checksum functions by symbols that remember what they cover; the
// functions themselves are decided separately.
func checksums(c *Ctx, in *Interp) {
	in.override[shortFn(c.fn("CRC16"))] = func(ci *callInfo) []callResult {
		s := symL(freshSym("crc", 0, 65535))
		e := &Event{kind: "crc", pos: ci.pos, vals: []Value{VInt{s}}, snap: snapOf(ci.st, ci.args[0])}
		ci.in.event(ci.fr, ci.st, e)
		return ci.ret(VInt{s})
	}
	reset, push, value := c.method("LRC", "Reset"), c.method("LRC", "Push"), c.method("LRC", "Value")
	in.override[shortFn(reset)] = func(ci *callInfo) []callResult {
		if p, ok := ci.args[0].(VPtr); ok {
			setHidden(ci.st, p, VSlice{arr: -1, nil_: oneL})
			ci.st.mut(p.obj).cells[p.path+".@"] = VBool{aTrue}
		}
		return ci.ret(ci.args[0])
	}
	in.override[shortFn(push)] = func(ci *callInfo) []callResult {
		p, ok := ci.args[0].(VPtr)
		if !ok {
			return nil
		}
		cc, off, n, ok := ci.st.sliceSrc(ci.args[1])
		if !ok {
			return nil
		}
		ci.appendHidden(ci.st, p, &Content{kind: cCopy, src: cc, soff: off}, n)
		return ci.ret(ci.args[0])
	}
	in.override[shortFn(value)] = func(ci *callInfo) []callResult {
		p, ok := ci.args[0].(VPtr)
		if !ok {
			return nil
		}
		s := symL(freshSym("lrc", 0, 255))
		h := hidden(ci.st, p)
		e := &Event{kind: "lrc", pos: ci.pos, vals: []Value{VInt{s}}, snap: sliceSnap(ci.st, h)}
		ci.in.event(ci.fr, ci.st, e)
		return ci.ret(VInt{s})
	}
}

// exchange runs Send, SendPdu or SendRawFrame with unknown arguments.
func (c *Ctx) exchange(k transportKind, method string, pre func(*exchange)) *exchange {
	p := c.newProvider(k)
	checksums(c, p.in)
	x := &exchange{provider: p, method: method, fn: c.method(k.typ, method)}
	st := p.st
	args := []Value{p.ptr}
	switch method {
	case "Send":
		x.slave = symL(namedSym("slave", 0, 255))
		x.fc = symL(namedSym("fc", 0, 255))
		d, _ := inputSlice(p.in, st, tByte, "request", 0)
		x.data = d
		x.req = sliceSnap(st, d)
		args = append(args, VInt{x.slave}, VStruct{[]Value{VInt{x.fc}, d}})
	case "SendPdu":
		x.slave = symL(namedSym("slave", 0, 255))
		d, _ := inputSlice(p.in, st, tByte, "request", 0)
		x.data = d
		x.raw = sliceSnap(st, d)
		x.fc = readSnap(st, x.raw, zeroL, 8)[0].val
		x.req = &Snap{x.raw.c, x.raw.off.addc(1), x.raw.n.addc(-1)}
		args = append(args, VInt{x.slave}, d)
	case "SendRawFrame":
		d, _ := inputSlice(p.in, st, tByte, "request", 0)
		x.data = d
		x.raw = sliceSnap(st, d)
		args = append(args, d)
	}
	if len(x.fn.Params) != len(args) {
		stop("%s.%s has another signature", k.typ, method)
	}
	st.ghost["rx:rx"] = zeroL
	if pre != nil {
		pre(x)
	}
	x.rs = c.run(p.in, st.clone(), x.fn, args)
	return x
}

// sum of bytes received on a path
func rxCount(st *State) Lin { return st.ghost["rx:rx"] }

func rxAt(i int64) Lin { return inL(rxBase(), con(i)) }

func rxSnap(st *State) *Snap { return &Snap{baseContent(rxBase()), zeroL, rxCount(st)} }

// ioFailed: some operation on the connection failed on the path.
func ioFailed(st *State) bool {
	for _, e := range st.events() {
		var err Value
		switch e.kind {
		case "read", "write":
			err = e.vals[3]
		case "open":
			err = e.vals[1]
		case "SetDeadline", "SetReadDeadline", "SetWriteDeadline":
			err = e.vals[2]
		default:
			continue
		}
		if iv, ok := err.(VIface); ok && !isTrueL(iv.nil_) {
			return true
		}
	}
	return false
}
