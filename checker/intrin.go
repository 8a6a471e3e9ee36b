package main

// Models of the library functions the module calls.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *callInfo) newErr(what string) VIface {
	freshCnt++
	return VIface{id: fmt.Sprintf("err:%s#%d", what, freshCnt), nil_: zeroL}
}

var nilErr = VIface{nil_: oneL, id: "nil"}

func (c *callInfo) with(st *State) *callInfo {
	n := *c
	n.st = st
	return &n
}

func (c *callInfo) emit(st *State, kind, name string, vals ...Value) *Event {
	return c.in.event(c.fr, st, &Event{kind: kind, name: name, pos: c.pos, vals: vals})
}

// require splits off the failing side of a library precondition as a panic.
func (c *callInfo) require(st *State, a Atom, what string) (*State, []callResult) {
	if c.in.quiet == 0 {
		c.in.stats.obligations++
		c.in.stats.sites[c.in.pos(c.pos)+" "+what] = true
	}
	if c.in.atomsSeen != nil {
		*c.in.atomsSeen = append(*c.in.atomsSeen, norm(a))
	}
	y, n := st.fork(a)
	if n == nil {
		if c.in.quiet == 0 {
			c.in.stats.discharged++
		}
		return y, nil
	}
	if c.in.quiet == 0 {
		c.in.stats.fsites[c.in.pos(c.pos)+" "+what] = true
	}
	c.in.raise(c.fr, n, c.pos, what)
	return y, []callResult{{st: n, panic: true}}
}

const rxName = "rx"

func rxBase() *Base { return namedBase(rxName, 0, 255, 8) }

// receive stores n bytes of the peer's stream at the start of a buffer.
func (c *callInfo) receive(st *State, buf Value, n Lin) {
	b, ok := buf.(VSlice)
	if !ok || b.arr < 0 {
		return
	}
	c.in.access(c.fr, st, st.obj(b.arr), "[]", true, c.instr)
	rx := st.ghost["rx:"+rxName]
	o := st.mut(b.arr)
	if o.c != nil && !isFalseLen(n) {
		o.c = o.c.push(&Content{kind: cHavoc, dst: b.off, n: n, base: rxBase(), shift: rx, where: c.pos})
	}
	st.ghost["rx:"+rxName] = rx.add(n)
}

func sliceLen(v Value) Lin {
	switch s := v.(type) {
	case VSlice:
		return s.len
	case VStr:
		return s.ln
	}
	return symL(freshSym("len", 0, 1<<40))
}

func snapOf(st *State, v Value) *Snap {
	c, off, n, ok := st.sliceSrc(v)
	if !ok {
		return nil
	}
	return &Snap{c, off, n}
}

// readModel is the contract of the reading functions: min<=n<=max without an error, fewer
// than min with one.
func readModel(c *callInfo, rd, buf Value, min, max Lin, eofAtZero bool) []callResult {
	st := c.st
	var out []callResult
	ok := st.clone()
	n := symL(freshSym("n", 0, 1<<40))
	if min.eq(max) {
		n = min
	} else {
		ok.assume(ge(n, min))
		ok.assume(le(n, max))
	}
	if ok.feasible() {
		c.emit(ok, "read", c.name, rd, buf, VInt{n}, nilErr, VInt{min}, VInt{st.ghost["rx:"+rxName]})
		c.receive(ok, buf, n)
		out = append(out, callResult{st: ok, rets: []Value{VInt{n}, nilErr}})
	}
	bad := st.clone()
	m := symL(freshSym("n", 0, 1<<40))
	err := c.newErr("read")
	if eofAtZero {
		if v, isC := min.constVal(); isC && v <= 0 {
			return out
		}
		bad.assume(lt(m, min))
		// io.EOF only when nothing was read
		i1, i2 := err.id, "io.EOF"
		if i1 > i2 {
			i1, i2 = i2, i1
		}
		s := symL(namedSym("ifeq:"+i1+":"+i2, 0, 1))
		bad.assume(le(m, con(1<<40).sub(s.scale(1<<40))))
	}
	bad.assume(le(m, max))
	if bad.feasible() {
		c.emit(bad, "read", c.name, rd, buf, VInt{m}, err, VInt{min}, VInt{st.ghost["rx:"+rxName]})
		c.receive(bad, buf, m)
		out = append(out, callResult{st: bad, rets: []Value{VInt{m}, err}})
	}
	return out
}

func errFork(c *callInfo, kind string, vals ...Value) []callResult {
	a, b := c.st.clone(), c.st.clone()
	c.emit(a, kind, c.name, append(vals, nilErr)...)
	err := c.newErr(kind)
	c.emit(b, kind, c.name, append(vals, err)...)
	return []callResult{{st: a, rets: []Value{nilErr}}, {st: b, rets: []Value{err}}}
}

// open models functions that create a connection.
func openModel(c *callInfo, kind string, t types.Type) []callResult {
	a, b := c.st.clone(), c.st.clone()
	freshCnt++
	id := fmt.Sprintf("%s#%d", kind, freshCnt)
	var v, z Value
	if types.IsInterface(t) {
		v = VIface{id: id, nil_: zeroL}
	} else {
		p := c.in.unknown(a, t, id).(VPtr)
		p.nil_ = zeroL
		v = p
	}
	z = zeroValue(t)
	if kind == "serial" {
		// the port comes back, closed, with the error
		z = VIface{id: id + ":failed", nil_: symL(freshSym(id+":failed==nil", 0, 1))}
	}
	c.emit(a, "open", kind, v, nilErr, VTuple{c.args}, strConst(c.name))
	err := c.newErr(kind)
	c.emit(b, "open", kind, z, err, VTuple{c.args}, strConst(c.name))
	return []callResult{{st: a, rets: []Value{v, nilErr}}, {st: b, rets: []Value{z, err}}}
}

func lockName(in *Interp, st *State, v Value) (string, int, string) {
	p, ok := v.(VPtr)
	if !ok || p.obj < 0 {
		return "?", -1, ""
	}
	o := st.obj(p.obj)
	return fmt.Sprintf("%d%s", p.obj, p.path), p.obj, o.name + "." + fieldName(o.typ, p.path)
}

func lockModel(rw byte) intrinsic {
	return synchronises(func(c *callInfo) []callResult {
		key, obj, name := lockName(c.in, c.st, c.args[0])
		c.in.lockSites[c.pos] = true
		for _, h := range c.st.held {
			if h.key == key {
				c.in.issue("relock", c.fr, c.st, c.pos, fmt.Sprintf("%s is locked while already held (since %s)", name, c.in.pos(h.pos)))
			}
		}
		st := c.st.clone()
		st.held = append(st.held[:len(st.held):len(st.held)], heldLock{key: key, obj: obj, path: name, rw: rw, pos: c.pos})
		c.emit(st, "lock", name)
		return []callResult{{st: st}}
	})
}

// synchronises: what other threads did becomes visible before the operation.
func synchronises(f intrinsic) intrinsic {
	return func(c *callInfo) []callResult {
		if c.in.interfere == nil {
			return f(c)
		}
		var out []callResult
		for _, w := range c.in.interfere(c) {
			out = append(out, f(c.with(w))...)
		}
		return append(f(c), out...)
	}
}

func unlockModel(rw byte) intrinsic {
	return func(c *callInfo) []callResult {
		key, _, name := lockName(c.in, c.st, c.args[0])
		c.in.lockSites[c.pos] = true
		st := c.st.clone()
		for i := len(st.held) - 1; i >= 0; i-- {
			if st.held[i].key == key {
				if st.held[i].rw != rw {
					c.in.issue("unlock", c.fr, c.st, c.pos, fmt.Sprintf("%s is unlocked in another mode than it was locked", name))
				}
				h := append([]heldLock(nil), st.held[:i]...)
				st.held = append(h, st.held[i+1:]...)
				c.emit(st, "unlock", name)
				return []callResult{{st: st}}
			}
		}
		c.in.issue("unlock", c.fr, c.st, c.pos, fmt.Sprintf("%s is unlocked while not held", name))
		c.emit(st, "unlock", name)
		return []callResult{{st: st}}
	}
}

func eventOnly(kind string) intrinsic {
	return func(c *callInfo) []callResult {
		c.emit(c.st, kind, c.name, c.args...)
		return []callResult{{st: c.st, rets: c.unknownResults(c.st)}}
	}
}

// hidden gives the slice kept inside a modelled library object.
func hidden(st *State, p VPtr) VSlice {
	o := st.obj(p.obj)
	if v, ok := o.cells[p.path+".#"]; ok {
		return v.(VSlice)
	}
	if !o.owned {
		panic(abortErr{"the content of " + o.name + " is what earlier calls left in it"})
	}
	return VSlice{arr: -1, nil_: oneL}
}

// touchBuf: the use of a buffer that lives longer than the call.
func (c *callInfo) touchBuf(st *State, p VPtr) {
	if o := st.obj(p.obj); !o.owned {
		c.in.access(c.fr, st, o, p.path, true, c.instr)
	}
}

func setHidden(st *State, p VPtr, v VSlice) {
	o := st.mut(p.obj)
	o.cells[p.path+".#"] = v
}

// appendHidden appends content to the hidden slice, copying it first.
func (c *callInfo) appendHidden(st *State, p VPtr, entry *Content, n Lin) {
	c.touchBuf(st, p)
	h := hidden(st, p)
	o := st.newObj(kArray, types.Typ[types.Uint8], "buf")
	o.c = zeroContent
	if h.arr >= 0 {
		if sc, off, ln, ok := st.sliceSrc(h); ok {
			c.in.writeRange(st, o.id, zeroL, ln, sc, off, true, c.pos)
		}
	}
	o = st.mut(o.id)
	e := *entry
	e.dst = h.len
	e.n = n
	e.where = c.pos
	o.c = o.c.push(&e)
	nl := h.len.add(n)
	o.n = nl
	setHidden(st, p, VSlice{arr: o.id, len: nl, cap: nl})
}

func boolIntr(name string) intrinsic {
	return func(c *callInfo) []callResult {
		k := name
		for _, a := range c.args {
			k += ":" + valueKey(a)
		}
		return c.ret(VBool{boolSym(k)})
	}
}

func nonNilErr(c *callInfo) []callResult {
	return c.ret(c.newErr(strings.TrimPrefix(c.name, "fmt.")))
}

func strResult(c *callInfo) []callResult {
	freshCnt++
	return c.ret(c.in.unknown(c.st, types.Typ[types.String], fmt.Sprintf("str:%s#%d", c.name, freshCnt)))
}

// contains is whether a string has a part, the same for the same strings.
func contains(a, b VStr) Atom {
	for b.known && b.s != "" && !a.known && a.rest != nil {
		if strings.Contains(a.pre, b.s) {
			return aTrue
		}
		over := false
		for i := 1; i < len(b.s); i++ {
			over = over || strings.HasSuffix(a.pre, b.s[:i])
		}
		if over {
			break
		}
		a = *a.rest
	}
	if a.known && b.known {
		if strings.Contains(a.s, b.s) {
			return aTrue
		}
		return aFalse
	}
	return boolSym("contains:" + strKey(a) + ":" + strKey(b))
}

// strAffix decides a prefix or suffix by content where it is a known short one.
func strAffix(suffix bool) intrinsic {
	return func(c *callInfo) []callResult {
		a, ok := c.args[0].(VStr)
		b, ok2 := c.args[1].(VStr)
		if !ok || !ok2 {
			return c.in.unmodelled(c)
		}
		if !b.known || len(b.s) > 8 || !a.known && a.snap == nil {
			return c.ret(VBool{boolSym(c.name + ":" + strKey(a) + ":" + strKey(b))})
		}
		n := int64(len(b.s))
		y, no := c.st.fork(ge(a.ln, con(n)))
		var out []callResult
		if no != nil {
			out = append(out, callResult{st: no, rets: []Value{VBool{aFalse}}})
		}
		if y != nil {
			off := a.snap.off
			if suffix {
				off = off.add(a.ln).addc(-n)
			}
			for _, e := range c.in.strEqual(y, VStr{ln: con(n), snap: &Snap{a.snap.c, off, con(n)}}, b) {
				out = append(out, callResult{st: e.st, rets: []Value{VBool{e.a}}})
			}
		}
		return out
	}
}

// sprintf joins the parts of a format that only inserts strings.
func sprintf(c *callInfo) []callResult {
	f, ok := c.args[0].(VStr)
	va, ok2 := c.args[1].(VSlice)
	if !ok || !ok2 || !f.known {
		return strResult(c)
	}
	var out Value = strConst("")
	rest := f.s
	for i := int64(0); rest != ""; {
		k := strings.IndexByte(rest, '%')
		if k < 0 {
			out = c.in.concat(c.st, out.(VStr), strConst(rest))
			break
		}
		if k+1 >= len(rest) || rest[k+1] != 's' && rest[k+1] != 'v' || va.arr < 0 || !provEq(c.st, va.off, zeroL) {
			return strResult(c)
		}
		iv, ok := c.st.load(VPtr{obj: va.arr, path: fmt.Sprintf("[%d]", i)}, types.NewInterfaceType(nil, nil)).(VIface)
		if !ok {
			return strResult(c)
		}
		sv, ok := iv.val.(VStr)
		if !ok || iv.typ != types.Typ[types.String] {
			return strResult(c)
		}
		i++
		out = c.in.concat(c.st, c.in.concat(c.st, out.(VStr), strConst(rest[:k])).(VStr), sv)
		rest = rest[k+2:]
	}
	return c.ret(out)
}

func put16(big bool) intrinsic {
	return func(c *callInfo) []callResult {
		b, ok := c.args[1].(VSlice)
		if !ok {
			return c.ret()
		}
		st, out := c.require(c.st, ge(b.len, con(2)), "index out of range")
		if st == nil {
			return out
		}
		v := c.args[2].(VInt).l
		hi := divL(v, 256)
		lo := v.sub(hi.scale(256))
		if !big {
			hi, lo = lo, hi
		}
		c.in.access(c.fr, st, st.obj(b.arr), "[]", true, c.instr)
		o := st.mut(b.arr)
		if o.c != nil {
			o.c = o.c.push(&Content{kind: cWrite, dst: b.off, n: oneL, val: hi, where: c.pos})
			o.c = o.c.push(&Content{kind: cWrite, dst: b.off.addc(1), n: oneL, val: lo, where: c.pos})
		}
		return append(out, callResult{st: st})
	}
}

func get16(big bool) intrinsic {
	return func(c *callInfo) []callResult {
		b, ok := c.args[1].(VSlice)
		if !ok {
			return c.ret(c.in.freshVal(c.st, types.Typ[types.Uint16], "u16"))
		}
		st, out := c.require(c.st, ge(b.len, con(2)), "index out of range")
		if st == nil {
			return out
		}
		if b.arr < 0 {
			return out
		}
		o := st.obj(b.arr)
		c.in.access(c.fr, st, o, "[]", false, c.instr)
		for _, x := range st.read(o.c, b.off, 8) {
			for _, y := range x.st.read(o.c, b.off.addc(1), 8) {
				h, l := x.val, y.val
				if !big {
					h, l = l, h
				}
				out = append(out, callResult{st: y.st, rets: []Value{VInt{h.scale(256).add(l)}}})
			}
		}
		return out
	}
}

func isBig(v Value) (bool, bool) {
	if iv, ok := v.(VIface); ok && iv.typ != nil {
		switch iv.typ.String() {
		case "encoding/binary.bigEndian":
			return true, true
		case "encoding/binary.littleEndian":
			return false, true
		}
	}
	return false, false
}

// bufPtr finds the modelled buffer behind an io.Reader or io.Writer value.
func bufPtr(v Value) (VPtr, bool) {
	iv, ok := v.(VIface)
	if !ok || iv.typ == nil {
		return VPtr{}, false
	}
	switch iv.typ.String() {
	case "*bytes.Buffer", "*bytes.Reader":
		p, ok := iv.val.(VPtr)
		return p, ok
	}
	return VPtr{}, false
}

func timeVal(wall Lin, ext Lin) VStruct {
	return VStruct{[]Value{VInt{wall}, VInt{ext}, VPtr{obj: -1, nil_: oneL}}}
}

func intrinsics() map[string]intrinsic {
	m := map[string]intrinsic{}
	add := func(f intrinsic, names ...string) {
		for _, n := range names {
			m[n] = f
		}
	}
	// errors and strings
	add(nonNilErr, "fmt.Errorf", "errors.New")
	add(sprintf, "fmt.Sprintf")
	add(strResult, "fmt.Sprint", "fmt.Sprintln", "strings.ToUpper", "strings.ToLower", "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strconv.Itoa", "strings.Replace", "strings.Join")
	add(func(c *callInfo) []callResult {
		a, ok := c.args[0].(VStr)
		b, ok2 := c.args[1].(VStr)
		if !ok || !ok2 {
			return c.in.unmodelled(c)
		}
		return c.ret(VBool{contains(a, b)})
	}, "strings.Contains")
	add(func(c *callInfo) []callResult {
		// the index of a part: -1 if it is not contained
		a, ok := c.args[0].(VStr)
		b, ok2 := c.args[1].(VStr)
		if !ok || !ok2 {
			return c.in.unmodelled(c)
		}
		var out []callResult
		y, n := c.st.fork(contains(a, b))
		if y != nil {
			i := symL(namedSym("index:"+strKey(a)+":"+strKey(b), 0, 1<<40))
			y.assume(le(i.add(b.ln), a.ln))
			if y.feasible() {
				out = append(out, callResult{st: y, rets: []Value{VInt{i}}})
			}
		}
		if n != nil {
			out = append(out, callResult{st: n, rets: []Value{VInt{con(-1)}}})
		}
		return out
	}, "strings.Index")
	add(strAffix(false), "strings.HasPrefix")
	add(strAffix(true), "strings.HasSuffix")
	add(func(c *callInfo) []callResult {
		// errors.Is(err, target): true if identical
		var out []callResult
		for _, a := range c.in.equal(c.st, c.args[0], c.args[1]) {
			y, n := a.st.fork(a.a)
			if y != nil {
				out = append(out, callResult{st: y, rets: []Value{VBool{aTrue}}})
			}
			if n != nil {
				out = append(out, callResult{st: n, rets: []Value{VBool{boolSym("errors.Is:" + valueKey(c.args[0]) + ":" + valueKey(c.args[1]))}}})
			}
		}
		return out
	}, "errors.Is")
	add(func(c *callInfo) []callResult {
		// errors.As(err, &target): the target variable may be set
		if iv, ok := c.args[1].(VIface); ok {
			if p, ok := iv.val.(VPtr); ok && p.obj >= 0 {
				a, b := c.st.clone(), c.st.clone()
				t := typeAt(a.obj(p.obj).typ, p.path)
				if t != nil {
					src, _ := c.args[0].(VIface)
					v := c.in.unknown(a, t, src.id+".as("+t.String()+")")
					if pv, ok := v.(VPtr); ok {
						pv.nil_ = zeroL
						v = pv
					}
					if vi, ok := v.(VIface); ok {
						vi.nil_ = zeroL
						v = vi
					}
					a.assume(eq(src.nil_, zeroL))
					if src.typ == nil && src.id != "" && types.IsInterface(t) {
						// as the type assertion: an error that wraps nothing
						is := boolSym("is:" + src.id + ":" + t.String())
						a.assume(is)
						b.assume(norm(is.not()))
						v = VIface{id: src.id, nil_: zeroL}
					}
					if src.typ != nil && types.Identical(src.typ, t) {
						v = src.val
					} else if src.typ != nil && !types.IsInterface(t) {
						a.dead = true
					}
					var out []callResult
					if !a.dead && a.feasible() {
						a.store(p, t, v)
						out = append(out, callResult{st: a, rets: []Value{VBool{aTrue}}})
					}
					if !(src.typ != nil && types.Identical(src.typ, t)) && b.feasible() {
						out = append(out, callResult{st: b, rets: []Value{VBool{aFalse}}})
					}
					return out
				}
			}
		}
		return c.in.unmodelled(c)
	}, "errors.As")
	add(func(c *callInfo) []callResult {
		iv := c.args[0].(VIface)
		return c.ret(c.in.unknown(c.st, types.Typ[types.String], "errtext("+ifaceKey(iv)+")"))
	}, "invoke error.Error")
	add(func(c *callInfo) []callResult {
		iv := c.args[0].(VIface)
		return c.ret(VBool{boolSym("temporary:" + iv.id)})
	}, "invoke net.Error.Temporary", "invoke Temporary")
	add(func(c *callInfo) []callResult {
		iv := c.args[0].(VIface)
		return c.ret(VBool{boolSym("timeout:" + iv.id)})
	}, "invoke net.Error.Timeout", "invoke Timeout")
	add(eventOnly("fmtprint"), "fmt.Println", "fmt.Printf", "fmt.Print")

	// encoding/binary
	add(get16(true), "(encoding/binary.bigEndian).Uint16")
	add(get16(false), "(encoding/binary.littleEndian).Uint16")
	add(put16(true), "(encoding/binary.bigEndian).PutUint16")
	add(put16(false), "(encoding/binary.littleEndian).PutUint16")
	add(func(c *callInfo) []callResult {
		p, ok := bufPtr(c.args[0])
		big, bok := isBig(c.args[1])
		dv, dok := c.args[2].(VIface)
		if ok && bok && dok && dv.typ != nil {
			st := c.st
			if sl, isS := dv.typ.Underlying().(*types.Slice); isS {
				w, _, wok := intInfo(sl.Elem())
				s, sok := dv.val.(VSlice)
				if wok && sok && (w == 16 || w == 8) {
					sc, off, ln, cok := st.sliceSrc(s)
					if cok {
						if s.arr >= 0 {
							c.in.access(c.fr, st, st.obj(s.arr), "[]", false, c.instr)
						}
						k := cBEEnc
						n := ln.scale(2)
						if !big {
							k = cLEEnc
						}
						if w == 8 {
							k, n = cCopy, ln
						}
						c.appendHidden(st, p, &Content{kind: k, src: sc, soff: off}, n)
						return c.ret(nilErr)
					}
				}
			}
			if w, _, wok := intInfo(dv.typ); wok {
				if iv, ok := dv.val.(VInt); ok && (w == 8 || w == 16) {
					if w == 8 {
						c.appendHidden(st, p, &Content{kind: cWrite, val: iv.l}, oneL)
					} else {
						hi := divL(iv.l, 256)
						lo := iv.l.sub(hi.scale(256))
						if !big {
							hi, lo = lo, hi
						}
						c.appendHidden(st, p, &Content{kind: cWrite, val: hi}, oneL)
						c.appendHidden(st, p, &Content{kind: cWrite, val: lo}, oneL)
					}
					return c.ret(nilErr)
				}
			}
		}
		return c.in.unmodelled(c)
	}, "encoding/binary.Write")
	add(func(c *callInfo) []callResult {
		p, ok := bufPtr(c.args[0])
		big, bok := isBig(c.args[1])
		dv, dok := c.args[2].(VIface)
		if ok && bok && dok && dv.typ != nil {
			if sl, isS := dv.typ.Underlying().(*types.Slice); isS {
				w, _, wok := intInfo(sl.Elem())
				s, sok := dv.val.(VSlice)
				if wok && sok && (w == 16 || w == 8) {
					h := hidden(c.st, p)
					need := s.len.scale(int64(w / 8))
					if s.arr < 0 {
						return c.ret(nilErr)
					}
					y, n := c.st.fork(ge(h.len, need))
					var out []callResult
					if n != nil {
						out = append(out, callResult{st: n, rets: []Value{c.newErr("binary.Read")}})
					}
					if y != nil {
						k := cBEDec
						if !big {
							k = cLEDec
						}
						if w == 8 {
							k = cCopy
						}
						c.in.access(c.fr, y, y.obj(s.arr), "[]", true, c.instr)
						sc, off, _, cok := y.sliceSrc(h)
						o := y.mut(s.arr)
						if cok && o.c != nil {
							o.c = o.c.push(&Content{kind: k, dst: s.off, n: s.len, src: sc, soff: off, where: c.pos})
						}
						setHidden(y, p, VSlice{arr: h.arr, off: h.off.add(need), len: h.len.sub(need), cap: h.cap.sub(need)})
						out = append(out, callResult{st: y, rets: []Value{nilErr}})
					}
					return out
				}
			}
		}
		return c.in.unmodelled(c)
	}, "encoding/binary.Read")

	// bytes
	add(func(c *callInfo) []callResult {
		rt := c.sig.Results().At(0).Type().(*types.Pointer).Elem()
		o := c.st.newObj(kCells, rt, "buffer")
		p := VPtr{obj: o.id, nil_: zeroL}
		if s, ok := c.args[0].(VSlice); ok {
			setHidden(c.st, p, s)
		}
		return c.ret(p)
	}, "bytes.NewBuffer", "bytes.NewReader")
	add(func(c *callInfo) []callResult {
		p := c.args[0].(VPtr)
		c.touchBuf(c.st, p)
		h := hidden(c.st, p)
		if h.arr >= 0 && !c.st.obj(p.obj).owned {
			c.st.mut(h.arr).owned = false // the buffer writes to it again later
		}
		return c.ret(h)
	}, "(*bytes.Buffer).Bytes")
	add(func(c *callInfo) []callResult { return c.ret(VInt{hidden(c.st, c.args[0].(VPtr)).len}) }, "(*bytes.Buffer).Len", "(*bytes.Reader).Len")
	add(func(c *callInfo) []callResult {
		sc, off, n, ok := c.st.sliceSrc(c.args[1])
		if !ok {
			return c.in.unmodelled(c)
		}
		c.appendHidden(c.st, c.args[0].(VPtr), &Content{kind: cCopy, src: sc, soff: off}, n)
		return c.ret(VInt{n}, nilErr)
	}, "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString")
	add(func(c *callInfo) []callResult {
		c.appendHidden(c.st, c.args[0].(VPtr), &Content{kind: cWrite, val: c.args[1].(VInt).l}, oneL)
		return c.ret(nilErr)
	}, "(*bytes.Buffer).WriteByte")
	add(func(c *callInfo) []callResult { return c.ret() }, "(*bytes.Buffer).Grow")
	add(func(c *callInfo) []callResult {
		c.touchBuf(c.st, c.args[0].(VPtr))
		setHidden(c.st, c.args[0].(VPtr), VSlice{arr: -1, nil_: oneL})
		return c.ret()
	}, "(*bytes.Buffer).Reset")
	add(func(c *callInfo) []callResult {
		a, ok := c.args[0].(VSlice)
		b, ok2 := c.args[1].(VSlice)
		if ok && ok2 {
			as, bs := c.in.convert(c.fr, c.st, a, c.types[0], types.Typ[types.String]), c.in.convert(c.fr, c.st, b, c.types[1], types.Typ[types.String])
			x, y := as[0].v.(VStr), bs[0].v.(VStr)
			// short constant contents compare byte by byte
			if n, isC := y.ln.constVal(); isC && n <= 8 && y.snap != nil {
				if s, ok := constString(c.st, y, n); ok {
					y = strConst(s)
				}
			}
			if n, isC := x.ln.constVal(); isC && n <= 8 && x.snap != nil {
				if s, ok := constString(c.st, x, n); ok {
					x = strConst(s)
				}
			}
			var out []callResult
			alts := []atomAlt(nil)
			if n, isC := y.ln.constVal(); isC && n <= 8 && !x.known && !y.known && x.snap != nil && y.snap != nil {
				alts = elemsEqual(c.st, x.snap, y.snap, n)
			} else if n, isC := x.ln.constVal(); isC && n <= 8 && !x.known && !y.known && x.snap != nil && y.snap != nil {
				alts = elemsEqual(c.st, x.snap, y.snap, n)
			} else {
				alts = c.in.strEqual(c.st, x, y)
			}
			for _, e := range alts {
				out = append(out, callResult{st: e.st, rets: []Value{VBool{e.a}}})
			}
			return out
		}
		return c.ret(VBool{norm(Atom{opGE, symL(freshSym("bytes.Equal", 0, 1)).addc(-1)})})
	}, "bytes.Equal")
	affix := func(suffix bool) intrinsic {
		return func(c *callInfo) []callResult {
			a, ok := c.args[0].(VSlice)
			b, ok2 := c.args[1].(VSlice)
			if !ok || !ok2 || a.arr < 0 {
				return c.ret(VBool{norm(Atom{opGE, symL(freshSym("affix", 0, 1)).addc(-1)})})
			}
			bs := c.in.convert(c.fr, c.st, b, c.types[1], types.Typ[types.String])[0].v.(VStr)
			n, isC := bs.ln.constVal()
			if !isC || n > 8 || bs.snap == nil {
				return c.ret(VBool{norm(Atom{opGE, symL(freshSym("affix", 0, 1)).addc(-1)})})
			}
			s, ok3 := constString(c.st, bs, n)
			if !ok3 {
				return c.ret(VBool{norm(Atom{opGE, symL(freshSym("affix", 0, 1)).addc(-1)})})
			}
			y, no := c.st.fork(ge(a.len, con(n)))
			var out []callResult
			if no != nil {
				out = append(out, callResult{st: no, rets: []Value{VBool{aFalse}}})
			}
			if y != nil {
				off := a.off
				if suffix {
					off = a.off.add(a.len).addc(-n)
				}
				x := VStr{ln: con(n), snap: &Snap{y.obj(a.arr).c, off, con(n)}}
				for _, e := range c.in.strEqual(y, x, strConst(s)) {
					out = append(out, callResult{st: e.st, rets: []Value{VBool{e.a}}})
				}
			}
			return out
		}
	}
	add(affix(false), "bytes.HasPrefix")
	add(affix(true), "bytes.HasSuffix")

	// encoding/hex
	add(func(c *callInfo) []callResult {
		n := c.args[0].(VInt).l
		return c.ret(VInt{divL(n, 2)})
	}, "encoding/hex.DecodedLen")
	add(func(c *callInfo) []callResult { return c.ret(VInt{c.args[0].(VInt).l.scale(2)}) }, "encoding/hex.EncodedLen")
	add(hexDecode, "encoding/hex.Decode")
	add(hexDecodeString, "encoding/hex.DecodeString")

	// io
	add(func(c *callInfo) []callResult {
		n := sliceLen(c.args[1])
		return readModel(c, c.args[0], c.args[1], n, n, true)
	}, "io.ReadFull")
	add(func(c *callInfo) []callResult {
		n, min := sliceLen(c.args[1]), c.args[2].(VInt).l
		y, short := c.st.fork(ge(n, min))
		var out []callResult
		if short != nil {
			out = append(out, callResult{st: short, rets: []Value{VInt{zeroL}, c.newErr("shortbuffer")}})
		}
		if y != nil {
			out = append(out, readModel(c.with(y), c.args[0], c.args[1], min, n, true)...)
		}
		return out
	}, "io.ReadAtLeast")
	rd := func(c *callInfo) []callResult {
		return readModel(c, c.args[0], c.args[1], zeroL, sliceLen(c.args[1]), false)
	}
	wr := func(c *callInfo) []callResult {
		a, b := c.st.clone(), c.st.clone()
		n := sliceLen(c.args[1])
		s := snapOf(c.st, c.args[1])
		c.in.event(c.fr, a, &Event{kind: "write", name: c.name, pos: c.pos, vals: []Value{c.args[0], c.args[1], VInt{n}, nilErr}, snap: s})
		k := symL(freshSym("nw", 0, 1<<40))
		b.assume(le(k, n))
		err := c.newErr("write")
		c.in.event(c.fr, b, &Event{kind: "write", name: c.name, pos: c.pos, vals: []Value{c.args[0], c.args[1], VInt{k}, err}, snap: s})
		return []callResult{{st: a, rets: []Value{VInt{n}, nilErr}}, {st: b, rets: []Value{VInt{k}, err}}}
	}
	cl := func(c *callInfo) []callResult {
		err := c.in.freshVal(c.st, c.sig.Results().At(0).Type(), "closeerr")
		c.emit(c.st, "connclose", c.name, c.args[0])
		return c.ret(err)
	}
	for _, t := range []string{"net.Conn", "io.ReadWriteCloser", "io.Reader", "io.Writer", "io.Closer", "io.ReadWriter", "io.ReadCloser", "github.com/goburrow/serial.Port", "net.Listener"} {
		m["invoke "+t+".Read"] = rd
		m["invoke "+t+".Write"] = wr
		m["invoke "+t+".Close"] = cl
	}
	for _, n := range []string{"SetDeadline", "SetReadDeadline", "SetWriteDeadline"} {
		n := n
		m["invoke "+n] = func(c *callInfo) []callResult { return errFork(c, n, c.args[0], c.args[1]) }
	}
	addr := func(c *callInfo) []callResult {
		iv := c.args[0].(VIface)
		if iv.id == "" {
			iv.id = valueKey(iv)
		}
		return c.ret(VIface{id: c.name + ":" + iv.id, nil_: symL(namedSym(c.name+":"+iv.id+"==nil", 0, 1))})
	}
	add(addr, "invoke RemoteAddr", "invoke LocalAddr", "invoke Addr")
	add(func(c *callInfo) []callResult {
		a, b := c.st.clone(), c.st.clone()
		freshCnt++
		v := VIface{id: fmt.Sprintf("accepted#%d", freshCnt), nil_: zeroL}
		c.emit(a, "open", "accept", v, nilErr, c.args[0])
		err := c.newErr("accept")
		c.emit(b, "open", "accept", VIface{id: "nil", nil_: oneL}, err, c.args[0])
		return []callResult{{st: a, rets: []Value{v, nilErr}}, {st: b, rets: []Value{VIface{id: "nil", nil_: oneL}, err}}}
	}, "invoke net.Listener.Accept")
	open := func(kind string) intrinsic {
		return func(c *callInfo) []callResult { return openModel(c, kind, c.sig.Results().At(0).Type()) }
	}
	add(open("dial"), "net.Dial", "net.DialTimeout", "(*net.Dialer).Dial", "(*net.Dialer).DialContext", "crypto/tls.Dial", "crypto/tls.DialWithDialer")
	add(open("listen"), "net.Listen")
	add(open("serial"), "github.com/goburrow/serial.Open")
	add(func(c *callInfo) []callResult { return openModel(c, "url", c.sig.Results().At(0).Type()) }, "net/url.Parse")

	// sync
	add(lockModel('w'), "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	add(lockModel('r'), "(*sync.RWMutex).RLock")
	add(unlockModel('w'), "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	add(unlockModel('r'), "(*sync.RWMutex).RUnlock")
	add(eventOnly("wgadd"), "(*sync.WaitGroup).Add")
	add(eventOnly("wgdone"), "(*sync.WaitGroup).Done")
	add(eventOnly("wgwait"), "(*sync.WaitGroup).Wait")
	add(func(c *callInfo) []callResult {
		f, ok := c.args[1].(VFunc)
		if !ok {
			return c.in.unmodelled(c)
		}
		skip := c.st.clone()
		_, obj, _ := lockName(c.in, c.st, c.args[0])
		out := []callResult{{st: skip}}
		nc := *c
		nc.args = nil
		nc.types = nil
		nc.sig = types.NewSignatureType(nil, nil, nil, nil, nil, false)
		st2 := c.st.clone()
		// the function runs as if holding the once
		st2.held = append(st2.held[:len(st2.held):len(st2.held)], heldLock{key: fmt.Sprintf("once%d", obj), obj: obj, path: "once", rw: 'w', pos: c.pos})
		nc.st = st2
		for _, r := range c.in.callFunc(&nc, f) {
			if n := len(r.st.held); n > 0 {
				r.st.held = r.st.held[: n-1 : n-1]
			}
			out = append(out, callResult{st: r.st, panic: r.panic})
		}
		return out
	}, "(*sync.Once).Do")
	add(func(c *callInfo) []callResult {
		p, ok := c.args[0].(VPtr)
		if !ok {
			return c.in.unmodelled(c)
		}
		// the New field
		pt := structOf(typeAt(c.st.obj(p.obj).typ, p.path))
		var fv Value
		if pt != nil {
			for i := 0; i < pt.NumFields(); i++ {
				if pt.Field(i).Name() == "New" {
					fv = c.st.loadPath(c.st.obj(p.obj), fmt.Sprintf("%s.%d", p.path, i), pt.Field(i).Type())
				}
			}
		}
		f, ok := fv.(VFunc)
		if !ok || f.fn == nil {
			c.emit(c.st, "poolget", c.name, c.args[0])
			return c.ret(c.in.freshVal(c.st, c.sig.Results().At(0).Type(), "pooled"))
		}
		var out []callResult
		nc := *c
		nc.args, nc.types = nil, nil
		for _, r := range c.in.callFunc(&nc, f) {
			if !r.panic && len(r.rets) == 1 {
				// a recycled object has the shape of a new one and unknown content
				c.in.scrub(r.st, r.rets[0])
				c.emit(r.st, "poolget", c.name, c.args[0], r.rets[0])
			}
			out = append(out, r)
		}
		return out
	}, "(*sync.Pool).Get")
	add(eventOnly("poolput"), "(*sync.Pool).Put")
	add(func(c *callInfo) []callResult {
		k := valueKey(ifaceVal(c.args[1]))
		a, b := c.st.clone(), c.st.clone()
		freshCnt++
		v := c.in.mapValue(a, k)
		has := symL(namedSym("node:"+k, 0, 1))
		a.assume(ge(has, oneL))
		b.assume(lt(has, oneL))
		var out []callResult
		if a.feasible() {
			c.emit(a, "mapload", c.name, c.args[0], c.args[1], VInt{oneL}, v)
			out = append(out, callResult{st: a, rets: []Value{v, VBool{aTrue}}})
		}
		if b.feasible() {
			c.emit(b, "mapload", c.name, c.args[0], c.args[1], VInt{zeroL}, VIface{id: "nil", nil_: oneL})
			out = append(out, callResult{st: b, rets: []Value{VIface{id: "nil", nil_: oneL}, VBool{aFalse}}})
		}
		return out
	}, "(*sync.Map).Load")
	add(func(c *callInfo) []callResult {
		c.emit(c.st, "mapstore", c.name, c.args...)
		return c.ret()
	}, "(*sync.Map).Store")
	add(func(c *callInfo) []callResult {
		c.emit(c.st, "mapdel", c.name, c.args...)
		return c.ret()
	}, "(*sync.Map).Delete")
	add(func(c *callInfo) []callResult {
		c.emit(c.st, "maprange", c.name, c.args[0])
		f, ok := c.args[1].(VFunc)
		if !ok {
			return c.in.unmodelled(c)
		}
		out := []callResult{{st: c.st.clone()}}
		nc := *c
		nc.st = c.st.clone()
		nc.sig = types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, nil, "", types.Typ[types.Bool])), false)
		freshCnt++
		id := fmt.Sprintf("range#%d", freshCnt)
		key := c.in.unknown(nc.st, types.Typ[types.Uint8], id+".key")
		nc.args = []Value{VIface{typ: types.Typ[types.Uint8], val: key, nil_: zeroL}, c.in.mapValue(nc.st, id)}
		nc.types = nil
		for _, r := range c.in.callFunc(&nc, f) {
			if !r.panic {
				// earlier and later elements: whatever the callback captured is unknown
				for _, b := range f.bind {
					c.in.havocArg(r.st, b)
				}
				c.emit(r.st, "maprangeend", c.name)
			}
			out = append(out, callResult{st: r.st, panic: r.panic})
		}
		return out
	}, "(*sync.Map).Range")

	// sync/atomic
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		w, sg := 32, strings.HasPrefix(t, "I")
		if strings.HasSuffix(t, "64") {
			w = 64
		}
		bt := map[string]types.Type{"Int32": types.Typ[types.Int32], "Int64": types.Typ[types.Int64], "Uint32": types.Typ[types.Uint32], "Uint64": types.Typ[types.Uint64]}[t]
		load := synchronises(func(c *callInfo) []callResult {
			v := c.in.freshVal(c.st, bt, "atomic")
			if p, ok := c.args[0].(VPtr); ok && p.obj >= 0 && (c.st.obj(p.obj).owned || c.in.exactAtomics) {
				v = c.st.load(p, bt)
			}
			c.emit(c.st, "atomicload", c.name, c.args[0], v)
			return c.ret(v)
		})
		store := synchronises(func(c *callInfo) []callResult {
			st := c.st.clone()
			if p, ok := c.args[0].(VPtr); ok && p.obj >= 0 {
				st.store(p, bt, c.args[1])
			}
			c.emit(st, "atomicstore", c.name, c.args[0], c.args[1])
			return []callResult{{st: st}}
		})
		plus := synchronises(func(c *callInfo) []callResult {
			p, ok := c.args[0].(VPtr)
			d, dok := c.args[1].(VInt)
			if !ok || !dok || p.obj < 0 {
				return c.in.unmodelled(c)
			}
			old, _ := c.st.load(p, bt).(VInt)
			var out []callResult
			for _, a := range c.in.wrap(c.st, old.l.add(d.l), w, sg) {
				a.st = a.st.clone()
				a.st.store(p, bt, VInt{a.l})
				c.emit(a.st, "atomicadd", c.name, c.args[0], d, VInt{a.l})
				out = append(out, callResult{st: a.st, rets: []Value{VInt{a.l}}})
			}
			return out
		})
		cas := synchronises(func(c *callInfo) []callResult {
			a, b := c.st.clone(), c.st.clone()
			p, ok := c.args[0].(VPtr)
			if ok && p.obj >= 0 && c.in.exactAtomics {
				old, isInt := c.st.load(p, bt).(VInt)
				want, isInt2 := c.args[1].(VInt)
				if !isInt || !isInt2 {
					return c.in.unmodelled(c)
				}
				a, b = c.st.fork(eq(old.l, want.l))
			}
			var out []callResult
			if a != nil {
				if ok && p.obj >= 0 {
					a.store(p, bt, c.args[2])
				}
				c.emit(a, "cas", c.name, c.args[0], c.args[1], c.args[2], VInt{oneL})
				out = append(out, callResult{st: a, rets: []Value{VBool{aTrue}}})
			}
			if b != nil {
				c.emit(b, "cas", c.name, c.args[0], c.args[1], c.args[2], VInt{zeroL})
				out = append(out, callResult{st: b, rets: []Value{VBool{aFalse}}})
			}
			return out
		})
		add(load, "sync/atomic.Load"+t)
		add(store, "sync/atomic.Store"+t)
		add(plus, "sync/atomic.Add"+t)
		add(cas, "sync/atomic.CompareAndSwap"+t)
		// the types with methods: the value is the last field
		cell := func(f intrinsic) intrinsic {
			return func(c *callInfo) []callResult {
				p, ok := c.args[0].(VPtr)
				if !ok || p.obj < 0 {
					return c.in.unmodelled(c)
				}
				s := structOf(typeAt(c.st.obj(p.obj).typ, p.path))
				if s == nil {
					return c.in.unmodelled(c)
				}
				p.path += fmt.Sprintf(".%d", s.NumFields()-1)
				n := *c
				n.args = append([]Value{p}, c.args[1:]...)
				return f(&n)
			}
		}
		add(cell(load), "(*sync/atomic."+t+").Load")
		add(cell(store), "(*sync/atomic."+t+").Store")
		add(cell(plus), "(*sync/atomic."+t+").Add")
		add(cell(cas), "(*sync/atomic."+t+").CompareAndSwap")
		if t != "Uint32" {
			continue
		}
		truth := func(c *callInfo, st *State, v Value) []valAlt {
			y, n := st.fork(c.in.boolAtom(st, v))
			var out []valAlt
			if y != nil {
				out = append(out, valAlt{y, VInt{oneL}})
			}
			if n != nil {
				out = append(out, valAlt{n, VInt{zeroL}})
			}
			return out
		}
		add(func(c *callInfo) []callResult {
			rs := cell(load)(c)
			for i := range rs {
				rs[i].rets = []Value{VBool{norm(ge(rs[i].rets[0].(VInt).l, oneL))}}
			}
			return rs
		}, "(*sync/atomic.Bool).Load")
		add(func(c *callInfo) []callResult {
			var out []callResult
			for _, a := range truth(c, c.st, c.args[1]) {
				n := c.with(a.st)
				n.args = []Value{c.args[0], a.v}
				out = append(out, cell(store)(n)...)
			}
			return out
		}, "(*sync/atomic.Bool).Store")
		add(func(c *callInfo) []callResult {
			var out []callResult
			for _, a := range truth(c, c.st, c.args[1]) {
				for _, b := range truth(c, a.st, c.args[2]) {
					n := c.with(b.st)
					n.args = []Value{c.args[0], a.v, b.v}
					out = append(out, cell(cas)(n)...)
				}
			}
			return out
		}, "(*sync/atomic.Bool).CompareAndSwap")
	}

	// time
	add(func(c *callInfo) []callResult {
		s := freshSym("now", 1, 1<<60)
		c.emit(c.st, "now", "", VInt{symL(s)})
		return c.ret(timeVal(symL(s), zeroL))
	}, "time.Now")
	add(func(c *callInfo) []callResult {
		t, ok := c.args[0].(VStruct)
		d, ok2 := c.args[1].(VInt)
		if !ok || !ok2 || len(t.f) != 3 {
			return c.ret(c.in.freshVal(c.st, c.sig.Results().At(0).Type(), "time"))
		}
		return c.ret(timeVal(t.f[0].(VInt).l, t.f[1].(VInt).l.add(d.l)))
	}, "(time.Time).Add")
	add(func(c *callInfo) []callResult {
		if t, ok := c.args[0].(VStruct); ok && len(t.f) == 3 {
			return c.ret(VBool{eq(t.f[0].(VInt).l, zeroL)})
		}
		return c.ret(VBool{norm(Atom{opGE, symL(freshSym("iszero", 0, 1)).addc(-1)})})
	}, "(time.Time).IsZero")
	add(eventOnly("sleep"), "time.Sleep")
	add(func(c *callInfo) []callResult {
		p := c.in.freshVal(c.st, c.sig.Results().At(0).Type(), "ticker").(VPtr)
		p.nil_ = zeroL
		st, out := c.st, []callResult(nil)
		if d, ok := c.args[0].(VInt); ok && c.name == "time.NewTicker" {
			st, out = c.require(c.st, gt(d.l, zeroL), "non-positive interval for NewTicker")
			if st == nil {
				return out
			}
		}
		c.emit(st, "newticker", c.name, c.args[0], p)
		return append(out, callResult{st: st, rets: []Value{p}})
	}, "time.NewTicker", "time.NewTimer")
	add(eventOnly("tickerstop"), "(*time.Ticker).Stop", "(*time.Timer).Stop")
	add(func(c *callInfo) []callResult {
		v := c.in.freshVal(c.st, c.sig.Results().At(0).Type(), "timeafter")
		c.emit(c.st, "timeafter", c.name, c.args[0], v)
		return c.ret(v)
	}, "time.After", "time.Tick")

	// context
	add(func(c *callInfo) []callResult {
		freshCnt++
		id := fmt.Sprintf("ctx#%d", freshCnt)
		ctx := VIface{id: id, nil_: zeroL}
		f := VFunc{id: "cancel:" + id, nil_: zeroL}
		c.emit(c.st, "withcancel", id, c.args[0], ctx, f)
		return c.ret(ctx, f)
	}, "context.WithCancel", "context.WithTimeout", "context.WithDeadline")
	add(func(c *callInfo) []callResult {
		freshCnt++
		id := fmt.Sprintf("ctx#%d", freshCnt)
		ctx := VIface{id: id, nil_: zeroL}
		c.emit(c.st, "withcancel", id, c.args[0], ctx, VFunc{nil_: oneL})
		return c.ret(ctx)
	}, "context.WithValue")
	add(func(c *callInfo) []callResult { return c.ret(VIface{id: "background", nil_: zeroL}) }, "context.Background", "context.TODO")
	add(func(c *callInfo) []callResult {
		iv := c.args[0].(VIface)
		return c.ret(VRef{obj: c.in.lazyObj(kChan, c.sig.Results().At(0).Type(), "done:"+iv.id), nil_: zeroL})
	}, "invoke context.Context.Done")
	add(func(c *callInfo) []callResult {
		iv := c.args[0].(VIface)
		freshCnt++
		v := VIface{id: fmt.Sprintf("ctxerr:%s#%d", iv.id, freshCnt), nil_: symL(freshSym("ctxerrnil", 0, 1))}
		c.emit(c.st, "ctxerr", iv.id, iv, v)
		return c.ret(v)
	}, "invoke context.Context.Err")

	add(func(c *callInfo) []callResult {
		n, ok := c.args[0].(VInt)
		if !ok {
			return c.in.unmodelled(c)
		}
		st, out := c.require(c.st, gt(n.l, zeroL), "invalid argument to Intn")
		if st == nil {
			return out
		}
		v := symL(freshSym("rand", 0, 1<<40))
		st = st.clone()
		st.assume(lt(v, n.l))
		return append(out, callResult{st: st, rets: []Value{VInt{v}}})
	}, "math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n")
	add(func(c *callInfo) []callResult {
		p := c.in.freshVal(c.st, c.sig.Results().At(0).Type(), "logger").(VPtr)
		p.nil_ = zeroL
		return c.ret(p)
	}, "log.New", "log.Default")
	return m
}

func ifaceVal(v Value) Value {
	if iv, ok := v.(VIface); ok && iv.typ != nil {
		return iv.val
	}
	return v
}

func constString(st *State, v VStr, n int64) (string, bool) {
	if v.known {
		return v.s, true
	}
	var b []byte
	for i := int64(0); i < n; i++ {
		tmp := st.clone()
		as := tmp.read(v.snap.c, v.snap.off.addc(i), 8)
		if len(as) != 1 {
			return "", false
		}
		c, ok := as[0].val.constVal()
		if !ok {
			return "", false
		}
		b = append(b, byte(c))
	}
	return string(b), true
}

// mapValue is a value stored in the server's node table.
func (in *Interp) mapValue(st *State, key string) Value {
	t := in.pkg.Pkg.Scope().Lookup("NodeRegister")
	if t == nil {
		return in.freshVal(st, types.NewInterfaceType(nil, nil), "node")
	}
	pt := types.NewPointer(t.Type())
	return VIface{typ: pt, val: VPtr{obj: in.lazyObj(kCells, t.Type(), "node["+key+"]"), nil_: zeroL}, nil_: zeroL}
}

// scrub forgets the content of the integer arrays reachable from a pooled object.
func (in *Interp) scrub(st *State, v Value) {
	switch x := v.(type) {
	case VIface:
		if x.typ != nil {
			in.scrub(st, x.val)
		}
	case VPtr:
		if x.obj >= 0 {
			o := st.obj(x.obj)
			for k, c := range o.cells {
				if s, ok := c.(VSlice); ok && s.arr >= 0 {
					in.havocArr(st, s.arr)
					ln := symL(freshSym("pooledlen", 0, 1<<40))
					st.assume(le(ln, s.cap))
					s.len = ln
					st.mut(x.obj).cells[k] = s
				}
			}
		}
	}
}

func hexDecode(c *callInfo) []callResult {
	d, ok := c.args[0].(VSlice)
	s, ok2 := c.args[1].(VSlice)
	if !ok || !ok2 || d.arr < 0 {
		return c.in.unmodelled(c)
	}
	half := divL(s.len, 2)
	st, out := c.require(c.st, ge(d.len, half), "index out of range in hex.Decode")
	if st == nil {
		return out
	}
	c.in.access(c.fr, st, st.obj(d.arr), "[]", true, c.instr)
	// failure
	bad := st.clone()
	n := symL(freshSym("nhex", 0, 1<<40))
	bad.assume(le(n, half))
	c.in.havocArr(bad, d.arr)
	if e := c.emit(bad, "hexfail", c.name, d, s); e != nil {
		e.snap = snapOf(c.st, s)
	}
	out = append(out, callResult{st: bad, rets: []Value{VInt{n}, c.newErr("hex")}})
	// success: an even number of characters
	good := st.clone()
	good.assume(eq(half.scale(2), s.len))
	if !good.feasible() {
		return out
	}
	sc, off, _, sok := good.sliceSrc(s)
	if e := c.emit(good, "hexdecode", c.name, d, s); e != nil {
		e.snap = snapOf(c.st, s)
	}
	if sok && good.obj(d.arr).c != nil {
		o := good.mut(d.arr)
		o.c = o.c.push(&Content{kind: cHexDec, dst: d.off, n: half, src: sc, soff: off, where: c.pos})
	} else {
		c.in.havocArr(good, d.arr)
	}
	return append(out, callResult{st: good, rets: []Value{VInt{half}, nilErr}})
}

// hexDecodeString is hex.Decode into a new slice of the result.
func hexDecodeString(c *callInfo) []callResult {
	sv, ok := c.args[0].(VStr)
	if !ok || sv.snap == nil {
		return c.in.unmodelled(c)
	}
	half := divL(sv.ln, 2)
	fresh := func(st *State) (*Obj, VSlice) {
		o := st.newObj(kArray, types.Typ[types.Byte], "hex")
		o.n = half
		o.c = zeroContent
		return o, VSlice{arr: o.id, len: half, cap: half}
	}
	snap := &Snap{sv.snap.c, sv.snap.off, sv.ln}
	bad := c.st.clone()
	_, d := fresh(bad)
	c.in.havocArr(bad, d.arr)
	n := symL(freshSym("nhex", 0, 1<<40))
	bad.assume(le(n, half))
	if e := c.emit(bad, "hexfail", c.name, d); e != nil {
		e.snap = snap
	}
	d.len = n
	out := []callResult{{st: bad, rets: []Value{d, c.newErr("hex")}}}
	good := c.st.clone()
	good.assume(eq(half.scale(2), sv.ln))
	if !good.feasible() {
		return out
	}
	o, g := fresh(good)
	o.c = o.c.push(&Content{kind: cHexDec, dst: zeroL, n: half, src: sv.snap.c, soff: sv.snap.off, where: c.pos})
	if e := c.emit(good, "hexdecode", c.name, g); e != nil {
		e.snap = snap
	}
	return append(out, callResult{st: good, rets: []Value{g, nilErr}})
}

// elemsEqual compares two contents, one of constant length n, element by element.
func elemsEqual(st *State, x, y *Snap, n int64) (out []atomAlt) {
	t, f := st.fork(eq(x.n, y.n))
	if f != nil {
		out = append(out, atomAlt{f, aFalse})
	}
	if t == nil {
		return out
	}
	cur := []*State{t}
	for i := int64(0); i < n; i++ {
		var next []*State
		for _, s := range cur {
			for _, a := range readSnap(s, x, con(i), 8) {
				for _, b := range readSnap(a.st, y, con(i), 8) {
					e, ne := b.st.fork(eq(a.val, b.val))
					if ne != nil {
						out = append(out, atomAlt{ne, aFalse})
					}
					if e != nil {
						next = append(next, e)
					}
				}
			}
		}
		cur = next
	}
	for _, s := range cur {
		out = append(out, atomAlt{s, aTrue})
	}
	return out
}

var _ = ssa.NaiveForm
