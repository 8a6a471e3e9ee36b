package main

// The checksum functions, decided as folds over the bytes they cover: the loop is shown to
// carry an accumulator that starts right, is changed by every byte as the specification
// says, visits all bytes in order, and is the result.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func crcStep(i int64) int64 {
	for j := 0; j < 8; j++ {
		if i&1 == 1 {
			i = i>>1 ^ 0xA001
		} else {
			i >>= 1
		}
	}
	return i
}

// onceRuns makes sync.Once run its function in any case, and remembers which function a
// once object runs.
func onceRuns(in *Interp) {
	in.override["(*sync.Once).Do"] = func(ci *callInfo) []callResult {
		f, ok := ci.args[1].(VFunc)
		if !ok {
			return nil
		}
		nc := *ci
		nc.args = nil
		nc.types = nil
		return ci.in.callFunc(&nc, f)
	}
}

type foldRec struct {
	g          *generaliser
	head, back *Path
}

// foldRuns runs f and collects the iterations of its loops.
func foldRuns(c *Ctx, in *Interp, st *State, f *ssa.Function, args []Value) ([]callResult, []foldRec) {
	var recs []foldRec
	in.onBack = func(g *generaliser, head, back *Path) { recs = append(recs, foldRec{g, head, back}) }
	rs := c.noPanics("checksum does not panic", shortFn(f), in, c.run(in, st, f, args))
	in.onBack = nil
	return rs, recs
}

// acc is a value a loop accumulates: a changing integer, or two bytes of one.
type acc struct {
	hi, lo *comp
	name   string
	sym    Lin
}

func (a acc) at(g *generaliser, p *Path) (Lin, bool) {
	l, ok := g.value(a.lo.sl, p).(VInt)
	if !ok || a.hi == nil {
		return l.l, ok
	}
	h, ok := g.value(a.hi.sl, p).(VInt)
	return h.l.scale(256).add(l.l), ok
}

// accumulators are the changing integers of a loop without a closed form.
func accumulators(g *generaliser) []acc {
	var out, bytes []acc
	for _, s := range g.slots {
		if s.fresh {
			continue
		}
		for _, c := range s.comps {
			if c.which == 'v' && !c.closed {
				a := acc{lo: c, name: s.name, sym: symL(c.sym)}
				out = append(out, a)
				if c.sym.lo >= 0 && c.sym.hi <= 255 {
					bytes = append(bytes, a)
				}
			}
		}
	}
	for _, h := range bytes {
		for _, l := range bytes {
			if h.lo != l.lo && len(bytes) <= 4 {
				out = append(out, acc{hi: h.lo, lo: l.lo, name: h.name + ":" + l.name, sym: h.sym.scale(256).add(l.sym)})
			}
		}
	}
	return out
}

// foldCheck decides that a result is the fold of step over the n bytes of data, in their
// order or, if that makes no difference, in the opposite order.
func (c *Ctx) foldCheck(nm string, in *Interp, pos ssa.Instruction, rs []callResult, recs []foldRec, data *Snap, anyOrder bool, isInit func(st *State, l Lin) bool,
	step func(st *State, old, b, new Lin) bool, result func(r callResult) (Lin, bool)) {
	f := pos.Parent()
	// the accumulator: one that starts right and whose every iteration steps right
	type cand struct {
		g *generaliser
		a acc
	}
	why := "no loop over the data was found"
	var best *cand
	seen := map[*generaliser]bool{}
	for _, r := range recs {
		if seen[r.g] || best != nil {
			continue
		}
		seen[r.g] = true
		for _, a := range accumulators(r.g) {
			iv, ok := a.at(r.g, r.g.entry)
			if !ok || !isInit(r.g.entry.st, iv) {
				why = "the accumulator does not start right"
				continue
			}
			index := []Lin{symL(r.g.k)}
			if anyOrder {
				index = append(index, data.n.sub(symL(r.g.k)).addc(-1))
			}
			for _, ix := range index {
				good := true
				for _, q := range recs {
					if q.g != r.g || !good {
						continue
					}
					nv, ok := a.at(q.g, q.back)
					if !ok {
						good = false
						break
					}
					st := q.back.st
					if !st.entails(lt(symL(q.g.k), data.n)) {
						good = false
						why = "the loop may go beyond the data"
						break
					}
					for _, e := range readSnap(st.clone(), data, ix, 8) {
						if !step(e.st, a.sym, e.val, nv) {
							good = false
							why = "the step from " + a.name + " is not that of the checksum: " + nv.String()
						}
					}
				}
				if good && best == nil {
					best = &cand{r.g, a}
				}
			}
		}
	}
	c.ob("checksum step", nm, best != nil, in, nil, f.Pos(), "", "%s", why)
	if best == nil {
		return
	}
	n := 0
	for _, r := range rs {
		l, ok := result(r)
		if ok && r.st.entails(eq(data.n, zeroL)) && isInit(r.st, l) {
			c.ob("checksum result", nm, true, in, r.st, f.Pos(), "", "")
			continue
		}
		ok = ok && r.st.entails(eq(symL(best.g.k), data.n)) && provEq(r.st, l, best.a.sym)
		if ok {
			n++
		}
		c.ob("checksum result", nm, ok, in, r.st, f.Pos(), "", "the result is not the accumulator after all bytes")
	}
	c.ob("checksum result", nm+" (all)", n > 0, in, nil, f.Pos(), "", "no path returns the accumulator")
}

func crcFold(c *Ctx) {
	in, st := c.interp()
	onceRuns(in)
	f := c.fn("CRC16")
	buf, _ := inputSlice(in, st, tByte, "bytes", 0)
	data := sliceSnap(st, buf)
	rs, recs := foldRuns(c, in, st.clone(), f, []Value{buf})
	step := func(st *State, old, b, new Lin) bool {
		// new = (old >> 8) ^ T[(old ^ b) & 0xff]; the index may be written in two ways
		wide, ok := bitOp("^", old, b, 16)
		if !ok {
			return false
		}
		narrow, ok := bitOp("^", modL(old, 256), b, 8)
		if !ok {
			return false
		}
		for _, ix := range []Lin{modL(wide, 256), narrow} {
			if v, ok := constIn(st, ix, 0, 255); ok {
				w, ok := bitOp("^", divL(old, 256), con(crcStep(v)), 16)
				return ok && (provEq(st, new, w) || sameBits(new, w, 16))
			}
		}
		// bit by bit: the table is linear, T[x] is the sum of T[1<<j] over the bits j of x
		x, ok1 := linToBV(narrow, 8)
		o, ok2 := linToBV(old, 16)
		n, ok3 := linToBV(new, 16)
		if !ok1 || !ok2 || !ok3 {
			return false
		}
		for i := range n {
			var want Poly
			if i < 8 {
				want = o[i+8]
			}
			for j := range x {
				if crcStep(1<<uint(j))>>uint(i)&1 == 1 {
					want = polyXor(want, x[j])
				}
			}
			if !polyEq(want, n[i]) {
				return false
			}
		}
		return true
	}
	c.foldCheck("CRC16", in, f.Blocks[0].Instrs[0], rs, recs, data, false, func(st *State, l Lin) bool { return provEq(st, l, con(0xFFFF)) }, step,
		func(r callResult) (Lin, bool) {
			v, ok := r.rets[0].(VInt)
			return v.l, ok
		})
}

// sameBits: two numbers of n bits are bit for bit the same.
func sameBits(a, b Lin, n int) bool {
	x, ok1 := linToBV(a, n)
	y, ok2 := linToBV(b, n)
	if !ok1 || !ok2 {
		return false
	}
	for i := range x {
		if !polyEq(x[i], y[i]) {
			return false
		}
	}
	return true
}

// constIn: the expression, between lo and hi, has one value here.
func constIn(st *State, l Lin, lo, hi int64) (int64, bool) {
	for lo < hi {
		m := lo + (hi-lo)/2
		switch {
		case st.entails(le(l, con(m))):
			hi = m
		case st.entails(gt(l, con(m))):
			lo = m + 1
		default:
			return 0, false
		}
	}
	return lo, true
}

func lrcFold(c *Ctx) {
	in, st := c.interp()
	push, value, reset := c.method("LRC", "Push"), c.method("LRC", "Value"), c.method("LRC", "Reset")
	obj := st.newObj(kCells, push.Params[0].Type().Underlying().(*types.Pointer).Elem(), "lrc")
	obj.zero = false
	ptr := VPtr{obj: obj.id, nil_: zeroL}
	var field fieldAt
	nf := 0
	leaves(obj.typ, "", func(path string, v *types.Var) { field = fieldAt{path, v.Type()}; nf++ })
	if nf != 1 {
		stop("LRC has %d fields", nf)
	}
	get := func(st *State) (Lin, bool) {
		v, ok := st.load(VPtr{obj: ptr.obj, path: field.path, nil_: zeroL}, field.typ).(VInt)
		return v.l, ok
	}
	// value of the checksum for a state of the accumulator
	valueOf := func(st *State, acc Lin) []readAlt {
		s := st.clone()
		s.mut(ptr.obj).cells[field.path] = VInt{acc}
		var out []readAlt
		for _, r := range c.run(in, s, value, []Value{ptr}) {
			if v, ok := r.rets[0].(VInt); ok && !r.panic {
				out = append(out, readAlt{st: r.st, val: v.l})
			} else {
				stop("LRC.Value has no plain result")
			}
		}
		return out
	}
	s0 := symL(namedSym("lrcsum", 0, 255))
	if lo, hi := in.unknown(st, field.typ, "x").(VInt).l.globalRange(); lo != 0 || hi != 255 {
		_ = lo
		s0 = in.unknown(st, field.typ, "lrcsum").(VInt).l
	}
	st.mut(ptr.obj).cells[field.path] = VInt{s0}
	buf, _ := inputSlice(in, st, tByte, "bytes", 0)
	data := sliceSnap(st, buf)
	rs, recs := foldRuns(c, in, st.clone(), push, []Value{ptr, buf})
	step := func(st *State, old, b, new Lin) bool {
		for _, v0 := range valueOf(st, old) {
			for _, v1 := range valueOf(v0.st, new) {
				if !provEq(v1.st, modL(v1.val, 256), modL(v0.val.sub(b), 256)) {
					return false
				}
			}
		}
		return true
	}
	c.foldCheck("LRC.Push", in, push.Blocks[0].Instrs[0], rs, recs, data, true, func(st *State, l Lin) bool { return provEq(st, l, s0) }, step,
		func(r callResult) (Lin, bool) { return get(r.st) })
	for _, r := range rs {
		p, ok := r.rets[0].(VPtr)
		c.ob("checksum chain", "LRC.Push", ok && p.obj == ptr.obj, in, r.st, push.Pos(), "", "Push does not return its receiver")
	}
	rs = c.noPanics("checksum does not panic", "LRC.Reset", in, c.run(in, st.clone(), reset, []Value{ptr}))
	for _, r := range rs {
		p, ok := r.rets[0].(VPtr)
		c.ob("checksum chain", "LRC.Reset", ok && p.obj == ptr.obj, in, r.st, reset.Pos(), "", "Reset does not return its receiver")
		l, ok := get(r.st)
		ok2 := ok
		if ok {
			for _, v := range valueOf(r.st, l) {
				ok2 = ok2 && provEq(v.st, v.val, zeroL)
			}
		}
		c.ob("checksum start", "LRC.Reset", ok2, in, r.st, reset.Pos(), "", "the checksum of no bytes is not 0 after Reset")
	}
}
