package main

// Framework of the checks: obligations, verdicts, evidence.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Where     string   `json:"where"`
	Path      string   `json:"path,omitempty"`
	Message   string   `json:"message"`
	Condition []string `json:"condition,omitempty"`
}

// Ctx is one run of one check.
type Ctx struct {
	p     *Program
	id    string
	tier  string
	viol  []Violation
	vseen map[string]bool
	rules map[string]*ruleStat
	order []string
	notes []string
	ins   []*Interp
	paths int
	funcs map[string]bool

	shareVar []*types.Var
	bankNil  map[string]bool // storage kinds the constructor may leave nil
	life     *life
	strategy int
	deadline time.Time
	onFrame  func(r *frameRun, st *State, e *Event) // sees every event of the frame function
}

type ruleStat struct {
	Rule        string          `json:"rule"`
	Obligations int             `json:"obligations"`
	Discharged  int             `json:"discharged"`
	Constructs  map[string]bool `json:"-"`
	Min         int             `json:"-"`
}

// stop ends an analysis without an answer.
func stop(f string, a ...interface{}) { panic(abortErr{fmt.Sprintf(f, a...)}) }

func (c *Ctx) ob(rule, construct string, ok bool, in *Interp, st *State, pos token.Pos, chain, msg string, a ...interface{}) bool {
	r := c.rules[rule]
	if r == nil {
		r = &ruleStat{Rule: rule, Constructs: map[string]bool{}}
		c.rules[rule] = r
		c.order = append(c.order, rule)
	}
	r.Obligations++
	r.Constructs[construct] = true
	if ok {
		r.Discharged++
		return true
	}
	where := "-"
	if in != nil {
		where = in.pos(pos)
	}
	m := fmt.Sprintf(msg, a...)
	k := rule + "|" + construct + "|" + m
	if c.vseen[k] {
		return false
	}
	c.vseen[k] = true
	v := Violation{Rule: rule, Construct: construct, Where: where, Path: chain, Message: m}
	if st != nil {
		for _, a := range st.cond.all() {
			s := a.String()
			if len(v.Condition) < 60 {
				v.Condition = append(v.Condition, s)
			}
		}
	}
	c.viol = append(c.viol, v)
	return false
}

// atLeast makes a rule that matched fewer constructs than expected fail.
func (c *Ctx) atLeast(rule string, n int) {
	r := c.rules[rule]
	have := 0
	if r != nil {
		have = len(r.Constructs)
	}
	if have < n {
		c.ob("instances", rule, false, nil, nil, 0, "", "rule %q applied to %d constructs, expected at least %d", rule, have, n)
	} else {
		c.ob("instances", rule, true, nil, nil, 0, "", "")
	}
}

// interp makes an interpreter and the state after package initialisation.
func (c *Ctx) interp() (*Interp, *State) {
	in := newInterp(c.p.prog, c.p.pkg)
	in.nonNil = defaultNonNil
	in.lookahead, in.deadline = c.strategy == 1, c.deadline
	switch c.id {
	case "P01", "P02", "P03", "L01", "L04", "R04", "R05", "S09":
		in.threads = true
	}
	if c.tier == "thorough" {
		in.maxSteps *= 4
	}
	st := c.p.initState(in)
	in.issues = nil
	c.ins = append(c.ins, in)
	return in, st
}

// run calls a function and returns its feasible results.
func (c *Ctx) run(in *Interp, st *State, fn *ssa.Function, args []Value) []callResult {
	if fn == nil {
		stop("function to analyse not found")
	}
	var out []callResult
	for _, r := range in.callFn(nil, st, fn, args, nil, fn.Pos(), false) {
		if r.st.feasible() {
			out = append(out, r)
			c.paths++
		}
	}
	return out
}

func (c *Ctx) fn(name string) *ssa.Function {
	f := c.p.fn(name)
	if f == nil {
		stop("function %s not found", name)
	}
	return f
}

func (c *Ctx) method(typ, name string) *ssa.Function {
	f := c.p.method(typ, name)
	if f == nil {
		stop("method %s.%s not found", typ, name)
	}
	return f
}

// noPanics turns the panicking results into violations.
func (c *Ctx) noPanics(rule, construct string, in *Interp, rs []callResult) []callResult {
	var out []callResult
	n := 0
	for _, r := range rs {
		if r.panic {
			n++
			c.ob(rule, construct, false, in, r.st, r.st.pan.pos, r.st.pan.chain, "may panic: %s", r.st.pan.msg)
			continue
		}
		out = append(out, r)
	}
	for _, r := range in.threadPanics {
		n++
		c.ob(rule, construct, false, in, r.st, r.st.pan.pos, r.st.pan.chain, "a goroutine started may panic, which ends the process: %s", r.st.pan.msg)
	}
	if n == 0 {
		c.ob(rule, construct, true, in, nil, 0, "", "")
	}
	return out
}

// ---- proving ----------------------------------------------------------------

// inputSyms collects the elements of input blocks in an expression.
func inputSyms(l Lin, m map[*Sym]bool) {
	l.mentions(func(s *Sym) bool {
		if s.kind == 'i' {
			m[s] = true
		}
		return false
	})
}

// provEq: the two expressions are equal here, elements at provably equal positions being
// equal.
func provEq(st *State, a, b Lin) bool {
	if a.eq(b) || st.entails(eq(a, b)) {
		return true
	}
	am, bm := map[*Sym]bool{}, map[*Sym]bool{}
	inputSyms(a, am)
	inputSyms(b, bm)
	s2 := st.clone()
	any := false
	m := map[*Sym]Lin{}
	for x := range am {
		for y := range bm {
			if x != y && x.base == y.base && s2.entails(eq(x.off, y.off)) {
				s2.assume(eq(symL(x), symL(y)))
				m[x] = symL(y)
				any = true
			}
		}
	}
	if !any {
		return false
	}
	if s2.entails(eq(a, b)) {
		return true
	}
	sb := newSubst(m)
	return sb.lin(a).eq(b) || s2.entails(eq(sb.lin(a), b))
}

// provAtom: the atom holds here, elements at provably equal positions being equal.
func provAtom(st *State, a Atom) bool {
	if st.entails(a) {
		return true
	}
	s2, sb := congruent(st, a)
	if s2 == nil {
		return false
	}
	return s2.entails(a.subst(sb))
}

// congruent rewrites the condition of a state so that elements at provably equal positions
// have one name.
func congruent(st *State, as ...Atom) (*State, *Subst) {
	by := map[*Base][]*Sym{}
	seen := map[*Sym]bool{}
	add := func(l Lin) {
		l.mentions(func(s *Sym) bool {
			if s.kind == 'i' && !seen[s] {
				seen[s] = true
				by[s.base] = append(by[s.base], s)
			}
			return false
		})
	}
	for _, a := range as {
		add(a.l)
	}
	nw := len(seen)
	if nw == 0 && len(as) > 0 {
		return nil, nil
	}
	for _, a := range st.cond.all() {
		add(a.l)
	}
	m := map[*Sym]Lin{}
	for _, ss := range by {
		for i, x := range ss {
			if _, done := m[x]; done {
				continue
			}
			for _, y := range ss[i+1:] {
				if _, done := m[y]; done {
					continue
				}
				if st.entails(eq(x.off, y.off)) {
					m[y] = symL(x)
				}
			}
		}
	}
	if len(m) == 0 {
		return nil, nil
	}
	sb := newSubst(m)
	s2 := st.clone()
	s2.cond = nil
	for _, a := range st.cond.all() {
		s2.assume(a.subst(sb))
	}
	return s2, sb
}

// readSlice reads element i of a slice value.
func readSlice(st *State, s VSlice, i Lin, width int) []readAlt {
	if s.arr < 0 {
		return nil
	}
	var out []readAlt
	for _, a := range st.read(st.obj(s.arr).c, s.off.add(i), width) {
		if a.st.feasible() {
			out = append(out, a)
		}
	}
	return out
}

func readSnap(st *State, s *Snap, i Lin, width int) []readAlt {
	var out []readAlt
	for _, a := range st.read(s.c, s.off.add(i), width) {
		if a.st.feasible() {
			out = append(out, a)
		}
	}
	return out
}

// sliceSnap fixes the current content of a slice.
func sliceSnap(st *State, s VSlice) *Snap {
	if s.arr < 0 {
		return &Snap{zeroContent, zeroL, zeroL}
	}
	return &Snap{st.obj(s.arr).c, s.off, s.len}
}

// elemIs: element i of the content is want.
func elemIs(st *State, s *Snap, i Lin, width int, want Lin) (bool, string) {
	as := readSnap(st.clone(), s, i, width)
	for _, a := range as {
		if !provEq(a.st, a.val, want) {
			return false, fmt.Sprintf("is %s, expected %s", a.val, want)
		}
	}
	return true, ""
}

// allElems: for every i in [0,n), element from+i is want(i).
func allElems(st *State, s *Snap, from, n Lin, width int, want func(st *State, i Lin) []readAlt) (bool, string) {
	s2 := st.clone()
	i := symL(freshSym("i", 0, 1<<40))
	s2.assume(lt(i, n))
	if !s2.feasible() {
		return true, ""
	}
	for _, w := range want(s2, i) {
		if !w.st.feasible() {
			continue
		}
		for _, a := range readSnap(w.st.clone(), s, from.add(i), width) {
			if !provEq(a.st, a.val, w.val) {
				return false, fmt.Sprintf("element %s is %s, expected %s", from.add(i), a.val, w.val)
			}
		}
	}
	return true, ""
}

func fromSnap(s *Snap, width int) func(*State, Lin) []readAlt {
	return func(st *State, i Lin) []readAlt { return readSnap(st, s, i, width) }
}

// impossible: the state cannot satisfy all the atoms.
func impossible(st *State, as []Atom) bool {
	s := st.clone()
	for _, a := range as {
		s.assume(a)
	}
	return !s.feasible()
}

// isNilIface: the value is surely nil, surely not nil.
func nilness(st *State, v Value) (isNil, notNil bool) {
	var l Lin
	switch x := v.(type) {
	case VIface:
		l = x.nil_
	case VPtr:
		l = x.nil_
	case VSlice:
		l = x.nil_
	case VFunc:
		l = x.nil_
	case VRef:
		l = x.nil_
	default:
		return false, false
	}
	return st.entails(eq(l, oneL)), st.entails(eq(l, zeroL))
}

// splitNil splits a state on whether a value is nil.
func splitNil(st *State, v Value) (isNil, notNil *State) {
	var l Lin
	switch x := v.(type) {
	case VIface:
		l = x.nil_
	case VPtr:
		l = x.nil_
	case VSlice:
		l = x.nil_
	case VFunc:
		l = x.nil_
	case VRef:
		l = x.nil_
	}
	y, n := st.fork(eq(l, oneL))
	if y != nil && !y.feasible() {
		y = nil
	}
	if n != nil && !n.feasible() {
		n = nil
	}
	return y, n
}

// eventsOf returns the events of the given kinds.
func eventsOf(st *State, kinds ...string) []*Event {
	var out []*Event
	for _, e := range st.events() {
		for _, k := range kinds {
			if e.kind == k {
				out = append(out, e)
			}
		}
	}
	return out
}

// fieldPath finds the path of a field (through embedded structs) of a struct type.
func fieldPath(t types.Type, name string) (string, types.Type, bool) {
	obj, idx, _ := types.LookupFieldOrMethod(t, true, theTypesPkg, name)
	v, ok := obj.(*types.Var)
	if !ok {
		return "", nil, false
	}
	path := ""
	cur := t
	for _, i := range idx {
		s := structOf(cur)
		if s == nil {
			return "", nil, false // through a pointer
		}
		path += "." + strconv.Itoa(i)
		cur = s.Field(i).Type()
	}
	return path, v.Type(), true
}

var theTypesPkg *types.Package

// sliceOf makes a slice of non-integer elements.
func sliceOf(st *State, el types.Type, vs ...Value) VSlice {
	o := st.newObj(kArray, el, "args")
	for i, v := range vs {
		o.cells[fmt.Sprintf("[%d]", i)] = v
	}
	n := con(int64(len(vs)))
	o.n = n
	return VSlice{arr: o.id, len: n, cap: n}
}

// inputSlice is a caller's slice with unknown content, length at most max.
func inputSlice(in *Interp, st *State, el types.Type, name string, max int64) (VSlice, Lin) {
	v := in.unknown(st, types.NewSlice(el), name).(VSlice)
	if max > 0 {
		st.assume(le(v.len, con(max)))
	}
	return v, v.len
}

// ---- running ----------------------------------------------------------------

type checkDef struct {
	id   string
	rule string // what is decided and how, one paragraph
	run  func(*Ctx)
}

var checks = map[string]*checkDef{}

func register(id, rule string, run func(*Ctx)) { checks[id] = &checkDef{id, rule, run} }

func cli(args []string) int {
	if len(args) < 1 {
		fmt.Println("usage: mbcheck <property> [repo] [verif-dir]")
		return 2
	}
	repo, out := "/repo", "/verif"
	if len(args) > 1 {
		repo = args[1]
	}
	if len(args) > 2 {
		out = args[2]
	}
	ids := []string{args[0]}
	if args[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		if r := runCheck(id, repo, out); r > rc {
			rc = r
		}
	}
	return rc
}

func runCheck(id, repo, out string) int {
	def := checks[id]
	if def == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := attempt(id, repo, tier, 0, time.Time{})
	if spent := time.Since(t0); len(c.viol) > 0 && c.p != nil && spent < 240*time.Second {
		// what one way to summarise loops leaves open, another may decide
		if d := attempt(id, repo, tier, 1, time.Now().Add(60*time.Second+2*spent)); len(d.viol) == 0 {
			d.notes = append(d.notes, "decided with loops left to end within their last iteration")
			c = d
		}
	}
	return c.report(t0, repo, out)
}

// attempt runs a check with one of the ways to summarise loops.
func attempt(id, repo, tier string, strategy int, deadline time.Time) *Ctx {
	c := &Ctx{id: id, tier: tier, strategy: strategy, deadline: deadline, vseen: map[string]bool{}, rules: map[string]*ruleStat{}, funcs: map[string]bool{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(abortErr); ok {
					c.ob("decided", "analysis", false, nil, nil, 0, "", "the property could not be decided: %s", a.msg)
					return
				}
				c.ob("decided", "analysis", false, nil, nil, 0, "", "the property could not be decided: internal error %v\n%s", r, debug.Stack())
			}
		}()
		p, err := load(repo)
		if err != nil {
			stop("%v", err)
		}
		c.p = p
		theTypesPkg = p.tp
		checks[id].run(c)
	}()
	return c
}

func (c *Ctx) report(t0 time.Time, repo, out string) int {
	id, tier, def := c.id, c.tier, checks[c.id]
	obl, dis := 0, 0
	var rules []map[string]interface{}
	for _, k := range c.order {
		r := c.rules[k]
		obl += r.Obligations
		dis += r.Discharged
		var cs []string
		for x := range r.Constructs {
			cs = append(cs, x)
		}
		sort.Strings(cs)
		if len(cs) > 40 {
			cs = append(cs[:40], fmt.Sprintf("... %d more", len(cs)-40))
		}
		rules = append(rules, map[string]interface{}{"rule": r.Rule, "obligations": r.Obligations, "discharged": r.Discharged, "constructs": cs})
	}
	st := map[string]int{}
	funcs, unm, imp := map[string]bool{}, map[string]bool{}, map[string]int{}
	for f := range c.funcs {
		funcs[f] = true
	}
	for _, in := range c.ins {
		st["abstract_states"] += in.stats.states
		st["instructions"] += in.stats.steps
		st["calls"] += in.stats.calls
		st["branches_split"] += in.stats.paths
		st["loops"] += in.stats.loops
		st["runtime_checks"] += in.stats.obligations
		st["runtime_checks_discharged"] += in.stats.discharged
		for f := range in.stats.funcs {
			funcs[f] = true
		}
		for f := range in.stats.unmodelled {
			if !strings.HasSuffix(f, ".init") {
				unm[f] = true
			}
		}
		for k, v := range in.stats.imprecise {
			imp[k] += v
		}
	}
	var files []string
	if c.p != nil {
		files = c.p.files
	}
	cov := map[string]interface{}{
		"explanation":              def.rule,
		"rules":                    rules,
		"obligations_total":        obl,
		"obligations_met":          dis,
		"paths_to_exit":            c.paths,
		"functions_analysed":       sortedKeys(funcs),
		"files_loaded":             files,
		"analysis":                 st,
		"calls_treated_as_unknown": sortedKeys(unm),
		"notes":                    c.notes,
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": assumptions, "wall_s": float64(int(time.Since(t0).Seconds()*1000)) / 1000, "violations": len(c.viol),
	}
	writeJSON(filepath.Join(out, "evidence", id+".json"), ev)
	fmt.Printf("%s: %d obligations, %d met, %d paths, %d functions, %.2fs\n", id, obl, dis, c.paths, len(funcs), time.Since(t0).Seconds())
	if len(c.viol) == 0 {
		return 0
	}
	rp := filepath.Join(out, "replay", id+".json")
	writeJSON(rp, map[string]interface{}{"property": id, "repo": repo, "violations": c.viol,
		"how": "static finding: each entry names the rule, the construct, the place, the path through the call graph and the path condition; re-run the check to reproduce"})
	for i, v := range c.viol {
		if i >= 12 {
			fmt.Printf("  ... %d more\n", len(c.viol)-i)
			break
		}
		fmt.Printf("  [%s] %s at %s: %s", v.Rule, v.Construct, v.Where, v.Message)
		if v.Path != "" {
			fmt.Printf(" (path %s)", v.Path)
		}
		fmt.Println()
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func writeJSON(path string, v interface{}) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

var assumptions = []string{
	"the models of the standard library and goburrow/serial functions in intrin.go (contracts of io, net, sync, context, time, encoding/binary, bytes, hex)",
	"64-bit int; slices shorter than 2^40 elements",
	"golang.org/x/tools/go/packages and go/ssa build the same program as the compiler",
	"configuration setters are called before a server is started or a client is used, as their documentation says",
}
