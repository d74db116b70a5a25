package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Dec struct {
	K byte // 'b' branch, 'c' choose, 'v' value, 'n' not-value
	V int64
	F bool // forced (no constraint needed)
}

type Input struct {
	Name string
	Kind string // bytes, int, bool, choose
	T    []*Term
	C    int64
}

type Obs struct {
	Label string
	V     Value
	T     types.Type
}

type Path struct {
	tokens int
	eng    *Engine
	w      *Worker
	pool   *TermPool
	solver *Solver

	prefix []Dec
	trace  []Dec
	pc     []*Term
	pcSet  map[int]bool
	inputs []*Input
	names  map[string]int
	covers []string
	obs    []Obs

	globals    map[*ssa.Global]*Value
	top        *frame
	deferFrame *frame
	steps      int
	gs         []*G
	mainG      *G
	cur        *G
	gpanic     interface{}

	baseInit bool
	basePkg  *ssa.Package

	nfresh     int
	unknown    bool
	noted      bool
	maxPerm    int
	abortStack string
	useNumber  types.Type       // json.Decoder.UseNumber in force
	numText    map[int][]Value  // Int term -> its canonical decimal text
	textNum    map[string]*Term // the reverse of numText for expanded numbers
	host       map[string]interface{}
	asserts    int
}

func (p *Path) noteModel(n string) {
	if p.w != nil {
		p.w.models[n]++
	}
}
func (p *Path) noteFn(i *fnInfo) {
	if p.w != nil {
		p.w.fns[i.name]++
	}
}

func (p *Path) addPC(t *Term) {
	if t.IsConst() {
		if !t.B {
			panic(pathEnd{"infeasible"})
		}
		return
	}
	if p.pcSet[t.ID] {
		return
	}
	p.pcSet[t.ID] = true
	p.pc = append(p.pc, t)
}

func (p *Path) quick(c *Term) (bool, bool) {
	if c.IsConst() {
		return c.B, true
	}
	if p.pcSet[c.ID] {
		return true, true
	}
	if n := p.pool.Not(c); p.pcSet[n.ID] {
		return false, true
	}
	return false, false
}

func (p *Path) next() (Dec, bool) {
	if len(p.trace) < len(p.prefix) {
		d := p.prefix[len(p.trace)]
		p.trace = append(p.trace, d)
		return d, true
	}
	return Dec{}, false
}

func (p *Path) fork(alt Dec) {
	pre := make([]Dec, len(p.trace)+1)
	copy(pre, p.trace)
	pre[len(p.trace)] = alt
	p.w.push(pre)
}

// cond decides a boolean, forking when both outcomes are feasible.
func (p *Path) cond(v Value) bool {
	switch b := v.(type) {
	case bool:
		return b
	case *Term:
		return p.decide(b)
	}
	unsup("cond %T", v)
	return false
}

func (p *Path) decide(c *Term) bool {
	if r, ok := p.quick(c); ok {
		return r
	}
	if p.w == nil {
		unsup("symbolic branch during package initialisation")
	}
	if d, ok := p.next(); ok {
		if d.K != 'b' {
			panic("internal: decision kind mismatch (nondeterministic harness)")
		}
		if !d.F {
			if d.V == 1 {
				p.addPC(c)
			} else {
				p.addPC(p.pool.Not(c))
			}
		}
		return d.V == 1
	}
	p.w.checkTime()
	rt := p.check(c)
	if rt == "unsat" {
		p.trace = append(p.trace, Dec{'b', 0, true})
		return false
	}
	rf := p.check(p.pool.Not(c))
	if rf == "unsat" {
		p.trace = append(p.trace, Dec{'b', 1, true})
		return true
	}
	p.w.branches++
	p.profileFork()
	p.fork(Dec{'b', 0, false})
	p.trace = append(p.trace, Dec{'b', 1, false})
	p.addPC(c)
	return true
}

func (p *Path) profileFork() {
	if !p.eng.profile || p.top == nil {
		return
	}
	n := p.top.fn.String()
	if p.top.caller != nil {
		n += " < " + p.top.caller.fn.String()
		if p.top.caller.caller != nil {
			n += " < " + p.top.caller.caller.fn.String()
		}
	}
	p.w.forks[n]++
}

func (p *Path) check(extra *Term) string {
	r := p.solver.Check(p.pc, extra)
	if r == "unknown" {
		p.unknown = true
	}
	return r
}

func (p *Path) entails(c *Term) bool {
	if r, ok := p.quick(c); ok {
		return r
	}
	return p.check(p.pool.Not(c)) == "unsat"
}

// choose picks one of n alternatives, exploring all of them.
func (p *Path) choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := p.next(); ok {
		if d.K != 'c' {
			panic("internal: decision kind mismatch at " + label)
		}
		return int(d.V)
	}
	p.w.checkTime()
	p.w.branches++
	for k := n - 1; k >= 1; k-- {
		p.fork(Dec{'c', int64(k), false})
	}
	p.trace = append(p.trace, Dec{'c', 0, false})
	return 0
}

// concretize splits on the value of a term (all feasible values are explored).
func (p *Path) concretize(t *Term) Value {
	if t.IsConst() {
		if t.S.K == KInt {
			return t.Z.Int64()
		}
		return int64(t.U)
	}
	mkc := func(v int64) *Term {
		if t.S.K == KInt {
			return p.pool.Int64(v)
		}
		return p.pool.BV(uint64(v), t.S.W)
	}
	for n := 0; ; n++ {
		if d, ok := p.next(); ok {
			e := p.pool.Eq(t, mkc(d.V))
			switch d.K {
			case 'v':
				p.addPC(e)
				return d.V
			case 'n':
				p.addPC(p.pool.Not(e))
				continue
			}
			panic("internal: decision kind mismatch in concretize")
		}
		p.w.checkTime()
		if n > 300 {
			unsup("too many values to split on")
		}
		r, vals := p.solver.Model(p.pc, nil, []*Term{t})
		if r == "unsat" {
			panic(pathEnd{"infeasible"})
		}
		if r != "sat" {
			unsup("solver gave no value")
		}
		var v int64
		if t.S.K == KInt {
			if !vals[0].Z.IsInt64() {
				unsup("value out of range")
			}
			v = vals[0].Z.Int64()
		} else {
			v = int64(vals[0].U)
		}
		e := p.pool.Eq(t, mkc(v))
		if p.check(p.pool.Not(e)) != "unsat" {
			p.w.branches++
			p.profileFork()
			p.fork(Dec{'n', v, false})
		}
		p.trace = append(p.trace, Dec{'v', v, false})
		p.addPC(e)
		return v
	}
}

func (p *Path) fresh(base string, s Sort) *Term {
	p.nfresh++
	return p.pool.Var(fmt.Sprintf("%s!%d", base, p.nfresh), s)
}

func (p *Path) inputName(n string) string {
	k := p.names[n]
	p.names[n] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (p *Path) newBytes(name string, n int) []Value { return p.newBytesOf(name, n, "") }

// newBytesOf makes byte variables of a kind; what is known of a kind is noted on the terms,
// which paths share.
func (p *Path) newBytesOf(name string, n int, kind string) []Value {
	name = p.inputName(name)
	in := &Input{Name: name, Kind: "bytes"}
	o := make([]Value, n)
	for i := range o {
		t := p.pool.Var(fmt.Sprintf("%s%s[%d]", name, kind, i), SBV(8))
		in.T = append(in.T, t)
		o[i] = t
	}
	p.inputs = append(p.inputs, in)
	return o
}

func (p *Path) newInt(name string, lo, hi int64) Value {
	name = p.inputName(name)
	if lo == hi {
		p.inputs = append(p.inputs, &Input{Name: name, Kind: "choose", C: lo})
		return lo
	}
	t := p.pool.IntVar(fmt.Sprintf("%s:%d..%d", name, lo, hi), big.NewInt(lo), big.NewInt(hi))
	p.addPC(p.pool.mk(&Term{Op: "<=", S: SBool, A: []*Term{p.pool.Int64(lo), t}}))
	p.addPC(p.pool.mk(&Term{Op: "<=", S: SBool, A: []*Term{t, p.pool.Int64(hi)}}))
	p.inputs = append(p.inputs, &Input{Name: name, Kind: "int", T: []*Term{t}})
	return t
}

func (p *Path) newBool(name string) Value {
	name = p.inputName(name)
	t := p.pool.Var(name, SBool)
	p.inputs = append(p.inputs, &Input{Name: name, Kind: "bool", T: []*Term{t}})
	return t
}

func (p *Path) newChoose(name string, n int) Value {
	name = p.inputName(name)
	k := p.choose(name, n)
	p.inputs = append(p.inputs, &Input{Name: name, Kind: "choose", C: int64(k)})
	return int64(k)
}

func (p *Path) inputTerms() []*Term {
	var ts []*Term
	for _, in := range p.inputs {
		ts = append(ts, in.T...)
	}
	return ts
}

// inputsJSON renders a model of the inputs for the native replay.
func (p *Path) inputsJSON(vals []*Term) map[string]interface{} {
	m := map[string]interface{}{}
	k := 0
	for _, in := range p.inputs {
		switch in.Kind {
		case "bytes":
			b := make([]byte, len(in.T))
			for i := range in.T {
				b[i] = byte(vals[k].U)
				k++
			}
			m[in.Name] = hex.EncodeToString(b)
		case "int":
			m[in.Name] = vals[k].Z.Int64()
			k++
		case "bool":
			if vals[k].B {
				m[in.Name] = int64(1)
			} else {
				m[in.Name] = int64(0)
			}
			k++
		case "choose":
			m[in.Name] = in.C
		}
	}
	return m
}

type Candidate struct {
	Harness string                 `json:"harness"`
	Label   string                 `json:"label"`
	Inputs  map[string]interface{} `json:"inputs"`
	Msg     string                 `json:"msg,omitempty"`
	Covers  []string               `json:"covers,omitempty"`
	Obs     map[string]string      `json:"observations,omitempty"`
	Probe   bool                   `json:"-"`
	Hang    bool                   `json:"hang,omitempty"` // the path goes on beyond the bound on steps
	Shape   string                 `json:"-"` // the choices made
}

func (p *Path) assert(c *Term, label string) {
	p.w.asserts[label]++
	p.asserts++
	if c.IsConst() && c.B {
		p.w.trivial++
		return
	}
	if v, ok := p.quick(c); ok && v {
		p.w.trivial++
		return
	}
	// decided on an earlier run of this prefix?
	if len(p.trace) < len(p.prefix) {
		p.addPC(c)
		return
	}
	p.w.checkTime()
	nc := p.pool.Not(c)
	r, vals := p.solver.Model(p.pc, nc, p.inputTerms())
	switch r {
	case "unsat":
		p.w.proved++
		return
	case "sat":
		p.w.candidate(&Candidate{Harness: p.w.harness, Label: label, Inputs: p.inputsJSON(vals), Shape: p.shape()})
		if c.IsConst() || p.check(c) == "unsat" {
			panic(pathEnd{"assertion always fails here"})
		}
		p.addPC(c)
	default:
		p.w.inconclusive("solver unknown at assertion " + label)
		p.addPC(c)
	}
}

func (p *Path) assume(c *Term) {
	if v, ok := p.quick(c); ok {
		if !v {
			panic(pathEnd{"assume"})
		}
		return
	}
	if len(p.trace) >= len(p.prefix) {
		if p.check(c) == "unsat" {
			panic(pathEnd{"assume"})
		}
	}
	p.addPC(c)
}

func (p *Path) global(g *ssa.Global) Value {
	if v, ok := p.globals[g]; ok {
		return v
	}
	path := g.Pkg.Pkg.Path()
	if f, ok := p.eng.globalInit[path+"."+g.Name()]; ok && !p.baseInit {
		v := new(Value)
		p.globals[g] = v
		*v = p.call(f, nil, nil)
		return v
	}
	if p.eng.isStd(path) {
		if p.baseInit {
			p.eng.baseInitPkg(g.Pkg)
			return p.eng.slot(g)
		}
		return p.eng.baseGlobal(g)
	}
	v := new(Value)
	*v = zero(deref(g.Type()))
	p.globals[g] = v
	return v
}

// runHarness executes one path.
func (w *Worker) runPath(harness *ssa.Function, prefix []Dec) {
	p := &Path{eng: w.eng, w: w, pool: w.pool, solver: w.solver, prefix: prefix,
		pcSet: map[int]bool{}, names: map[string]int{}, globals: map[*ssa.Global]*Value{},
		numText: map[int][]Value{}, host: map[string]interface{}{}}
	p.mainG = &G{resume: make(chan struct{})}
	p.cur = p.mainG
	w.paths++
	defer func() {
		r := recover()
		p.killAll()
		w.instrs += int64(p.steps)
		if p.steps > w.maxSteps {
			w.maxSteps = p.steps
		}
		switch x := r.(type) {
		case nil:
			w.completed++
		case pathEnd:
			if x.why == "time" {
				// to be continued
				pre := p.trace
				if len(pre) < len(p.prefix) {
					pre = p.prefix
				}
				w.push(append([]Dec(nil), pre...))
				return
			}
			w.ended[x.why]++
			if x.why == "infeasible" || x.why == "assume" {
				return
			}
		case unsupported:
			w.inconclusive(string(x) + stackTail(p.abortStack))
			w.probe(p, string(x) == stepBound)
			return
		case exitPanic:
			// os.Exit outside sym.Catch: treat as the end of the program
			w.ended["exit"]++
		case targetPanic:
			// uncaught panic of the program
			msg := p.panicMsg(x.v)
			res, vals := p.solver.Model(p.pc, nil, p.inputTerms())
			if res == "sat" {
				w.candidate(&Candidate{Harness: w.harness, Label: "panic", Inputs: p.inputsJSON(vals), Msg: msg, Shape: p.shape()})
			} else {
				w.inconclusive("panic path without model: " + msg)
			}
		default:
			if os.Getenv("VERIF_TRACE") != "" {
				panic(r)
			}
			w.inconclusive(fmt.Sprintf("internal: %v", r))
			w.probe(p, false)
			return
		}
		if p.unknown {
			w.unknownPaths++
		}
		for _, c := range p.covers {
			w.covers[c]++
		}
		w.sample(p)
	}()
	p.call(harness.Pkg.Func("init"), nil, nil)
	p.call(harness, nil, nil)
}

func stackTail(s string) string {
	if len(s) > 500 {
		s = s[:500]
	}
	if s == "" {
		return ""
	}
	return " @ " + s
}

func (p *Path) panicMsg(v Value) string {
	if i, ok := v.(Iface); ok {
		if s, ok := i.V.(string); ok {
			return s
		}
		if i.T != nil {
			return "value of type " + i.T.String()
		}
	}
	return fmt.Sprint(v)
}

// probe completes a path the encoding cannot finish by a native run on one assignment of the
// solver for the part that was encoded. It can only add violations, never coverage.
// A path beyond the bound on steps that does not end natively either has no end.
func (w *Worker) probe(p *Path, hang bool) {
	if w.probes >= 6 {
		return
	}
	w.probes++
	r, vals := p.solver.Model(p.pc, nil, p.inputTerms())
	if r == "sat" {
		w.candidate(&Candidate{Harness: w.harness, Label: "path beyond the encoding", Inputs: p.inputsJSON(vals), Probe: true, Hang: hang})
	}
}

// ---- observations for the differential validation of the encoding ----

func (w *Worker) sample(p *Path) {
	if len(w.samples) >= w.eng.samplePerWorker {
		// keep a spread: replace pseudo-randomly but deterministically
		if w.completed%7 != 0 {
			return
		}
	}
	var obsT []*Term
	type pend struct {
		label string
		ev    func(vals []*Term) (string, bool)
	}
	ts := p.inputTerms()
	n0 := len(ts)
	var pends []pend
	for _, o := range p.obs {
		ev := p.obsEval(o.V, o.T, &obsT)
		pends = append(pends, pend{o.Label, ev})
	}
	ts = append(ts, obsT...)
	r, vals := p.solver.Model(p.pc, nil, ts)
	if r != "sat" {
		return
	}
	if len(ts) == 0 {
		vals = nil
	}
	c := &Candidate{Harness: w.harness, Label: "sample", Inputs: p.inputsJSON(vals), Covers: append([]string(nil), p.covers...), Obs: map[string]string{}}
	sort.Strings(c.Covers)
	for i, q := range pends {
		if s, ok := q.ev(vals[n0:]); ok {
			c.Obs[fmt.Sprintf("%d:%s", i, q.label)] = s
		}
	}
	if len(w.samples) < w.eng.samplePerWorker {
		w.samples = append(w.samples, c)
	} else {
		w.samples[w.completed/7%len(w.samples)] = c
	}
}

func hasUF(t *Term, seen map[int]bool) bool {
	if seen[t.ID] {
		return false
	}
	seen[t.ID] = true
	if t.Op == "uf" && t.Name != "b64enc" && t.Name != "b64dec" {
		return true
	}
	if t.Op == "var" && strings.Contains(t.Name, "!") {
		return true
	}
	for _, a := range t.A {
		if hasUF(a, seen) {
			return true
		}
	}
	return false
}

// obsEval returns a closure computing the text of a value under a model; observations that
// depend on uninterpreted functions are not comparable and are skipped.
func (p *Path) obsEval(v Value, t types.Type, ts *[]*Term) func([]*Term) (string, bool) {
	skip := func([]*Term) (string, bool) { return "", false }
	one := func(x *Term) (int, bool) {
		if hasUF(x, map[int]bool{}) || x.S.K == KReal || x.S.K == KBV && x.S.W > 64 {
			return 0, false
		}
		*ts = append(*ts, x)
		return len(*ts) - 1, true
	}
	switch x := v.(type) {
	case bool:
		return func([]*Term) (string, bool) { return fmt.Sprint(x), true }
	case int64:
		return func([]*Term) (string, bool) { return fmt.Sprint(x), true }
	case string:
		return func([]*Term) (string, bool) { return fmt.Sprintf("%q", x), true }
	case *Term:
		k, ok := one(x)
		if !ok {
			return skip
		}
		return func(vs []*Term) (string, bool) {
			c := vs[k]
			switch c.S.K {
			case KBool:
				return fmt.Sprint(c.B), true
			case KInt:
				return c.Z.String(), true
			}
			w, s, _ := intInfo(t)
			return fmt.Sprint(norm(int64(c.U), w, s)), true
		}
	case *SymStr:
		return p.obsBytes(x.E, one)
	case []Value:
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if b := basic(sl.Elem()); b != nil && b.Kind() == types.Uint8 {
				return p.obsBytes(x, one)
			}
		}
		if len(x) == 0 {
			return func([]*Term) (string, bool) { return "[]", true }
		}
	}
	return skip
}

func (p *Path) obsBytes(e []Value, one func(*Term) (int, bool)) func([]*Term) (string, bool) {
	idx := make([]int, len(e))
	for i, b := range e {
		switch b := b.(type) {
		case int64:
			idx[i] = -int(b) - 1
		case *Term:
			k, ok := one(b)
			if !ok {
				return func([]*Term) (string, bool) { return "", false }
			}
			idx[i] = k
		default:
			return func([]*Term) (string, bool) { return "", false }
		}
	}
	return func(vs []*Term) (string, bool) {
		b := make([]byte, len(idx))
		for i, k := range idx {
			if k < 0 {
				b[i] = byte(-k - 1)
			} else if vs[k].S.K == KInt {
				b[i] = byte(vs[k].Z.Int64())
			} else {
				b[i] = byte(vs[k].U)
			}
		}
		return fmt.Sprintf("%q", string(b)), true
	}
}

var _ = json.Marshal

// shape is the sequence of choices of the path.
func (p *Path) shape() string {
	var b []byte
	for _, d := range p.trace {
		if d.K == 'c' {
			b = append(b, fmt.Sprint(d.V, ",")...)
		}
	}
	return string(b)
}
