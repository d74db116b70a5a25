package main

// Symbolic interpreter for go/ssa.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	fn     *ssa.Function
	tab    []slot // open addressing, by the address of the SSA value
	mask   uintptr
	n      int     // registers
	consts []Value // slots n, n+1, ...
	intr   func(p *Path, fn *ssa.Function, args []Value) Value
	redir  *ssa.Function
	repo   bool
	name   string
}

type slot struct {
	ptr uintptr
	i   int
}

func ptrOf(v ssa.Value) uintptr { return (*[2]uintptr)(unsafe.Pointer(&v))[1] }

// lookup gives the slot of a value or -1. SSA values stay reachable and do not move.
func (inf *fnInfo) lookup(v ssa.Value) int {
	p := ptrOf(v)
	for h := (p >> 4) * 0x9E3779B97F4A7C15 >> 20; ; h++ {
		s := &inf.tab[h&inf.mask]
		if s.ptr == p {
			return s.i
		}
		if s.ptr == 0 {
			return -1
		}
	}
}

func (inf *fnInfo) fill(vals []ssa.Value) {
	size := uintptr(4)
	for int(size) < 2*len(vals)+2 {
		size *= 2
	}
	inf.tab, inf.mask = make([]slot, size), size-1
	for i, v := range vals {
		p := ptrOf(v)
		h := (p >> 4) * 0x9E3779B97F4A7C15 >> 20
		for inf.tab[h&inf.mask].ptr != 0 {
			h++
		}
		inf.tab[h&inf.mask] = slot{p, i}
	}
}

type deferred struct {
	fn    *Closure
	args  []Value
	instr *ssa.Defer
	next  *deferred
}

type frame struct {
	p         *Path
	info      *fnInfo
	fn        *ssa.Function
	regs      []Value
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    Value
	panicking bool
	panicVal  interface{}
	caller    *frame
	depth     int
}

var buildMu sync.Mutex
var infoCache sync.Map // *ssa.Function -> *fnInfo

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if v, ok := infoCache.Load(fn); ok {
		return v.(*fnInfo)
	}
	buildMu.Lock()
	defer buildMu.Unlock()
	if v, ok := infoCache.Load(fn); ok {
		return v.(*fnInfo)
	}
	inf := e.mkInfo(fn, false)
	infoCache.Store(fn, inf)
	return inf
}

func (e *Engine) mkInfo(fn *ssa.Function, body bool) *fnInfo {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	inf := &fnInfo{fn: fn, name: name}
	if body {
		// interpret the body
	} else if f, ok := intrinsics[name]; ok {
		inf.intr = f
	} else if r, ok := e.redirects[name]; ok && r != fn {
		inf.redir = r
	}
	if inf.intr == nil && inf.redir == nil {
		if fn.Blocks == nil {
			pk := fn.Pkg
			if pk == nil && fn.Origin() != nil {
				pk = fn.Origin().Pkg
			}
			if pk == nil && fn.Parent() != nil {
				pk = fn.Parent().Pkg
			}
			if pk != nil {
				pk.Build()
			}
		}
		var vals []ssa.Value
		add := func(v ssa.Value) {
			vals = append(vals, v)
			inf.n++
		}
		for _, x := range fn.Params {
			add(x)
		}
		for _, x := range fn.FreeVars {
			add(x)
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if v, ok := i.(ssa.Value); ok {
					add(v)
				}
			}
		}
		seen := map[*ssa.Const]bool{}
		var ops []*ssa.Value
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				ops = i.Operands(ops[:0])
				for _, o := range ops {
					c, ok := (*o).(*ssa.Const)
					if !ok || seen[c] {
						continue
					}
					seen[c] = true
					if v, ok := plainConst(c); ok {
						vals = append(vals, c)
						inf.consts = append(inf.consts, v)
					}
				}
			}
		}
		inf.fill(vals)
	}
	if fn.Pkg != nil {
		inf.repo = isRepoPkg(fn.Pkg.Pkg.Path())
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		inf.repo = isRepoPkg(fn.Object().Pkg().Path())
	} else if pr := fn.Parent(); pr != nil && pr.Pkg != nil {
		inf.repo = isRepoPkg(pr.Pkg.Pkg.Path())
	}
	return inf
}

func isRepoPkg(path string) bool { return strings.HasPrefix(path, "github.com/mashmb/1pass") }

func (fr *frame) get(v ssa.Value) Value {
	if i := fr.info.lookup(v); i >= 0 {
		if i < len(fr.regs) {
			return fr.regs[i]
		}
		return fr.info.consts[i-len(fr.regs)]
	}
	switch v := v.(type) {
	case *ssa.Const:
		return constValue(v)
	case *ssa.Global:
		return fr.p.global(v)
	case *ssa.Function:
		return fr.p.eng.fnClosure(v)
	case *ssa.Builtin:
		return &Closure{Builtin: v}
	}
	unsup("no register for %v in %v", v, fr.fn)
	return nil
}

// plainConst is a constant that can be shared; it fails for those of modelled or composite types.
func plainConst(c *ssa.Const) (v Value, ok bool) {
	defer func() {
		if recover() != nil {
			v, ok = nil, false
		}
	}()
	v = constValue(c)
	switch v.(type) {
	case structure, array:
		return nil, false // fresh each time
	}
	return v, true
}

var fnClosures sync.Map

func (e *Engine) fnClosure(f *ssa.Function) *Closure {
	if v, ok := fnClosures.Load(f); ok {
		return v.(*Closure)
	}
	c := &Closure{Fn: f}
	v, _ := fnClosures.LoadOrStore(f, c)
	return v.(*Closure)
}

func (fr *frame) set(v ssa.Value, x Value) { fr.regs[fr.info.lookup(v)] = x }

func (p *Path) callClosure(c *Closure, args []Value) Value {
	if c == nil {
		p.rtPanic("invalid memory address or nil pointer dereference (nil func)")
	}
	if c.Host != nil {
		return c.Host(p, args)
	}
	if c.Builtin != nil {
		unsup("builtin as value %v", c.Builtin)
	}
	return p.call(c.Fn, args, c.Env)
}

func (p *Path) call(fn *ssa.Function, args []Value, env []Value) Value {
	inf := p.eng.info(fn)
	if inf.intr != nil {
		p.noteModel(inf.name)
		return inf.intr(p, fn, args)
	}
	if inf.redir != nil {
		p.noteModel(inf.name)
		return p.call(inf.redir, args, env)
	}
	return p.callInfo(inf, args, env)
}

func (p *Path) callInfo(inf *fnInfo, args []Value, env []Value) Value {
	fn := inf.fn
	if fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Synthetic != "" {
		// package initialiser
		if p.eng.isStd(fn.Pkg.Pkg.Path()) && !p.baseInit {
			return tuple{}
		}
		if p.baseInit && fn.Pkg != p.basePkg {
			return tuple{} // imported packages are initialised on demand
		}
	}
	if fn.Blocks == nil {
		unsup("no body: %s", inf.name)
	}
	if inf.repo {
		p.noteFn(inf)
	}
	fr := &frame{p: p, info: inf, fn: fn, caller: p.top}
	if p.top != nil {
		fr.depth = p.top.depth + 1
	}
	if fr.depth > 1200 {
		unsup("call depth bound reached in %s", inf.name)
	}
	fr.regs = make([]Value, inf.n)
	for i, prm := range fn.Params {
		_ = prm
		fr.regs[i] = args[i]
	}
	np := len(fn.Params)
	for i := range fn.FreeVars {
		fr.regs[np+i] = env[i]
	}
	fr.block = fn.Blocks[0]
	saved := p.top
	p.top = fr
	for fr.block != nil {
		fr.run()
	}
	p.top = saved
	return fr.result
}

func (fr *frame) run() {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			if r == nil {
				panic("internal: nil panic in interpreter")
			}
			switch r.(type) {
			case unsupported, pathEnd, exitPanic, killed:
			default:
				if !fr.p.noted {
					fr.p.noted = true
					if os.Getenv("VERIF_TRACE") != "" {
						fmt.Fprintln(os.Stderr, "internal panic in", fr.stack())
					}
				}
			}
			if _, isU := r.(unsupported); isU && !fr.p.noted {
				fr.p.noted = true
				fr.p.abortStack = fr.stack()
			}
			panic(r)
		}
		if os.Getenv("VERIF_TRACE") != "" && fr.p.top == fr {
			fmt.Fprintln(os.Stderr, "panic in", fr.stack())
		}
		fr.panicking = true
		fr.panicVal = tp.v
		fr.p.top = fr
		fr.runDefers()
		// recovered
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// no recover block: return zero results
			res := fr.fn.Signature.Results()
			switch res.Len() {
			case 0:
				fr.result = tuple{}
			case 1:
				fr.result = zero(res.At(0).Type())
			default:
				fr.result = zero(res)
			}
		}
	}()
	p := fr.p
	for {
		blk := fr.block
	instrs:
		for _, instr := range blk.Instrs {
			p.steps++
			if p.steps > p.eng.maxSteps {
				unsup(stepBound)
			}
			switch fr.exec(instr) {
			case kReturn:
				fr.block = nil
				return
			case kJump:
				break instrs
			}
		}
	}
}

func (fr *frame) stack() string {
	var sb strings.Builder
	for f := fr; f != nil; f = f.caller {
		pos := ""
		if f.block != nil {
			for _, i := range f.block.Instrs {
				if i.Pos().IsValid() {
					pos = f.p.eng.fset.Position(i.Pos()).String()
				}
			}
		}
		fmt.Fprintf(&sb, "%s (%s) <- ", f.fn, pos)
		if sb.Len() > 1500 {
			break
		}
	}
	return sb.String()
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(targetPanic{fr.panicVal})
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if tp, is := r.(targetPanic); is {
				fr.panicking = true
				fr.panicVal = tp.v
				fr.p.top = fr
				return
			}
			panic(r)
		}
	}()
	if d.fn.Builtin != nil {
		fr.builtin(d.fn.Builtin, d.args, &d.instr.Call)
	} else {
		fr.p.callDeferred(fr, d.fn, d.args)
	}
	ok = true
}

func (p *Path) callDeferred(fr *frame, c *Closure, args []Value) {
	saved := p.deferFrame
	p.deferFrame = fr
	p.callClosure(c, args)
	p.deferFrame = saved
}

type kont int

const (
	kNext kont = iota
	kReturn
	kJump
)

func (p *Path) load(ptr Value, t types.Type) Value {
	switch a := ptr.(type) {
	case *Value:
		if a == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		return copyVal(*a)
	case *SymPtr:
		return p.symLoad(a, t)
	case UnsafePtr:
		if a.v == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p.load(a.v, t)
	}
	unsup("load through %T", ptr)
	return nil
}

func (p *Path) symLoad(a *SymPtr, t types.Type) Value {
	n := len(a.arr)
	w, s, isInt := intInfo(t)
	if isInt {
		var r *Term
		for i := n - 1; i >= 0; i-- {
			if a.idx.S.K == KBV && a.idx.S.W == 8 && a.idx.Set != nil && (i > 255 || !setHas(a.idx.Set, i)) {
				continue
			}
			v := p.toBVorInt(a.arr[i], w, s)
			if r == nil {
				r = v
				continue
			}
			if v.S != r.S {
				unsup("mixed sorts in symbolic load")
			}
			r = p.pool.Ite(p.idxEq(a.idx, i), v, r)
		}
		if r.S.K == KBV {
			return p.fromBV(r, w, s)
		}
		return p.fromInt(r, s)
	}
	i := p.concretize(a.idx).(int64)
	return copyVal(a.arr[i])
}

func (p *Path) toBVorInt(v Value, w int, s bool) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	return p.toBV(v, w)
}

func (p *Path) idxEq(t *Term, i int) *Term {
	if t.S.K == KInt {
		return p.pool.Eq(t, p.pool.Int64(int64(i)))
	}
	if t.S.W < 63 && i >= 1<<uint(t.S.W) {
		return p.pool.tFals
	}
	return p.pool.Eq(t, p.pool.BV(uint64(i), t.S.W))
}

func (p *Path) store(ptr Value, v Value, t types.Type) {
	switch a := ptr.(type) {
	case *Value:
		if a == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		storeTo(a, v)
		return
	case *SymPtr:
		if w, s, ok := intInfo(t); ok {
			for i := range a.arr {
				nv := p.toBVorInt(v, w, s)
				ov := p.toBVorInt(a.arr[i], w, s)
				if nv.S != ov.S {
					unsup("mixed sorts in symbolic store")
				}
				r := p.pool.Ite(p.idxEq(a.idx, i), nv, ov)
				if r.S.K == KBV {
					a.arr[i] = p.fromBV(r, w, s)
				} else {
					a.arr[i] = p.fromInt(r, s)
				}
			}
			return
		}
		i := p.concretize(a.idx).(int64)
		storeTo(&a.arr[i], v)
		return
	case UnsafePtr:
		p.store(a.v, v, t)
		return
	}
	unsup("store through %T", ptr)
}

// boundsIdx checks 0 <= idx < n, forking on a panic, and returns the index.
func (p *Path) boundsIdx(idx Value, n int, it types.Type) Value {
	w, s, _ := intInfo(it)
	if i, ok := idx.(int64); ok {
		if i < 0 || i >= int64(n) || (!s && uint64(i) >= uint64(n)) {
			p.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return i
	}
	max := int64(1) << uint(w-1) // values of the index type that exist
	if !s && w < 63 {
		max <<= 1
	}
	in := p.pool.Bool(true)
	if w >= 63 || int64(n) < max {
		in = p.toBool(p.intCmp("<", idx, int64(n), w, s))
	}
	if s {
		in = p.pool.And(p.toBool(p.intCmp("<=", int64(0), idx, w, s)), in)
	}
	if !p.cond(p.fromBool(in)) {
		p.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return idx
}

func (fr *frame) exec(instr ssa.Instruction) kont {
	p := fr.p
	switch i := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(i, fr.unop(i))
	case *ssa.BinOp:
		fr.set(i, p.binop(i.Op, i.X.Type(), i.Y.Type(), fr.get(i.X), fr.get(i.Y)))
	case *ssa.Call:
		fn, args := fr.prepCall(&i.Call)
		fr.set(i, fr.doCall(fn, args, &i.Call))
	case *ssa.ChangeInterface:
		fr.set(i, fr.get(i.X))
	case *ssa.ChangeType:
		fr.set(i, fr.get(i.X))
	case *ssa.Convert:
		fr.set(i, p.conv(i.X.Type(), i.Type(), fr.get(i.X)))
	case *ssa.MultiConvert:
		fr.set(i, p.conv(i.X.Type(), i.Type(), fr.get(i.X)))
	case *ssa.SliceToArrayPointer:
		s := fr.get(i.X).([]Value)
		n := int(deref(i.Type()).Underlying().(*types.Array).Len())
		if len(s) < n {
			p.rtPanic("cannot convert slice to array pointer")
		}
		var v Value = array(s[:n:n])
		fr.set(i, &v)
	case *ssa.MakeInterface:
		fr.set(i, Iface{i.X.Type(), fr.get(i.X)})
	case *ssa.Extract:
		fr.set(i, fr.get(i.Tuple).(tuple)[i.Index])
	case *ssa.Slice:
		fr.set(i, fr.slice(i))
	case *ssa.Return:
		switch len(i.Results) {
		case 0:
			fr.result = tuple{}
		case 1:
			fr.result = fr.get(i.Results[0])
		default:
			t := make(tuple, len(i.Results))
			for k, r := range i.Results {
				t[k] = fr.get(r)
			}
			fr.result = t
		}
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		panic(targetPanic{fr.get(i.X)})
	case *ssa.Send:
		p.chanSend(fr.get(i.Chan).(*Chan), fr.get(i.X))
	case *ssa.Store:
		p.store(fr.get(i.Addr), fr.get(i.Val), i.Val.Type())
	case *ssa.If:
		c := 1
		if p.cond(fr.get(i.Cond)) {
			c = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[c]
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		return kJump
	case *ssa.Defer:
		fn, args := fr.prepCall(&i.Call)
		fr.defers = &deferred{fn: fn, args: args, next: fr.defers, instr: i}
	case *ssa.Go:
		fn, args := fr.prepCall(&i.Call)
		p.spawn(fn, args)
	case *ssa.MakeChan:
		n := fr.get(i.Size)
		c, ok := n.(int64)
		if !ok {
			c = p.concretize(n.(*Term)).(int64)
		}
		fr.set(i, &Chan{cap: int(c), elem: i.Type().Underlying().(*types.Chan).Elem()})
	case *ssa.Alloc:
		v := new(Value)
		*v = zero(deref(i.Type()))
		fr.set(i, v)
	case *ssa.MakeSlice:
		n := p.concInt(fr.get(i.Len), i.Len.Type())
		c := p.concInt(fr.get(i.Cap), i.Cap.Type())
		if n < 0 || n > 1<<24 {
			p.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			p.rtPanic("makeslice: cap out of range")
		}
		et := i.Type().Underlying().(*types.Slice).Elem()
		s := make([]Value, n, c)
		s = s[:c]
		switch et.Underlying().(type) {
		case *types.Struct, *types.Array:
			for k := range s {
				s[k] = zero(et)
			}
		default:
			z := zero(et)
			for k := range s {
				s[k] = z
			}
		}
		fr.set(i, s[:n])
	case *ssa.MakeMap:
		fr.set(i, newMap(i.Type().Underlying().(*types.Map).Key()))
	case *ssa.Range:
		fr.set(i, fr.rangeIter(i))
	case *ssa.Next:
		fr.set(i, fr.get(i.Iter).(iter).next(p))
	case *ssa.FieldAddr:
		fr.set(i, p.fieldAddr(fr.get(i.X), i.Field))
	case *ssa.Field:
		fr.set(i, fr.get(i.X).(structure)[i.Field])
	case *ssa.IndexAddr:
		fr.set(i, fr.indexAddr(i))
	case *ssa.Index:
		x := fr.get(i.X)
		idx := fr.get(i.Index)
		switch a := x.(type) {
		case array:
			idx = p.boundsIdx(idx, len(a), i.Index.Type())
			if k, ok := idx.(int64); ok {
				fr.set(i, a[k])
			} else {
				fr.set(i, p.symLoad(&SymPtr{[]Value(a), idx.(*Term)}, i.Type()))
			}
		default:
			fr.set(i, p.strIndex(x, idx, i.Index.Type()))
		}
	case *ssa.Lookup:
		fr.set(i, fr.lookup(i))
	case *ssa.MapUpdate:
		m := fr.get(i.Map).(*Map)
		p.mapSet(m, fr.get(i.Key), copyVal(fr.get(i.Value)))
	case *ssa.TypeAssert:
		fr.set(i, fr.typeAssert(i))
	case *ssa.MakeClosure:
		env := make([]Value, len(i.Bindings))
		for k, b := range i.Bindings {
			env[k] = fr.get(b)
		}
		fr.set(i, &Closure{Fn: i.Fn.(*ssa.Function), Env: env})
	case *ssa.Phi:
		// all phis of the block read the old values
		if fr.block.Instrs[0] != instr {
			return kNext // handled with the first
		}
		var vals []Value
		var phis []*ssa.Phi
		for _, x := range fr.block.Instrs {
			ph, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range fr.block.Preds {
				if pr == fr.prev {
					vals = append(vals, fr.get(ph.Edges[k]))
					break
				}
			}
			phis = append(phis, ph)
		}
		for k, ph := range phis {
			fr.set(ph, vals[k])
		}
	case *ssa.Select:
		fr.set(i, fr.selectStmt(i))
	default:
		unsup("instruction %T", instr)
	}
	return kNext
}

func (p *Path) concInt(v Value, t types.Type) int {
	switch x := v.(type) {
	case int64:
		return int(x)
	case *Term:
		w, s, _ := intInfo(t)
		_ = w
		c := p.concretize(x).(int64)
		if x.S.K == KBV {
			c = norm(c, x.S.W, s)
		}
		return int(c)
	}
	unsup("concInt")
	return 0
}

func (p *Path) fieldAddr(ptr Value, f int) Value {
	switch a := ptr.(type) {
	case *Value:
		if a == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*a).(structure)
		if !ok {
			unsup("field of %T", *a)
		}
		return &s[f]
	case UnsafePtr:
		return p.fieldAddr(a.v, f)
	case *SymPtr:
		i := p.concretize(a.idx).(int64)
		return p.fieldAddr(&a.arr[i], f)
	}
	unsup("fieldaddr of %T", ptr)
	return nil
}

func (fr *frame) indexAddr(i *ssa.IndexAddr) Value {
	p := fr.p
	x := fr.get(i.X)
	idx := fr.get(i.Index)
	var arr []Value
	switch a := x.(type) {
	case []Value:
		arr = a
	case *Value:
		if a == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr = []Value((*a).(array))
	default:
		unsup("indexaddr of %T", x)
	}
	if len(arr) > 0 && hasAtomFast(arr) {
		unsup("indexing opaque text")
	}
	idx = p.boundsIdx(idx, len(arr), i.Index.Type())
	if k, ok := idx.(int64); ok {
		return &arr[k]
	}
	return &SymPtr{arr, idx.(*Term)}
}

// hasAtomFast checks only small slices; atoms appear only in modelled text.
func hasAtomFast(e []Value) bool {
	if len(e) > 4096 || len(e) == 0 {
		return false
	}
	switch e[0].(type) {
	case int64, *Term, *Atom:
	default:
		return false // no text
	}
	for _, x := range e {
		if _, ok := x.(*Atom); ok {
			return true
		}
	}
	return false
}

func (p *Path) strIndex(x, idx Value, it types.Type) Value {
	if s, ok := x.(string); ok {
		if k, ok := idx.(int64); ok {
			if k < 0 || k >= int64(len(s)) {
				p.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, len(s)))
			}
			return int64(s[k])
		}
	}
	e := strElems(p.forceStr(x, true))
	idx = p.boundsIdx(idx, len(e), it)
	if k, ok := idx.(int64); ok {
		return e[k]
	}
	return p.symLoad(&SymPtr{e, idx.(*Term)}, types.Typ[types.Uint8])
}

func (fr *frame) lookup(i *ssa.Lookup) Value {
	p := fr.p
	x := fr.get(i.X)
	idx := fr.get(i.Index)
	switch m := x.(type) {
	case *Map:
		var v Value
		ok := false
		if e := p.mapFind(m, idx); e != nil {
			v = copyVal(e.v)
			ok = true
		} else {
			v = zero(i.X.Type().Underlying().(*types.Map).Elem())
		}
		if i.CommaOk {
			return tuple{v, ok}
		}
		return v
	}
	return p.strIndex(x, idx, i.Index.Type())
}

func (fr *frame) unop(i *ssa.UnOp) Value {
	p := fr.p
	x := fr.get(i.X)
	switch i.Op {
	case token.MUL:
		return p.load(x, i.Type())
	case token.NOT:
		return p.not(x)
	case token.SUB:
		return p.unNeg(i.Type(), x)
	case token.XOR:
		w, s, _ := intInfo(i.Type())
		return p.intBin(token.XOR, x, norm(-1, w, s), w, s)
	case token.ARROW:
		v, ok := p.chanRecv(x.(*Chan))
		if i.CommaOk {
			return tuple{v, ok}
		}
		return v
	}
	unsup("unop %v", i.Op)
	return nil
}

func (fr *frame) slice(i *ssa.Slice) Value {
	p := fr.p
	x := fr.get(i.X)
	var length, capa int
	var arr []Value
	isStr := false
	switch a := x.(type) {
	case string, *SymStr:
		isStr = true
		if st, ok := a.(*SymStr); ok {
			x = p.forceStr(st, false)
		}
		length = p.strLen(x)
		capa = length
	case []Value:
		if hasAtomFast(a) && (i.Low != nil || i.High != nil) {
			f := p.forceStr(&SymStr{a}, false)
			a = strElems(f)
			if hasAtom(a) {
				x = &SymStr{a}
				r := p.sliceAtoms(fr, i, a)
				return r
			}
		}
		arr = a
		length, capa = len(a), cap(a)
	case *Value:
		if a == nil {
			p.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr = []Value((*a).(array))
		length, capa = len(arr), len(arr)
	default:
		unsup("slice of %T", x)
	}
	bound := func(v ssa.Value, def int, max int) Value {
		if v == nil {
			return int64(def)
		}
		return fr.get(v)
	}
	lo, hi := bound(i.Low, 0, length), bound(i.High, length, capa)
	mx := bound(i.Max, capa, capa)
	L, ok1 := lo.(int64)
	H, ok2 := hi.(int64)
	M, ok3 := mx.(int64)
	top := capa
	if isStr {
		top = length
	}
	if !ok1 || !ok2 || !ok3 {
		// symbolic bounds: first decide whether they are in range, then split on the value
		ti := types.Typ[types.Int]
		w, s := 64, true
		if i.Low != nil {
			ti = basic(i.Low.Type())
			w, s, _ = intInfo(ti)
		} else if i.High != nil {
			w, s, _ = intInfo(i.High.Type())
		}
		c := p.pool.And(p.toBool(p.intCmp("<=", int64(0), lo, w, s)),
			p.toBool(p.intCmp("<=", lo, hi, w, s)),
			p.toBool(p.intCmp("<=", hi, mx, w, s)),
			p.toBool(p.intCmp("<=", mx, int64(top), w, s)))
		if !p.cond(p.fromBool(c)) {
			p.rtPanic("slice bounds out of range")
		}
		cv := func(v Value) int64 {
			if t, ok := v.(*Term); ok {
				return p.concretize(t).(int64)
			}
			return v.(int64)
		}
		L, H, M = cv(lo), cv(hi), cv(mx)
	}
	if isStr && M > int64(length) {
		M = int64(length)
	}
	if L < 0 || H < L || M < H || M > int64(top) {
		p.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", L, H, top))
	}
	if isStr {
		if s, ok := x.(string); ok {
			return s[L:H]
		}
		e := x.(*SymStr).E
		if hasAtom(e) {
			return mkStr(cutAtoms(e, int(L), int(H)))
		}
		return mkStr(e[L:H])
	}
	if arr == nil {
		return []Value(nil)
	}
	return arr[L:H:M]
}

// cutAtoms slices element lists containing fixed-length atoms; cuts through an atom are refused.
func cutAtoms(e []Value, lo, hi int) []Value {
	var o []Value
	pos := 0
	for _, x := range e {
		n := 1
		if a, ok := x.(*Atom); ok {
			n = a.Len
			if n < 0 {
				n = 1
			}
		}
		if pos >= lo && pos+n <= hi {
			o = append(o, x)
		} else if pos+n > lo && pos < hi {
			unsup("slicing through opaque text")
		}
		pos += n
	}
	return o
}

// sliceAtoms slices a byte slice holding opaque atoms (used by io copies).
func (p *Path) sliceAtoms(fr *frame, i *ssa.Slice, a []Value) Value {
	lo, hi := 0, len(a)
	if i.Low != nil {
		lo = p.concInt(fr.get(i.Low), i.Low.Type())
	}
	if i.High != nil {
		hi = p.concInt(fr.get(i.High), i.High.Type())
	}
	if lo < 0 || hi < lo || hi > cap(a) {
		p.rtPanic("slice bounds out of range")
	}
	return a[lo:hi]
}

type iter interface{ next(p *Path) Value }

type strIter struct {
	e []Value
	i int
}

func (it *strIter) next(p *Path) Value {
	if it.i >= len(it.e) {
		return tuple{false, int64(0), int64(0)}
	}
	k := it.i
	r, n := p.decodeRune(it.e[it.i:])
	it.i += n
	return tuple{true, int64(k), r}
}

type mapIter struct {
	m     *Map
	left  []*mapEntry
	perm  bool
	kt    types.Type
	et    types.Type
	twoWy bool
}

func (it *mapIter) next(p *Path) Value {
	for len(it.left) > 0 {
		k := 0
		if it.perm && len(it.left) > 1 {
			k = p.choose("maporder", len(it.left))
		}
		e := it.left[k]
		it.left = append(it.left[:k:k], it.left[k+1:]...)
		// skip entries deleted meanwhile
		live := false
		for _, x := range it.m.ents {
			if x == e {
				live = true
				break
			}
		}
		if live {
			return tuple{true, e.k, copyVal(e.v)}
		}
	}
	return tuple{false, zero(it.kt), zero(it.et)}
}

func (fr *frame) rangeIter(i *ssa.Range) Value {
	p := fr.p
	x := fr.get(i.X)
	switch m := x.(type) {
	case *Map:
		mt := i.X.Type().Underlying().(*types.Map)
		it := &mapIter{m: m, kt: mt.Key(), et: mt.Elem()}
		if m != nil {
			it.left = append(it.left, m.ents...)
			if fr.info.repo && p.maxPerm > 0 && len(it.left) <= p.maxPerm {
				it.perm = true
			} else if fr.info.repo && p.maxPerm > 0 && len(it.left) > 1 {
				if p.choose("maprev", 2) == 1 {
					for a, b := 0, len(it.left)-1; a < b; a, b = a+1, b-1 {
						it.left[a], it.left[b] = it.left[b], it.left[a]
					}
				}
			}
		}
		return it
	}
	return &strIter{e: strElems(p.forceStr(x, true))}
}

func (fr *frame) typeAssert(i *ssa.TypeAssert) Value {
	p := fr.p
	x := fr.get(i.X).(Iface)
	var ok bool
	var v Value
	if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		if x.T != nil && p.implements(x.T, it) {
			ok = true
			v = x
		}
	} else if x.T != nil && types.Identical(x.T, i.AssertedType) {
		ok = true
		v = copyVal(x.V)
	}
	if !ok {
		if !i.CommaOk {
			d := "nil"
			if x.T != nil {
				d = x.T.String()
			}
			p.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, i.AssertedType))
		}
		v = zero(i.AssertedType)
	}
	if i.CommaOk {
		return tuple{v, ok}
	}
	return v
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

var implCache sync.Map

func (p *Path) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	buildMu.Lock()
	r := types.Implements(t, it)
	buildMu.Unlock()
	implCache.Store(k, r)
	return r
}

type methKey struct {
	t types.Type
	m *types.Func
}

var methCache sync.Map

func (p *Path) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if v, ok := methCache.Load(k); ok {
		return v.(*ssa.Function)
	}
	buildMu.Lock()
	f := p.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
	buildMu.Unlock()
	if f == nil {
		unsup("no method %v on %v", m.Name(), t)
	}
	methCache.Store(k, f)
	return f
}

func (p *Path) methodByName(t types.Type, name string) *ssa.Function {
	buildMu.Lock()
	defer buildMu.Unlock()
	ms := p.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.eng.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (fr *frame) prepCall(c *ssa.CallCommon) (*Closure, []Value) {
	p := fr.p
	var args []Value
	var fn *Closure
	if c.IsInvoke() {
		x := fr.get(c.Value).(Iface)
		if x.T == nil {
			p.rtPanic("invalid memory address or nil pointer dereference (method on nil interface)")
		}
		fn = p.eng.fnClosure(p.findMethod(x.T, c.Method))
		args = append(args, copyVal(x.V))
	} else {
		v := fr.get(c.Value)
		var ok bool
		fn, ok = v.(*Closure)
		if !ok {
			unsup("call of %T", v)
		}
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fn, args
}

func (fr *frame) doCall(fn *Closure, args []Value, c *ssa.CallCommon) Value {
	if fn == nil {
		fr.p.rtPanic("invalid memory address or nil pointer dereference (nil func)")
	}
	if fn.Builtin != nil {
		return fr.builtin(fn.Builtin, args, c)
	}
	r := fr.p.callClosure(fn, args)
	if t, ok := r.(tuple); ok && len(t) == 0 {
		return nil
	}
	return r
}

func (fr *frame) builtin(b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	p := fr.p
	switch b.Name() {
	case "append":
		s := args[0].([]Value)
		if len(args) == 1 {
			return s
		}
		var add []Value
		switch y := args[1].(type) {
		case []Value:
			add = y
		case string, *SymStr:
			add = strElems(y)
		}
		if len(add) == 0 {
			return s
		}
		if len(s)+len(add) <= cap(s) {
			r := s[:len(s)+len(add)]
			// aggregates must be copied
			tmp := make([]Value, len(add))
			for i, x := range add {
				tmp[i] = copyVal(x)
			}
			copy(r[len(s):], tmp)
			return r
		}
		nc := cap(s) * 2
		if nc < len(s)+len(add) {
			nc = len(s) + len(add)
		}
		r := make([]Value, len(s), nc)
		copy(r, s)
		for _, x := range add {
			r = append(r, copyVal(x))
		}
		full := r[:nc]
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		for i := len(r); i < nc; i++ {
			full[i] = zero(et)
		}
		return r
	case "copy":
		d := args[0].([]Value)
		var s []Value
		switch y := args[1].(type) {
		case []Value:
			s = y
		default:
			s = strElems(y)
		}
		if hasAtomFast(s) {
			s = strElems(p.forceStr(&SymStr{s}, false))
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(s[i])
		}
		for i := 0; i < n; i++ {
			storeTo(&d[i], tmp[i])
		}
		return int64(n)
	case "len":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case *SymStr:
			return int64(p.strLen(x))
		case []Value:
			if hasAtomFast(x) {
				return int64(p.strLen(&SymStr{x}))
			}
			return int64(len(x))
		case array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(array)))
		case *Map:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.ents))
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return int64(cap(x))
		case array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(array)))
		case *Chan:
			return int64(x.cap)
		}
	case "delete":
		p.mapDel(args[0].(*Map), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				x.ents = nil
				x.idx = map[string]*mapEntry{}
			}
		case []Value:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				x[i] = zero(et)
			}
		}
		return nil
	case "close":
		ch := args[0].(*Chan)
		ch.closed = true
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// valid only in a deferred function called directly by a panicking frame
		cf := p.recoverFrame(fr)
		if cf != nil && cf.panicking {
			cf.panicking = false
			v := cf.panicVal
			cf.panicVal = nil
			if v == nil {
				return Iface{}
			}
			return v
		}
		return Iface{}
	case "min", "max":
		t := c.Args[0].Type()
		r := args[0]
		for _, a := range args[1:] {
			var lt Value
			if b.Name() == "min" {
				lt = p.binop(token.LSS, t, t, a, r)
			} else {
				lt = p.binop(token.GTR, t, t, a, r)
			}
			if p.cond(lt) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if v, ok := args[0].(*Value); ok && v == nil {
			p.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "SliceData":
		s := args[0].([]Value)
		return UnsafePtr{s}
	case "StringData":
		return UnsafePtr{args[0]}
	case "String":
		u, ok := args[0].(UnsafePtr)
		n := p.concInt(args[1], types.Typ[types.Int])
		if !ok {
			if n == 0 {
				return ""
			}
			unsup("unsafe.String")
		}
		switch x := u.v.(type) {
		case nil:
			return ""
		case []Value:
			return mkStr(x[:n])
		case string:
			return x[:n]
		case *SymStr:
			return mkStr(x.E[:n])
		}
	case "Slice":
		u, ok := args[0].(UnsafePtr)
		n := p.concInt(args[1], types.Typ[types.Int])
		if ok {
			switch x := u.v.(type) {
			case nil:
				return []Value(nil)
			case []Value:
				return x[:n]
			case string, *SymStr:
				return append([]Value(nil), strElems(x)[:n]...)
			}
		}
	}
	unsup("builtin %s(%T)", b.Name(), args[0])
	return nil
}

// recoverFrame finds the frame whose deferred call is running and called recover.
func (p *Path) recoverFrame(fr *frame) *frame {
	if fr.caller != nil && fr.caller == p.deferFrame {
		return p.deferFrame
	}
	return nil
}

func (p *Path) rtPanic(msg string) {
	panic(targetPanic{Iface{p.eng.rtErrType, p.mkRtErr(msg)}})
}

func (p *Path) mkRtErr(msg string) Value {
	return msg
}

// ---- goroutines and channels ----

type G struct {
	id     int
	resume chan struct{}
	done   bool
	ready  func() bool
	top    *frame
	dfr    *frame
	kill   bool
	exited chan struct{}
	fn     *Closure
}

func (p *Path) spawn(fn *Closure, args []Value) {
	g := &G{id: len(p.gs) + 1, resume: make(chan struct{}), exited: make(chan struct{}), fn: fn}
	p.gs = append(p.gs, g)
	go func() {
		defer close(g.exited)
		<-g.resume
		defer func() {
			r := recover()
			g.done = true
			if _, k := r.(killed); k {
				p.mainG.resume <- struct{}{}
				return
			}
			if r != nil {
				p.gpanic = r
			}
			// hand the baton on
			if p.gpanic != nil {
				p.cur = p.mainG
				p.mainG.resume <- struct{}{}
				return
			}
			n := p.pick(nil)
			if n == nil {
				// everything else is blocked: let main discover the deadlock
				n = p.mainG
			}
			p.cur = n
			n.resume <- struct{}{}
		}()
		if g.kill {
			panic(killed{})
		}
		p.top, p.deferFrame = nil, nil
		p.callClosure(fn, args)
	}()
}

func (p *Path) pick(not *G) *G {
	all := append([]*G{p.mainG}, p.gs...)
	start := 0
	for i, g := range all {
		if g == p.cur {
			start = i + 1
		}
	}
	for k := 0; k < len(all); k++ {
		g := all[(start+k)%len(all)]
		if g == not || g.done {
			continue
		}
		if g.ready == nil || g.ready() {
			return g
		}
	}
	return nil
}

// switchTo parks the current goroutine and runs g.
func (p *Path) switchTo(g *G) {
	me := p.cur
	if g == me {
		return
	}
	me.top, me.dfr = p.top, p.deferFrame
	p.cur = g
	g.resume <- struct{}{}
	<-me.resume
	if me.kill {
		panic(killed{})
	}
	p.cur = me
	p.top, p.deferFrame = me.top, me.dfr
	if me == p.mainG && p.gpanic != nil {
		r := p.gpanic
		p.gpanic = nil
		panic(r)
	}
}

// blockUntil runs other goroutines until cond holds.
func (p *Path) blockUntil(cond func() bool) {
	for !cond() {
		me := p.cur
		me.ready = cond
		n := p.pick(me)
		if n == nil {
			me.ready = nil
			panic(unsupported("deadlock: all goroutines blocked"))
		}
		p.switchTo(n)
		me.ready = nil
	}
}

// yieldAll lets every other runnable goroutine run until it blocks or ends.
func (p *Path) yieldAll() {
	for {
		me := p.cur
		never := func() bool { return false }
		me.ready = never
		n := p.pick(me)
		me.ready = nil
		if n == nil {
			return
		}
		// we are resumed when nobody else can run
		me.ready = func() bool { return p.onlyMe(me) }
		p.switchTo(n)
		me.ready = nil
	}
}

func (p *Path) onlyMe(me *G) bool {
	for _, g := range append([]*G{p.mainG}, p.gs...) {
		if g == me || g.done {
			continue
		}
		if g.ready == nil || g != p.cur && g.ready != nil && g.ready() {
			if g == p.cur {
				// the goroutine asking is about to block or end
				continue
			}
			return false
		}
	}
	return true
}

func (p *Path) killAll() {
	for _, g := range p.gs {
		if g.done {
			continue
		}
		g.kill = true
		g.resume <- struct{}{}
		<-p.mainG.resume
		<-g.exited
	}
}

func (p *Path) chanSend(c *Chan, v Value) {
	if c == nil {
		p.blockUntil(func() bool { return false })
	}
	if c.closed {
		p.rtPanic("send on closed channel")
	}
	capa := c.cap
	p.blockUntil(func() bool {
		if capa == 0 {
			return len(c.buf) < c.recvW
		}
		return len(c.buf) < capa
	})
	c.buf = append(c.buf, copyVal(v))
}

func (p *Path) chanRecv(c *Chan) (Value, Value) {
	if c == nil {
		p.blockUntil(func() bool { return false })
	}
	c.recvW++
	defer func() { c.recvW-- }()
	p.blockUntil(func() bool { return len(c.buf) > 0 || c.closed })
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		return v, true
	}
	return zero(c.elem), false
}

func (fr *frame) selectStmt(i *ssa.Select) Value {
	p := fr.p
	type st struct {
		c    *Chan
		send Value
		dir  types.ChanDir
	}
	var sts []st
	for _, s := range i.States {
		x := st{c: fr.get(s.Chan).(*Chan), dir: s.Dir}
		if s.Dir == types.SendOnly {
			x.send = fr.get(s.Send)
		}
		sts = append(sts, x)
	}
	ready := func() int {
		for k, s := range sts {
			if s.c == nil {
				continue
			}
			if s.dir == types.SendOnly {
				if s.c.closed || s.c.cap > 0 && len(s.c.buf) < s.c.cap || s.c.cap == 0 && len(s.c.buf) < s.c.recvW {
					return k
				}
			} else if len(s.c.buf) > 0 || s.c.closed {
				return k
			}
		}
		return -1
	}
	k := ready()
	if k < 0 && i.Blocking {
		for _, s := range sts {
			if s.c != nil && s.dir != types.SendOnly {
				s.c.recvW++
			}
		}
		p.blockUntil(func() bool { return ready() >= 0 })
		for _, s := range sts {
			if s.c != nil && s.dir != types.SendOnly {
				s.c.recvW--
			}
		}
		k = ready()
	}
	r := tuple{int64(k), false}
	for n, s := range sts {
		if s.dir == types.SendOnly {
			continue
		}
		var v Value = zero(i.States[n].Chan.Type().Underlying().(*types.Chan).Elem())
		if n == k {
			if len(s.c.buf) > 0 {
				v = s.c.buf[0]
				s.c.buf = s.c.buf[1:]
				r[1] = true
			}
		}
		r = append(r, v)
	}
	if k >= 0 && sts[k].dir == types.SendOnly {
		sts[k].c.buf = append(sts[k].c.buf, sts[k].send)
	}
	return r
}

const stepBound = "step bound reached"
