package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of
//
//	int64 | *Term(BV,Int)        integers (concrete ones normalised to their type)
//	bool | *Term(Bool)
//	float64 | *Term(Real)
//	string | *SymStr
//	[]Value                      slices (nil slice is []Value(nil))
//	structure, array, tuple
//	*Value, *SymPtr              pointers
//	Iface, *Map, *Closure, *Chan
type Value interface{}

type structure []Value
type array []Value
type tuple []Value

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn      *ssa.Function
	Env     []Value
	Builtin *ssa.Builtin
	Host    func(p *Path, args []Value) Value
}

type SymPtr struct {
	arr []Value
	idx *Term // Int sort or BV
}

type UnsafePtr struct{ v Value }

// SymStr is a string of concrete length (in elements); elements are int64, *Term (BV8) or *Atom.
type SymStr struct{ E []Value }

// Atom is an opaque run of text.
type Atom struct {
	Kind string
	Key  string
	Arg  *Term
	Obj  interface{}
	Len  int // -1 unknown
	ID   int // of a token
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	id     int
	elem   types.Type
	recvW  int // receivers waiting (unbuffered rendezvous)
}

type mapEntry struct {
	k, v Value
}
type Map struct {
	ents []*mapEntry
	idx  map[string]*mapEntry
	sym  bool // some key symbolic
	kt   types.Type
}

type unsupported string

func (u unsupported) Error() string { return "unsupported: " + string(u) }

type pathEnd struct{ why string }
type exitPanic struct{ code int }
type targetPanic struct{ v Value } // v is Iface
type killed struct{}

func unsup(f string, a ...interface{}) { panic(unsupported(fmt.Sprintf(f, a...))) }

// ---- helpers on types ----

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func basic(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b := basic(t)
	if b == nil {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b := basic(t)
	return b != nil && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b := basic(t)
	return b != nil && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b := basic(t)
	return b != nil && b.Info()&types.IsBoolean != 0
}

func norm(v int64, w int, signed bool) int64 {
	if w == 64 {
		return v
	}
	if signed {
		sh := uint(64 - w)
		return v << sh >> sh
	}
	return v & (1<<uint(w) - 1)
}

func zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return UnsafePtr{}
		}
		i := t.Info()
		switch {
		case i&types.IsBoolean != 0:
			return false
		case i&types.IsInteger != 0:
			return int64(0)
		case i&types.IsFloat != 0:
			return float64(0)
		case i&types.IsString != 0:
			return ""
		case i&types.IsComplex != 0:
			return complex128(0)
		case t.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		n := int(t.Len())
		a := make(array, n)
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Interface:
		return Iface{}
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	}
	unsup("zero of %v", t)
	return nil
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type()
	if tp, ok := t.(*types.TypeParam); ok {
		unsup("const of type param %v", tp)
	}
	if w, s, ok := intInfo(t); ok {
		cv := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(cv); ok {
			return norm(i, w, s)
		}
		u, _ := constant.Uint64Val(cv)
		return norm(int64(u), w, s)
	}
	b := basic(t)
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	}
	unsup("const %v", c)
	return nil
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case structure:
		o := make(structure, len(v))
		for i, x := range v {
			o[i] = copyVal(x)
		}
		return o
	case array:
		o := make(array, len(v))
		for i, x := range v {
			switch x.(type) {
			case structure, array:
				o[i] = copyVal(x)
			default:
				o[i] = x
			}
		}
		return o
	case tuple:
		unsup("copy tuple")
	}
	return v
}

// store keeps the identity of nested aggregates so that interior pointers stay valid.
func storeTo(dst *Value, v Value) {
	switch v := v.(type) {
	case structure:
		if d, ok := (*dst).(structure); ok && len(d) == len(v) {
			// copy first (v may alias d)
			c := copyVal(v).(structure)
			for i := range d {
				storeTo(&d[i], c[i])
			}
			return
		}
		*dst = copyVal(v)
	case array:
		if d, ok := (*dst).(array); ok && len(d) == len(v) {
			c := copyVal(v).(array)
			for i := range d {
				storeTo(&d[i], c[i])
			}
			return
		}
		*dst = copyVal(v)
	default:
		*dst = v
	}
}

// ---- strings ----

func strElems(v Value) []Value {
	switch s := v.(type) {
	case string:
		e := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			e[i] = int64(s[i])
		}
		return e
	case *SymStr:
		return s.E
	}
	unsup("strElems %T", v)
	return nil
}

func mkStr(e []Value) Value {
	b := make([]byte, len(e))
	for i, x := range e {
		switch x := x.(type) {
		case int64:
			b[i] = byte(x)
		case *Term:
			if !x.IsConst() {
				return &SymStr{append([]Value(nil), e...)}
			}
			b[i] = byte(x.U)
		default:
			return &SymStr{append([]Value(nil), e...)}
		}
	}
	return string(b)
}

func concatStr(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	ea, eb := strElems(a), strElems(b)
	o := make([]Value, 0, len(ea)+len(eb))
	o = append(o, ea...)
	o = append(o, eb...)
	return &SymStr{o}
}

func hasAtom(e []Value) bool {
	for _, x := range e {
		if _, ok := x.(*Atom); ok {
			return true
		}
	}
	return false
}

func (p *Path) strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		s2 := p.forceStr(s, false)
		if x, ok := s2.(string); ok {
			return len(x)
		}
		n := 0
		for _, x := range s2.(*SymStr).E {
			if a, ok := x.(*Atom); ok {
				if a.Len < 0 {
					unsup("length of opaque text %s", a.Kind)
				}
				n += a.Len
			} else {
				n++
			}
		}
		return n
	}
	unsup("strLen %T", v)
	return 0
}

// forceStr expands itoa atoms into digits; with all=true every atom must vanish.
func (p *Path) forceStr(v Value, all bool) Value {
	s, ok := v.(*SymStr)
	if !ok {
		return v
	}
	if !hasAtom(s.E) {
		return v
	}
	var o []Value
	ch := false
	for _, x := range s.E {
		if a, ok := x.(*Atom); ok {
			if e, ok := p.expandAtom(a); ok {
				o = append(o, e...)
				ch = true
				continue
			}
			if all {
				unsup("bytes of opaque text %s", a.Kind)
			}
		}
		o = append(o, x)
	}
	if !ch {
		return v
	}
	return mkStr(o)
}

func (p *Path) expandAtom(a *Atom) ([]Value, bool) {
	switch a.Kind {
	case "itoa":
		return p.itoaDigits(a.Arg), true
	}
	return nil, false
}

func (p *Path) byteTerm(v Value) *Term {
	switch x := v.(type) {
	case int64:
		return p.pool.Byte(byte(x))
	case *Term:
		if x.S.K == KInt {
			return p.pool.Int2Bv(x, 8)
		}
		return x
	}
	unsup("byteTerm %T", v)
	return nil
}

// strEq returns bool or a Bool term.
func (p *Path) strEq(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	ea, eb := strElems(a), strElems(b)
	if hasAtom(ea) || hasAtom(eb) {
		return p.atomEq(a, b)
	}
	if len(ea) != len(eb) {
		return false
	}
	cs := make([]*Term, 0, len(ea))
	for i := range ea {
		c := p.pool.Eq(p.byteTerm(ea[i]), p.byteTerm(eb[i]))
		if c.IsConst() {
			if !c.B {
				return false
			}
			continue
		}
		cs = append(cs, c)
	}
	return p.fromBool(p.pool.And(cs...))
}

func (p *Path) atomEq(a, b Value) Value {
	ea, eb := strElems(a), strElems(b)
	aligned := func() bool {
		if len(ea) != len(eb) {
			return false
		}
		for i := range ea {
			x, okx := ea[i].(*Atom)
			y, oky := eb[i].(*Atom)
			if okx != oky {
				return false
			}
			if okx && (x.Kind != y.Kind || x.Key != y.Key) {
				return false
			}
		}
		return true
	}
	if !aligned() {
		// match common prefix/suffix cheaply: any concrete mismatch before the first atom decides
		for i := 0; i < len(ea) && i < len(eb); i++ {
			x, okx := ea[i].(int64)
			y, oky := eb[i].(int64)
			if !okx || !oky {
				break
			}
			if x != y {
				return false
			}
		}
		for i := 1; i <= len(ea) && i <= len(eb); i++ {
			x, okx := ea[len(ea)-i].(int64)
			y, oky := eb[len(eb)-i].(int64)
			if !okx || !oky {
				break
			}
			if x != y {
				return false
			}
		}
		fa, fb := p.forceStr(a, false), p.forceStr(b, false)
		ea, eb = strElems(fa), strElems(fb)
		if !hasAtom(ea) && !hasAtom(eb) {
			return p.strEq(fa, fb)
		}
		if !aligned() {
			// lengths may settle it
			la, lb := knownLen(ea), knownLen(eb)
			if la >= 0 && lb >= 0 && la != lb {
				return false
			}
			unsup("comparison of opaque text")
		}
	}
	var cs []*Term
	for i := range ea {
		if x, ok := ea[i].(*Atom); ok {
			y := eb[i].(*Atom)
			cs = append(cs, p.atomArgEq(x, y))
			continue
		}
		cs = append(cs, p.pool.Eq(p.byteTerm(ea[i]), p.byteTerm(eb[i])))
	}
	return p.fromBool(p.pool.And(cs...))
}

func knownLen(e []Value) int {
	n := 0
	for _, x := range e {
		if a, ok := x.(*Atom); ok {
			if a.Len < 0 {
				return -1
			}
			n += a.Len
		} else {
			n++
		}
	}
	return n
}

func (p *Path) atomArgEq(x, y *Atom) *Term {
	if x == y || x.Arg != nil && x.Arg == y.Arg {
		return p.pool.tTrue
	}
	if x.Arg == nil || y.Arg == nil {
		if x.Obj != nil && x.Obj == y.Obj {
			return p.pool.tTrue
		}
		unsup("comparison of opaque objects")
	}
	if x.Kind == "itoa" {
		return p.pool.Eq(x.Arg, y.Arg)
	}
	n := "txt_" + strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, x.Kind+"_"+x.Key)
	mk := func(t *Term) *Term {
		u := p.pool.UF(n, SInt, t)
		u.Lo, u.Hi = big.NewInt(-1<<62), big.NewInt(1<<62)
		return u
	}
	return p.pool.Eq(mk(x.Arg), mk(y.Arg))
}

func (p *Path) fromBool(t *Term) Value {
	if t.IsConst() {
		return t.B
	}
	return t
}
func (p *Path) toBool(v Value) *Term {
	switch b := v.(type) {
	case bool:
		return p.pool.Bool(b)
	case *Term:
		return b
	}
	unsup("toBool %T", v)
	return nil
}

// strLess returns a<b as bool or term.
func (p *Path) strLess(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	a, b = p.forceStr(a, true), p.forceStr(b, true)
	ea, eb := strElems(a), strElems(b)
	n := len(ea)
	if len(eb) < n {
		n = len(eb)
	}
	r := p.pool.Bool(len(ea) < len(eb))
	for i := n - 1; i >= 0; i-- {
		x, y := p.byteTerm(ea[i]), p.byteTerm(eb[i])
		r = p.pool.Or(p.pool.BvCmp("bvult", x, y), p.pool.And(p.pool.Eq(x, y), r))
	}
	return p.fromBool(r)
}

// ---- maps ----

func (p *Path) keyStr(k Value) (string, bool) {
	switch k := k.(type) {
	case string:
		return "s" + k, true
	case int64:
		return fmt.Sprintf("i%d", k), true
	case bool:
		return fmt.Sprintf("b%v", k), true
	case float64:
		return fmt.Sprintf("f%v", k), true
	case *Value:
		return fmt.Sprintf("p%p", k), true
	case *Chan:
		return fmt.Sprintf("c%p", k), true
	case Iface:
		if k.T == nil {
			return "nil", true
		}
		s, ok := p.keyStr(k.V)
		return "I" + types.TypeString(k.T, nil) + ":" + s, ok
	case structure:
		s := "{"
		for _, x := range k {
			y, ok := p.keyStr(x)
			if !ok {
				return "", false
			}
			s += y + ","
		}
		return s + "}", true
	case array:
		s := "["
		for _, x := range k {
			y, ok := p.keyStr(x)
			if !ok {
				return "", false
			}
			s += y + ","
		}
		return s + "]", true
	}
	return "", false
}

func newMap(kt types.Type) *Map { return &Map{idx: map[string]*mapEntry{}, kt: kt} }

func (p *Path) mapFind(m *Map, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	ks, ok := p.keyStr(k)
	if ok {
		if e, ok := m.idx[ks]; ok {
			return e
		}
		if !m.sym {
			return nil
		}
	}
	for _, e := range m.ents {
		if ok {
			if _, c := p.keyStr(e.k); c {
				continue
			}
		}
		if p.cond(p.eq(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (p *Path) mapSet(m *Map, k, v Value) {
	if m == nil {
		p.rtPanic("assignment to entry in nil map")
	}
	if e := p.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k, v}
	m.ents = append(m.ents, e)
	if ks, ok := p.keyStr(k); ok {
		m.idx[ks] = e
	} else {
		m.sym = true
	}
}

func (p *Path) mapDel(m *Map, k Value) {
	e := p.mapFind(m, k)
	if e == nil {
		return
	}
	for i, x := range m.ents {
		if x == e {
			m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
			break
		}
	}
	if ks, ok := p.keyStr(e.k); ok {
		delete(m.idx, ks)
	}
}

// eq compares two values of static type t.
func (p *Path) eq(t types.Type, x, y Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return p.strEq(x, y)
		}
		if u.Info()&types.IsBoolean != 0 {
			a, ok1 := x.(bool)
			b, ok2 := y.(bool)
			if ok1 && ok2 {
				return a == b
			}
			return p.fromBool(p.pool.Eq(p.toBool(x), p.toBool(y)))
		}
		if w, s, ok := intInfo(t); ok {
			return p.intCmp("==", x, y, w, s)
		}
		if u.Info()&types.IsFloat != 0 {
			a, ok1 := x.(float64)
			b, ok2 := y.(float64)
			if ok1 && ok2 {
				return a == b
			}
			return p.fromBool(p.pool.Eq(p.toReal(x), p.toReal(y)))
		}
		if u.Kind() == types.UnsafePointer {
			return x.(UnsafePtr) == y.(UnsafePtr)
		}
		return x == y
	case *types.Pointer:
		return ptrEq(x, y)
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.T == nil || b.T == nil {
			return a.T == nil && b.T == nil
		}
		if !types.Identical(a.T, b.T) {
			return false
		}
		if !types.Comparable(a.T) {
			p.rtPanic("comparing uncomparable type " + a.T.String())
		}
		return p.eq(a.T, a.V, b.V)
	case *types.Struct:
		a, b := x.(structure), y.(structure)
		r := p.pool.tTrue
		for i := range a {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = p.pool.And(r, p.toBool(p.eq(u.Field(i).Type(), a[i], b[i])))
		}
		return p.fromBool(r)
	case *types.Array:
		a, b := x.(array), y.(array)
		r := p.pool.tTrue
		for i := range a {
			r = p.pool.And(r, p.toBool(p.eq(u.Elem(), a[i], b[i])))
		}
		return p.fromBool(r)
	case *types.Map:
		return x.(*Map) == y.(*Map)
	case *types.Chan:
		return x.(*Chan) == y.(*Chan)
	case *types.Slice:
		a, b := x.([]Value), y.([]Value)
		if a == nil || b == nil {
			return a == nil && b == nil
		}
	case *types.Signature:
		a, b := x.(*Closure), y.(*Closure)
		if a == nil || b == nil {
			return a == nil && b == nil
		}
	}
	unsup("eq %v", t)
	return nil
}

func ptrEq(x, y Value) Value {
	a, ok1 := x.(*Value)
	b, ok2 := y.(*Value)
	if ok1 && ok2 {
		return a == b
	}
	return x == y
}
