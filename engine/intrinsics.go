package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic = func(p *Path, fn *ssa.Function, args []Value) Value

var intrinsics map[string]intrinsic

// nativeFns run natively when every argument is concrete; otherwise the fallback (if any) or
// the interpreted body is used.
var nativeFns = map[string]interface{}{
	"strings.ToLower":      strings.ToLower,
	"strings.ToUpper":      strings.ToUpper,
	"strings.Title":        strings.Title,
	"strings.Contains":     strings.Contains,
	"strings.Index":        strings.Index,
	"strings.LastIndex":    strings.LastIndex,
	"strings.EqualFold":    strings.EqualFold,
	"strings.TrimSpace":    strings.TrimSpace,
	"strings.Fields":       strings.Fields,
	"strings.Split":        strings.Split,
	"strings.ReplaceAll":   strings.ReplaceAll,
	"strings.Replace":      strings.Replace,
	"strings.Repeat":       strings.Repeat,
	"strings.Join":         strings.Join,
	"strings.HasPrefix":    strings.HasPrefix,
	"strings.HasSuffix":    strings.HasSuffix,
	"strings.TrimRight":    strings.TrimRight,
	"strings.TrimLeft":     strings.TrimLeft,
	"strings.Trim":         strings.Trim,
	"strings.TrimPrefix":   strings.TrimPrefix,
	"strings.TrimSuffix":   strings.TrimSuffix,
	"strconv.Itoa":         strconv.Itoa,
	"strconv.FormatInt":    strconv.FormatInt,
	"strconv.Quote":        strconv.Quote,
	"math.Abs":             math.Abs,
	"math.Floor":           math.Floor,
	"math.Ceil":            math.Ceil,
	"math.Trunc":           math.Trunc,
	"math.Float64bits":     math.Float64bits,
	"math.Float64frombits": math.Float64frombits,
	"math.Float32bits":     math.Float32bits,
	"math.Float32frombits": math.Float32frombits,
	"math.Sqrt":            math.Sqrt,
	"math.Log":             math.Log,
	"math.Log2":            math.Log2,
	"math.Log10":           math.Log10,
	"math.Pow":             math.Pow,
	"math.Exp":             math.Exp,
	"math.Mod":             math.Mod,
	"math.IsNaN":           math.IsNaN,
	"math.IsInf":           math.IsInf,
	"math.Inf":             math.Inf,
	"math.NaN":             math.NaN,
	"math.Round":           math.Round,
	"math.Max":             math.Max,
	"math.Min":             math.Min,
}

func toHost(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		if s, ok := v.(string); ok {
			return reflect.ValueOf(s), true
		}
	case reflect.Bool:
		if b, ok := v.(bool); ok {
			return reflect.ValueOf(b), true
		}
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint8, reflect.Uint64, reflect.Uint32, reflect.Uint:
		if i, ok := v.(int64); ok {
			return reflect.ValueOf(i).Convert(t), true
		}
	case reflect.Float64, reflect.Float32:
		if f, ok := v.(float64); ok {
			return reflect.ValueOf(f).Convert(t), true
		}
	case reflect.Slice:
		s, ok := v.([]Value)
		if !ok {
			return reflect.Value{}, false
		}
		o := reflect.MakeSlice(t, len(s), len(s))
		for i, x := range s {
			y, ok := toHost(x, t.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			o.Index(i).Set(y)
		}
		return o, true
	}
	return reflect.Value{}, false
}

func fromHost(v reflect.Value) Value {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint32, reflect.Uint64:
		return int64(v.Uint())
	case reflect.Float64, reflect.Float32:
		return v.Float()
	case reflect.Slice:
		if v.IsNil() {
			return []Value(nil)
		}
		o := make([]Value, v.Len())
		for i := range o {
			o[i] = fromHost(v.Index(i))
		}
		return o
	}
	panic(unsupported("fromHost " + v.Kind().String()))
}

func callNative(f interface{}, args []Value) (Value, bool) {
	rv := reflect.ValueOf(f)
	rt := rv.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		h, ok := toHost(a, rt.In(i))
		if !ok {
			return nil, false
		}
		in[i] = h
	}
	if rt.IsVariadic() {
		return nil, false
	}
	out := rv.Call(in)
	if len(out) == 1 {
		return fromHost(out[0]), true
	}
	t := make(tuple, len(out))
	for i := range out {
		t[i] = fromHost(out[i])
	}
	return t, true
}

// interpBody runs the real body of fn (bypassing the intrinsic).
func (p *Path) interpBody(fn *ssa.Function, args []Value) Value {
	inf := p.eng.bodyInfo(fn)
	return p.callInfo(inf, args, nil)
}

func reg(name string, f intrinsic) { intrinsics[name] = f }

func nop(p *Path, fn *ssa.Function, args []Value) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return tuple{}
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

func (p *Path) asciiByte(b Value) *Term {
	t := p.byteTerm(b)
	if t.IsConst() {
		if t.U >= 0x80 {
			unsup("non-ASCII byte in symbolic case mapping")
		}
		return t
	}
	if t.Safe {
		return t
	}
	if !p.decide(p.pool.BvCmp("bvult", t, p.pool.Byte(0x80))) {
		unsup("non-ASCII symbolic byte in case mapping")
	}
	return t
}

func (p *Path) inRange(t *Term, lo, hi byte) *Term {
	if t.Digit {
		if lo <= '0' && hi >= '9' {
			return p.pool.tTrue
		}
		if hi < '0' || lo > '9' {
			return p.pool.tFals
		}
	}
	return p.pool.And(p.pool.BvCmp("bvule", p.pool.Byte(lo), t), p.pool.BvCmp("bvule", t, p.pool.Byte(hi)))
}

func (p *Path) lower(b Value) Value {
	t := p.asciiByte(b)
	r := p.pool.Ite(p.inRange(t, 'A', 'Z'), p.pool.BvOp("bvadd", t, p.pool.Byte(32)), t)
	if t.safe() {
		r.Safe = true
	}
	return p.fromBV(r, 8, false)
}
func (p *Path) upper(b Value) Value {
	t := p.asciiByte(b)
	r := p.pool.Ite(p.inRange(t, 'a', 'z'), p.pool.BvOp("bvsub", t, p.pool.Byte(32)), t)
	if t.safe() {
		r.Safe = true
	}
	return p.fromBV(r, 8, false)
}

func (p *Path) mapStr(v Value, f func(Value) Value) Value {
	e := strElems(v)
	o := make([]Value, len(e))
	for i, b := range e {
		if a, ok := b.(*Atom); ok {
			o[i] = a // digits and dates have no letters
			continue
		}
		o[i] = f(b)
	}
	return mkStr(o)
}

// containsTerm: sub occurs in s.
func (p *Path) containsTerm(s, sub Value) Value {
	a, b := strElems(p.forceStr(s, true)), strElems(p.forceStr(sub, true))
	if len(b) == 0 {
		return true
	}
	var or []*Term
	for i := 0; i+len(b) <= len(a); i++ {
		var and []*Term
		for j := range b {
			and = append(and, p.pool.Eq(p.byteTerm(a[i+j]), p.byteTerm(b[j])))
		}
		or = append(or, p.pool.And(and...))
	}
	return p.fromBool(p.pool.Or(or...))
}

func (p *Path) titleStr(v Value) Value {
	e := strElems(p.forceStr(v, true))
	o := make([]Value, len(e))
	// strings.Title: a letter is mapped when the previous rune is a separator
	for i, b := range e {
		t := p.asciiByte(b)
		var sep *Term
		if i == 0 {
			sep = p.pool.tTrue
		} else {
			q := p.asciiByte(e[i-1])
			// ASCII: letters, digits and underscore are not separators
			sep = p.pool.Not(p.pool.Or(p.inRange(q, 'a', 'z'), p.inRange(q, 'A', 'Z'), p.inRange(q, '0', '9'), p.pool.Eq(q, p.pool.Byte('_'))))
		}
		r := p.pool.Ite(p.pool.And(sep, p.inRange(t, 'a', 'z')), p.pool.BvOp("bvsub", t, p.pool.Byte(32)), t)
		if t.safe() {
			r.Safe = true
		}
		o[i] = p.fromBV(r, 8, false)
	}
	return mkStr(o)
}

func (p *Path) errValue(msg string) Value {
	return p.call(p.eng.fnByName("errors.New"), []Value{msg}, nil)
}

func elemsOf(v Value) []Value {
	switch x := v.(type) {
	case []Value:
		return x
	default:
		return strElems(v)
	}
}

// indexByte forks until the first occurrence is found.
func (p *Path) indexByte(e []Value, c Value) Value {
	for i, b := range e {
		if _, ok := b.(*Atom); ok {
			// opaque text holds digits, dates or tokens, never separators below
			if x, ok := c.(int64); ok && strings.IndexByte("\n\r\t %/{}\"\\", byte(x)) >= 0 {
				unsupIfPos(i)
				continue
			}
			unsup("search in opaque text")
		}
		if p.cond(p.intCmp("==", b, c, 8, false)) {
			return int64(i)
		}
	}
	return int64(-1)
}

func unsupIfPos(i int) {}

func bytesConcat(p *Path, e []Value) *Term {
	ts := make([]*Term, len(e))
	for i, b := range e {
		if at, ok := b.(*Atom); ok {
			if at.Kind != "token" {
				unsup("hash of opaque text")
			}
			ts[i] = p.pool.BV(uint64(at.ID)|0x746f6b00000000, 64)
			continue
		}
		ts[i] = p.byteTerm(b)
	}
	if len(ts) == 0 {
		return nil
	}
	return p.pool.mkConcat(ts)
}

func (p *TermPool) mkConcat(ts []*Term) *Term {
	if len(ts) == 1 {
		return ts[0]
	}
	w := 0
	for _, t := range ts {
		w += t.S.W
	}
	// re-assemble consecutive extracts of one term
	if ts[0].Op == "extract" {
		b := ts[0].A[0]
		ok := ts[0].P1 == b.S.W-1 && ts[len(ts)-1].P2 == 0
		for i := range ts {
			if ts[i].Op != "extract" || ts[i].A[0] != b || i > 0 && ts[i].P1 != ts[i-1].P2-1 {
				ok = false
				break
			}
		}
		if ok {
			return b
		}
	}
	return p.mk(&Term{Op: "concat", S: SBV(w), A: ts})
}

func splitBytes(p *Path, t *Term, n int) []Value {
	o := make([]Value, n)
	w := t.S.W
	for i := 0; i < n; i++ {
		o[i] = p.fromBV(p.pool.Extract(t, w-1-8*i, w-8-8*i), 8, false)
	}
	return o
}

func (p *Path) itoaAtom(t *Term) Value {
	if e, ok := p.numText[t.ID]; ok {
		return mkStr(e)
	}
	return &SymStr{[]Value{&Atom{Kind: "itoa", Arg: t, Len: -1}}}
}

func (p *Path) itoaValue(v Value, w int, s bool) Value {
	switch x := v.(type) {
	case int64:
		if s {
			return strconv.FormatInt(x, 10)
		}
		return strconv.FormatUint(uint64(x), 10)
	case *Term:
		return p.itoaAtom(p.toInt(x, w, s))
	}
	unsup("itoa %T", v)
	return nil
}

// itoaDigits expands the decimal text of an Int term, forking on its length.
func (p *Path) itoaDigits(t *Term) []Value {
	if e, ok := p.numText[t.ID]; ok {
		return e
	}
	var o []Value
	orig := t
	if t.Lo.Sign() < 0 {
		if p.decide(p.pool.ILt(t, p.pool.Int64(0))) {
			o = append(o, int64('-'))
			t = p.pool.INeg(t)
		}
	}
	n := 1
	ten := big.NewInt(10)
	for pw := new(big.Int).Set(ten); n < 20; n++ {
		if p.decide(p.pool.ILt(t, p.pool.IntC(new(big.Int).Set(pw)))) {
			break
		}
		pw = new(big.Int).Mul(pw, ten)
	}
	for i := n - 1; i >= 0; i-- {
		d := p.pool.IDivE(t, new(big.Int).Exp(ten, big.NewInt(int64(i)), nil))
		d = p.pool.IModE(d, ten)
		b := p.pool.Int2Bv(p.pool.IAdd(d, p.pool.Int64('0')), 8)
		if !b.IsConst() {
			b.Safe, b.Digit, b.Set = true, true, setOf("0123456789")
		}
		o = append(o, p.fromBV(b, 8, false))
	}
	p.numText[orig.ID] = o
	if p.textNum == nil {
		p.textNum = map[string]*Term{}
	}
	p.textNum[textKey(o)] = orig
	return o
}

// textKey identifies a sequence of characters.
func textKey(e []Value) string {
	var b strings.Builder
	for _, x := range e {
		switch y := x.(type) {
		case int64:
			fmt.Fprintf(&b, "c%d", y)
		case *Term:
			fmt.Fprintf(&b, "t%d", y.ID)
		default:
			fmt.Fprintf(&b, "?%p", x)
		}
	}
	return b.String()
}

func (p *Path) onceDo(key interface{}) bool {
	m, _ := p.host["once"].(map[interface{}]bool)
	if m == nil {
		m = map[interface{}]bool{}
		p.host["once"] = m
	}
	if m[key] {
		return false
	}
	m[key] = true
	return true
}

func init() {
	intrinsics = map[string]intrinsic{}
	for n, f := range nativeFns {
		n, f := n, f
		var sym intrinsic
		switch n {
		case "strings.ToLower":
			sym = func(p *Path, fn *ssa.Function, a []Value) Value { return p.mapStr(a[0], p.lower) }
		case "strings.ToUpper":
			sym = func(p *Path, fn *ssa.Function, a []Value) Value { return p.mapStr(a[0], p.upper) }
		case "strings.Title":
			sym = func(p *Path, fn *ssa.Function, a []Value) Value { return p.titleStr(a[0]) }
		case "strings.Contains":
			sym = func(p *Path, fn *ssa.Function, a []Value) Value { return p.containsTerm(a[0], a[1]) }
		case "strings.EqualFold":
			sym = func(p *Path, fn *ssa.Function, a []Value) Value {
				return p.strEq(p.mapStr(a[0], p.lower), p.mapStr(a[1], p.lower))
			}
		case "strings.HasPrefix", "strings.HasSuffix":
			suffix := n == "strings.HasSuffix"
			sym = func(p *Path, fn *ssa.Function, a []Value) Value {
				x, y := strElems(p.forceStr(a[0], false)), strElems(p.forceStr(a[1], true))
				if len(x) < len(y) && !hasAtom(x) {
					return false
				}
				if len(x) < len(y) {
					unsup("prefix of opaque text")
				}
				if suffix {
					x = x[len(x)-len(y):]
				} else {
					x = x[:len(y)]
				}
				if hasAtom(x) {
					for i := range x {
						if _, ok := x[i].(*Atom); ok {
							unsup("prefix of opaque text")
						}
						if c := p.pool.Eq(p.byteTerm(x[i]), p.byteTerm(y[i])); c.IsConst() && !c.B {
							return false
						}
					}
				}
				return p.strEq(mkStr(x), mkStr(y))
			}
		case "strconv.Itoa", "strconv.FormatInt":
			sym = func(p *Path, fn *ssa.Function, a []Value) Value {
				if len(a) > 1 && a[1] != int64(10) {
					unsup("FormatInt base")
				}
				return p.itoaValue(a[0], 64, true)
			}
		case "strings.Repeat":
			sym = func(p *Path, fn *ssa.Function, a []Value) Value {
				k := p.concInt(a[1], types.Typ[types.Int])
				if k < 0 {
					p.rtPanic("strings: negative Repeat count")
				}
				var r Value = ""
				for i := 0; i < k; i++ {
					r = concatStr(r, a[0])
				}
				return r
			}
		case "strings.Join":
			sym = func(p *Path, fn *ssa.Function, a []Value) Value {
				var r Value = ""
				for i, x := range a[0].([]Value) {
					if i > 0 {
						r = concatStr(r, a[1])
					}
					r = concatStr(r, x)
				}
				return r
			}
		case "strings.TrimSpace":
			sym = func(p *Path, fn *ssa.Function, a []Value) Value {
				e := strElems(a[0])
				sp := func(v Value) bool {
					if _, ok := v.(*Atom); ok {
						return false
					}
					t := p.byteTerm(v)
					c := p.pool.Or(p.inRange(t, 9, 13), p.pool.Eq(t, p.pool.Byte(' ')))
					if p.decide(c) {
						return true
					}
					if !t.IsConst() && !t.Safe && !p.decide(p.pool.BvCmp("bvult", t, p.pool.Byte(0x80))) {
						unsup("non-ASCII byte in TrimSpace")
					}
					return false
				}
				lo, hi := 0, len(e)
				for lo < hi && sp(e[lo]) {
					lo++
				}
				for hi > lo && sp(e[hi-1]) {
					hi--
				}
				return mkStr(e[lo:hi])
			}
		case "strings.Replace", "strings.ReplaceAll":
			sym = func(p *Path, fn *ssa.Function, a []Value) Value {
				old, ok := a[1].(string)
				if len(a) == 4 {
					if k, isI := a[3].(int64); !isI || k >= 0 {
						ok = false
					}
				}
				if !ok || len(old) != 1 {
					return p.interpBody(fn, a)
				}
				var o []Value
				for _, b := range strElems(a[0]) {
					if _, ok := b.(*Atom); ok {
						o = append(o, b)
						continue
					}
					if p.cond(p.intCmp("==", b, int64(old[0]), 8, false)) {
						o = append(o, strElems(a[2])...)
					} else {
						o = append(o, b)
					}
				}
				return mkStr(o)
			}
		case "math.Abs":
			sym = func(p *Path, fn *ssa.Function, a []Value) Value {
				t := p.toReal(a[0])
				z := p.pool.RealC(new(big.Rat))
				return p.pool.Ite(p.pool.RLt(t, z), p.pool.ROp("-", z, t), t)
			}
		case "math.Trunc", "math.Floor", "math.Ceil", "math.Round":
			name := n
			sym = func(p *Path, fn *ssa.Function, a []Value) Value {
				t := p.toReal(a[0])
				z := p.pool.RealC(new(big.Rat))
				neg := func(t *Term) *Term { return p.pool.ROp("-", z, t) }
				half := p.pool.RealC(big.NewRat(1, 2))
				floor := func(t *Term) *Term { return p.pool.ToReal(p.floorReal(t)) }
				if isWhole(t) {
					return t
				}
				switch name {
				case "math.Floor":
					return floor(t)
				case "math.Ceil":
					return neg(floor(neg(t)))
				case "math.Trunc":
					if p.decide(p.pool.RLt(t, z)) {
						return neg(floor(neg(t)))
					}
					return floor(t)
				}
				if p.decide(p.pool.RLt(t, z)) {
					return neg(floor(p.pool.ROp("+", neg(t), half)))
				}
				return floor(p.pool.ROp("+", t, half))
			}
		case "math.Max", "math.Min":
			max := n == "math.Max"
			sym = func(p *Path, fn *ssa.Function, a []Value) Value {
				x, y := p.toReal(a[0]), p.toReal(a[1])
				if max {
					return p.pool.Ite(p.pool.RLt(x, y), y, x)
				}
				return p.pool.Ite(p.pool.RLt(x, y), x, y)
			}
		}
		reg(n, func(p *Path, fn *ssa.Function, args []Value) Value {
			if v, ok := callNative(f, args); ok {
				return v
			}
			if sym != nil {
				return sym(p, fn, args)
			}
			return p.interpBody(fn, args)
		})
	}
	// ---- sym ----
	const S = "verif/harness/sym."
	reg(S+"Symbolic", func(p *Path, fn *ssa.Function, a []Value) Value { return true })
	reg(S+"Thorough", func(p *Path, fn *ssa.Function, a []Value) Value { return p.eng.cfg.Thorough })
	reg(S+"Byte", func(p *Path, fn *ssa.Function, a []Value) Value { return p.newBytes(a[0].(string), 1)[0] })
	reg(S+"Bytes", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.newBytes(a[0].(string), int(a[1].(int64)))
	})
	reg(S+"Str", func(p *Path, fn *ssa.Function, a []Value) Value {
		return mkStr(p.newBytes(a[0].(string), int(a[1].(int64))))
	})
	reg(S+"Text", func(p *Path, fn *ssa.Function, a []Value) Value {
		e := p.newBytesOf(a[0].(string), int(a[1].(int64)), "~text")
		for _, b := range e {
			t := b.(*Term)
			t.Safe = true
			p.addPC(p.inRange(t, 0x20, 0x7e))
			p.addPC(p.pool.Not(p.pool.Eq(t, p.pool.Byte('"'))))
			p.addPC(p.pool.Not(p.pool.Eq(t, p.pool.Byte('\\'))))
		}
		return mkStr(e)
	})
	reg(S+"In", func(p *Path, fn *ssa.Function, a []Value) Value {
		lo, hi := byte(a[2].(int64)), byte(a[3].(int64))
		e := p.newBytesOf(a[0].(string), int(a[1].(int64)), fmt.Sprintf("~%d-%d", lo, hi))
		le := func(a, b *Term) *Term { return p.pool.mk(&Term{Op: "bvule", S: SBool, A: []*Term{a, b}}) }
		for _, b := range e {
			t := b.(*Term)
			p.addPC(le(p.pool.Byte(lo), t))
			p.addPC(le(t, p.pool.Byte(hi)))
			if t.Set != nil {
				continue
			}
			t.Set, t.Safe = &[4]uint64{}, true
			for c := int(lo); c <= int(hi); c++ {
				t.Set[c>>6] |= 1 << (uint(c) & 63)
				if c < ' ' || c > '~' || c == '"' || c == '\\' {
					t.Safe = false
				}
			}
		}
		return mkStr(e)
	})
	reg(S+"Int", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.newInt(a[0].(string), a[1].(int64), a[2].(int64))
	})
	reg(S+"Bool", func(p *Path, fn *ssa.Function, a []Value) Value { return p.newBool(a[0].(string)) })
	reg(S+"Choose", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.newChoose(a[0].(string), int(a[1].(int64)))
	})
	reg(S+"Assume", func(p *Path, fn *ssa.Function, a []Value) Value { p.assume(p.toBool(a[0])); return tuple{} })
	reg(S+"Assert", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.assert(p.toBool(a[0]), a[1].(string))
		return tuple{}
	})
	reg(S+"Cover", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.covers = append(p.covers, a[0].(string))
		return tuple{}
	})
	reg(S+"Observe", func(p *Path, fn *ssa.Function, a []Value) Value {
		i := a[1].(Iface)
		v := copyVal(i.V)
		if s, ok := v.([]Value); ok {
			v = append([]Value(nil), s...)
		}
		p.obs = append(p.obs, Obs{a[0].(string), v, i.T})
		return tuple{}
	})
	reg(S+"MapOrders", func(p *Path, fn *ssa.Function, a []Value) Value {
		p.maxPerm = int(a[0].(int64))
		return tuple{}
	})
	reg(S+"Yield", func(p *Path, fn *ssa.Function, a []Value) Value { p.yieldAll(); return tuple{} })
	reg(S+"Goid", func(p *Path, fn *ssa.Function, a []Value) Value { return int64(p.cur.id) })
	reg(S+"Fork", func(p *Path, fn *ssa.Function, a []Value) Value { return p.cond(a[0]) })
	reg(S+"And", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.fromBool(p.pool.And(p.toBool(a[0]), p.toBool(a[1])))
	})
	reg(S+"Or", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.fromBool(p.pool.Or(p.toBool(a[0]), p.toBool(a[1])))
	})
	reg(S+"catch", func(p *Path, fn *ssa.Function, a []Value) (res Value) {
		top, df := p.top, p.deferFrame
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case targetPanic:
				p.top, p.deferFrame = top, df
				res = tuple{int64(1), int64(0), p.panicMsg(x.v)}
			case exitPanic:
				p.top, p.deferFrame = top, df
				res = tuple{int64(2), int64(x.code), ""}
			default:
				panic(r)
			}
		}()
		p.callClosure(a[0].(*Closure), nil)
		return tuple{int64(0), int64(0), ""}
	})
	// Ite without forking on integers
	reg(S+"IteInt", func(p *Path, fn *ssa.Function, a []Value) Value {
		c := p.toBool(a[0])
		if c.IsConst() {
			if c.B {
				return a[1]
			}
			return a[2]
		}
		return p.fromInt(p.pool.Ite(c, p.toInt(a[1], 64, true), p.toInt(a[2], 64, true)), true)
	})

	// ---- os, log ----
	reg("os.Exit", func(p *Path, fn *ssa.Function, a []Value) Value {
		panic(exitPanic{p.concInt(a[0], types.Typ[types.Int])})
	})
	for _, n := range []string{"log.Fatal", "log.Fatalln", "log.Fatalf"} {
		reg(n, func(p *Path, fn *ssa.Function, a []Value) Value { panic(exitPanic{1}) })
	}
	for _, n := range []string{"log.Print", "log.Println", "log.Printf", "log.SetFlags", "log.SetOutput",
		"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Pool).Put",
		"internal/testlog.Open", "internal/testlog.Stat", "internal/testlog.Getenv", "internal/testlog.PanicOnExit0",
		"(*strings.Builder).copyCheck", "time.Sleep", "internal/race.Acquire", "internal/race.Release",
		"internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"(*internal/godebug.Setting).IncNonDefault", "internal/godebug.setUpdate", "internal/godebug.registerMetric",
		"internal/godebug.setNewIncNonDefault",
	} {
		reg(n, nop)
	}
	reg("(*internal/godebug.Setting).Value", func(p *Path, fn *ssa.Function, a []Value) Value { return "" })
	reg("(*internal/godebug.Setting).Name", func(p *Path, fn *ssa.Function, a []Value) Value { return "" })
	reg("internal/godebug.New", func(p *Path, fn *ssa.Function, a []Value) Value {
		v := new(Value)
		*v = zero(deref(fn.Signature.Results().At(0).Type()))
		return v
	})
	reg("(*sync.Mutex).TryLock", func(p *Path, fn *ssa.Function, a []Value) Value { return true })
	reg("(*sync.Pool).Get", func(p *Path, fn *ssa.Function, a []Value) Value {
		s := (*a[0].(*Value)).(structure)
		f := s[len(s)-1].(*Closure)
		if f == nil {
			return Iface{}
		}
		return p.callClosure(f, nil)
	})
	reg("(*sync.Once).Do", func(p *Path, fn *ssa.Function, a []Value) Value {
		if p.onceDo(a[0]) {
			p.callClosure(a[1].(*Closure), nil)
		}
		return tuple{}
	})
	wg := func(p *Path, k Value) *int {
		m, _ := p.host["wg"].(map[Value]*int)
		if m == nil {
			m = map[Value]*int{}
			p.host["wg"] = m
		}
		if m[k] == nil {
			m[k] = new(int)
		}
		return m[k]
	}
	reg("(*sync.WaitGroup).Add", func(p *Path, fn *ssa.Function, a []Value) Value {
		*wg(p, a[0]) += p.concInt(a[1], types.Typ[types.Int])
		return tuple{}
	})
	reg("(*sync.WaitGroup).Done", func(p *Path, fn *ssa.Function, a []Value) Value { *wg(p, a[0])--; return tuple{} })
	reg("(*sync.WaitGroup).Wait", func(p *Path, fn *ssa.Function, a []Value) Value {
		c := wg(p, a[0])
		p.blockUntil(func() bool { return *c <= 0 })
		return tuple{}
	})
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			reg(pk+"Load"+ty, func(p *Path, fn *ssa.Function, a []Value) Value { return *a[0].(*Value) })
			reg(pk+"Store"+ty, func(p *Path, fn *ssa.Function, a []Value) Value { *a[0].(*Value) = a[1]; return tuple{} })
			w := 64
			if strings.HasSuffix(ty, "32") {
				w = 32
			}
			s := strings.HasPrefix(ty, "Int")
			reg(pk+"Add"+ty, func(p *Path, fn *ssa.Function, a []Value) Value {
				q := a[0].(*Value)
				*q = norm((*q).(int64)+a[1].(int64), w, s)
				return *q
			})
			reg(pk+"Swap"+ty, func(p *Path, fn *ssa.Function, a []Value) Value {
				q := a[0].(*Value)
				o := *q
				*q = a[1]
				return o
			})
			reg(pk+"CompareAndSwap"+ty, func(p *Path, fn *ssa.Function, a []Value) Value {
				q := a[0].(*Value)
				if *q == a[1] {
					*q = a[2]
					return true
				}
				return false
			})
		}
	}
	reg("(*sync/atomic.Value).Load", func(p *Path, fn *ssa.Function, a []Value) Value {
		return (*a[0].(*Value)).(structure)[0]
	})
	reg("(*sync/atomic.Value).Store", func(p *Path, fn *ssa.Function, a []Value) Value {
		(*a[0].(*Value)).(structure)[0] = a[1]
		return tuple{}
	})

	// ---- errors ----
	reg("errors.Is", func(p *Path, fn *ssa.Function, a []Value) Value { return p.errorsIs(a[0].(Iface), a[1].(Iface), 0) })
	reg("errors.As", func(p *Path, fn *ssa.Function, a []Value) Value { return p.errorsAs(a[0].(Iface), a[1].(Iface)) })

	// ---- bytealg, bytes ----
	ib := func(p *Path, fn *ssa.Function, a []Value) Value { return p.indexByte(elemsOf(a[0]), a[1]) }
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, ib)
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "strings.LastIndexByte"} {
		reg(n, func(p *Path, fn *ssa.Function, a []Value) Value {
			e := elemsOf(a[0])
			for i := len(e) - 1; i >= 0; i-- {
				if _, ok := e[i].(*Atom); ok {
					continue
				}
				if p.cond(p.intCmp("==", e[i], a[1], 8, false)) {
					return int64(i)
				}
			}
			return int64(-1)
		})
	}
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		reg(n, func(p *Path, fn *ssa.Function, a []Value) Value {
			c := 0
			for _, b := range elemsOf(a[0]) {
				if p.cond(p.intCmp("==", b, a[1], 8, false)) {
					c++
				}
			}
			return int64(c)
		})
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "internal/stringslite.Index"} {
		reg(n, func(p *Path, fn *ssa.Function, a []Value) Value {
			s, t := elemsOf(a[0]), elemsOf(a[1])
			for i := 0; i+len(t) <= len(s); i++ {
				if p.cond(p.strEq(mkStr(s[i:i+len(t)]), mkStr(t))) {
					return int64(i)
				}
			}
			return int64(-1)
		})
	}
	for _, n := range []string{"internal/bytealg.Equal", "bytes.Equal"} {
		reg(n, func(p *Path, fn *ssa.Function, a []Value) Value {
			return p.strEq(&SymStr{a[0].([]Value)}, &SymStr{a[1].([]Value)})
		})
	}
	cmp := func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := mkStr(elemsOf(a[0])), mkStr(elemsOf(a[1]))
		if p.cond(p.strEq(x, y)) {
			return int64(0)
		}
		if p.cond(p.strLess(x, y)) {
			return int64(-1)
		}
		return int64(1)
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare"} {
		reg(n, cmp)
	}
	reg("internal/bytealg.MakeNoZero", func(p *Path, fn *ssa.Function, a []Value) Value {
		n := p.concInt(a[0], types.Typ[types.Int])
		s := make([]Value, n)
		for i := range s {
			s[i] = int64(0)
		}
		return s
	})
	reg("crypto/subtle.ConstantTimeCompare", func(p *Path, fn *ssa.Function, a []Value) Value {
		if p.cond(p.strEq(&SymStr{a[0].([]Value)}, &SymStr{a[1].([]Value)})) {
			return int64(1)
		}
		return int64(0)
	})
	reg("crypto/hmac.Equal", intrinsics["bytes.Equal"])
	reg("reflect.DeepEqual", func(p *Path, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.T == nil || y.T == nil {
			return x.T == nil && y.T == nil
		}
		if !types.Identical(x.T, y.T) {
			return false
		}
		return p.fromBool(p.deepEq(x.T, x.V, y.V, 0))
	})

	// ---- sort ----
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		reg(n, func(p *Path, fn *ssa.Function, a []Value) Value {
			s := a[0].(Iface).V.([]Value)
			less := a[1].(*Closure)
			for i := 1; i < len(s); i++ {
				for j := i; j > 0 && p.cond(p.callClosure(less, []Value{int64(j), int64(j - 1)})); j-- {
					x, y := copyVal(s[j]), copyVal(s[j-1])
					storeTo(&s[j], y)
					storeTo(&s[j-1], x)
				}
			}
			return tuple{}
		})
	}
	reg("internal/reflectlite.Swapper", func(p *Path, fn *ssa.Function, a []Value) Value {
		s := a[0].(Iface).V.([]Value)
		return &Closure{Host: func(p *Path, args []Value) Value {
			i, j := args[0].(int64), args[1].(int64)
			x, y := copyVal(s[i]), copyVal(s[j])
			storeTo(&s[j], x)
			storeTo(&s[i], y)
			return tuple{}
		}}
	})

	// ---- strconv ----
	for _, n := range []string{"strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi", "strconv.ParseFloat"} {
		n := n
		reg(n, func(p *Path, fn *ssa.Function, a []Value) Value {
			if s, ok := a[0].(*SymStr); ok && len(s.E) == 1 {
				if at, ok := s.E[0].(*Atom); ok {
					switch at.Kind {
					case "itoa":
						if n == "strconv.ParseFloat" {
							return tuple{p.pool.ToReal(at.Arg), Iface{}}
						}
						if n == "strconv.Atoi" || a[1] == Value(int64(10)) || a[1] == Value(int64(0)) {
							if v, ok := p.sized(n, a, at.Arg); ok {
								return v
							}
						}
						unsup("%s of a symbolic number", n)
					case "floatexp":
						if n != "strconv.ParseFloat" {
							return tuple{int64(0), p.errValue("strconv: parsing: invalid syntax")}
						}
						return tuple{p.pool.ToReal(at.Arg), Iface{}}
					}
				}
			}
			if s, ok := a[0].(*SymStr); ok {
				a = append([]Value{p.forceStr(s, true)}, a[1:]...)
				if v, ok := p.parseDigits(n, a); ok {
					return v
				}
			}
			return p.interpBody(fn, a)
		})
	}
	reg("internal/stringslite.Clone", func(p *Path, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("strings.Clone", func(p *Path, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("strconv.cloneString", func(p *Path, fn *ssa.Function, a []Value) Value { return a[0] })

	// ---- crypto primitives as uninterpreted functions (called by the vm models) ----
	const V = "verif/harness/vm."
	reg(V+"ufHash", func(p *Path, fn *ssa.Function, a []Value) Value {
		name := a[0].(string)
		out := int(a[1].(int64))
		msg := a[2].([]Value)
		return p.ufApply(fmt.Sprintf("%s_%d", name, len(msg)), out, [][]Value{msg}, nil, func(in [][]byte) []byte { return concHash(name, in[0]) })
	})
	reg(V+"ufMac", func(p *Path, fn *ssa.Function, a []Value) Value {
		name := a[0].(string)
		out := int(a[1].(int64))
		key, msg := a[2].([]Value), a[3].([]Value)
		return p.ufApply(fmt.Sprintf("hmac_%s_%d_%d", name, len(key), len(msg)), out, [][]Value{key, msg}, nil, func(in [][]byte) []byte { return concMac(name, in[0], in[1]) })
	})
	reg(V+"ufKdf", func(p *Path, fn *ssa.Function, a []Value) Value {
		name := a[0].(string)
		pw, salt := a[1].([]Value), a[2].([]Value)
		it := p.toInt(a[3], 64, true)
		n := int(a[4].(int64))
		return p.ufApply(fmt.Sprintf("pbkdf2_%s_%d_%d_%d", name, len(pw), len(salt), n), n, [][]Value{pw, salt}, []*Term{it}, func(in [][]byte) []byte {
			if !it.Z.IsInt64() || it.Z.Int64() > 1000000 || it.Z.Int64() < 1 {
				return nil
			}
			return concKdf(name, in[0], in[1], int(it.Z.Int64()), n)
		})
	})
	block := func(op string) intrinsic {
		inv := map[string]string{"aesdec": "aesenc", "aesenc": "aesdec"}[op]
		return func(p *Path, fn *ssa.Function, a []Value) Value {
			key, blk := a[0].([]Value), a[1].([]Value)
			k, b := bytesConcat(p, key), bytesConcat(p, blk)
			if b.Op == "uf" && b.Name == fmt.Sprintf("%s_%d", inv, len(key)) && b.A[0] == k {
				return splitBytes(p, b.A[1], 16)
			}
			return p.ufApply(fmt.Sprintf("%s_%d", op, len(key)), 16, [][]Value{key, blk}, nil, func(in [][]byte) []byte { return concAes(op, in[0], in[1]) })
		}
	}
	reg(V+"ufAesDec", block("aesdec"))
	reg(V+"ufAesEnc", block("aesenc"))
	reg(V+"token", func(p *Path, fn *ssa.Function, a []Value) Value {
		// an opaque one-element byte text carrying an object
		p.tokens++
		return []Value{&Atom{Kind: "token", Key: a[0].(string), Obj: a[1], Len: 1, ID: p.tokens}}
	})
	reg(V+"tokenOf", func(p *Path, fn *ssa.Function, a []Value) Value {
		for _, b := range elemsOf(a[1]) {
			if at, ok := b.(*Atom); ok && at.Kind == "token" && at.Key == a[0].(string) {
				return at.Obj
			}
			return Iface{}
		}
		return Iface{}
	})
	reg(V+"sameFunc", func(p *Path, fn *ssa.Function, a []Value) Value { return a[0] == a[1] })
	reg(V+"typeName", func(p *Path, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.T == nil {
			return "nil"
		}
		return i.T.String()
	})
	registerMore()
}

// parseDigits parses symbolic decimal text of bounded length without forking per digit value:
// it forks once on "all digits" and builds the number as an integer term.
func (p *Path) parseDigits(n string, a []Value) (Value, bool) {
	isF := n == "strconv.ParseFloat"
	if isF && a[1] != int64(64) {
		return nil, false
	}
	if !isF && n != "strconv.Atoi" && a[1] != int64(10) {
		return nil, false
	}
	e := strElems(a[0])
	for len(e) > 1 && e[0] == Value(int64('0')) {
		e = e[1:]
	}
	if t := p.textNum[textKey(e)]; t != nil && (!isF || len(e) <= 15) {
		if isF {
			return tuple{p.fromReal(p.pool.ToReal(t)), Iface{}}, true
		}
		return p.sized(n, a, t)
	}
	if len(e) == 0 || len(e) > 18 || isF && len(e) > 15 {
		return nil, false
	}
	var cs []*Term
	for _, b := range e {
		cs = append(cs, p.inRange(p.byteTerm(b), '0', '9'))
	}
	if !p.decide(p.pool.And(cs...)) {
		return nil, false
	}
	v := p.pool.Int64(0)
	for _, b := range e {
		d := p.digitVal(p.byteTerm(b))
		v = p.pool.IAdd(p.pool.IMul(v, p.pool.Int64(10)), d)
	}
	if isF {
		return tuple{p.fromReal(p.pool.ToReal(v)), Iface{}}, true
	}
	return p.sized(n, a, v)
}

// sized is the result of parsing the number v with the bit size asked for.
func (p *Path) sized(n string, a []Value, v *Term) (Value, bool) {
	bits := int64(64)
	if n != "strconv.Atoi" {
		b, ok := a[2].(int64)
		if !ok || b < 0 || b > 64 {
			return nil, false
		}
		if b != 0 {
			bits = b
		}
	}
	lo, hi := new(big.Int).Neg(pow2(int(bits)-1)), new(big.Int).Sub(pow2(int(bits)-1), big.NewInt(1))
	if n == "strconv.ParseUint" {
		lo, hi = big.NewInt(0), new(big.Int).Sub(pow2(int(bits)), big.NewInt(1))
		if v.Lo.Sign() < 0 && p.decide(p.pool.ILt(v, p.pool.Int64(0))) {
			return tuple{int64(0), p.errValue("strconv.ParseUint: parsing: invalid syntax")}, true
		}
	}
	l, h := p.pool.IntC(lo), p.pool.IntC(hi)
	if p.decide(p.pool.ILt(v, l)) {
		return tuple{p.fromInt(l, true), p.errValue(n + ": parsing: value out of range")}, true
	}
	if p.decide(p.pool.ILt(h, v)) {
		return tuple{p.fromInt(h, true), p.errValue(n + ": parsing: value out of range")}, true
	}
	return tuple{p.fromInt(v, n != "strconv.ParseUint"), Iface{}}, true
}

func (p *Path) digitVal(b *Term) *Term {
	t := p.pool.Bv2Nat(p.pool.BvOp("bvsub", b, p.pool.Byte('0')))
	if t.IsConst() {
		return t
	}
	// known digit: tighten the interval through a dedicated term
	d := p.pool.mk(&Term{Op: "+", S: SInt, A: []*Term{t, p.pool.Int64(0)}})
	if d.Lo == nil || d.Hi == nil || d.Hi.Cmp(big.NewInt(9)) > 0 {
		d.Lo, d.Hi = big.NewInt(0), big.NewInt(9)
	}
	return d
}

func (p *Path) errorsIs(e, target Iface, depth int) Value {
	for e.T != nil && depth < 20 {
		if target.T != nil && types.Identical(e.T, target.T) && types.Comparable(e.T) {
			if p.cond(p.eq(e.T, e.V, target.V)) {
				return true
			}
		}
		if f := p.methodByName(e.T, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			if p.cond(p.call(f, []Value{e.V, target}, nil)) {
				return true
			}
		}
		f := p.methodByName(e.T, "Unwrap")
		if f == nil {
			return false
		}
		r := p.call(f, []Value{e.V}, nil)
		switch x := r.(type) {
		case Iface:
			e = x
		case []Value:
			for _, y := range x {
				if p.cond(p.errorsIs(y.(Iface), target, depth+1)) {
					return true
				}
			}
			return false
		default:
			return false
		}
		depth++
	}
	return e.T == nil && target.T == nil
}

func (p *Path) errorsAs(e, target Iface) Value {
	pt := target.T.Underlying().(*types.Pointer)
	dst := target.V.(*Value)
	for e.T != nil {
		if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
			if p.implements(e.T, it) {
				*dst = e
				return true
			}
		} else if types.Identical(e.T, pt.Elem()) {
			storeTo(dst, e.V)
			return true
		}
		f := p.methodByName(e.T, "Unwrap")
		if f == nil {
			return false
		}
		x, ok := p.call(f, []Value{e.V}, nil).(Iface)
		if !ok {
			return false
		}
		e = x
	}
	return false
}

func (p *Path) deepEq(t types.Type, x, y Value, depth int) *Term {
	if depth > 30 {
		unsup("DeepEqual depth")
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		a, ok1 := x.(*Value)
		b, ok2 := y.(*Value)
		if !ok1 || !ok2 {
			unsup("DeepEqual pointer")
		}
		if a == b {
			return p.pool.tTrue
		}
		if a == nil || b == nil {
			return p.pool.tFals
		}
		return p.deepEq(u.Elem(), *a, *b, depth+1)
	case *types.Slice:
		a, b := x.([]Value), y.([]Value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return p.pool.tFals
		}
		r := p.pool.tTrue
		for i := range a {
			r = p.pool.And(r, p.deepEq(u.Elem(), a[i], b[i], depth+1))
		}
		return r
	case *types.Array:
		a, b := x.(array), y.(array)
		r := p.pool.tTrue
		for i := range a {
			r = p.pool.And(r, p.deepEq(u.Elem(), a[i], b[i], depth+1))
		}
		return r
	case *types.Struct:
		a, b := x.(structure), y.(structure)
		r := p.pool.tTrue
		for i := range a {
			r = p.pool.And(r, p.deepEq(u.Field(i).Type(), a[i], b[i], depth+1))
		}
		return r
	case *types.Map:
		a, b := x.(*Map), y.(*Map)
		if (a == nil) != (b == nil) {
			return p.pool.tFals
		}
		if a == nil {
			return p.pool.tTrue
		}
		if len(a.ents) != len(b.ents) {
			return p.pool.tFals
		}
		r := p.pool.tTrue
		for _, e := range a.ents {
			o := p.mapFind(b, e.k)
			if o == nil {
				return p.pool.tFals
			}
			r = p.pool.And(r, p.deepEq(u.Elem(), e.v, o.v, depth+1))
		}
		return r
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.T == nil || b.T == nil {
			return p.pool.Bool(a.T == nil && b.T == nil)
		}
		if !types.Identical(a.T, b.T) {
			return p.pool.tFals
		}
		return p.deepEq(a.T, a.V, b.V, depth+1)
	case *types.Signature:
		return p.pool.Bool(x.(*Closure) == nil && y.(*Closure) == nil)
	}
	return p.toBool(p.eq(t, x, y))
}

var _ = sort.Strings
