package main

// Engine-level models of reflection-driven library code: fmt, encoding/json, yaml, base64,
// time formatting, table rendering.

import (
	"encoding/base64"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
	yaml "gopkg.in/yaml.v2"
)

var (
	emptyIface = types.NewInterfaceType(nil, nil).Complete()
	tAnySlice  = types.NewSlice(emptyIface)
	tAnyMap    = types.NewMap(types.Typ[types.String], emptyIface)
	tAnyAnyMap = types.NewMap(emptyIface, emptyIface)
	tString    = types.Typ[types.String]
	tFloat     = types.Typ[types.Float64]
	tBool      = types.Typ[types.Bool]
	tInt       = types.Typ[types.Int]
)

// ---------- fmt ----------

func (p *Path) hasMethod(t types.Type, name string) *ssa.Function {
	f := p.methodByName(t, name)
	if f == nil || f.Signature.Results().Len() != 1 || f.Signature.Params().Len() != 0 || !isString(f.Signature.Results().At(0).Type()) {
		return nil
	}
	return f
}

// hostBasic converts a concrete basic value to a host value for native formatting.
func hostBasic(t types.Type, v Value) (interface{}, bool) {
	b := basic(t)
	if b == nil {
		return nil, false
	}
	switch x := v.(type) {
	case bool:
		return x, true
	case string:
		return x, true
	case float64:
		if b.Kind() == types.Float32 {
			return float32(x), true
		}
		return x, true
	case int64:
		switch b.Kind() {
		case types.Int:
			return int(x), true
		case types.Int64, types.UntypedInt:
			return x, true
		case types.Int32, types.UntypedRune:
			return int32(x), true
		case types.Int16:
			return int16(x), true
		case types.Int8:
			return int8(x), true
		case types.Uint:
			return uint(x), true
		case types.Uint64, types.Uintptr:
			return uint64(x), true
		case types.Uint32:
			return uint32(x), true
		case types.Uint16:
			return uint16(x), true
		case types.Uint8:
			return uint8(x), true
		}
	}
	return nil, false
}

// fmtArg renders one operand for a directive such as "%v" or "%-10s".
func (p *Path) fmtArg(dir string, verb byte, a Value) Value {
	i := a.(Iface)
	plain := len(dir) == 2
	if i.T == nil {
		switch verb {
		case 'v':
			return p.pad(dir, "<nil>")
		case 'T':
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return types.TypeString(i.T, func(pk *types.Package) string { return pk.Name() })
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			if strings.Contains(dir, "#") {
				break
			}
			if f := p.hasMethod(i.T, m); f != nil {
				if q, ok := i.V.(*Value); ok && q == nil {
					return p.pad(dir, "<nil>")
				}
				s := p.call(f, []Value{copyVal(i.V)}, nil)
				if plain && verb != 'q' {
					return s
				}
				return p.fmtStr(dir, verb, s)
			}
		}
	}
	if h, ok := hostBasic(i.T, i.V); ok {
		return fmt.Sprintf(dir, h)
	}
	switch u := i.T.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return p.fmtStr(dir, verb, i.V)
		}
		if u.Info()&types.IsBoolean != 0 && (verb == 'v' || verb == 't') {
			if p.cond(i.V) {
				return p.pad(dir, "true")
			}
			return p.pad(dir, "false")
		}
		if w, s, ok := intInfo(i.T); ok {
			if verb == 'v' || verb == 'd' {
				v := p.itoaValue(i.V, w, s)
				if plain {
					return v
				}
				return p.fmtStr(strings.Replace(dir, string(verb), "s", 1), 's', p.forceStr(v, true))
			}
			if verb == 'c' {
				return p.conv(i.T, tString, i.V)
			}
			unsup("fmt %s of a symbolic integer", dir)
		}
		if u.Info()&types.IsFloat != 0 {
			return p.fmtFloat(dir, verb, i.V)
		}
	case *types.Slice:
		e := i.V.([]Value)
		if b := basic(u.Elem()); b != nil && b.Kind() == types.Uint8 {
			switch verb {
			case 's':
				return p.fmtStr(dir, verb, mkStr(e))
			case 'x':
				if h, ok := concBytes(e); ok {
					return fmt.Sprintf(dir, h)
				}
				if plain {
					return p.hexStr(e)
				}
			}
		}
		return p.fmtList(dir, verb, e, u.Elem())
	case *types.Array:
		if b := basic(u.Elem()); b != nil && b.Kind() == types.Uint8 && verb == 'x' && plain {
			return p.hexStr([]Value(i.V.(array)))
		}
		return p.fmtList(dir, verb, []Value(i.V.(array)), u.Elem())
	case *types.Map:
		m := i.V.(*Map)
		if verb != 'v' || !plain {
			break
		}
		type kv struct{ k, v Value }
		var l []kv
		allS := true
		if m != nil {
			for _, e := range m.ents {
				l = append(l, kv{e.k, e.v})
				k := e.k
				if ik, ok := k.(Iface); ok {
					k = ik.V
				}
				if _, ok := k.(string); !ok {
					allS = false
				}
			}
		}
		if !allS && len(l) > 1 {
			unsup("fmt of a map with symbolic keys")
		}
		ks := func(v Value) string {
			if ik, ok := v.(Iface); ok {
				v = ik.V
			}
			s, _ := v.(string)
			return s
		}
		sort.SliceStable(l, func(a, b int) bool { return ks(l[a].k) < ks(l[b].k) })
		var r Value = "map["
		for n, x := range l {
			if n > 0 {
				r = concatStr(r, " ")
			}
			r = concatStr(r, p.fmtArg("%v", 'v', asIface(u.Key(), x.k)))
			r = concatStr(r, ":")
			r = concatStr(r, p.fmtArg("%v", 'v', asIface(u.Elem(), x.v)))
		}
		return concatStr(r, "]")
	case *types.Struct:
		if verb == 'v' && (plain || dir == "%+v") {
			var r Value = "{"
			for n, x := range i.V.(structure) {
				if n > 0 {
					r = concatStr(r, " ")
				}
				if !plain {
					r = concatStr(r, u.Field(n).Name()+":")
				}
				r = concatStr(r, p.fmtArg(dir, 'v', asIface(u.Field(n).Type(), x)))
			}
			return concatStr(r, "}")
		}
	case *types.Pointer:
		if q, ok := i.V.(*Value); ok {
			if q == nil {
				return p.pad(dir, "<nil>")
			}
			if st, ok := u.Elem().Underlying().(*types.Struct); ok && verb == 'v' && (plain || dir == "%+v") {
				_ = st
				return concatStr("&", p.fmtArg(dir, 'v', Iface{u.Elem(), *q}))
			}
			return &SymStr{[]Value{&Atom{Kind: "ptr", Key: fmt.Sprintf("%p", q), Obj: q, Len: 12}}}
		}
	case *types.Signature, *types.Chan:
		return &SymStr{[]Value{&Atom{Kind: "ptr", Key: fmt.Sprintf("%p", i.V), Obj: i.V, Len: 12}}}
	}
	unsup("fmt %s of %v", dir, i.T)
	return nil
}

func asIface(t types.Type, v Value) Value {
	if x, ok := v.(Iface); ok {
		return x
	}
	return Iface{t, v}
}

func (p *Path) fmtList(dir string, verb byte, e []Value, et types.Type) Value {
	var r Value = "["
	for n, x := range e {
		if n > 0 {
			r = concatStr(r, " ")
		}
		r = concatStr(r, p.fmtArg(dir, verb, asIface(et, x)))
	}
	return concatStr(r, "]")
}

func concBytes(e []Value) ([]byte, bool) {
	b := make([]byte, len(e))
	for i, x := range e {
		c, ok := x.(int64)
		if !ok {
			return nil, false
		}
		b[i] = byte(c)
	}
	return b, true
}

func (p *Path) hexStr(e []Value) Value {
	var o []Value
	for _, b := range e {
		t := p.byteTerm(b)
		for _, n := range []*Term{p.pool.Extract(t, 7, 4), p.pool.Extract(t, 3, 0)} {
			z := p.pool.Zext(n, 8)
			c := p.pool.Ite(p.pool.BvCmp("bvult", z, p.pool.Byte(10)), p.pool.BvOp("bvadd", z, p.pool.Byte('0')), p.pool.BvOp("bvadd", z, p.pool.Byte('a'-10)))
			if !c.IsConst() {
				c.Safe, c.Set = true, setOf("0123456789abcdef")
			}
			o = append(o, p.fromBV(c, 8, false))
		}
	}
	return mkStr(o)
}

func (p *Path) pad(dir string, s string) Value {
	return fmt.Sprintf(strings.Map(func(r rune) rune {
		if r == '#' || r == '+' {
			return -1
		}
		return r
	}, dir[:len(dir)-1])+"s", s)
}

// fmtStr formats a possibly symbolic string with width/precision.
func (p *Path) fmtStr(dir string, verb byte, s Value) Value {
	if c, ok := s.(string); ok {
		return fmt.Sprintf(dir[:len(dir)-1]+string(verb), c)
	}
	if len(dir) == 2 && (verb == 'v' || verb == 's') {
		return s
	}
	if verb == 'x' && len(dir) == 2 {
		return p.hexStr(strElems(p.forceStr(s, true)))
	}
	if verb != 'q' && verb != 's' && verb != 'v' {
		unsup("fmt %s of symbolic text", dir)
	}
	if verb == 'q' {
		if len(dir) != 2 {
			unsup("fmt %s of symbolic text", dir)
		}
		e := strElems(p.forceStr(s, true))
		for _, b := range e {
			if t, ok := b.(*Term); ok && !t.Safe {
				unsup("fmt %%q of arbitrary text")
			}
		}
		return concatStr(concatStr("\"", s), "\"")
	}
	// flags width .prec
	f := dir[1 : len(dir)-1]
	left, zero := false, false
	for len(f) > 0 && strings.IndexByte("-+# 0", f[0]) >= 0 {
		if f[0] == '-' {
			left = true
		}
		if f[0] == '0' {
			zero = true
		}
		f = f[1:]
	}
	w, pr := 0, -1
	if k := strings.IndexByte(f, '.'); k >= 0 {
		pr, _ = strconv.Atoi(f[k+1:])
		f = f[:k]
	}
	if f != "" {
		w, _ = strconv.Atoi(f)
	}
	e := strElems(p.forceStr(s, false))
	n := 0
	for _, b := range e {
		switch x := b.(type) {
		case *Atom:
			if x.Len < 0 || pr >= 0 {
				unsup("width of opaque text")
			}
			n += x.Len
		case *Term:
			if !x.Safe && !p.decide(p.pool.BvCmp("bvult", x, p.pool.Byte(0x80))) {
				unsup("width of non-ASCII symbolic text")
			}
			n++
		case int64:
			if utf8.RuneStart(byte(x)) {
				n++
			}
		}
	}
	if pr >= 0 && n > pr {
		e = e[:pr]
		n = pr
	}
	padc := " "
	if zero && !left {
		padc = "0"
	}
	r := mkStr(e)
	if w > n {
		ps := strings.Repeat(padc, w-n)
		if left {
			return concatStr(r, ps)
		}
		return concatStr(ps, r)
	}
	return r
}

func (p *Path) fmtFloat(dir string, verb byte, v Value) Value {
	t := p.toReal(v)
	if t.Op != "to_real" {
		unsup("fmt of a symbolic non-integer float")
	}
	n := t.A[0]
	f := dir[1 : len(dir)-1]
	switch verb {
	case 'v', 'g':
		if f != "" {
			break
		}
		lim := p.pool.Int64(1000000)
		if p.decide(p.pool.And(p.pool.ILt(n, lim), p.pool.ILt(p.pool.INeg(n), lim))) {
			return p.itoaAtom(n)
		}
		return &SymStr{[]Value{&Atom{Kind: "floatexp", Arg: n, Len: -1}}}
	case 'f', 'F':
		if f == ".0" {
			return p.itoaAtom(n)
		}
		if f == "" {
			return concatStr(p.itoaAtom(n), ".000000")
		}
	}
	unsup("fmt %s of a symbolic float", dir)
	return nil
}

func (p *Path) sprintf(format Value, args []Value) Value {
	fs, ok := format.(string)
	if !ok {
		e := strElems(p.forceStr(format, false))
		// a symbolic format: only directive-free text is supported
		conc := true
		for _, b := range e {
			switch x := b.(type) {
			case int64:
				if x == '%' {
					conc = false
				}
			case *Term:
				if p.decide(p.pool.Eq(x, p.pool.Byte('%'))) {
					unsup("symbolic format directive")
				}
			}
		}
		if conc && len(args) == 0 {
			return format
		}
		// concrete parts may hold directives; symbolic runs are copied
		return p.sprintfElems(e, args)
	}
	return p.sprintfElems(strElems(fs), args)
}

func (p *Path) sprintfElems(e []Value, args []Value) Value {
	var o []Value
	an := 0
	extra := true
	for i := 0; i < len(e); {
		c, ok := e[i].(int64)
		if !ok || c != '%' {
			o = append(o, e[i])
			i++
			continue
		}
		j := i + 1
		dir := []byte{'%'}
		for j < len(e) {
			d, ok := e[j].(int64)
			if !ok {
				unsup("symbolic format directive")
			}
			if d == '*' && an < len(args) {
				if w, ok := args[an].(Iface).V.(int64); ok {
					dir = append(dir, strconv.FormatInt(w, 10)...)
					an++
					j++
					continue
				}
			}
			if d == '[' {
				k, n := j+1, 0
				for k < len(e) {
					x, ok := e[k].(int64)
					if !ok || x < '0' || x > '9' {
						break
					}
					n = n*10 + int(x-'0')
					k++
				}
				if k < len(e) && e[k] == Value(int64(']')) && n > 0 {
					an, extra, j = n-1, false, k+1
					continue
				}
			}
			if strings.IndexByte("+-# 0123456789.", byte(d)) < 0 {
				break
			}
			dir = append(dir, byte(d))
			j++
		}
		if j >= len(e) {
			o = append(o, strElems("%!(NOVERB)")...)
			break
		}
		d, ok := e[j].(int64)
		if !ok {
			unsup("symbolic format directive")
		}
		verb := byte(d)
		if verb == '*' || verb == '[' {
			unsup("fmt directive %c", verb)
		}
		dir = append(dir, verb)
		i = j + 1
		if verb == '%' {
			o = append(o, int64('%'))
			continue
		}
		if an >= len(args) {
			o = append(o, strElems("%!"+string(verb)+"(MISSING)")...)
			continue
		}
		a := args[an]
		an++
		if verb == 'w' {
			dir[len(dir)-1] = 'v'
			verb = 'v'
		}
		o = append(o, strElems(p.fmtArg(string(dir), verb, a))...)
	}
	if extra && an < len(args) {
		var r Value = "%!(EXTRA "
		for k, a := range args[an:] {
			if k > 0 {
				r = concatStr(r, ", ")
			}
			r = concatStr(r, p.fmtArg("%T", 'T', a))
			r = concatStr(r, "=")
			r = concatStr(r, p.fmtArg("%v", 'v', a))
		}
		o = append(o, strElems(concatStr(r, ")"))...)
	}
	return mkStr(o)
}

func (p *Path) sprint(args []Value, ln bool) Value {
	var r Value = ""
	prevStr := false
	for k, a := range args {
		i := a.(Iface)
		isStr := i.T != nil && basic(i.T) != nil && isString(i.T)
		if k > 0 && (ln || !isStr && !prevStr) {
			r = concatStr(r, " ")
		}
		r = concatStr(r, p.fmtArg("%v", 'v', a))
		prevStr = isStr
	}
	if ln {
		r = concatStr(r, "\n")
	}
	return r
}

// writeTo calls w.Write(text).
func (p *Path) writeTo(w Iface, text Value) Value {
	if w.T == nil {
		p.rtPanic("invalid memory address or nil pointer dereference (nil writer)")
	}
	f := p.methodByName(w.T, "Write")
	if f == nil {
		unsup("no Write on %v", w.T)
	}
	e := append([]Value(nil), strElems(text)...)
	return p.call(f, []Value{copyVal(w.V), e}, nil)
}

func (p *Path) stdout() Iface {
	g := p.eng.pkgByPath("os").Var("Stdout")
	v := *p.global(g).(*Value)
	return Iface{deref(g.Type()), v}
}

func variadic(v Value) []Value {
	s, _ := v.([]Value)
	return s
}

// ---------- json ----------

type jnode struct {
	k    byte // s n b 0 a o
	s    Value
	n    Value // float64 or Real term
	b    bool
	arr  []*jnode
	keys []Value
	src  []Value // the text of the value
}

type jparser struct {
	p *Path
	e []Value
	i int
	// set when the text is not valid JSON
}

type jsonErr string

func (j *jparser) fail(m string) { panic(jsonErr(m)) }

func (j *jparser) peek() byte {
	for j.i < len(j.e) {
		switch x := j.e[j.i].(type) {
		case int64:
			if x == ' ' || x == '\n' || x == '\t' || x == '\r' {
				j.i++
				continue
			}
			return byte(x)
		case *Atom:
			if x.Kind == "itoa" {
				return '0'
			}
			unsup("json: opaque text %s", x.Kind)
		case *Term:
			if x.Safe {
				// digits?
				if j.p.decide(j.p.inRange(x, '0', '9')) {
					return '0'
				}
			}
			c := j.p.concretize(x).(int64)
			j.e[j.i] = c
		}
	}
	j.fail("unexpected end of JSON input")
	return 0
}

func (j *jparser) lit(s string) {
	for k := 0; k < len(s); k++ {
		if j.i >= len(j.e) {
			j.fail("unexpected end of JSON input")
		}
		c, ok := j.e[j.i].(int64)
		if !ok {
			unsup("json: symbolic literal")
		}
		if byte(c) != s[k] {
			j.fail("invalid character in literal")
		}
		j.i++
	}
}

func (j *jparser) value(depth int) *jnode {
	if depth > 200 {
		unsup("json depth")
	}
	c := j.peek()
	at := j.i
	n := j.value1(c, depth)
	n.src = j.e[at:j.i:j.i]
	return n
}

func (j *jparser) value1(c byte, depth int) *jnode {
	switch {
	case c == '{':
		j.i++
		n := &jnode{k: 'o'}
		if j.peek() == '}' {
			j.i++
			return n
		}
		for {
			if j.peek() != '"' {
				j.fail("invalid character looking for beginning of object key string")
			}
			k := j.str()
			if j.peek() != ':' {
				j.fail("invalid character after object key")
			}
			j.i++
			v := j.value(depth + 1)
			n.keys = append(n.keys, k)
			n.arr = append(n.arr, v)
			switch j.peek() {
			case ',':
				j.i++
				continue
			case '}':
				j.i++
				return n
			}
			j.fail("invalid character after object key:value pair")
		}
	case c == '[':
		j.i++
		n := &jnode{k: 'a'}
		if j.peek() == ']' {
			j.i++
			return n
		}
		for {
			n.arr = append(n.arr, j.value(depth+1))
			switch j.peek() {
			case ',':
				j.i++
				continue
			case ']':
				j.i++
				return n
			}
			j.fail("invalid character after array element")
		}
	case c == '"':
		return &jnode{k: 's', s: j.str()}
	case c == 't':
		j.lit("true")
		return &jnode{k: 'b', b: true}
	case c == 'f':
		j.lit("false")
		return &jnode{k: 'b'}
	case c == 'n':
		j.lit("null")
		return &jnode{k: '0'}
	case c == '-' || c >= '0' && c <= '9':
		return j.num()
	}
	j.fail("invalid character looking for beginning of value")
	return nil
}

func (j *jparser) str() Value {
	j.i++
	var o []Value
	p := j.p
	for {
		if j.i >= len(j.e) {
			j.fail("unexpected end of JSON input")
		}
		switch x := j.e[j.i].(type) {
		case *Atom:
			o = append(o, x)
			j.i++
			continue
		case *Term:
			if x.Safe {
				o = append(o, x)
				j.i++
				continue
			}
			if p.decide(p.pool.Eq(x, p.pool.Byte('"'))) {
				j.i++
				return mkStr(o)
			}
			if p.decide(p.pool.Eq(x, p.pool.Byte('\\'))) {
				j.e[j.i] = int64('\\')
				continue
			}
			if p.decide(p.pool.BvCmp("bvult", x, p.pool.Byte(0x20))) {
				j.fail("invalid character in string literal")
			}
			if !p.decide(p.pool.BvCmp("bvult", x, p.pool.Byte(0x80))) {
				unsup("json: symbolic non-ASCII byte in a string")
			}
			o = append(o, x)
			j.i++
		case int64:
			c := byte(x)
			switch {
			case c == '"':
				j.i++
				return mkStr(o)
			case c == '\\':
				j.i++
				if j.i >= len(j.e) {
					j.fail("unexpected end of JSON input")
				}
				if t, ok := j.e[j.i].(*Term); ok {
					j.e[j.i] = p.concretize(t)
				}
				d, ok := j.e[j.i].(int64)
				if !ok {
					unsup("json: opaque escape")
				}
				j.i++
				switch byte(d) {
				case '"', '\\', '/':
					o = append(o, d)
				case 'b':
					o = append(o, int64('\b'))
				case 'f':
					o = append(o, int64('\f'))
				case 'n':
					o = append(o, int64('\n'))
				case 'r':
					o = append(o, int64('\r'))
				case 't':
					o = append(o, int64('\t'))
				case 'u':
					rd := func() rune {
						if j.i+4 > len(j.e) {
							j.fail("unexpected end of JSON input")
						}
						var h []byte
						for k := 0; k < 4; k++ {
							c, ok := j.e[j.i+k].(int64)
							if !ok {
								unsup("json: symbolic \\u escape")
							}
							h = append(h, byte(c))
						}
						n, err := strconv.ParseUint(string(h), 16, 32)
						if err != nil {
							j.fail("invalid character in \\u hexadecimal character escape")
						}
						j.i += 4
						return rune(n)
					}
					r := rd()
					if r >= 0xd800 && r < 0xdc00 && j.i+6 <= len(j.e) && j.e[j.i] == int64('\\') && j.e[j.i+1] == int64('u') {
						sv := j.i
						j.i += 2
						r2 := rd()
						if r2 >= 0xdc00 && r2 < 0xe000 {
							r = 0x10000 + (r-0xd800)<<10 + (r2 - 0xdc00)
						} else {
							j.i = sv
							r = 0xfffd
						}
					} else if r >= 0xd800 && r < 0xe000 {
						r = 0xfffd
					}
					for _, c := range []byte(string(r)) {
						o = append(o, int64(c))
					}
				default:
					j.fail("invalid character in string escape code")
				}
			case c < 0x20:
				j.fail("invalid character in string literal")
			case c >= 0x80:
				// concrete UTF-8 (invalid sequences become U+FFFD)
				var bs []byte
				for k := j.i; k < len(j.e) && k < j.i+4; k++ {
					y, ok := j.e[k].(int64)
					if !ok {
						break
					}
					bs = append(bs, byte(y))
				}
				r, n := utf8.DecodeRune(bs)
				for _, c := range []byte(string(r)) {
					o = append(o, int64(c))
				}
				j.i += n
			default:
				o = append(o, x)
				j.i++
			}
		}
	}
}

func (j *jparser) num() *jnode {
	p := j.p
	st := j.i
	sym := false
loop:
	for j.i < len(j.e) {
		switch x := j.e[j.i].(type) {
		case int64:
			if strings.IndexByte("0123456789+-.eE", byte(x)) < 0 {
				break loop
			}
		case *Atom:
			if x.Kind != "itoa" {
				unsup("json: opaque text in a number")
			}
			sym = true
		case *Term:
			if !p.decide(p.inRange(x, '0', '9')) {
				break loop
			}
			sym = true
		}
		j.i++
	}
	e := j.e[st:j.i]
	if !sym {
		b, _ := concBytes(e)
		s := string(b)
		// JSON number grammar
		ok := jsonNum(s)
		if !ok {
			j.fail("invalid number literal")
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			unsup("json: number out of range")
		}
		return &jnode{k: 'n', n: f, s: s}
	}
	if len(e) == 1 {
		if a, ok := e[0].(*Atom); ok {
			p.limit53(a.Arg)
			return &jnode{k: 'n', n: p.pool.ToReal(a.Arg), s: mkStr(e)}
		}
	}
	if t := p.textNum[textKey(e)]; t != nil {
		p.limit53(t)
		return &jnode{k: 'n', n: p.pool.ToReal(t), s: mkStr(e)}
	}
	neg := false
	ds := e
	if c, ok := ds[0].(int64); ok && c == '-' {
		neg = true
		ds = ds[1:]
	}
	v := p.pool.Int64(0)
	if len(ds) == 0 || len(ds) > 15 {
		unsup("json: symbolic number of %d digits", len(ds))
	}
	for k, b := range ds {
		if _, ok := b.(*Atom); ok {
			unsup("json: number mixing digits and opaque text")
		}
		if c, ok := b.(int64); ok && (c < '0' || c > '9') {
			unsup("json: symbolic number syntax")
		}
		t := p.byteTerm(b)
		if k == 0 && len(ds) > 1 && p.decide(p.pool.Eq(t, p.pool.Byte('0'))) {
			j.fail("invalid character after leading zero")
		}
		v = p.pool.IAdd(p.pool.IMul(v, p.pool.Int64(10)), p.digitVal(t))
	}
	if neg {
		v = p.pool.INeg(v)
	}
	p.numText[v.ID] = append([]Value(nil), e...)
	return &jnode{k: 'n', n: p.pool.ToReal(v), s: mkStr(e)}
}

func (p *Path) limit53(t *Term) {
	lim := pow2(53)
	if t.Hi.Cmp(lim) > 0 || t.Lo.Cmp(new(big.Int).Neg(lim)) < 0 {
		if !p.entails(p.pool.And(p.pool.ILe(t, p.pool.IntC(lim)), p.pool.ILe(p.pool.IntC(new(big.Int).Neg(lim)), t))) {
			unsup("integer beyond 2^53 in JSON")
		}
	}
}

func jsonNum(s string) bool {
	i := 0
	if i < len(s) && s[i] == '-' {
		i++
	}
	if i >= len(s) {
		return false
	}
	if s[i] == '0' {
		i++
	} else if s[i] >= '1' && s[i] <= '9' {
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
	} else {
		return false
	}
	if i < len(s) && s[i] == '.' {
		i++
		k := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i == k {
			return false
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		k := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i == k {
			return false
		}
	}
	return i == len(s)
}

func (p *Path) jsonParse(e []Value, whole bool) (n *jnode, rest []Value, errMsg string) {
	j := &jparser{p: p, e: append([]Value(nil), e...)}
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(jsonErr); ok {
				n = nil
				errMsg = string(m)
				return
			}
			panic(r)
		}
	}()
	n = j.value(0)
	rest = j.e[j.i:]
	if whole {
		for j.i < len(j.e) {
			j.peekEnd()
		}
	}
	return n, rest, ""
}

func (j *jparser) peekEnd() {
	x, ok := j.e[j.i].(int64)
	if ok && (x == ' ' || x == '\n' || x == '\t' || x == '\r') {
		j.i++
		return
	}
	if !ok {
		unsup("json: symbolic trailing text")
	}
	j.fail("invalid character after top-level value")
}

func (p *Path) jsonAny(n *jnode) Value {
	if n.k == 'n' && p.useNumber != nil {
		return Iface{p.useNumber, n.s}
	}
	switch n.k {
	case 's':
		return Iface{tString, n.s}
	case 'n':
		return Iface{tFloat, n.n}
	case 'b':
		return Iface{tBool, n.b}
	case '0':
		return Iface{}
	case 'a':
		s := make([]Value, len(n.arr))
		for i, x := range n.arr {
			s[i] = p.jsonAny(x)
		}
		return Iface{tAnySlice, s}
	case 'o':
		m := newMap(tString)
		for i, k := range n.keys {
			p.mapSet(m, k, p.jsonAny(n.arr[i]))
		}
		return Iface{tAnyMap, m}
	}
	panic("jsonAny")
}

// jsonInto stores a parsed value; returns an error text for the first type mismatch.
func (p *Path) jsonInto(dst *Value, t types.Type, n *jnode) string {
	if types.TypeString(t, nil) == "encoding/json.RawMessage" {
		*dst = append([]Value(nil), n.src...)
		return ""
	}
	if f := p.methodByName(types.NewPointer(t), "UnmarshalJSON"); f != nil {
		if _, isP := t.Underlying().(*types.Pointer); !isP && n.k != '0' {
			er := p.call(f, []Value{dst, append([]Value(nil), n.src...)}, nil).(Iface)
			if er.T == nil {
				return ""
			}
			s, ok := p.call(p.hasMethod(er.T, "Error"), []Value{er.V}, nil).(string)
			if !ok {
				unsup("symbolic error text of UnmarshalJSON on %v", t)
			}
			return s
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if u.NumMethods() != 0 {
			unsup("json into %v", t)
		}
		if n.k == '0' {
			*dst = Iface{}
			return ""
		}
		*dst = p.jsonAny(n)
		return ""
	case *types.Pointer:
		if n.k == '0' {
			*dst = (*Value)(nil)
			return ""
		}
		q, _ := (*dst).(*Value)
		if q == nil {
			q = new(Value)
			*q = zero(u.Elem())
			*dst = q
		}
		return p.jsonInto(q, u.Elem(), n)
	case *types.Map:
		if n.k == '0' {
			*dst = (*Map)(nil)
			return ""
		}
		if n.k != 'o' {
			return "json: cannot unmarshal into Go value of type " + t.String()
		}
		if !isString(u.Key()) {
			unsup("json into map keyed by %v", u.Key())
		}
		m, _ := (*dst).(*Map)
		if m == nil {
			m = newMap(u.Key())
			*dst = m
		}
		first := ""
		for i, k := range n.keys {
			v := zero(u.Elem())
			if e := p.jsonInto(&v, u.Elem(), n.arr[i]); e != "" {
				if first == "" {
					first = e
				}
			}
			p.mapSet(m, k, v)
		}
		return first
	case *types.Slice:
		if n.k == '0' {
			*dst = []Value(nil)
			return ""
		}
		if b := basic(u.Elem()); b != nil && b.Kind() == types.Uint8 && n.k == 's' {
			unsup("json base64 into []byte")
		}
		if n.k != 'a' {
			return "json: cannot unmarshal into Go value of type " + t.String()
		}
		s := make([]Value, len(n.arr))
		first := ""
		for i := range s {
			s[i] = zero(u.Elem())
			if e := p.jsonInto(&s[i], u.Elem(), n.arr[i]); e != "" && first == "" {
				first = e
			}
		}
		*dst = s
		return first
	case *types.Struct:
		if n.k == '0' {
			return ""
		}
		if n.k != 'o' {
			return "json: cannot unmarshal into Go value of type " + t.String()
		}
		st := (*dst).(structure)
		first := ""
		for i, k := range n.keys {
			f := p.structField(u, "json", k)
			if f < 0 {
				continue
			}
			if e := p.jsonInto(&st[f], u.Field(f).Type(), n.arr[i]); e != "" && first == "" {
				first = e
			}
		}
		return first
	case *types.Basic:
		if n.k == '0' {
			return ""
		}
		switch {
		case u.Info()&types.IsString != 0:
			if n.k == 's' {
				*dst = n.s
				return ""
			}
			if n.k == 'n' && types.TypeString(t, nil) == "encoding/json.Number" {
				*dst = n.s
				return ""
			}
		case u.Info()&types.IsBoolean != 0:
			if n.k == 'b' {
				*dst = n.b
				return ""
			}
		case u.Info()&types.IsFloat != 0:
			if n.k == 'n' {
				*dst = n.n
				return ""
			}
		case u.Info()&types.IsInteger != 0:
			if n.k == 'n' {
				w, s, _ := intInfo(t)
				switch f := n.n.(type) {
				case float64:
					str, _ := n.s.(string)
					if s {
						v, err := strconv.ParseInt(str, 10, w)
						if err != nil {
							return "json: cannot unmarshal number " + str
						}
						*dst = v
						return ""
					}
					v, err := strconv.ParseUint(str, 10, w)
					if err != nil {
						return "json: cannot unmarshal number " + str
					}
					*dst = int64(v)
					return ""
				case *Term:
					if f.Op == "to_real" && w == 64 && s {
						*dst = p.fromInt(f.A[0], s)
						return ""
					}
					unsup("json: symbolic number into %v", t)
				}
			}
		}
		return "json: cannot unmarshal into Go value of type " + t.String()
	}
	unsup("json into %v", t)
	return ""
}

func (p *Path) structField(u *types.Struct, tag string, key Value) int {
	fold := -1
	for f := 0; f < u.NumFields(); f++ {
		if !u.Field(f).Exported() {
			continue
		}
		if u.Field(f).Embedded() {
			unsup("decoding into embedded struct fields")
		}
		name := u.Field(f).Name()
		if tag == "yaml" {
			name = strings.ToLower(name)
		}
		tg := reflect.StructTag(u.Tag(f)).Get(tag)
		if tg == "-" {
			continue
		}
		if k := strings.IndexByte(tg, ','); k >= 0 {
			tg = tg[:k]
		}
		if tg != "" {
			name = tg
		}
		ks, ok := key.(string)
		if !ok {
			if p.cond(p.strEq(key, name)) {
				return f
			}
			continue
		}
		if ks == name {
			return f
		}
		if tag == "json" && strings.EqualFold(ks, name) && fold < 0 {
			fold = f
		}
	}
	return fold
}

// ---------- yaml ----------

// toTree converts a concrete value to a host tree for yaml.Marshal; ok=false when symbolic.
func toTree(t types.Type, v Value) (interface{}, bool) {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		i := v.(Iface)
		if i.T == nil {
			return nil, true
		}
		return toTree(i.T, i.V)
	case *types.Basic:
		return hostBasic(t, v)
	case *types.Map:
		m := v.(*Map)
		o := map[interface{}]interface{}{}
		if m == nil {
			return o, true
		}
		for _, e := range m.ents {
			k, ok := toTree(u.Key(), e.k)
			if !ok {
				return nil, false
			}
			x, ok := toTree(u.Elem(), e.v)
			if !ok {
				return nil, false
			}
			o[k] = x
		}
		return o, true
	case *types.Slice:
		var o []interface{}
		for _, e := range v.([]Value) {
			x, ok := toTree(u.Elem(), e)
			if !ok {
				return nil, false
			}
			o = append(o, x)
		}
		return o, true
	case *types.Pointer:
		q, ok := v.(*Value)
		if !ok {
			return nil, false
		}
		if q == nil {
			return nil, true
		}
		return toTree(u.Elem(), *q)
	case *types.Struct:
		var o yaml.MapSlice
		for f, x := range v.(structure) {
			if !u.Field(f).Exported() {
				continue
			}
			name := strings.ToLower(u.Field(f).Name())
			tg := reflect.StructTag(u.Tag(f)).Get("yaml")
			if tg == "-" {
				continue
			}
			if k := strings.IndexByte(tg, ','); k >= 0 {
				tg = tg[:k]
			}
			if tg != "" {
				name = tg
			}
			y, ok := toTree(u.Field(f).Type(), x)
			if !ok {
				return nil, false
			}
			o = append(o, yaml.MapItem{Key: name, Value: y})
		}
		return o, true
	}
	return nil, false
}

// snapshot converts any value into a generic tree of engine values (for opaque documents).
func (p *Path) snapshot(t types.Type, v Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		i := v.(Iface)
		if i.T == nil {
			return Iface{}
		}
		return p.snapshot(i.T, i.V)
	case *types.Basic:
		if isString(t) {
			return Iface{tString, v}
		}
		if isBool(t) {
			return Iface{tBool, v}
		}
		if isFloat(t) {
			return Iface{tFloat, v}
		}
		return Iface{tInt, v}
	case *types.Map:
		m := v.(*Map)
		o := newMap(emptyIface)
		if m != nil {
			for _, e := range m.ents {
				p.mapSet(o, p.snapshot(u.Key(), e.k), p.snapshot(u.Elem(), e.v))
			}
		}
		return Iface{tAnyAnyMap, o}
	case *types.Slice:
		var o []Value
		for _, e := range v.([]Value) {
			o = append(o, p.snapshot(u.Elem(), e))
		}
		return Iface{tAnySlice, o}
	case *types.Pointer:
		if q, ok := v.(*Value); ok {
			if q == nil {
				return Iface{}
			}
			return p.snapshot(u.Elem(), *q)
		}
	case *types.Struct:
		o := newMap(emptyIface)
		for f, x := range v.(structure) {
			if !u.Field(f).Exported() {
				continue
			}
			name := strings.ToLower(u.Field(f).Name())
			tg := reflect.StructTag(u.Tag(f)).Get("yaml")
			if tg == "-" {
				continue
			}
			if k := strings.IndexByte(tg, ','); k >= 0 {
				tg = tg[:k]
			}
			if tg != "" {
				name = tg
			}
			p.mapSet(o, Iface{tString, name}, p.snapshot(u.Field(f).Type(), x))
		}
		return Iface{tAnyAnyMap, o}
	}
	unsup("yaml of %v", t)
	return nil
}

func (p *Path) fromTree(x interface{}) Value {
	switch y := x.(type) {
	case nil:
		return Iface{}
	case string:
		return Iface{tString, y}
	case bool:
		return Iface{tBool, y}
	case int:
		return Iface{tInt, int64(y)}
	case float64:
		return Iface{tFloat, y}
	case map[interface{}]interface{}:
		m := newMap(emptyIface)
		var ks []interface{}
		for k := range y {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(a, b int) bool { return fmt.Sprint(ks[a]) < fmt.Sprint(ks[b]) })
		for _, k := range ks {
			p.mapSet(m, p.fromTree(k), p.fromTree(y[k]))
		}
		return Iface{tAnyAnyMap, m}
	case []interface{}:
		var o []Value
		for _, e := range y {
			o = append(o, p.fromTree(e))
		}
		return Iface{tAnySlice, o}
	}
	unsup("yaml value %T", x)
	return nil
}

// yamlInto stores a generic tree (Iface) into a typed destination.
func (p *Path) yamlInto(dst *Value, t types.Type, n Iface) string {
	mism := func() string { return "yaml: unmarshal errors:\n  cannot unmarshal into " + t.String() }
	switch u := t.Underlying().(type) {
	case *types.Interface:
		*dst = n
		return ""
	case *types.Pointer:
		if n.T == nil {
			*dst = (*Value)(nil)
			return ""
		}
		q, _ := (*dst).(*Value)
		if q == nil {
			q = new(Value)
			*q = zero(u.Elem())
			*dst = q
		}
		return p.yamlInto(q, u.Elem(), n)
	case *types.Map:
		if n.T == nil {
			*dst = (*Map)(nil)
			return ""
		}
		src, ok := n.V.(*Map)
		if !ok {
			return mism()
		}
		m, _ := (*dst).(*Map)
		if m == nil {
			m = newMap(u.Key())
			*dst = m
		}
		first := ""
		for _, e := range src.ents {
			k := zero(u.Key())
			if er := p.yamlInto(&k, u.Key(), asIface(nil, e.k).(Iface)); er != "" {
				if first == "" {
					first = er
				}
				continue
			}
			v := zero(u.Elem())
			if er := p.yamlInto(&v, u.Elem(), e.v.(Iface)); er != "" {
				if first == "" {
					first = er
				}
				continue
			}
			p.mapSet(m, k, v)
		}
		return first
	case *types.Struct:
		if n.T == nil {
			return ""
		}
		src, ok := n.V.(*Map)
		if !ok {
			return mism()
		}
		st := (*dst).(structure)
		first := ""
		for _, e := range src.ents {
			ki, _ := e.k.(Iface)
			f := p.structField(u, "yaml", ki.V)
			if f < 0 {
				continue
			}
			if er := p.yamlInto(&st[f], u.Field(f).Type(), e.v.(Iface)); er != "" && first == "" {
				first = er
			}
		}
		return first
	case *types.Slice:
		if n.T == nil {
			*dst = []Value(nil)
			return ""
		}
		s, ok := n.V.([]Value)
		if !ok {
			return mism()
		}
		var o []Value
		for _, x := range s {
			v := zero(u.Elem())
			if er := p.yamlInto(&v, u.Elem(), x.(Iface)); er != "" {
				return er
			}
			o = append(o, v)
		}
		*dst = o
		return ""
	case *types.Basic:
		if n.T == nil {
			return ""
		}
		switch {
		case isString(t):
			if isString(n.T) {
				*dst = n.V
				return ""
			}
			if basic(n.T) != nil {
				*dst = p.fmtArg("%v", 'v', n)
				return ""
			}
		case isBool(t):
			if basic(n.T) != nil && isBool(n.T) {
				*dst = n.V
				return ""
			}
		case isFloat(t):
			if basic(n.T) != nil && isFloat(n.T) {
				*dst = n.V
				return ""
			}
			if _, _, ok := intInfo(n.T); ok {
				*dst = p.conv(n.T, t, n.V)
				return ""
			}
		default:
			if w, s, ok := intInfo(t); ok {
				if _, _, ok := intInfo(n.T); ok {
					if i, ok := n.V.(int64); ok && norm(i, w, s) != i {
						return mism()
					}
					*dst = n.V
					return ""
				}
			}
		}
		return mism()
	}
	unsup("yaml into %v", t)
	return ""
}

// ---------- base64 ----------

func (p *Path) b64Info(enc Value) (alpha string, pad rune, ok bool) {
	q, isP := enc.(*Value)
	if !isP || q == nil {
		return "", 0, false
	}
	st, isS := (*q).(structure)
	if !isS {
		return "", 0, false
	}
	for _, f := range st {
		if a, ok := f.(array); ok && len(a) == 64 {
			b, ok := concBytes([]Value(a))
			if ok {
				alpha = string(b)
			}
		}
	}
	for _, f := range st {
		if r, ok := f.(int64); ok {
			pad = rune(r)
		}
	}
	return alpha, pad, alpha != ""
}

// b64Decode mirrors base64.StdEncoding's decoder on symbolic text: the decoded bytes and
// whether the text was corrupt (decoded bytes up to the corruption are returned, as Go does).
func (p *Path) b64Decode(e []Value) ([]Value, bool) {
	var out []Value
	var quad []*Term
	i := 0
	// next non-newline element
	next := func() (Value, bool) {
		for i < len(e) {
			c := e[i]
			i++
			if _, ok := c.(*Atom); ok {
				unsup("base64 of opaque text")
			}
			t := p.byteTerm(c)
			if t.IsConst() && (t.U == '\n' || t.U == '\r') {
				continue
			}
			if !t.IsConst() && !t.Safe && p.decide(p.pool.Or(p.pool.Eq(t, p.pool.Byte('\n')), p.pool.Eq(t, p.pool.Byte('\r')))) {
				continue
			}
			return c, true
		}
		return nil, false
	}
	emit := func(q []*Term) {
		x := func(k int) *Term { return p.pool.Extract(q[k], 5, 0) }
		if len(q) >= 2 {
			out = append(out, p.fromBV(p.pool.Concat(x(0), p.pool.Extract(q[1], 5, 4)), 8, false))
		}
		if len(q) >= 3 {
			out = append(out, p.fromBV(p.pool.Concat(p.pool.Extract(q[1], 3, 0), p.pool.Extract(q[2], 5, 2)), 8, false))
		}
		if len(q) >= 4 {
			out = append(out, p.fromBV(p.pool.Concat(p.pool.Extract(q[2], 1, 0), x(3)), 8, false))
		}
	}
	for {
		quad = nil
		for len(quad) < 4 {
			c, ok := next()
			if !ok {
				if len(quad) == 0 {
					return out, false
				}
				return out, true // truncated group with padding expected
			}
			t := p.byteTerm(c)
			d := p.pool.B64Dec(t)
			bad := p.pool.Eq(d, p.pool.Byte(0xff))
			if bad.IsConst() && !bad.B || !bad.IsConst() && !p.decide(bad) {
				quad = append(quad, d)
				continue
			}
			// not in the alphabet: padding or corruption
			if !p.decide(p.pool.Eq(t, p.pool.Byte('='))) {
				return out, true
			}
			switch len(quad) {
			case 0, 1:
				return out, true
			case 2:
				c2, ok := next()
				if !ok {
					return out, true
				}
				if !p.decide(p.pool.Eq(p.byteTerm(c2), p.pool.Byte('='))) {
					return out, true
				}
			}
			// trailing text after padding is corrupt, but the bytes are still produced
			_, more := next()
			emit(quad)
			return out, more
		}
		emit(quad)
	}
}

func (p *Path) b64Encode(e []Value) []Value {
	var out []Value
	enc := func(t *Term) Value { return p.fromBV(p.pool.B64Enc(t), 8, false) }
	for i := 0; i < len(e); i += 3 {
		n := len(e) - i
		a := p.byteTerm(e[i])
		out = append(out, enc(p.pool.Extract(a, 7, 2)))
		if n == 1 {
			out = append(out, enc(p.pool.Concat(p.pool.Extract(a, 1, 0), p.pool.BV(0, 4))), int64('='), int64('='))
			break
		}
		b := p.byteTerm(e[i+1])
		out = append(out, enc(p.pool.Concat(p.pool.Extract(a, 1, 0), p.pool.Extract(b, 7, 4))))
		if n == 2 {
			out = append(out, enc(p.pool.Concat(p.pool.Extract(b, 3, 0), p.pool.BV(0, 2))), int64('='))
			break
		}
		c := p.byteTerm(e[i+2])
		out = append(out, enc(p.pool.Concat(p.pool.Extract(b, 3, 0), p.pool.Extract(c, 7, 6))), enc(p.pool.Extract(c, 5, 0)))
	}
	return out
}

// ---------- registration ----------

func (p *Path) readAll(r Iface) ([]Value, Value) {
	t := p.call(p.eng.fnByName("io.ReadAll"), []Value{r}, nil).(tuple)
	return t[0].([]Value), t[1]
}

func registerMore() {
	reg("fmt.Sprintf", func(p *Path, fn *ssa.Function, a []Value) Value { return p.sprintf(a[0], variadic(a[1])) })
	reg("fmt.Sprint", func(p *Path, fn *ssa.Function, a []Value) Value { return p.sprint(variadic(a[0]), false) })
	reg("fmt.Sprintln", func(p *Path, fn *ssa.Function, a []Value) Value { return p.sprint(variadic(a[0]), true) })
	reg("fmt.Appendf", func(p *Path, fn *ssa.Function, a []Value) Value {
		return append(append([]Value(nil), a[0].([]Value)...), strElems(p.sprintf(a[1], variadic(a[2])))...)
	})
	reg("fmt.Printf", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.writeTo(p.stdout(), p.sprintf(a[0], variadic(a[1])))
	})
	reg("fmt.Print", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.writeTo(p.stdout(), p.sprint(variadic(a[0]), false))
	})
	reg("fmt.Println", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.writeTo(p.stdout(), p.sprint(variadic(a[0]), true))
	})
	reg("fmt.Fprintf", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.writeTo(a[0].(Iface), p.sprintf(a[1], variadic(a[2])))
	})
	reg("fmt.Fprint", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.writeTo(a[0].(Iface), p.sprint(variadic(a[1]), false))
	})
	reg("fmt.Fprintln", func(p *Path, fn *ssa.Function, a []Value) Value {
		return p.writeTo(a[0].(Iface), p.sprint(variadic(a[1]), true))
	})
	reg("fmt.Errorf", func(p *Path, fn *ssa.Function, a []Value) Value {
		msg := p.sprintf(a[0], variadic(a[1]))
		if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
			// the wrapped error is the operand of %w
			n := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] == '%' {
					j := i + 1
					for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
						j++
					}
					if j < len(f) && f[j] == 'w' {
						if n < len(variadic(a[1])) {
							fm := p.eng.pkgByPath("fmt").Type("wrapError")
							q := new(Value)
							*q = structure{msg, variadic(a[1])[n]}
							return Iface{types.NewPointer(fm.Type()), q}
						}
					}
					if j < len(f) && f[j] != '%' {
						n++
					}
					i = j
				}
			}
		}
		return p.errValue2(msg)
	})
	reg("strconv.FormatFloat", func(p *Path, fn *ssa.Function, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return strconv.FormatFloat(f, byte(a[1].(int64)), int(a[2].(int64)), int(a[3].(int64)))
		}
		t := p.toReal(a[0])
		if t.Op != "to_real" {
			unsup("FormatFloat of a symbolic non-integer")
		}
		switch {
		case a[1] == int64('f') && (a[2] == int64(-1) || a[2] == int64(0)):
			return p.itoaAtom(t.A[0])
		case a[1] == int64('g') && a[2] == int64(-1):
			return p.fmtFloat("%g", 'g', a[0])
		}
		unsup("FormatFloat of a symbolic value")
		return nil
	})
	reg("(encoding/json.Number).String", func(p *Path, fn *ssa.Function, a []Value) Value { return a[0] })

	// json
	reg("encoding/json.Unmarshal", func(p *Path, fn *ssa.Function, a []Value) Value {
		n, _, er := p.jsonParse(a[0].([]Value), true)
		if er != "" {
			return p.errValue(er)
		}
		return p.jsonStore(a[1].(Iface), n)
	})
	reg("encoding/json.Valid", func(p *Path, fn *ssa.Function, a []Value) Value {
		_, _, er := p.jsonParse(a[0].([]Value), true)
		return er == ""
	})
	reg("(*encoding/json.Decoder).Decode", func(p *Path, fn *ssa.Function, a []Value) Value {
		rd, ok := p.decReader(a[0])
		if !ok {
			unsup("json.Decoder without a reader")
		}
		m, _ := p.host["jsondec"].(map[Value][]Value)
		if m == nil {
			m = map[Value][]Value{}
			p.host["jsondec"] = m
		}
		buf, ok := m[a[0]]
		if !ok {
			var er Value
			buf, er = p.readAll(rd)
			if er.(Iface).T != nil {
				return er
			}
		}
		k := 0
		for k < len(buf) {
			c, ok := buf[k].(int64)
			if !ok || !(c == ' ' || c == '\n' || c == '\t' || c == '\r') {
				break
			}
			k++
		}
		if k == len(buf) {
			return *p.global(p.eng.pkgByPath("io").Var("EOF")).(*Value)
		}
		n, rest, er := p.jsonParse(buf, false)
		if er != "" {
			return p.errValue(er)
		}
		m[a[0]] = rest
		if us, _ := p.host["jsonnum"].(map[Value]bool); us[a[0]] {
			p.useNumber = p.eng.pkgByPath("encoding/json").Type("Number").Type()
			defer func() { p.useNumber = nil }()
		}
		return p.jsonStore(a[1].(Iface), n)
	})
	reg("encoding/json.NewDecoder", func(p *Path, fn *ssa.Function, a []Value) Value {
		v := new(Value)
		*v = zero(deref(fn.Signature.Results().At(0).Type()))
		m, _ := p.host["jsonrd"].(map[Value]Iface)
		if m == nil {
			m = map[Value]Iface{}
			p.host["jsonrd"] = m
		}
		m[v] = a[0].(Iface)
		return v
	})
	reg("(*encoding/json.Decoder).UseNumber", func(p *Path, fn *ssa.Function, a []Value) Value {
		m, _ := p.host["jsonnum"].(map[Value]bool)
		if m == nil {
			m = map[Value]bool{}
			p.host["jsonnum"] = m
		}
		m[a[0]] = true
		return tuple{}
	})
	reg("(*encoding/json.Decoder).More", func(p *Path, fn *ssa.Function, a []Value) Value {
		unsup("json.Decoder.More")
		return nil
	})
	reg("(syscall.Errno).Error", func(p *Path, fn *ssa.Function, a []Value) Value {
		n, ok := a[0].(int64)
		if !ok {
			unsup("symbolic errno")
		}
		return syscall.Errno(n).Error()
	})
	reg("time.newTimer", func(p *Path, fn *ssa.Function, a []Value) Value {
		v := new(Value)
		st := zero(deref(fn.Signature.Results().At(0).Type())).(structure)
		st[1] = true // initTimer
		*v = st
		return v
	})
	reg("time.stopTimer", func(p *Path, fn *ssa.Function, a []Value) Value { return true })
	reg("time.resetTimer", func(p *Path, fn *ssa.Function, a []Value) Value { return true })

	// yaml
	reg("gopkg.in/yaml.v2.Marshal", func(p *Path, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if tr, ok := toTree(emptyIface, i); ok {
			b, err := yaml.Marshal(tr)
			if err != nil {
				return tuple{[]Value(nil), p.errValue(err.Error())}
			}
			return tuple{strElems(string(b)), Iface{}}
		}
		return tuple{[]Value{&Atom{Kind: "token", Key: "yaml", Obj: p.snapshot(emptyIface, i), Len: 1}}, Iface{}}
	})
	unm := func(p *Path, fn *ssa.Function, a []Value) Value {
		e := a[0].([]Value)
		dst := a[1].(Iface)
		var n Iface
		if len(e) == 1 {
			if at, ok := e[0].(*Atom); ok && at.Kind == "token" && at.Key == "yaml" {
				n = at.Obj.(Iface)
				return p.yamlStore(dst, n)
			}
		}
		b, ok := concBytes(e)
		if !ok {
			unsup("yaml of symbolic text (%d %v)", len(e), e[:min(len(e), 5)])
		}
		var tr interface{}
		if err := yaml.Unmarshal(b, &tr); err != nil {
			return p.errValue(err.Error())
		}
		if tr == nil {
			return Iface{}
		}
		n = p.fromTree(tr).(Iface)
		return p.yamlStore(dst, n)
	}
	reg("gopkg.in/yaml.v2.Unmarshal", unm)
	reg("gopkg.in/yaml.v2.UnmarshalStrict", unm)

	// base64
	reg("(*encoding/base64.Encoding).DecodeString", func(p *Path, fn *ssa.Function, a []Value) Value {
		alpha, pad, ok := p.b64Info(a[0])
		if !ok || alpha != b64std || pad != '=' {
			if s, ok2 := a[1].(string); ok2 && ok {
				enc := base64.NewEncoding(alpha).WithPadding(pad)
				b, err := enc.DecodeString(s)
				var ev Value = Iface{}
				if err != nil {
					ev = p.errValue(err.Error())
				}
				return tuple{strElems(string(b)), ev}
			}
			return p.interpBody(fn, a)
		}
		if s, ok := a[1].(string); ok {
			b, err := base64.StdEncoding.DecodeString(s)
			var ev Value = Iface{}
			if err != nil {
				ev = p.errValue(err.Error())
			}
			return tuple{strElems(string(b)), ev}
		}
		out, bad := p.b64Decode(strElems(p.forceStr(a[1], true)))
		if out == nil {
			out = []Value{}
		}
		var ev Value = Iface{}
		if bad {
			ev = p.errValue("illegal base64 data")
		}
		return tuple{out, ev}
	})
	reg("(*encoding/base64.Encoding).EncodeToString", func(p *Path, fn *ssa.Function, a []Value) Value {
		alpha, pad, ok := p.b64Info(a[0])
		if !ok || alpha != b64std || pad != '=' {
			return p.interpBody(fn, a)
		}
		return mkStr(p.b64Encode(a[1].([]Value)))
	})

	// hex
	reg("encoding/hex.EncodeToString", func(p *Path, fn *ssa.Function, a []Value) Value { return p.hexStr(a[0].([]Value)) })

	// time
	reg("(time.Time).Format", func(p *Path, fn *ssa.Function, a []Value) Value {
		layout, ok := a[1].(string)
		st := a[0].(structure)
		sec := p.call(p.eng.fnByMethod("time", "Time", "Unix"), []Value{st}, nil)
		locKind := "Local"
		if q, isP := st[2].(*Value); isP && q == nil {
			locKind = "UTC"
		}
		if s, isC := sec.(int64); isC && ok {
			if z, isZ := p.call(p.eng.fnByMethod("time", "Time", "Zone"), []Value{st}, nil).(tuple); isZ && locKind == "Local" {
				nm, ok1 := z[0].(string)
				off, ok2 := z[1].(int64)
				ns, ok3 := p.call(p.eng.fnByMethod("time", "Time", "Nanosecond"), []Value{st}, nil).(int64)
				if ok1 && ok2 && ok3 {
					return time.Unix(s, ns).In(time.FixedZone(nm, int(off))).Format(layout)
				}
			}
			return timeFormat(s, layout, locKind == "Local")
		}
		if !ok {
			unsup("symbolic time layout")
		}
		n := len(timeFormat(1600000000, layout, false))
		t := p.toInt(sec, 64, true)
		fixed := layout == "2006-01-02" || layout == "2006-01-02 15:04:05" || layout == "200601" || layout == "2006-01"
		if !fixed {
			n = -1
		}
		return &SymStr{[]Value{&Atom{Kind: "timefmt", Key: layout + "@" + locKind, Arg: t, Len: n}}}
	})
	// help texts are not modelled
	reg("github.com/spf13/cobra.tmpl", func(p *Path, fn *ssa.Function, a []Value) Value { return Iface{} })
	reg("time.runtimeNano", func(p *Path, fn *ssa.Function, a []Value) Value { return int64(1) })
	reg("(*time.Location).get", func(p *Path, fn *ssa.Function, a []Value) Value {
		if q, ok := a[0].(*Value); ok && q == nil {
			return p.global(p.eng.pkgByPath("time").Var("utcLoc"))
		}
		return a[0]
	})
	reg("(time.Time).String", func(p *Path, fn *ssa.Function, a []Value) Value {
		st := a[0].(structure)
		sec := p.call(p.eng.fnByMethod("time", "Time", "Unix"), []Value{st}, nil)
		if s, isC := sec.(int64); isC {
			q, isP := st[2].(*Value)
			return timeFormat(s, "2006-01-02 15:04:05 -0700 MST", !isP || q != nil)
		}
		return &SymStr{[]Value{&Atom{Kind: "timefmt", Key: "String", Arg: p.toInt(sec, 64, true), Len: -1}}}
	})

	// table rendering: header and rows, cells separated by " ║ "
	reg("(*github.com/jedib0t/go-pretty/v6/table.Table).Render", func(p *Path, fn *ssa.Function, a []Value) Value {
		q := a[0].(*Value)
		st := (*q).(structure)
		u := deref(fn.Signature.Recv().Type()).Underlying().(*types.Struct)
		field := func(n string) Value {
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == n {
					return st[i]
				}
			}
			unsup("table field %s", n)
			return nil
		}
		// what the model does not know is left to native runs
		for _, n := range []string{"allowedRowLength", "pageSize"} {
			if c, ok := field(n).(int64); !ok || c != 0 {
				unsup("table with %s", n)
			}
		}
		for _, n := range []string{"autoIndex", "suppressEmptyColumns"} {
			if c, ok := field(n).(bool); !ok || c {
				unsup("table with %s", n)
			}
		}
		for _, n := range []string{"columnConfigs", "sortBy", "rowsFooterRaw"} {
			if c, ok := field(n).([]Value); ok && len(c) > 0 {
				unsup("table with %s", n)
			}
		}
		var r Value = ""
		line := func(row []Value, up bool) {
			var l Value = "║ "
			for k, c := range row {
				if k > 0 {
					l = concatStr(l, " ║ ")
				}
				s := p.fmtArg("%v", 'v', c)
				if up {
					s = p.mapStr(s, p.upper)
				}
				l = concatStr(l, s)
			}
			l = concatStr(l, " ║")
			if x, ok := r.(string); !ok || x != "" {
				r = concatStr(r, "\n")
			}
			r = concatStr(r, l)
		}
		for _, h := range field("rowsHeaderRaw").([]Value) {
			line(h.([]Value), true)
		}
		for _, h := range field("rowsRaw").([]Value) {
			line(h.([]Value), false)
		}
		if om := field("outputMirror").(Iface); om.T != nil {
			p.writeTo(om, concatStr(r, "\n"))
		}
		return r
	})
	reg("(github.com/jedib0t/go-pretty/v6/text.Align).Apply", func(p *Path, fn *ssa.Function, a []Value) Value {
		// AlignCenter on plain text: pad with spaces on both sides
		n := p.concInt(a[2], tInt)
		s := p.strTrimSpaces(a[1])
		l := p.strLen(s)
		if l >= n {
			return a[1]
		}
		sp := func(k int) string { return strings.Repeat(" ", k) }
		switch a[0].(int64) {
		case 2: // AlignCenter
			return concatStr(concatStr(sp((n-l)/2), s), sp(n-l-(n-l)/2))
		case 4:
			return concatStr(sp(n-l), s)
		}
		unsup("text alignment")
		return nil
	})
	_ = math.Abs
}

func (p *Path) strTrimSpaces(v Value) Value {
	e := strElems(v)
	is := func(x Value) bool { c, ok := x.(int64); return ok && c == ' ' }
	lo, hi := 0, len(e)
	for lo < hi && is(e[lo]) {
		lo++
	}
	for hi > lo && is(e[hi-1]) {
		hi--
	}
	return mkStr(e[lo:hi])
}

func (p *Path) errValue2(msg Value) Value {
	return p.call(p.eng.fnByName("errors.New"), []Value{msg}, nil)
}

func (p *Path) jsonStore(dst Iface, n *jnode) Value {
	pt, ok := dst.T.Underlying().(*types.Pointer)
	if !ok {
		return p.errValue("json: Unmarshal(non-pointer)")
	}
	q := dst.V.(*Value)
	if q == nil {
		return p.errValue("json: Unmarshal(nil)")
	}
	if er := p.jsonInto(q, pt.Elem(), n); er != "" {
		return p.errValue(er)
	}
	return Iface{}
}

func (p *Path) yamlStore(dst Iface, n Iface) Value {
	pt, ok := dst.T.Underlying().(*types.Pointer)
	if !ok {
		unsup("yaml.Unmarshal into %v", dst.T)
	}
	if er := p.yamlInto(dst.V.(*Value), pt.Elem(), n); er != "" {
		return p.errValue(er)
	}
	return Iface{}
}

func (p *Path) decReader(d Value) (Iface, bool) {
	m, _ := p.host["jsonrd"].(map[Value]Iface)
	r, ok := m[d]
	return r, ok
}
