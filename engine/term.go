package main

// Hash-consed SMT terms with local simplification. One TermPool per worker.

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KInt
	KReal
)

type Sort struct {
	K Kind
	W int
}

var (
	SBool = Sort{KBool, 0}
	SInt  = Sort{KInt, 0}
	SReal = Sort{KReal, 0}
)

func SBV(w int) Sort { return Sort{KBV, w} }

func (s Sort) String() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KInt:
		return "Int"
	case KReal:
		return "Real"
	}
	return "(_ BitVec " + strconv.Itoa(s.W) + ")"
}

type Term struct {
	Op     string // "var","const","uf" or the SMT operator
	S      Sort
	A      []*Term
	B      bool     // Bool const
	U      uint64   // BV const (w<=64)
	Z      *big.Int // Int const
	R      *big.Rat // Real const
	Name   string   // var/uf name
	P1, P2 int      // extract hi/lo, zext amount...
	ID     int
	Lo, Hi *big.Int   // Int interval (never nil for Int terms of Go integers)
	Digit  bool       // byte known to be a decimal digit
	Safe   bool       // byte known to be printable ASCII other than quote and backslash
	Set    *[4]uint64 // the values a byte can have, when they are few
	NonNeg bool       // Real known not to be negative
}

type TermPool struct {
	tab   map[string]*Term
	n     int
	bytes [256]*Term
	tTrue *Term
	tFals *Term
}

func NewPool() *TermPool {
	p := &TermPool{tab: map[string]*Term{}}
	p.tTrue = p.mk(&Term{Op: "const", S: SBool, B: true})
	p.tFals = p.mk(&Term{Op: "const", S: SBool, B: false})
	for i := range p.bytes {
		p.bytes[i] = p.BV(uint64(i), 8)
	}
	return p
}

func (p *TermPool) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteByte(byte('0' + t.S.K))
	sb.WriteString(strconv.Itoa(t.S.W))
	switch t.Op {
	case "const":
		switch t.S.K {
		case KBool:
			if t.B {
				sb.WriteByte('T')
			}
		case KBV:
			sb.WriteString(strconv.FormatUint(t.U, 16))
		case KInt:
			sb.WriteString(t.Z.String())
		case KReal:
			sb.WriteString(t.R.String())
		}
	case "var", "uf":
		sb.WriteString(t.Name)
	}
	if t.P1 != 0 || t.P2 != 0 {
		sb.WriteString(fmt.Sprintf("#%d,%d", t.P1, t.P2))
	}
	for _, a := range t.A {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if o, ok := p.tab[k]; ok {
		return o
	}
	p.n++
	t.ID = p.n
	p.tab[k] = t
	return t
}

func (t *Term) IsConst() bool { return t.Op == "const" }

func (p *TermPool) Bool(b bool) *Term {
	if b {
		return p.tTrue
	}
	return p.tFals
}
func (p *TermPool) BV(u uint64, w int) *Term {
	if w < 64 {
		u &= (1 << uint(w)) - 1
	}
	return p.mk(&Term{Op: "const", S: SBV(w), U: u})
}
func (p *TermPool) Byte(b byte) *Term { return p.bytes[b] }
func (p *TermPool) IntC(z *big.Int) *Term {
	return p.mk(&Term{Op: "const", S: SInt, Z: z, Lo: z, Hi: z})
}
func (p *TermPool) Int64(i int64) *Term { return p.IntC(big.NewInt(i)) }
func (p *TermPool) RealC(r *big.Rat) *Term {
	return p.mk(&Term{Op: "const", S: SReal, R: r})
}
func (p *TermPool) Var(name string, s Sort) *Term {
	return p.mk(&Term{Op: "var", S: s, Name: name})
}
func (p *TermPool) IntVar(name string, lo, hi *big.Int) *Term {
	t := p.Var(name, SInt)
	if t.Lo == nil {
		t.Lo, t.Hi = lo, hi
	}
	return t
}
func (p *TermPool) UF(name string, s Sort, args ...*Term) *Term {
	return p.mk(&Term{Op: "uf", S: s, Name: name, A: args})
}

func (p *TermPool) Not(a *Term) *Term {
	if a.IsConst() {
		return p.Bool(!a.B)
	}
	if a.Op == "not" {
		return a.A[0]
	}
	return p.mk(&Term{Op: "not", S: SBool, A: []*Term{a}})
}
func (p *TermPool) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.IsConst() {
			return x.B
		}
		if x.Op == "and" {
			for _, y := range x.A {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if !seen[x.ID] {
			if x.Op == "not" && seen[x.A[0].ID] {
				return false
			}
			seen[x.ID] = true
			out = append(out, x)
		}
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return p.tFals
		}
	}
	if len(out) == 0 {
		return p.tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return p.mk(&Term{Op: "and", S: SBool, A: out})
}
func (p *TermPool) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		if x.IsConst() {
			if x.B {
				return p.tTrue
			}
			continue
		}
		if x.Op == "or" {
			for _, y := range x.A {
				if !seen[y.ID] {
					seen[y.ID] = true
					out = append(out, y)
				}
			}
			continue
		}
		if !seen[x.ID] {
			seen[x.ID] = true
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return p.tFals
	}
	if len(out) == 1 {
		return out[0]
	}
	return p.mk(&Term{Op: "or", S: SBool, A: out})
}
func (p *TermPool) Ite(c, a, b *Term) *Term {
	if c.IsConst() {
		if c.B {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.S.K == KBool {
		if a.IsConst() {
			if a.B {
				return p.Or(c, b)
			}
			return p.And(p.Not(c), b)
		}
		if b.IsConst() {
			if b.B {
				return p.Or(p.Not(c), a)
			}
			return p.And(c, a)
		}
	}
	if a.S != b.S {
		panic(unsupported("ite sort mismatch"))
	}
	t := &Term{Op: "ite", S: a.S, A: []*Term{c, a, b}}
	if a.S.K == KInt && a.Lo != nil && b.Lo != nil {
		t.Lo, t.Hi = bmin(a.Lo, b.Lo), bmax(a.Hi, b.Hi)
	}
	t.Safe = a.safe() && b.safe()
	if x, y := a.set(), b.set(); x != nil && y != nil {
		t.Set = &[4]uint64{x[0] | y[0], x[1] | y[1], x[2] | y[2], x[3] | y[3]}
	}
	return p.mk(t)
}

func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// set gives the known values of a byte or nil.
func (t *Term) set() *[4]uint64 {
	if t.Set == nil && t.IsConst() && t.S.K == KBV && t.S.W == 8 {
		t.Set = &[4]uint64{}
		t.Set[t.U>>6] = 1 << (t.U & 63)
	}
	return t.Set
}
func setOf(s string) *[4]uint64 {
	r := &[4]uint64{}
	for i := 0; i < len(s); i++ {
		r[s[i]>>6] |= 1 << (s[i] & 63)
	}
	return r
}
func setHas(s *[4]uint64, v int) bool { return s[v>>6]>>(uint(v)&63)&1 == 1 }

func (t *Term) safe() bool {
	if t.IsConst() && t.S.K == KBV {
		return t.U >= 0x20 && t.U < 0x7f && t.U != '"' && t.U != '\\'
	}
	return t.Safe
}

func (p *TermPool) Eq(a, b *Term) *Term {
	if a == b {
		return p.tTrue
	}
	if a.S != b.S {
		panic(unsupported("eq sort mismatch " + a.S.String() + " " + b.S.String()))
	}
	if a.IsConst() && b.IsConst() {
		return p.tFals // hash-consed: different constants
	}
	if a.IsConst() {
		a, b = b, a
	}
	switch a.S.K {
	case KBool:
		if b.IsConst() {
			if b.B {
				return a
			}
			return p.Not(a)
		}
	case KInt:
		if a.Lo != nil && b.Lo != nil && (a.Hi.Cmp(b.Lo) < 0 || b.Hi.Cmp(a.Lo) < 0) {
			return p.tFals
		}
	case KBV:
		if b.IsConst() {
			if a.Set != nil && !setHas(a.Set, int(b.U)) {
				return p.tFals
			}
			switch a.Op {
			case "zext":
				iw := a.A[0].S.W
				if iw < 64 && b.U>>uint(iw) != 0 {
					return p.tFals
				}
				return p.Eq(a.A[0], p.BV(b.U, iw))
			case "ite":
				x, y := a.A[1], a.A[2]
				if x.IsConst() || y.IsConst() {
					return p.Ite(a.A[0], p.Eq(x, b), p.Eq(y, b))
				}
			case "bvxor":
				if a.A[1].IsConst() {
					return p.Eq(a.A[0], p.BV(b.U^a.A[1].U, a.S.W))
				}
			case "bvadd":
				if a.A[1].IsConst() {
					return p.Eq(a.A[0], p.BV(b.U-a.A[1].U, a.S.W))
				}
			case "concat":
				if a.S.W <= 64 {
					var cs []*Term
					sh := a.S.W
					for _, x := range a.A {
						sh -= x.S.W
						cs = append(cs, p.Eq(x, p.BV(b.U>>uint(sh), x.S.W)))
					}
					return p.And(cs...)
				}
			}
		}
		// x^m == x  <=> m == 0
		if a.Op == "bvxor" && (a.A[0] == b || a.A[1] == b) || b.Op == "bvxor" && (b.A[0] == a || b.A[1] == a) {
			if b.Op == "bvxor" && (b.A[0] == a || b.A[1] == a) {
				a, b = b, a
			}
			o := a.A[0]
			if o == b {
				o = a.A[1]
			}
			return p.Eq(o, p.BV(0, o.S.W))
		}
		if a.Op == "concat" && b.Op == "concat" && len(a.A) == len(b.A) {
			same := true
			for i := range a.A {
				if a.A[i].S != b.A[i].S {
					same = false
				}
			}
			if same {
				var cs []*Term
				for i := range a.A {
					cs = append(cs, p.Eq(a.A[i], b.A[i]))
				}
				return p.And(cs...)
			}
		}
	}
	if a.ID > b.ID && !b.IsConst() {
		a, b = b, a
	}
	return p.mk(&Term{Op: "=", S: SBool, A: []*Term{a, b}})
}

// ---- bit-vectors ----

func sx(u uint64, w int) int64 {
	if w >= 64 {
		return int64(u)
	}
	sh := uint(64 - w)
	return int64(u<<sh) >> sh
}

func (p *TermPool) BvOp(op string, a, b *Term) *Term {
	w := a.S.W
	if a.S != b.S {
		panic(unsupported("bv sort mismatch " + op))
	}
	if a.IsConst() && b.IsConst() && w <= 64 {
		x, y := a.U, b.U
		switch op {
		case "bvadd":
			return p.BV(x+y, w)
		case "bvsub":
			return p.BV(x-y, w)
		case "bvmul":
			return p.BV(x*y, w)
		case "bvand":
			return p.BV(x&y, w)
		case "bvor":
			return p.BV(x|y, w)
		case "bvxor":
			return p.BV(x^y, w)
		case "bvshl":
			if y >= uint64(w) {
				return p.BV(0, w)
			}
			return p.BV(x<<y, w)
		case "bvlshr":
			if y >= uint64(w) {
				return p.BV(0, w)
			}
			return p.BV(x>>y, w)
		case "bvashr":
			if y >= uint64(w) {
				y = uint64(w - 1)
			}
			return p.BV(uint64(sx(x, w)>>y), w)
		case "bvudiv":
			if y != 0 {
				return p.BV(x/y, w)
			}
		case "bvurem":
			if y != 0 {
				return p.BV(x%y, w)
			}
		case "bvsdiv":
			if y != 0 {
				return p.BV(uint64(sx(x, w)/sx(y, w)), w)
			}
		case "bvsrem":
			if y != 0 {
				return p.BV(uint64(sx(x, w)%sx(y, w)), w)
			}
		}
	}
	switch op {
	case "bvadd", "bvor", "bvxor", "bvand", "bvmul":
		if a.IsConst() {
			a, b = b, a
		}
	}
	if b.IsConst() {
		switch op {
		case "bvadd", "bvsub", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr":
			if b.U == 0 {
				return a
			}
		case "bvmul":
			if b.U == 1 {
				return a
			}
			if b.U == 0 {
				return b
			}
		case "bvand":
			if b.U == 0 {
				return b
			}
			if w <= 64 && b.U == p.BV(^uint64(0), w).U {
				return a
			}
		}
		if op == "bvsub" {
			return p.BvOp("bvadd", a, p.BV(-b.U, w))
		}
		if op == "bvadd" && a.Op == "bvadd" && a.A[1].IsConst() {
			return p.BvOp("bvadd", a.A[0], p.BV(a.A[1].U+b.U, w))
		}
		// structure-preserving shifts and masks (byte packing)
		if op == "bvshl" && w <= 64 && b.U < uint64(w) {
			k := int(b.U)
			return p.Concat(p.Extract(a, w-1-k, 0), p.BV(0, k))
		}
		if op == "bvlshr" && w <= 64 && b.U < uint64(w) {
			k := int(b.U)
			return p.Zext(p.Extract(a, w-1, k), w)
		}
		if op == "bvand" && w <= 64 {
			// low mask
			for k := 1; k < w; k++ {
				if b.U == (uint64(1)<<uint(k))-1 {
					return p.Zext(p.Extract(a, k-1, 0), w)
				}
			}
		}
	}
	if op == "bvxor" {
		if a == b {
			return p.BV(0, w)
		}
		// (x^y)^y = x
		for _, pr := range [][2]*Term{{a, b}, {b, a}} {
			if pr[0].Op == "bvxor" {
				if pr[0].A[0] == pr[1] {
					return pr[0].A[1]
				}
				if pr[0].A[1] == pr[1] {
					return pr[0].A[0]
				}
			}
		}
	}
	if op == "bvsub" && a == b {
		return p.BV(0, w)
	}
	if op == "bvor" {
		if a == b {
			return a
		}
		if t := p.orConcat(a, b); t != nil {
			return t
		}
	}
	if (op == "bvxor" || op == "bvor" || op == "bvand" || op == "bvadd") && a.ID > b.ID && !b.IsConst() {
		a, b = b, a
	}
	return p.mk(&Term{Op: op, S: a.S, A: []*Term{a, b}})
}

// orConcat merges disjoint byte packings: zero-extended / zero-padded operands become one concat.
func (p *TermPool) orConcat(a, b *Term) *Term {
	sa, sb := p.segs(a), p.segs(b)
	if sa == nil || sb == nil {
		return nil
	}
	var out []*Term
	i, j := 0, 0
	for i < len(sa) && j < len(sb) {
		x, y := sa[i], sb[j]
		if x.S.W > y.S.W {
			if !(x.IsConst() && x.U == 0) {
				return nil
			}
			sa[i] = p.BV(0, x.S.W-y.S.W)
			out = append(out, y)
			j++
			continue
		}
		if y.S.W > x.S.W {
			if !(y.IsConst() && y.U == 0) {
				return nil
			}
			sb[j] = p.BV(0, y.S.W-x.S.W)
			out = append(out, x)
			i++
			continue
		}
		if x.IsConst() && x.U == 0 {
			out = append(out, y)
		} else if y.IsConst() && y.U == 0 {
			out = append(out, x)
		} else {
			return nil
		}
		i++
		j++
	}
	return p.Concat(out...)
}
func (p *TermPool) segs(a *Term) []*Term {
	switch a.Op {
	case "concat":
		return append([]*Term(nil), a.A...)
	case "zext":
		return append([]*Term{p.BV(0, a.S.W-a.A[0].S.W)}, p.segsOr(a.A[0])...)
	}
	return nil
}
func (p *TermPool) segsOr(a *Term) []*Term {
	if s := p.segs(a); s != nil {
		return s
	}
	return []*Term{a}
}

func (p *TermPool) BvCmp(op string, a, b *Term) *Term { // bvult bvule bvslt bvsle
	w := a.S.W
	if a == b {
		return p.Bool(op == "bvule" || op == "bvsle")
	}
	if a.IsConst() && b.IsConst() && w <= 64 {
		switch op {
		case "bvult":
			return p.Bool(a.U < b.U)
		case "bvule":
			return p.Bool(a.U <= b.U)
		case "bvslt":
			return p.Bool(sx(a.U, w) < sx(b.U, w))
		case "bvsle":
			return p.Bool(sx(a.U, w) <= sx(b.U, w))
		}
	}
	if w == 8 && (op == "bvult" || op == "bvule") && (a.Set != nil && b.IsConst() || b.Set != nil && a.IsConst()) {
		x, y := a.set(), b.set()
		all, none := true, true
		for i := 0; i < 256; i++ {
			if !setHas(x, i) {
				continue
			}
			for j := 0; j < 256; j++ {
				if setHas(y, j) {
					if i < j || op == "bvule" && i == j {
						none = false
					} else {
						all = false
					}
				}
			}
		}
		if all || none {
			return p.Bool(all)
		}
	}
	// zero-extended operands compare unsigned at the inner width
	if (op == "bvslt" || op == "bvsle") && w <= 64 {
		nn := func(t *Term) bool {
			return t.Op == "zext" || t.IsConst() && sx(t.U, w) >= 0
		}
		if nn(a) && nn(b) {
			op = map[string]string{"bvslt": "bvult", "bvsle": "bvule"}[op]
		} else if a.Op == "zext" && b.IsConst() {
			return p.tFals // b negative
		} else if b.Op == "zext" && a.IsConst() {
			return p.tTrue
		}
	}
	if op == "bvult" || op == "bvule" {
		if a.Op == "zext" && b.IsConst() && w <= 64 {
			iw := a.A[0].S.W
			if iw < 64 && b.U>>uint(iw) != 0 {
				return p.tTrue
			}
			return p.BvCmp(op, a.A[0], p.BV(b.U, iw))
		}
		if b.Op == "zext" && a.IsConst() && w <= 64 {
			iw := b.A[0].S.W
			if iw < 64 && a.U>>uint(iw) != 0 {
				return p.tFals
			}
			return p.BvCmp(op, p.BV(a.U, iw), b.A[0])
		}
		if a.Op == "zext" && b.Op == "zext" && a.A[0].S == b.A[0].S {
			return p.BvCmp(op, a.A[0], b.A[0])
		}
		if op == "bvult" && b.IsConst() && b.U == 0 {
			return p.tFals
		}
		if op == "bvule" && a.IsConst() && a.U == 0 {
			return p.tTrue
		}
		if op == "bvule" && b.IsConst() && w <= 64 && b.U == p.BV(^uint64(0), w).U {
			return p.tTrue
		}
	}
	return p.mk(&Term{Op: op, S: SBool, A: []*Term{a, b}})
}

func (p *TermPool) Concat(xs ...*Term) *Term {
	var out []*Term
	w := 0
	for _, x := range xs {
		if x.S.W == 0 {
			continue
		}
		w += x.S.W
		if x.Op == "concat" {
			out = append(out, x.A...)
		} else if x.Op == "zext" {
			out = append(out, p.BV(0, x.S.W-x.A[0].S.W))
			out = append(out, p.segsOr(x.A[0])...)
		} else {
			out = append(out, x)
		}
	}
	// merge adjacent constants and extracts
	var m []*Term
	for _, x := range out {
		if len(m) > 0 {
			l := m[len(m)-1]
			if l.IsConst() && x.IsConst() && l.S.W+x.S.W <= 64 && (l.S.W < 8 || x.S.W < 8 || w <= 64) {
				m[len(m)-1] = p.BV(l.U<<uint(x.S.W)|x.U, l.S.W+x.S.W)
				continue
			}
			if l.Op == "extract" && x.Op == "extract" && l.A[0] == x.A[0] && l.P2 == x.P1+1 {
				m[len(m)-1] = p.Extract(l.A[0], l.P1, x.P2)
				continue
			}
		}
		m = append(m, x)
	}
	if len(m) == 1 {
		return m[0]
	}
	if m[0].IsConst() && m[0].U == 0 && w <= 64 {
		return p.Zext(p.Concat(m[1:]...), w)
	}
	return p.mk(&Term{Op: "concat", S: SBV(w), A: m})
}

func (p *TermPool) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w <= 0 {
		panic(unsupported("empty extract"))
	}
	if lo == 0 && hi == a.S.W-1 {
		return a
	}
	if a.IsConst() && a.S.W <= 64 {
		return p.BV(a.U>>uint(lo), w)
	}
	switch a.Op {
	case "extract":
		return p.Extract(a.A[0], hi+a.P2, lo+a.P2)
	case "zext":
		iw := a.A[0].S.W
		if lo >= iw {
			return p.BV(0, w)
		}
		if hi < iw {
			return p.Extract(a.A[0], hi, lo)
		}
		return p.Zext(p.Extract(a.A[0], iw-1, lo), w)
	case "concat":
		var parts []*Term
		pos := a.S.W
		for _, x := range a.A {
			xh, xl := pos-1, pos-x.S.W
			pos = xl
			if xl > hi || xh < lo {
				continue
			}
			h, l := xh, xl
			if h > hi {
				h = hi
			}
			if l < lo {
				l = lo
			}
			parts = append(parts, p.Extract(x, h-xl, l-xl))
		}
		return p.Concat(parts...)
	case "ite":
		if a.A[1].IsConst() || a.A[2].IsConst() {
			return p.Ite(a.A[0], p.Extract(a.A[1], hi, lo), p.Extract(a.A[2], hi, lo))
		}
	case "bvxor", "bvand", "bvor":
		if a.S.W <= 64 {
			return p.BvOp(a.Op, p.Extract(a.A[0], hi, lo), p.Extract(a.A[1], hi, lo))
		}
	}
	return p.mk(&Term{Op: "extract", S: SBV(w), A: []*Term{a}, P1: hi, P2: lo})
}
func (p *TermPool) Zext(a *Term, w int) *Term {
	if a.S.W == w {
		return a
	}
	if a.IsConst() {
		return p.BV(a.U, w)
	}
	if a.Op == "zext" {
		a = a.A[0]
	}
	return p.mk(&Term{Op: "zext", S: SBV(w), A: []*Term{a}, P1: w - a.S.W})
}
func (p *TermPool) Sext(a *Term, w int) *Term {
	if a.S.W == w {
		return a
	}
	if a.IsConst() {
		return p.BV(uint64(sx(a.U, a.S.W)), w)
	}
	if a.Op == "zext" {
		return p.Zext(a, w)
	}
	return p.mk(&Term{Op: "sext", S: SBV(w), A: []*Term{a}, P1: w - a.S.W})
}

// ---- integers ----

func (p *TermPool) IAdd(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return p.IntC(new(big.Int).Add(a.Z, b.Z))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() && b.Z.Sign() == 0 {
		return a
	}
	if b.IsConst() && a.Op == "+" && a.A[1].IsConst() {
		return p.IAdd(a.A[0], p.IntC(new(big.Int).Add(a.A[1].Z, b.Z)))
	}
	if !b.IsConst() {
		if t := p.cancel(a, b); t != nil {
			return t
		}
	}
	t := &Term{Op: "+", S: SInt, A: []*Term{a, b}}
	t.Lo, t.Hi = new(big.Int).Add(a.Lo, b.Lo), new(big.Int).Add(a.Hi, b.Hi)
	return p.mk(t)
}

// linear adds k*t to a linear combination; false when it grows too large.
func (t *Term) linear(k *big.Int, at map[*Term]*big.Int, order *[]*Term, c *big.Int) bool {
	switch {
	case t.IsConst():
		c.Add(c, new(big.Int).Mul(k, t.Z))
		return true
	case t.Op == "+" && !(t.A[1].IsConst() && t.A[1].Z.Sign() == 0):
		return t.A[0].linear(k, at, order, c) && t.A[1].linear(k, at, order, c)
	case t.Op == "*" && t.A[1].IsConst():
		return t.A[0].linear(new(big.Int).Mul(k, t.A[1].Z), at, order, c)
	}
	if at[t] == nil {
		if len(at) >= 12 {
			return false
		}
		at[t] = new(big.Int)
		*order = append(*order, t)
	}
	at[t].Add(at[t], k)
	return true
}

// cancel simplifies a+b when they share parts.
func (p *TermPool) cancel(a, b *Term) *Term {
	if a.Op != "+" && a.Op != "*" && b.Op != "+" && b.Op != "*" {
		return nil
	}
	at := map[*Term]*big.Int{}
	var oa, ob []*Term
	c := new(big.Int)
	one := big.NewInt(1)
	if !a.linear(one, at, &oa, c) {
		return nil
	}
	bt := map[*Term]*big.Int{}
	if !b.linear(one, bt, &ob, c) {
		return nil
	}
	shared := false
	for _, t := range ob {
		if at[t] != nil {
			shared = true
			at[t].Add(at[t], bt[t])
		} else {
			at[t] = bt[t]
			oa = append(oa, t)
		}
	}
	if !shared {
		return nil
	}
	var r *Term
	for _, t := range oa {
		if at[t].Sign() == 0 {
			continue
		}
		x := p.IMul(t, p.IntC(at[t]))
		if r == nil {
			r = x
		} else {
			q := &Term{Op: "+", S: SInt, A: []*Term{r, x}}
			q.Lo, q.Hi = new(big.Int).Add(r.Lo, x.Lo), new(big.Int).Add(r.Hi, x.Hi)
			r = p.mk(q)
		}
	}
	if r == nil {
		return p.IntC(c)
	}
	return p.IAdd(r, p.IntC(c))
}

// splitMul writes a sum as m*c + r, m gathering the parts whose factor is a multiple of c.
func (p *TermPool) splitMul(a *Term, c *big.Int) (*Term, *Term) {
	if a.Op != "+" {
		return nil, nil
	}
	at := map[*Term]*big.Int{}
	var order []*Term
	k := new(big.Int)
	if !a.linear(big.NewInt(1), at, &order, k) {
		return nil, nil
	}
	kq, kr := new(big.Int).DivMod(k, c, new(big.Int))
	m, r := p.IntC(kq), p.IntC(kr)
	found := kq.Sign() != 0
	for _, t := range order {
		q, rem := new(big.Int).QuoRem(at[t], c, new(big.Int))
		if rem.Sign() == 0 {
			found = true
			m = p.IAdd(m, p.IMul(t, p.IntC(q)))
		} else {
			r = p.IAdd(r, p.IMul(t, p.IntC(at[t])))
		}
	}
	if !found {
		return nil, nil
	}
	return m, r
}

// splitGcd writes a sum as m*g + r with g > 1 a divisor of c and 0 <= r < g.
func (p *TermPool) splitGcd(a *Term, c *big.Int) (*big.Int, *Term, *Term) {
	if a.Op != "+" {
		return nil, nil, nil
	}
	at := map[*Term]*big.Int{}
	var order []*Term
	if !a.linear(big.NewInt(1), at, &order, new(big.Int)) {
		return nil, nil, nil
	}
	for _, t := range order {
		g := new(big.Int).GCD(nil, nil, new(big.Int).Abs(at[t]), c)
		if g.Cmp(big.NewInt(1)) <= 0 || g.Cmp(c) == 0 {
			continue
		}
		m, r := p.splitMul(a, g)
		if m != nil && r.Lo.Sign() >= 0 && r.Hi.Cmp(g) < 0 {
			return g, m, r
		}
	}
	return nil, nil, nil
}

func (p *TermPool) INeg(a *Term) *Term { return p.IMul(a, p.Int64(-1)) }
func (p *TermPool) ISub(a, b *Term) *Term {
	if a == b {
		return p.Int64(0)
	}
	if b.IsConst() {
		return p.IAdd(a, p.IntC(new(big.Int).Neg(b.Z)))
	}
	// (x+c) - x = c ; (x + c1) - (x + c2)
	base := func(t *Term) (*Term, *big.Int) {
		if t.Op == "+" && t.A[1].IsConst() {
			return t.A[0], t.A[1].Z
		}
		return t, big.NewInt(0)
	}
	xa, ca := base(a)
	xb, cb := base(b)
	if xa == xb {
		return p.IntC(new(big.Int).Sub(ca, cb))
	}
	// x - (x + -1*y) and the like
	if xb.Op == "+" && xb.A[0] == xa {
		return p.IAdd(p.INeg(xb.A[1]), p.IntC(new(big.Int).Sub(ca, cb)))
	}
	if xb.Op == "+" && xb.A[1] == xa {
		return p.IAdd(p.INeg(xb.A[0]), p.IntC(new(big.Int).Sub(ca, cb)))
	}
	return p.IAdd(a, p.INeg(b))
}
func (p *TermPool) IMul(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return p.IntC(new(big.Int).Mul(a.Z, b.Z))
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.Z.Sign() == 0 {
			return b
		}
		if b.Z.IsInt64() && b.Z.Int64() == 1 {
			return a
		}
		if a.Op == "*" && a.A[1].IsConst() {
			return p.IMul(a.A[0], p.IntC(new(big.Int).Mul(a.A[1].Z, b.Z)))
		}
		if a.Op == "+" && a.A[1].IsConst() {
			return p.IAdd(p.IMul(a.A[0], b), p.IntC(new(big.Int).Mul(a.A[1].Z, b.Z)))
		}
	}
	t := &Term{Op: "*", S: SInt, A: []*Term{a, b}}
	var lo, hi *big.Int
	for _, x := range []*big.Int{a.Lo, a.Hi} {
		for _, y := range []*big.Int{b.Lo, b.Hi} {
			z := new(big.Int).Mul(x, y)
			if lo == nil || z.Cmp(lo) < 0 {
				lo = z
			}
			if hi == nil || z.Cmp(hi) > 0 {
				hi = z
			}
		}
	}
	t.Lo, t.Hi = lo, hi
	return p.mk(t)
}

// IDivE/IModE: Euclidean (SMT-LIB) division by a positive constant.
func (p *TermPool) IDivE(a *Term, c *big.Int) *Term {
	if c.Sign() <= 0 {
		panic(unsupported("int div by non-positive"))
	}
	if a.IsConst() {
		return p.IntC(new(big.Int).Div(a.Z, c))
	}
	if c.IsInt64() && c.Int64() == 1 {
		return a
	}
	if a.Op == "*" && a.A[1].IsConst() {
		q, r := new(big.Int).QuoRem(a.A[1].Z, c, new(big.Int))
		if r.Sign() == 0 {
			return p.IMul(a.A[0], p.IntC(q))
		}
		// floor((k*x)/(k*m)) = floor(x/m)
		if k := a.A[1].Z; k.Sign() > 0 {
			if q, r := new(big.Int).QuoRem(c, k, new(big.Int)); r.Sign() == 0 {
				return p.IDivE(a.A[0], q)
			}
		}
	}
	if m, r := p.splitMul(a, c); m != nil {
		return p.IAdd(m, p.IDivE(r, c))
	}
	if g, m, _ := p.splitGcd(a, c); m != nil {
		return p.IDivE(m, new(big.Int).Quo(c, g))
	}
	lo, hi := new(big.Int).Div(a.Lo, c), new(big.Int).Div(a.Hi, c)
	if lo.Cmp(hi) == 0 {
		return p.IntC(lo)
	}
	return p.mk(&Term{Op: "div", S: SInt, A: []*Term{a, p.IntC(c)}, Lo: lo, Hi: hi})
}
func (p *TermPool) IModE(a *Term, c *big.Int) *Term {
	if c.Sign() <= 0 {
		panic(unsupported("int mod by non-positive"))
	}
	if a.IsConst() {
		return p.IntC(new(big.Int).Mod(a.Z, c))
	}
	if a.Lo.Sign() >= 0 && a.Hi.Cmp(c) < 0 {
		return a
	}
	if a.Op == "*" && a.A[1].IsConst() {
		k := a.A[1].Z
		if new(big.Int).Mod(k, c).Sign() == 0 {
			return p.Int64(0)
		}
		if k.Sign() > 0 {
			if q, r := new(big.Int).QuoRem(c, k, new(big.Int)); r.Sign() == 0 {
				return p.IMul(p.IModE(a.A[0], q), p.IntC(k))
			}
		}
	}
	if m, r := p.splitMul(a, c); m != nil {
		return p.IModE(r, c)
	}
	if g, m, r := p.splitGcd(a, c); m != nil {
		return p.IAdd(p.IMul(p.IModE(m, new(big.Int).Quo(c, g)), p.IntC(g)), r)
	}
	return p.mk(&Term{Op: "mod", S: SInt, A: []*Term{a, p.IntC(c)}, Lo: big.NewInt(0), Hi: new(big.Int).Sub(c, big.NewInt(1))})
}
func (p *TermPool) ILt(a, b *Term) *Term {
	if a == b {
		return p.tFals
	}
	if a.Hi.Cmp(b.Lo) < 0 {
		return p.tTrue
	}
	if a.Lo.Cmp(b.Hi) >= 0 {
		return p.tFals
	}
	return p.mk(&Term{Op: "<", S: SBool, A: []*Term{a, b}})
}
func (p *TermPool) ILe(a, b *Term) *Term { return p.Not(p.ILt(b, a)) }

func (p *TermPool) Bv2Nat(a *Term) *Term {
	if a.IsConst() {
		return p.IntC(new(big.Int).SetUint64(a.U))
	}
	if a.Op == "int2bv" && a.A[0].Lo.Sign() >= 0 && a.A[0].Hi.BitLen() <= a.S.W {
		return a.A[0]
	}
	if a.Op == "zext" {
		return p.Bv2Nat(a.A[0])
	}
	hi := new(big.Int).Lsh(big.NewInt(1), uint(a.S.W))
	hi.Sub(hi, big.NewInt(1))
	return p.mk(&Term{Op: "bv2nat", S: SInt, A: []*Term{a}, Lo: big.NewInt(0), Hi: hi})
}
func (p *TermPool) Int2Bv(a *Term, w int) *Term {
	if a.IsConst() {
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		z := new(big.Int).Mod(a.Z, m)
		return p.BV(z.Uint64(), w)
	}
	if a.Op == "bv2nat" {
		in := a.A[0]
		if in.S.W <= w {
			return p.Zext(in, w)
		}
		return p.Extract(in, w-1, 0)
	}
	return p.mk(&Term{Op: "int2bv", S: SBV(w), A: []*Term{a}, P1: w})
}

// ---- reals ----

func (p *TermPool) ToReal(a *Term) *Term {
	if a.IsConst() {
		return p.RealC(new(big.Rat).SetInt(a.Z))
	}
	return p.mk(&Term{Op: "to_real", S: SReal, A: []*Term{a}})
}
func (p *TermPool) ROp(op string, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		r := new(big.Rat)
		switch op {
		case "+":
			return p.RealC(r.Add(a.R, b.R))
		case "-":
			return p.RealC(r.Sub(a.R, b.R))
		case "*":
			return p.RealC(r.Mul(a.R, b.R))
		case "/":
			if b.R.Sign() != 0 {
				return p.RealC(r.Quo(a.R, b.R))
			}
		}
	}
	return p.mk(&Term{Op: op, S: SReal, A: []*Term{a, b}})
}
func (p *TermPool) RLt(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return p.Bool(a.R.Cmp(b.R) < 0)
	}
	if a == b {
		return p.tFals
	}
	if b.IsConst() && b.R.Sign() <= 0 && a.nonNeg() {
		return p.tFals
	}
	return p.mk(&Term{Op: "<", S: SBool, A: []*Term{a, b}})
}

// nonNeg reports whether a Real is known not to be negative.
func (t *Term) nonNeg() bool {
	switch {
	case t.IsConst():
		return t.R.Sign() >= 0
	case t.NonNeg:
		return true
	case t.Op == "to_real":
		return t.A[0].Lo != nil && t.A[0].Lo.Sign() >= 0
	case t.Op == "+" || t.Op == "*":
		for _, a := range t.A {
			if !a.nonNeg() {
				return false
			}
		}
		return true
	}
	return false
}
func (p *TermPool) RLe(a, b *Term) *Term { return p.Not(p.RLt(b, a)) }

// ---- base64 alphabet (defined functions in the solver prelude) ----

const b64std = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func (p *TermPool) B64Enc(x *Term) *Term { // BV6 -> BV8
	if x.IsConst() {
		return p.Byte(b64std[x.U])
	}
	if x.Op == "extract" && x.A[0].Op == "uf" && x.A[0].Name == "b64dec" && x.P1 == 5 && x.P2 == 0 {
		// enc(dec(c)[5:0]) is c only for valid c; leave to the solver
	}
	t := p.UF("b64enc", SBV(8), x)
	t.Safe = true
	return t
}
func (p *TermPool) B64Dec(c *Term) *Term { // BV8 -> BV8 (0xff invalid)
	if c.IsConst() {
		i := strings.IndexByte(b64std, byte(c.U))
		if i < 0 {
			return p.BV(0xff, 8)
		}
		return p.BV(uint64(i), 8)
	}
	if c.Op == "uf" && c.Name == "b64enc" {
		return p.Zext(c.A[0], 8)
	}
	return p.UF("b64dec", SBV(8), c)
}

// ---- printing ----

func (t *Term) leaf() bool { return t.Op == "var" || t.Op == "const" }

func (t *Term) constStr() string {
	switch t.S.K {
	case KBool:
		if t.B {
			return "true"
		}
		return "false"
	case KBV:
		if t.S.W%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.S.W/4, t.U)
		}
		return fmt.Sprintf("#b%0*b", t.S.W, t.U)
	case KInt:
		if t.Z.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.Z).String() + ")"
		}
		return t.Z.String()
	}
	n := t.R
	s := ""
	if n.Sign() < 0 {
		n = new(big.Rat).Neg(n)
		s = "(- "
	}
	r := "(/ " + n.Num().String() + ".0 " + n.Denom().String() + ".0)"
	if s != "" {
		r = s + r + ")"
	}
	return r
}
