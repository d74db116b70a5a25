package main

import (
	"go/token"
	"go/types"
	"math"
	"math/big"
)

var two = big.NewInt(2)

func pow2(w int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(w)) }

func (p *Path) toBV(v Value, w int) *Term {
	switch x := v.(type) {
	case int64:
		return p.pool.BV(uint64(x), w)
	case *Term:
		if x.S.K == KBV {
			if x.S.W != w {
				unsup("bv width %d want %d", x.S.W, w)
			}
			return x
		}
		if x.S.K == KInt {
			return p.pool.Int2Bv(x, w)
		}
	}
	unsup("toBV %T", v)
	return nil
}

func (p *Path) toInt(v Value, w int, signed bool) *Term {
	switch x := v.(type) {
	case int64:
		if !signed && x < 0 {
			return p.pool.IntC(new(big.Int).SetUint64(uint64(x)))
		}
		return p.pool.Int64(x)
	case *Term:
		if x.S.K == KInt {
			return x
		}
		if x.S.K == KBV {
			n := p.pool.Bv2Nat(x)
			if !signed || x.Op == "zext" {
				return n
			}
			neg := p.pool.BvCmp("bvslt", x, p.pool.BV(0, x.S.W))
			m := p.pool.ISub(n, p.pool.IntC(pow2(x.S.W)))
			r := p.pool.Ite(neg, m, n)
			if r.Op == "ite" {
				h := pow2(x.S.W - 1)
				r.Lo = new(big.Int).Neg(h)
				r.Hi = new(big.Int).Sub(h, big.NewInt(1))
			}
			return r
		}
	}
	unsup("toInt %T", v)
	return nil
}

// wrapInt reduces an Int term to the range of the Go type.
func (p *Path) wrapInt(t *Term, w int, signed bool) Value {
	lo, hi := big.NewInt(0), new(big.Int).Sub(pow2(w), big.NewInt(1))
	if signed {
		lo = new(big.Int).Neg(pow2(w - 1))
		hi = new(big.Int).Sub(pow2(w-1), big.NewInt(1))
	}
	if t.Lo.Cmp(lo) < 0 || t.Hi.Cmp(hi) > 0 {
		if signed {
			h := p.pool.IntC(pow2(w - 1))
			t = p.pool.ISub(p.pool.IModE(p.pool.IAdd(t, h), pow2(w)), h)
		} else {
			t = p.pool.IModE(t, pow2(w))
		}
	}
	return p.fromInt(t, signed)
}

func (p *Path) fromInt(t *Term, signed bool) Value {
	if t.IsConst() {
		if t.S.K == KInt {
			if t.Z.IsInt64() {
				return t.Z.Int64()
			}
			return int64(t.Z.Uint64())
		}
	}
	return t
}

func (p *Path) fromBV(t *Term, w int, signed bool) Value {
	if t.IsConst() {
		return norm(int64(t.U), w, signed)
	}
	return t
}

func isBV(v Value) bool {
	t, ok := v.(*Term)
	return ok && t.S.K == KBV
}

func (p *Path) intCmp(op string, x, y Value, w int, signed bool) Value {
	a, ok1 := x.(int64)
	b, ok2 := y.(int64)
	if ok1 && ok2 {
		switch op {
		case "==":
			return a == b
		case "<":
			if signed {
				return a < b
			}
			return uint64(a) < uint64(b)
		case "<=":
			if signed {
				return a <= b
			}
			return uint64(a) <= uint64(b)
		}
	}
	if isBV(x) || isBV(y) {
		// comparing an Int-sorted term with a BV one: do it over the integers
		tx, okx := x.(*Term)
		ty, oky := y.(*Term)
		if !(okx && tx.S.K == KInt) && !(oky && ty.S.K == KInt) {
			s, t := p.toBV(x, w), p.toBV(y, w)
			switch op {
			case "==":
				return p.fromBool(p.pool.Eq(s, t))
			case "<":
				if signed {
					return p.fromBool(p.pool.BvCmp("bvslt", s, t))
				}
				return p.fromBool(p.pool.BvCmp("bvult", s, t))
			case "<=":
				if signed {
					return p.fromBool(p.pool.BvCmp("bvsle", s, t))
				}
				return p.fromBool(p.pool.BvCmp("bvule", s, t))
			}
		}
	}
	s, t := p.toInt(x, w, signed), p.toInt(y, w, signed)
	switch op {
	case "==":
		return p.fromBool(p.pool.Eq(s, t))
	case "<":
		return p.fromBool(p.pool.ILt(s, t))
	}
	return p.fromBool(p.pool.ILe(s, t))
}

func (p *Path) intBin(op token.Token, x, y Value, w int, signed bool) Value {
	a, ok1 := x.(int64)
	b, ok2 := y.(int64)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return norm(a+b, w, signed)
		case token.SUB:
			return norm(a-b, w, signed)
		case token.MUL:
			return norm(a*b, w, signed)
		case token.QUO:
			if b == 0 {
				p.rtPanic("integer divide by zero")
			}
			if signed {
				if b == -1 {
					return norm(-a, w, signed)
				}
				return norm(a/b, w, signed)
			}
			return norm(int64(uint64(a)/uint64(b)), w, signed)
		case token.REM:
			if b == 0 {
				p.rtPanic("integer divide by zero")
			}
			if signed {
				if b == -1 {
					return int64(0)
				}
				return norm(a%b, w, signed)
			}
			return norm(int64(uint64(a)%uint64(b)), w, signed)
		case token.AND:
			return norm(a&b, w, signed)
		case token.OR:
			return norm(a|b, w, signed)
		case token.XOR:
			return norm(a^b, w, signed)
		case token.AND_NOT:
			return norm(a&^b, w, signed)
		}
	}
	if op == token.QUO || op == token.REM {
		if p.cond(p.intCmp("==", y, int64(0), w, signed)) {
			p.rtPanic("integer divide by zero")
		}
	}
	useBV := isBV(x) || isBV(y)
	switch op {
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if !useBV {
			// Int sorted: masks with a low-bit constant are mod
			if op == token.AND && ok2 && b >= 0 && (b&(b+1)) == 0 {
				return p.fromInt(p.pool.IModE(p.toInt(x, w, signed), big.NewInt(b+1)), signed)
			}
			useBV = true
		}
	}
	if useBV {
		tx, okx := x.(*Term)
		ty, oky := y.(*Term)
		mixed := okx && tx.S.K == KInt || oky && ty.S.K == KInt
		if mixed && (op == token.ADD || op == token.SUB || op == token.MUL) {
			useBV = false
		}
	}
	if useBV {
		s, t := p.toBV(x, w), p.toBV(y, w)
		var r *Term
		switch op {
		case token.ADD:
			r = p.pool.BvOp("bvadd", s, t)
		case token.SUB:
			r = p.pool.BvOp("bvsub", s, t)
		case token.MUL:
			r = p.pool.BvOp("bvmul", s, t)
		case token.QUO:
			if signed {
				r = p.pool.BvOp("bvsdiv", s, t)
			} else {
				r = p.pool.BvOp("bvudiv", s, t)
			}
		case token.REM:
			if signed {
				r = p.pool.BvOp("bvsrem", s, t)
			} else {
				r = p.pool.BvOp("bvurem", s, t)
			}
		case token.AND:
			r = p.pool.BvOp("bvand", s, t)
		case token.OR:
			r = p.pool.BvOp("bvor", s, t)
		case token.XOR:
			r = p.pool.BvOp("bvxor", s, t)
		case token.AND_NOT:
			r = p.pool.BvOp("bvand", s, p.pool.BvOp("bvxor", t, p.pool.BV(^uint64(0), w)))
		default:
			unsup("bv op %v", op)
		}
		return p.fromBV(r, w, signed)
	}
	s, t := p.toInt(x, w, signed), p.toInt(y, w, signed)
	switch op {
	case token.ADD:
		return p.wrapInt(p.pool.IAdd(s, t), w, signed)
	case token.SUB:
		return p.wrapInt(p.pool.ISub(s, t), w, signed)
	case token.MUL:
		return p.wrapInt(p.pool.IMul(s, t), w, signed)
	case token.QUO, token.REM:
		if !t.IsConst() || t.Z.Sign() <= 0 {
			if t.IsConst() && op == token.QUO && t.Z.Sign() < 0 {
				n := p.pool.IntC(new(big.Int).Neg(t.Z))
				q := p.intBin(token.QUO, p.fromInt(s, signed), p.fromInt(n, signed), w, signed)
				return p.wrapInt(p.pool.INeg(p.toInt(q, w, signed)), w, signed)
			}
			c := p.concretize(t)
			return p.intBin(op, p.fromInt(s, signed), c, w, signed)
		}
		q := p.pool.IDivE(s, t.Z)
		if s.Lo.Sign() < 0 {
			nq := p.pool.INeg(p.pool.IDivE(p.pool.INeg(s), t.Z))
			q = p.pool.Ite(p.pool.ILt(s, p.pool.Int64(0)), nq, q)
		}
		if op == token.QUO {
			return p.wrapInt(q, w, signed)
		}
		if s.Lo.Sign() >= 0 {
			return p.fromInt(p.pool.IModE(s, t.Z), signed)
		}
		return p.wrapInt(p.pool.ISub(s, p.pool.IMul(q, t)), w, signed)
	}
	unsup("int op %v", op)
	return nil
}

func (p *Path) shift(op token.Token, x, y Value, w int, signed bool, yt types.Type) Value {
	yw, ys, _ := intInfo(yt)
	if ys {
		if p.cond(p.intCmp("<", y, int64(0), yw, ys)) {
			p.rtPanic("negative shift amount")
		}
	}
	b, ok := y.(int64)
	if !ok {
		if a, okA := x.(int64); okA && isBV(y) {
			_ = a
		}
		// widen/narrow the amount to w bits (saturating is implied by bv shifts for big values)
		yb := p.toBV(y, yw)
		var amt *Term
		if yw <= w {
			amt = p.pool.Zext(yb, w)
		} else {
			big := p.pool.BvCmp("bvule", p.pool.BV(uint64(w), yw), yb)
			amt = p.pool.Ite(big, p.pool.BV(uint64(w), w), p.pool.Extract(yb, w-1, 0))
		}
		s := p.toBV(x, w)
		o := "bvshl"
		if op == token.SHR {
			o = "bvlshr"
			if signed {
				o = "bvashr"
			}
		}
		return p.fromBV(p.pool.BvOp(o, s, amt), w, signed)
	}
	ub := uint64(b)
	if a, ok := x.(int64); ok {
		if op == token.SHL {
			if ub >= 64 {
				return int64(0)
			}
			return norm(a<<ub, w, signed)
		}
		if signed {
			if ub > 63 {
				ub = 63
			}
			return a >> ub
		}
		if ub >= 64 {
			return int64(0)
		}
		return int64(uint64(a) >> ub)
	}
	if isBV(x) {
		s := p.toBV(x, w)
		if ub > uint64(w) {
			ub = uint64(w)
		}
		o := "bvshl"
		if op == token.SHR {
			o = "bvlshr"
			if signed {
				o = "bvashr"
				if ub == uint64(w) {
					ub--
				}
			}
		}
		if ub >= uint64(w) {
			return int64(0)
		}
		return p.fromBV(p.pool.BvOp(o, s, p.pool.BV(ub, w)), w, signed)
	}
	s := p.toInt(x, w, signed)
	if ub > 63 {
		if op == token.SHL {
			return int64(0)
		}
		ub = 63
	}
	if op == token.SHL {
		return p.wrapInt(p.pool.IMul(s, p.pool.IntC(pow2(int(ub)))), w, signed)
	}
	return p.fromInt(p.pool.IDivE(s, pow2(int(ub))), signed)
}

func (p *Path) toReal(v Value) *Term {
	switch x := v.(type) {
	case float64:
		r := new(big.Rat)
		if r.SetFloat64(x) == nil {
			unsup("non-finite float in symbolic arithmetic")
		}
		return p.pool.RealC(r)
	case *Term:
		return x
	}
	unsup("toReal %T", v)
	return nil
}

func (p *Path) fromReal(t *Term) Value {
	if t.IsConst() {
		f, exact := t.R.Float64()
		if exact {
			return f
		}
	}
	return t
}

func (p *Path) floatBin(op token.Token, x, y Value) Value {
	a, ok1 := x.(float64)
	b, ok2 := y.(float64)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	s, t := p.toReal(x), p.toReal(y)
	switch op {
	case token.ADD:
		return p.roundReal(p.pool.ROp("+", s, t))
	case token.SUB:
		return p.roundReal(p.pool.ROp("-", s, t))
	case token.MUL:
		if !s.IsConst() && !t.IsConst() {
			unsup("nonlinear float arithmetic")
		}
		return p.roundReal(p.pool.ROp("*", s, t))
	case token.QUO:
		if !t.IsConst() || t.R.Sign() == 0 {
			unsup("float division by a symbolic value")
		}
		return p.roundReal(p.pool.ROp("*", s, p.pool.RealC(new(big.Rat).Inv(t.R))))
	case token.LSS:
		return p.fromBool(p.pool.RLt(s, t))
	case token.LEQ:
		return p.fromBool(p.pool.RLe(s, t))
	case token.GTR:
		return p.fromBool(p.pool.RLt(t, s))
	case token.GEQ:
		return p.fromBool(p.pool.RLe(t, s))
	}
	unsup("float op %v", op)
	return nil
}

// roundReal over-approximates float64 rounding: a fresh error term bounded by 2^-52 times the
// magnitude, and zero when the exact result is a whole number (those are representable here),
// so what is shown holds for every rounding.
func (p *Path) roundReal(t *Term) Value {
	if isWhole(t) {
		return t
	}
	z := p.pool.RealC(new(big.Rat))
	n := p.fresh("fl_err", SReal)
	m := p.pool.Ite(p.pool.RLt(t, z), p.pool.ROp("-", z, t), t)
	e := p.pool.ROp("*", m, p.pool.RealC(new(big.Rat).SetFrac(big.NewInt(1), pow2(52))))
	p.addPC(p.pool.RLe(n, e))
	p.addPC(p.pool.RLe(p.pool.ROp("-", z, e), n))
	fl := p.pool.mk(&Term{Op: "to_int", S: SInt, A: []*Term{t}})
	if fl.Lo == nil {
		fl.Lo, fl.Hi = new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), big.NewInt(1))
	}
	p.addPC(p.pool.Or(p.pool.Not(p.pool.Eq(t, p.pool.ToReal(fl))), p.pool.Eq(n, z)))
	r := p.pool.ROp("+", t, n)
	if t.nonNeg() {
		r.NonNeg = true // the error is less than the value
	}
	return r
}

func isWhole(t *Term) bool {
	if t.IsConst() {
		return t.R.IsInt()
	}
	switch t.Op {
	case "to_real":
		return true
	case "+", "-", "*":
		for _, a := range t.A {
			if !isWhole(a) {
				return false
			}
		}
		return true
	}
	return false
}

// floorReal is the greatest whole number not above t.
func (p *Path) floorReal(t *Term) *Term {
	if t.IsConst() {
		return p.pool.IntC(new(big.Int).Div(t.R.Num(), t.R.Denom()))
	}
	r := p.pool.mk(&Term{Op: "to_int", S: SInt, A: []*Term{t}})
	if r.Lo == nil {
		r.Lo, r.Hi = new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), big.NewInt(1))
		if t.nonNeg() {
			r.Lo = big.NewInt(0)
		}
	}
	return r
}

func (p *Path) realToInt(t *Term, w int, signed bool) Value {
	if t.Op == "to_real" {
		return p.wrapInt(t.A[0], w, signed)
	}
	fl := p.floorReal
	z := p.pool.RealC(new(big.Rat))
	neg := p.pool.RLt(t, z)
	if p.cond(p.fromBool(neg)) {
		return p.fromInt(p.pool.INeg(fl(p.pool.ROp("-", z, t))), signed)
	}
	return p.fromInt(fl(t), signed)
}

func (p *Path) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return p.eq2(xt, yt, x, y)
	case token.NEQ:
		return p.not(p.eq2(xt, yt, x, y))
	}
	if w, s, ok := intInfo(xt); ok {
		switch op {
		case token.SHL, token.SHR:
			return p.shift(op, x, y, w, s, yt)
		case token.LSS:
			return p.intCmp("<", x, y, w, s)
		case token.LEQ:
			return p.intCmp("<=", x, y, w, s)
		case token.GTR:
			return p.intCmp("<", y, x, w, s)
		case token.GEQ:
			return p.intCmp("<=", y, x, w, s)
		}
		return p.intBin(op, x, y, w, s)
	}
	if isFloat(xt) {
		r := p.floatBin(op, x, y)
		if f, ok := r.(float64); ok && basic(xt).Kind() == types.Float32 {
			return float64(float32(f))
		}
		return r
	}
	if isString(xt) {
		switch op {
		case token.ADD:
			return concatStr(x, y)
		case token.LSS:
			return p.strLess(x, y)
		case token.GTR:
			return p.strLess(y, x)
		case token.LEQ:
			return p.not(p.strLess(y, x))
		case token.GEQ:
			return p.not(p.strLess(x, y))
		}
	}
	if isBool(xt) {
		switch op {
		case token.AND, token.LAND:
			return p.fromBool(p.pool.And(p.toBool(x), p.toBool(y)))
		case token.OR, token.LOR:
			return p.fromBool(p.pool.Or(p.toBool(x), p.toBool(y)))
		}
	}
	if c, ok := x.(complex128); ok {
		d := y.(complex128)
		switch op {
		case token.ADD:
			return c + d
		case token.SUB:
			return c - d
		case token.MUL:
			return c * d
		case token.QUO:
			return c / d
		}
	}
	unsup("binop %v on %v", op, xt)
	return nil
}

// eq2: comparison where one side may be an interface and the other concrete is already
// converted by ssa; types are identical up to nil.
func (p *Path) eq2(xt, yt types.Type, x, y Value) Value {
	if b, ok := xt.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return p.eq(yt, zero(yt), y)
	}
	if b, ok := yt.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return p.eq(xt, x, zero(xt))
	}
	return p.eq(xt, x, y)
}

func (p *Path) not(v Value) Value {
	switch b := v.(type) {
	case bool:
		return !b
	case *Term:
		return p.fromBool(p.pool.Not(b))
	}
	unsup("not %T", v)
	return nil
}

func (p *Path) conv(from, to types.Type, v Value) Value {
	uf, ut := from.Underlying(), to.Underlying()
	if w2, s2, ok := intInfo(to); ok {
		if w1, s1, ok := intInfo(from); ok {
			switch x := v.(type) {
			case int64:
				return norm(x, w2, s2)
			case *Term:
				if x.S.K == KInt {
					return p.wrapInt(x, w2, s2)
				}
				if w2 == w1 {
					return x
				}
				if w2 < w1 {
					return p.fromBV(p.pool.Extract(x, w2-1, 0), w2, s2)
				}
				if s1 {
					return p.fromBV(p.pool.Sext(x, w2), w2, s2)
				}
				return p.fromBV(p.pool.Zext(x, w2), w2, s2)
			}
		}
		if isFloat(from) {
			switch x := v.(type) {
			case float64:
				if !s2 && w2 == 64 {
					return int64(uint64(x))
				}
				return norm(int64(x), w2, s2)
			case *Term:
				return p.realToInt(x, w2, s2)
			}
		}
		if b, ok := uf.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return int64(0)
		}
	}
	if isFloat(to) {
		if w, s, ok := intInfo(from); ok {
			switch x := v.(type) {
			case int64:
				if !s {
					return float64(uint64(x))
				}
				if basic(to).Kind() == types.Float32 {
					return float64(float32(x))
				}
				return float64(x)
			case *Term:
				t := p.toInt(x, w, s)
				lim := pow2(53)
				if t.Hi.Cmp(lim) > 0 || t.Lo.Cmp(new(big.Int).Neg(lim)) < 0 {
					if !p.entails(p.pool.And(p.pool.ILe(t, p.pool.IntC(lim)), p.pool.ILe(p.pool.IntC(new(big.Int).Neg(lim)), t))) {
						unsup("inexact int to float conversion")
					}
				}
				return p.pool.ToReal(t)
			}
		}
		if isFloat(from) {
			if f, ok := v.(float64); ok && basic(to).Kind() == types.Float32 {
				return float64(float32(f))
			}
			return v
		}
	}
	if isString(to) {
		if isString(from) {
			return v
		}
		if sl, ok := uf.(*types.Slice); ok {
			e := v.([]Value)
			if b := basic(sl.Elem()); b != nil && b.Kind() == types.Uint8 {
				return mkStr(e)
			}
			// []rune
			var o []Value
			for _, r := range e {
				switch r := r.(type) {
				case int64:
					for _, c := range []byte(string(rune(r))) {
						o = append(o, int64(c))
					}
				case *Term:
					if p.entails(p.toBool(p.intCmp("<", r, int64(128), 32, false))) {
						o = append(o, p.lowByte(r))
					} else {
						unsup("symbolic non-ASCII rune to string")
					}
				}
			}
			return mkStr(o)
		}
		if w, _, ok := intInfo(from); ok {
			switch x := v.(type) {
			case int64:
				return string(rune(x))
			case *Term:
				if p.cond(p.intCmp("<", x, int64(128), w, false)) {
					return mkStr([]Value{p.lowByte(x)})
				}
				unsup("symbolic non-ASCII rune to string")
			}
		}
	}
	if sl, ok := ut.(*types.Slice); ok && isString(from) {
		b := basic(sl.Elem())
		if b.Kind() == types.Uint8 {
			e := strElems(v)
			o := make([]Value, len(e))
			copy(o, e)
			return o
		}
		// []rune
		if s, ok := v.(string); ok {
			rs := []rune(s)
			o := make([]Value, len(rs))
			for i, r := range rs {
				o[i] = int64(r)
			}
			return o
		}
		e := strElems(p.forceStr(v, true))
		o := make([]Value, 0, len(e))
		i := 0
		for i < len(e) {
			r, n := p.decodeRune(e[i:])
			o = append(o, r)
			i += n
		}
		return o
	}
	switch ut.(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Struct, *types.Array, *types.Slice, *types.Interface:
		if u, ok := v.(UnsafePtr); ok {
			if u.v == nil {
				return zero(to)
			}
			if _, ok := ut.(*types.Pointer); ok {
				return u.v
			}
			unsup("unsafe conversion to %v", to)
		}
		return v
	case *types.Basic:
		if ut.(*types.Basic).Kind() == types.UnsafePointer {
			if u, ok := v.(UnsafePtr); ok {
				return u
			}
			if q, ok := v.(*Value); ok && q == nil {
				return UnsafePtr{}
			}
			return UnsafePtr{v}
		}
		if types.Identical(uf, ut) {
			return v
		}
	}
	unsup("conversion %v -> %v", from, to)
	return nil
}

func (p *Path) lowByte(t *Term) Value {
	if t.S.K == KInt {
		return p.pool.Int2Bv(t, 8)
	}
	return p.pool.Extract(t, 7, 0)
}

// decodeRune decodes one rune of symbolic text, forking on whether it is ASCII.
func (p *Path) decodeRune(e []Value) (Value, int) {
	switch b := e[0].(type) {
	case int64:
		if b < 0x80 {
			return b, 1
		}
		// concrete multi-byte sequence?
		var bs []byte
		for i := 0; i < len(e) && i < 4; i++ {
			c, ok := e[i].(int64)
			if !ok {
				break
			}
			bs = append(bs, byte(c))
		}
		for i, r := range string(bs) {
			if i == 0 {
				n := len(string(r))
				if r == 0xFFFD {
					// maybe a genuine U+FFFD or an invalid byte
					if len(bs) >= 3 && bs[0] == 0xEF && bs[1] == 0xBF && bs[2] == 0xBD {
						return int64(r), 3
					}
					return int64(r), 1
				}
				return int64(r), n
			}
			break
		}
		return int64(0xFFFD), 1
	case *Term:
		if p.cond(p.fromBool(p.pool.BvCmp("bvult", b, p.pool.Byte(0x80)))) {
			return p.pool.Zext(b, 32), 1
		}
		unsup("symbolic non-ASCII byte")
	}
	unsup("decodeRune")
	return nil, 0
}

func (p *Path) unNeg(t types.Type, v Value) Value {
	if w, s, ok := intInfo(t); ok {
		return p.intBin(token.SUB, int64(0), v, w, s)
	}
	switch f := v.(type) {
	case float64:
		return -f
	case *Term:
		return p.pool.ROp("-", p.pool.RealC(new(big.Rat)), f)
	case complex128:
		return -f
	}
	unsup("neg")
	return nil
}

var _ = math.Abs
