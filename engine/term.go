package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strconv"
)

type Sort uint8

const (
	SBool Sort = iota
	SReal
	SBV
)

type TOp uint8

const (
	TVar TOp = iota
	TConst
	// bool
	TNot
	TAnd
	TOr
	TEq
	TIte
	// reals
	TAdd
	TMul
	TDiv
	TLt
	TLe
	TUF // named function application
	// bit vectors
	TBAdd
	TBSub
	TBMul
	TBUDiv
	TBSDiv
	TBURem
	TBSRem
	TBAnd
	TBOr
	TBXor
	TBShl
	TBLshr
	TBAshr
	TBUlt
	TBUle
	TBSlt
	TBSle
	TBExtract // low n bits
	TBZext
	TBSext
	TB2Real // signed/unsigned bv to real (name "s"/"u")
)

type Term struct {
	id     int
	op     TOp
	sort   Sort
	w      uint8
	bits   uint8 // of a variable: the number of bits its values need, 0 for all
	lo, hi int64 // of a variable with bits: its bounds
	args   []*Term
	n      uint64
	rat    *big.Rat
	name   string
}

type termKey struct {
	op         TOp
	sort       Sort
	w          uint8
	n          uint64
	a0, a1, a2 int
	name       string
}

type Terms struct {
	tab   map[termKey]*Term
	next  int
	tt    *Term
	ff    *Term
	zero  *Term
	one   *Term
	nvars int
	vars  []*Term
}

func newTerms() *Terms {
	t := &Terms{tab: map[termKey]*Term{}}
	t.tt = t.mk(TConst, SBool, 0, 1, "", nil)
	t.ff = t.mk(TConst, SBool, 0, 0, "", nil)
	t.zero = t.ratTerm(new(big.Rat))
	t.one = t.ratTerm(big.NewRat(1, 1))
	return t
}

func (t *Terms) mk(op TOp, s Sort, w uint8, n uint64, name string, rat *big.Rat, args ...*Term) *Term {
	k := termKey{op: op, sort: s, w: w, n: n, name: name, a0: -1, a1: -1, a2: -1}
	if len(args) > 0 {
		k.a0 = args[0].id
	}
	if len(args) > 1 {
		k.a1 = args[1].id
	}
	if len(args) > 2 {
		k.a2 = args[2].id
	}
	if x, ok := t.tab[k]; ok {
		return x
	}
	t.next++
	x := &Term{id: t.next, op: op, sort: s, w: w, n: n, name: name, rat: rat, args: append([]*Term(nil), args...)}
	t.tab[k] = x
	return x
}

func (t *Terms) ratTerm(r *big.Rat) *Term {
	return t.mk(TConst, SReal, 0, 0, r.RatString(), r)
}
func (t *Terms) intTerm(i int64) *Term { return t.ratTerm(new(big.Rat).SetInt64(i)) }

func (t *Terms) boolTerm(b bool) *Term {
	if b {
		return t.tt
	}
	return t.ff
}
func (t *Terms) bvTerm(n uint64, w uint8) *Term {
	return t.mk(TConst, SBV, w, mask(n, w), "", nil)
}
func mask(n uint64, w uint8) uint64 {
	if w >= 64 {
		return n
	}
	return n & (1<<w - 1)
}
func sext(n uint64, w uint8) int64 {
	if w >= 64 {
		return int64(n)
	}
	sh := 64 - uint(w)
	return int64(n<<sh) >> sh
}

func (t *Terms) newVar(name string, s Sort, w uint8) *Term {
	t.nvars++
	v := t.mk(TVar, s, w, uint64(t.nvars), name, nil)
	v.bits = 0
	t.vars = append(t.vars, v)
	return v
}

func (x *Term) isConst() bool { return x.op == TConst }
func (x *Term) isTrue() bool  { return x.op == TConst && x.sort == SBool && x.n == 1 }
func (x *Term) isFalse() bool { return x.op == TConst && x.sort == SBool && x.n == 0 }

// ---- bool
func (t *Terms) not(a *Term) *Term {
	if a.isConst() {
		return t.boolTerm(a.n == 0)
	}
	if a.op == TNot {
		return a.args[0]
	}
	if a.op == TLe {
		return t.lt(a.args[1], a.args[0])
	}
	if a.op == TLt {
		return t.le(a.args[1], a.args[0])
	}
	return t.mk(TNot, SBool, 0, 0, "", nil, a)
}
func (t *Terms) and(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return t.ff
	}
	if a.isTrue() || a == b {
		return b
	}
	if b.isTrue() {
		return a
	}
	return t.mk(TAnd, SBool, 0, 0, "", nil, a, b)
}
func (t *Terms) or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return t.tt
	}
	if a.isFalse() || a == b {
		return b
	}
	if b.isFalse() {
		return a
	}
	return t.mk(TOr, SBool, 0, 0, "", nil, a, b)
}
func (t *Terms) eq(a, b *Term) *Term {
	if a == b {
		return t.tt
	}
	if a.isConst() && b.isConst() {
		if a.sort == SReal {
			return t.boolTerm(a.rat.Cmp(b.rat) == 0)
		}
		return t.boolTerm(a.n == b.n)
	}
	if a.sort == SBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return t.not(b)
		}
		if b.isFalse() {
			return t.not(a)
		}
	}
	if a.sort == SBV && a.w == 64 && a.op != TIte && b.op != TIte {
		var r *Term
		if a, b, r = t.linCmp(TEq, a, b); r != nil {
			return r
		}
		if a == b {
			return t.tt
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	// ite(c, k1, k2) == k
	if b.op == TIte || a.op == TIte {
		if a.op != TIte {
			a, b = b, a
		}
		if b.isConst() && a.args[1].isConst() && a.args[2].isConst() {
			e1 := t.eq(a.args[1], b)
			e2 := t.eq(a.args[2], b)
			if e1.isTrue() && e2.isTrue() {
				return t.tt
			}
			if e1.isTrue() {
				return a.args[0]
			}
			if e2.isTrue() {
				return t.not(a.args[0])
			}
			return t.ff
		}
	}
	return t.mk(TEq, SBool, 0, 0, "", nil, a, b)
}
func (t *Terms) ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.sort == SBool {
		return t.or(t.and(c, a), t.and(t.not(c), b))
	}
	return t.mk(TIte, a.sort, a.w, 0, "", nil, c, a, b)
}

// ---- reals
func (t *Terms) add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return t.ratTerm(new(big.Rat).Add(a.rat, b.rat))
	}
	if a.isConst() && a.rat.Sign() == 0 {
		return b
	}
	if b.isConst() && b.rat.Sign() == 0 {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(TAdd, SReal, 0, 0, "", nil, a, b)
}
func (t *Terms) neg(a *Term) *Term { return t.mul(t.intTerm(-1), a) }
func (t *Terms) sub(a, b *Term) *Term {
	if a == b {
		return t.zero
	}
	return t.add(a, t.neg(b))
}
func (t *Terms) mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return t.ratTerm(new(big.Rat).Mul(a.rat, b.rat))
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.rat.Sign() == 0 {
			return t.zero
		}
		if a.rat.Cmp(t.one.rat) == 0 {
			return b
		}
		if b.op == TMul && b.args[0].isConst() {
			return t.mul(t.mul(a, b.args[0]), b.args[1])
		}
		return t.mk(TMul, SReal, 0, 0, "", nil, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(TMul, SReal, 0, 0, "", nil, a, b)
}
func (t *Terms) div(a, b *Term) *Term {
	if b.isConst() && b.rat.Sign() != 0 {
		return t.mul(t.ratTerm(new(big.Rat).Inv(b.rat)), a)
	}
	if a.isConst() && a.rat.Sign() == 0 && !b.isConst() {
		return t.zero
	}
	return t.mk(TDiv, SReal, 0, 0, "", nil, a, b)
}
func (t *Terms) lt(a, b *Term) *Term {
	if a == b {
		return t.ff
	}
	if a.isConst() && b.isConst() {
		return t.boolTerm(a.rat.Cmp(b.rat) < 0)
	}
	return t.mk(TLt, SBool, 0, 0, "", nil, a, b)
}
func (t *Terms) le(a, b *Term) *Term {
	if a == b {
		return t.tt
	}
	if a.isConst() && b.isConst() {
		return t.boolTerm(a.rat.Cmp(b.rat) <= 0)
	}
	return t.mk(TLe, SBool, 0, 0, "", nil, a, b)
}

// uf applies a known real function.
func (t *Terms) uf(name string, args ...*Term) *Term {
	if len(args) == 1 && args[0].isConst() {
		a := args[0]
		switch name {
		case "exp":
			if a.rat.Sign() == 0 {
				return t.one
			}
		case "log":
			if a.rat.Cmp(t.one.rat) == 0 {
				return t.zero
			}
		case "sin", "tanh", "sinh", "tan", "asin", "atan":
			if a.rat.Sign() == 0 {
				return t.zero
			}
		case "cos":
			if a.rat.Sign() == 0 {
				return t.one
			}
		case "sqrt":
			if r, ok := ratSqrt(a.rat); ok {
				return t.ratTerm(r)
			}
		case "floor":
			return t.ratTerm(ratFloor(a.rat))
		}
	}
	return t.mk(TUF, SReal, 0, 0, name, nil, args...)
}

func ratSqrt(r *big.Rat) (*big.Rat, bool) {
	if r.Sign() < 0 {
		return nil, false
	}
	n := new(big.Int).Sqrt(r.Num())
	d := new(big.Int).Sqrt(r.Denom())
	if new(big.Int).Mul(n, n).Cmp(r.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(r.Denom()) == 0 {
		return new(big.Rat).SetFrac(n, d), true
	}
	return nil, false
}

func ratFloor(r *big.Rat) *big.Rat {
	q := new(big.Int)
	q.Div(r.Num(), r.Denom()) // Euclidean; denom>0 so this is floor
	return new(big.Rat).SetInt(q)
}

// ---- bit vectors
func (t *Terms) bvbin(op TOp, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		x, y := a.n, b.n
		sx, sy := sext(x, w), sext(y, w)
		switch op {
		case TBAdd:
			return t.bvTerm(x+y, w)
		case TBSub:
			return t.bvTerm(x-y, w)
		case TBMul:
			return t.bvTerm(x*y, w)
		case TBAnd:
			return t.bvTerm(x&y, w)
		case TBOr:
			return t.bvTerm(x|y, w)
		case TBXor:
			return t.bvTerm(x^y, w)
		case TBUDiv:
			if y != 0 {
				return t.bvTerm(x/y, w)
			}
		case TBURem:
			if y != 0 {
				return t.bvTerm(x%y, w)
			}
		case TBSDiv:
			if y != 0 && sy != -1 {
				return t.bvTerm(uint64(sx/sy), w)
			}
		case TBSRem:
			if y != 0 && sy != -1 {
				return t.bvTerm(uint64(sx%sy), w)
			}
		case TBShl:
			if y >= uint64(w) {
				return t.bvTerm(0, w)
			}
			return t.bvTerm(x<<y, w)
		case TBLshr:
			if y >= uint64(w) {
				return t.bvTerm(0, w)
			}
			return t.bvTerm(x>>y, w)
		case TBAshr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			return t.bvTerm(uint64(sx>>y), w)
		}
	}
	switch op {
	case TBAdd, TBMul, TBAnd, TBOr, TBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.n == 0 {
				if op == TBMul || op == TBAnd {
					return b
				}
				return a
			}
			if op == TBMul && b.n == 1 {
				return a
			}
			if op == TBAdd && a.op == TBAdd && a.args[1].isConst() {
				return t.bvbin(TBAdd, a.args[0], t.bvTerm(a.args[1].n+b.n, w))
			}
		}
	case TBSub:
		if a == b {
			return t.bvTerm(0, w)
		}
		if b.isConst() {
			return t.bvbin(TBAdd, a, t.bvTerm(-b.n, w))
		}
	case TBShl, TBLshr, TBAshr:
		if b.isConst() && b.n == 0 {
			return a
		}
	case TBSDiv, TBUDiv:
		if b.isConst() && b.n == 1 {
			return a
		}
	}
	switch op {
	case TBAdd, TBSub:
		return t.linear(op, a, b)
	case TBSRem:
		if b.isConst() && b.n&(b.n-1) == 0 && sext(b.n, w) > 0 {
			if _, _, ok := ubound(a, 0); ok && w == 64 {
				return t.bvbin(TBAnd, a, t.bvTerm(b.n-1, w))
			}
		}
	case TBURem:
		if b.isConst() && b.n != 0 && b.n&(b.n-1) == 0 {
			return t.bvbin(TBAnd, a, t.bvTerm(b.n-1, w))
		}
	case TBAnd:
		if b.isConst() {
			if a.op == TBAnd && a.args[1].isConst() {
				return t.bvbin(TBAnd, a.args[0], t.bvTerm(a.args[1].n&b.n, w))
			}
			if x := t.maskLin(a, b.n); x != nil {
				return x
			}
		}
	}
	return t.mk(op, SBV, w, 0, "", nil, a, b)
}

func (t *Terms) bvcmp(op TOp, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		switch op {
		case TBUlt:
			return t.boolTerm(a.n < b.n)
		case TBUle:
			return t.boolTerm(a.n <= b.n)
		case TBSlt:
			return t.boolTerm(sext(a.n, w) < sext(b.n, w))
		case TBSle:
			return t.boolTerm(sext(a.n, w) <= sext(b.n, w))
		}
	}
	if a == b {
		return t.boolTerm(op == TBUle || op == TBSle)
	}
	if w == 64 {
		var r *Term
		if a, b, r = t.linCmp(op, a, b); r != nil {
			return r
		}
		// both sides are sums that are not negative now, or as they were
		if a == b {
			return t.boolTerm(op == TBUle || op == TBSle)
		}
	}
	return t.mk(op, SBool, 0, 0, "", nil, a, b)
}

func (t *Terms) bvresize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if w < a.w {
			return t.bvTerm(a.n, w)
		}
		if signed {
			return t.bvTerm(uint64(sext(a.n, a.w)), w)
		}
		return t.bvTerm(a.n, w)
	}
	if w < a.w {
		if (a.op == TBZext || a.op == TBSext) && a.args[0].w == w {
			return a.args[0]
		}
		return t.mk(TBExtract, SBV, w, 0, "", nil, a)
	}
	if signed {
		return t.mk(TBSext, SBV, w, 0, "", nil, a)
	}
	return t.mk(TBZext, SBV, w, 0, "", nil, a)
}

func (t *Terms) bv2real(a *Term, signed bool) *Term {
	if a.isConst() {
		if signed {
			return t.intTerm(sext(a.n, a.w))
		}
		return t.ratTerm(new(big.Rat).SetInt(new(big.Int).SetUint64(a.n)))
	}
	s := "u"
	if signed {
		s = "s"
	}
	return t.mk(TB2Real, SReal, 0, 0, s, nil, a)
}

// ---- concrete floats to rationals
func snapRat(f float64, is32 bool) *big.Rat {
	if f == 0 {
		return new(big.Rat)
	}
	if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
		return new(big.Rat).SetInt64(int64(f))
	}
	bitsz := 64
	if is32 {
		bitsz = 32
	}
	// short decimal
	s := strconv.FormatFloat(f, 'g', -1, bitsz)
	digits := 0
	for _, c := range s {
		if c == 'e' {
			break
		}
		if c >= '0' && c <= '9' {
			digits++
		}
	}
	lim := 12
	if is32 {
		lim = 6
	}
	if digits <= lim {
		if r, ok := new(big.Rat).SetString(s); ok {
			return r
		}
	}
	// small denominators by continued fraction
	tol := math.Abs(f) * 4.5e-16
	if is32 {
		tol = math.Abs(f) * 2.4e-7
	}
	p0, q0, p1, q1 := int64(0), int64(1), int64(1), int64(0)
	x := math.Abs(f)
	for i := 0; i < 20; i++ {
		a := math.Floor(x)
		if a > 1<<30 {
			break
		}
		p2, q2 := int64(a)*p1+p0, int64(a)*q1+q0
		if q2 > 1<<20 || p2 > 1<<40 {
			break
		}
		p0, q0, p1, q1 = p1, q1, p2, q2
		if math.Abs(float64(p1)/float64(q1)-math.Abs(f)) <= tol {
			lim := int64(20000)
			if is32 {
				lim = 300
			}
			if q1 <= lim {
				r := big.NewRat(p1, q1)
				if f < 0 {
					r.Neg(r)
				}
				return r
			}
			break
		}
		fr := x - a
		if fr == 0 {
			break
		}
		x = 1 / fr
	}
	r := new(big.Rat)
	r.SetFloat64(f)
	return r
}

// ---- numeric evaluation
type evalEnv struct {
	f    map[*Term]float64 // real values
	n    map[*Term]uint64  // bv / bool
	vals map[*Term]any     // model assignments: float64 / uint64
}

func newEval(vals map[*Term]any) *evalEnv {
	return &evalEnv{f: map[*Term]float64{}, n: map[*Term]uint64{}, vals: vals}
}

func (e *evalEnv) real(t *Term) float64 {
	if v, ok := e.f[t]; ok {
		return v
	}
	var r float64
	switch t.op {
	case TVar:
		switch x := e.vals[t].(type) {
		case float64:
			r = x
		}
	case TConst:
		r, _ = t.rat.Float64()
	case TAdd:
		r = e.real(t.args[0]) + e.real(t.args[1])
	case TMul:
		r = e.real(t.args[0]) * e.real(t.args[1])
	case TDiv:
		r = e.real(t.args[0]) / e.real(t.args[1])
	case TIte:
		if e.bool(t.args[0]) {
			r = e.real(t.args[1])
		} else {
			r = e.real(t.args[2])
		}
	case TUF:
		a := e.real(t.args[0])
		switch t.name {
		case "exp":
			r = math.Exp(a)
		case "log":
			r = math.Log(a)
		case "sqrt":
			r = math.Sqrt(a)
		case "tanh":
			r = math.Tanh(a)
		case "sinh":
			r = math.Sinh(a)
		case "cosh":
			r = math.Cosh(a)
		case "sin":
			r = math.Sin(a)
		case "cos":
			r = math.Cos(a)
		case "tan":
			r = math.Tan(a)
		case "asin":
			r = math.Asin(a)
		case "acos":
			r = math.Acos(a)
		case "atan":
			r = math.Atan(a)
		case "cbrt":
			r = math.Cbrt(a)
		case "erf":
			r = math.Erf(a)
		case "floor":
			r = math.Floor(a)
		case "pow":
			r = math.Pow(a, e.real(t.args[1]))
		default:
			r = math.NaN()
		}
	case TB2Real:
		n := e.bv(t.args[0])
		if t.name == "s" {
			r = float64(sext(n, t.args[0].w))
		} else {
			r = float64(n)
		}
	default:
		panic(fmt.Sprintf("eval real op %d", t.op))
	}
	e.f[t] = r
	return r
}

func (e *evalEnv) bool(t *Term) bool {
	if v, ok := e.n[t]; ok {
		return v != 0
	}
	var r bool
	switch t.op {
	case TVar:
		switch x := e.vals[t].(type) {
		case uint64:
			r = x != 0
		}
	case TConst:
		r = t.n != 0
	case TNot:
		r = !e.bool(t.args[0])
	case TAnd:
		r = e.bool(t.args[0]) && e.bool(t.args[1])
	case TOr:
		r = e.bool(t.args[0]) || e.bool(t.args[1])
	case TEq:
		switch t.args[0].sort {
		case SBool:
			r = e.bool(t.args[0]) == e.bool(t.args[1])
		case SReal:
			r = e.real(t.args[0]) == e.real(t.args[1])
		default:
			r = e.bv(t.args[0]) == e.bv(t.args[1])
		}
	case TLt:
		r = e.real(t.args[0]) < e.real(t.args[1])
	case TLe:
		r = e.real(t.args[0]) <= e.real(t.args[1])
	case TBUlt:
		r = e.bv(t.args[0]) < e.bv(t.args[1])
	case TBUle:
		r = e.bv(t.args[0]) <= e.bv(t.args[1])
	case TBSlt:
		r = sext(e.bv(t.args[0]), t.args[0].w) < sext(e.bv(t.args[1]), t.args[0].w)
	case TBSle:
		r = sext(e.bv(t.args[0]), t.args[0].w) <= sext(e.bv(t.args[1]), t.args[0].w)
	default:
		panic(fmt.Sprintf("eval bool op %d", t.op))
	}
	if r {
		e.n[t] = 1
	} else {
		e.n[t] = 0
	}
	return r
}

func (e *evalEnv) bv(t *Term) uint64 {
	if v, ok := e.n[t]; ok {
		return v
	}
	w := t.w
	var r uint64
	a := func(i int) uint64 { return e.bv(t.args[i]) }
	switch t.op {
	case TVar:
		if x, ok := e.vals[t].(uint64); ok {
			r = x
		}
	case TConst:
		r = t.n
	case TIte:
		if e.bool(t.args[0]) {
			r = a(1)
		} else {
			r = a(2)
		}
	case TBAdd:
		r = a(0) + a(1)
	case TBSub:
		r = a(0) - a(1)
	case TBMul:
		r = a(0) * a(1)
	case TBAnd:
		r = a(0) & a(1)
	case TBOr:
		r = a(0) | a(1)
	case TBXor:
		r = a(0) ^ a(1)
	case TBUDiv:
		if a(1) == 0 {
			r = ^uint64(0)
		} else {
			r = a(0) / a(1)
		}
	case TBURem:
		if a(1) == 0 {
			r = a(0)
		} else {
			r = a(0) % a(1)
		}
	case TBSDiv:
		x, y := sext(a(0), w), sext(a(1), w)
		if y == 0 {
			if x >= 0 {
				r = ^uint64(0)
			} else {
				r = 1
			}
		} else if y == -1 {
			r = uint64(-x)
		} else {
			r = uint64(x / y)
		}
	case TBSRem:
		x, y := sext(a(0), w), sext(a(1), w)
		if y == 0 {
			r = uint64(x)
		} else if y == -1 {
			r = 0
		} else {
			r = uint64(x % y)
		}
	case TBShl:
		if a(1) < uint64(w) {
			r = a(0) << a(1)
		}
	case TBLshr:
		if a(1) < uint64(w) {
			r = a(0) >> a(1)
		}
	case TBAshr:
		s := a(1)
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		r = uint64(sext(a(0), w) >> s)
	case TBExtract, TBZext:
		r = a(0)
	case TBSext:
		r = uint64(sext(a(0), t.args[0].w))
	default:
		panic(fmt.Sprintf("eval bv op %d", t.op))
	}
	r = mask(r, w)
	e.n[t] = r
	return r
}

var _ = bits.Len

// ---- differentiation
func (t *Terms) deriv(y, x *Term, memo map[*Term]*Term) *Term {
	if y == x {
		return t.one
	}
	if d, ok := memo[y]; ok {
		return d
	}
	var d *Term
	switch y.op {
	case TVar, TConst, TB2Real:
		d = t.zero
	case TAdd:
		d = t.add(t.deriv(y.args[0], x, memo), t.deriv(y.args[1], x, memo))
	case TMul:
		a, b := y.args[0], y.args[1]
		d = t.add(t.mul(t.deriv(a, x, memo), b), t.mul(a, t.deriv(b, x, memo)))
	case TDiv:
		a, b := y.args[0], y.args[1]
		da, db := t.deriv(a, x, memo), t.deriv(b, x, memo)
		d = t.div(da, b)
		if db != t.zero {
			d = t.sub(d, t.div(t.mul(a, db), t.mul(b, b)))
		}
	case TIte:
		d = t.ite(y.args[0], t.deriv(y.args[1], x, memo), t.deriv(y.args[2], x, memo))
	case TUF:
		a := y.args[0]
		da := t.deriv(a, x, memo)
		if y.name != "pow" && da == t.zero {
			d = t.zero
			break
		}
		switch y.name {
		case "exp":
			d = t.mul(y, da)
		case "log":
			d = t.div(da, a)
		case "sqrt":
			d = t.div(da, t.mul(t.intTerm(2), y))
		case "tanh":
			d = t.mul(t.sub(t.one, t.mul(y, y)), da)
		case "sinh":
			d = t.mul(t.uf("cosh", a), da)
		case "cosh":
			d = t.mul(t.uf("sinh", a), da)
		case "sin":
			d = t.mul(t.uf("cos", a), da)
		case "cos":
			d = t.neg(t.mul(t.uf("sin", a), da))
		case "tan":
			d = t.mul(t.add(t.one, t.mul(y, y)), da)
		case "atan":
			d = t.div(da, t.add(t.one, t.mul(a, a)))
		case "asin":
			d = t.div(da, t.uf("sqrt", t.sub(t.one, t.mul(a, a))))
		case "acos":
			d = t.neg(t.div(da, t.uf("sqrt", t.sub(t.one, t.mul(a, a)))))
		case "cbrt":
			d = t.div(da, t.mul(t.intTerm(3), t.mul(y, y)))
		case "floor":
			d = t.zero
		case "pow":
			b := y.args[1]
			db := t.deriv(b, x, memo)
			d = t.zero
			if da != t.zero {
				d = t.mul(t.mul(b, t.pow(a, t.sub(b, t.one))), da)
			}
			if db != t.zero {
				d = t.add(d, t.mul(t.mul(y, t.uf("log", a)), db))
			}
		default:
			panic(unsupported("derivative of %s", y.name))
		}
	default:
		panic(unsupported("derivative of op %d", y.op))
	}
	memo[y] = d
	return d
}

func (t *Terms) pow(a, b *Term) *Term {
	if b.isConst() {
		if b.rat.IsInt() && b.rat.Num().IsInt64() {
			k := b.rat.Num().Int64()
			if k == 0 {
				return t.one
			}
			if k > 0 && k <= 8 {
				r := a
				for i := int64(1); i < k; i++ {
					r = t.mul(r, a)
				}
				return r
			}
			if k < 0 && k >= -8 {
				r := a
				for i := int64(1); i < -k; i++ {
					r = t.mul(r, a)
				}
				return t.div(t.one, r)
			}
		}
		if b.rat.Cmp(big.NewRat(1, 2)) == 0 {
			return t.uf("sqrt", a)
		}
	}
	return t.mk(TUF, SReal, 0, 0, "pow", nil, a, b)
}
