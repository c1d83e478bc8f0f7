package main

import "sort"

// linear forms of bit-vector terms: sums of atoms with coefficients, modulo 2^w. Sums and differences are kept in a
// canonical form so that what cancels is gone before the solver sees it.

const linMax = 16

type linT struct {
	t *Term
	c uint64
}

type linForm struct {
	ts []linT // ordered by id of the term, no zero coefficients
	k  uint64
	w  uint8
}

func (f *linForm) addAtom(t *Term, c uint64) {
	i := sort.Search(len(f.ts), func(i int) bool { return f.ts[i].t.id >= t.id })
	if i < len(f.ts) && f.ts[i].t == t {
		if f.ts[i].c = mask(f.ts[i].c+c, f.w); f.ts[i].c == 0 {
			f.ts = append(f.ts[:i], f.ts[i+1:]...)
		}
		return
	}
	if c = mask(c, f.w); c == 0 {
		return
	}
	f.ts = append(f.ts, linT{})
	copy(f.ts[i+1:], f.ts[i:])
	f.ts[i] = linT{t, c}
}

func (f *linForm) add(t *Term, c uint64) {
	if len(f.ts) > linMax {
		f.addAtom(t, c)
		return
	}
	switch t.op {
	case TConst:
		f.k = mask(f.k+c*t.n, f.w)
	case TBAdd:
		f.add(t.args[0], c)
		f.add(t.args[1], c)
	case TBSub:
		f.add(t.args[0], c)
		f.add(t.args[1], -c)
	case TBMul:
		if t.args[1].isConst() {
			f.add(t.args[0], c*t.args[1].n)
			return
		}
		f.addAtom(t, c)
	default:
		f.addAtom(t, c)
	}
}

// lowBits replaces x - (x & m) by x & ^m.
func (f *linForm) lowBits(t *Terms) {
	for again := true; again; {
		again = false
		for _, l := range f.ts {
			if l.t.op != TBAnd || !l.t.args[1].isConst() {
				continue
			}
			x := l.t.args[0]
			for _, k := range f.ts {
				if k.t == x && mask(k.c+l.c, f.w) == 0 {
					c := k.c
					f.addAtom(x, -c)
					f.addAtom(l.t, c)
					f.addAtom(t.mk(TBAnd, SBV, f.w, 0, "", nil, x, t.bvTerm(^l.t.args[1].n, f.w)), c)
					again = true
					break
				}
			}
			if again {
				break
			}
		}
	}
}

func (t *Terms) linScaled(x *Term, c uint64) *Term {
	if c == 1 {
		return x
	}
	return t.mk(TBMul, SBV, x.w, 0, "", nil, x, t.bvTerm(c, x.w))
}

// term gives the canonical term of the form.
func (f *linForm) term(t *Terms) *Term {
	var acc *Term
	for _, l := range f.ts {
		if sext(l.c, f.w) > 0 {
			if x := t.linScaled(l.t, l.c); acc == nil {
				acc = x
			} else {
				acc = t.mk(TBAdd, SBV, f.w, 0, "", nil, acc, x)
			}
		}
	}
	k := f.k
	for _, l := range f.ts {
		if sext(l.c, f.w) > 0 {
			continue
		}
		if acc == nil {
			acc, k = t.bvTerm(k, f.w), 0
		}
		acc = t.mk(TBSub, SBV, f.w, 0, "", nil, acc, t.linScaled(l.t, -l.c))
	}
	if acc == nil {
		return t.bvTerm(k, f.w)
	}
	if k != 0 {
		acc = t.mk(TBAdd, SBV, f.w, 0, "", nil, acc, t.bvTerm(k, f.w))
	}
	return acc
}

func (t *Terms) linear(op TOp, a, b *Term) *Term {
	f := &linForm{w: a.w}
	f.add(a, 1)
	if op == TBSub {
		f.add(b, ^uint64(0))
	} else {
		f.add(b, 1)
	}
	f.lowBits(t)
	return f.term(t)
}

const ivMax = int64(1) << 61

// ubound gives bounds of the unsigned value of a term, if small ones are known.
func ubound(t *Term, depth int) (lo, hi int64, ok bool) {
	if depth > 12 {
		return 0, 0, false
	}
	switch t.op {
	case TConst:
		return int64(t.n), int64(t.n), t.n < uint64(ivMax)
	case TVar:
		if t.bits > 0 && t.bits < 61 {
			return t.lo, t.hi, true
		}
	case TBAnd:
		_, a, oka := ubound(t.args[0], depth+1)
		_, b, okb := ubound(t.args[1], depth+1)
		switch {
		case oka && (!okb || a < b):
			return 0, a, true
		case okb:
			return 0, b, true
		}
	case TBZext:
		if w := t.args[0].w; w < 61 {
			return 0, 1<<w - 1, true
		}
	case TIte:
		la, a, oka := ubound(t.args[1], depth+1)
		lb, b, okb := ubound(t.args[2], depth+1)
		if oka && okb {
			return min(la, lb), max(a, b), true
		}
	case TBAdd, TBSub, TBMul:
		f := &linForm{w: t.w}
		f.add(t, 1)
		if lo, hi, ok := f.interval(depth + 1); ok && lo >= 0 {
			return lo, hi, true
		}
	}
	return 0, 0, false
}

// interval bounds the value of the form as an integer; not ok if the form may wrap around.
func (f *linForm) interval(depth int) (lo, hi int64, ok bool) {
	if f.w != 64 {
		return 0, 0, false
	}
	lo = int64(f.k)
	if lo > ivMax || lo < -ivMax {
		return 0, 0, false
	}
	hi = lo
	for _, l := range f.ts {
		d, u, ok := ubound(l.t, depth)
		c := int64(l.c)
		if !ok || u > 1<<40 || c > 1<<16 || c < -(1<<16) {
			return 0, 0, false
		}
		if c > 0 {
			lo, hi = lo+c*d, hi+c*u
		} else {
			lo, hi = lo+c*u, hi+c*d
		}
		if hi > ivMax || lo < -ivMax {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

// linCmp simplifies a comparison of two terms where neither wraps around.
func (t *Terms) linCmp(op TOp, a, b *Term) (*Term, *Term, *Term) {
	fa, fb := &linForm{w: a.w}, &linForm{w: a.w}
	fa.add(a, 1)
	fb.add(b, 1)
	la, _, oka := fa.interval(0)
	lb, _, okb := fb.interval(0)
	if !oka || !okb || ((op == TBUlt || op == TBUle) && (la < 0 || lb < 0)) {
		return a, b, nil
	}
	d := &linForm{w: a.w}
	d.add(a, 1)
	d.add(b, ^uint64(0))
	d.lowBits(t)
	lo, hi, ok := d.interval(0)
	if !ok {
		return a, b, nil
	}
	strict := op == TBUlt || op == TBSlt
	switch {
	case op == TEq:
		if lo > 0 || hi < 0 {
			return a, b, t.ff
		}
	case strict && hi < 0, !strict && hi <= 0:
		return a, b, t.tt
	case strict && lo >= 0, !strict && lo > 0:
		return a, b, t.ff
	}
	p, n := &linForm{w: a.w}, &linForm{w: a.w}
	for _, l := range d.ts {
		if int64(l.c) > 0 {
			p.addAtom(l.t, l.c)
		} else {
			n.addAtom(l.t, -l.c)
		}
	}
	if int64(d.k) > 0 {
		p.k = d.k
	} else {
		n.k = -d.k
	}
	return p.term(t), n.term(t), nil
}

// maskLin simplifies the low bits (a mask of 2^k-1) of a sum: multiples of 2^k do not count.
func (t *Terms) maskLin(a *Term, m uint64) *Term {
	if m&(m+1) != 0 || (a.op != TBAdd && a.op != TBSub && a.op != TBMul) {
		return nil
	}
	f := &linForm{w: a.w}
	f.add(a, 1)
	g := &linForm{w: a.w, k: f.k & m}
	for _, l := range f.ts {
		if l.c&m == 0 {
			continue
		}
		if l.t.op == TBAnd && l.t.args[1].isConst() && (l.t.args[1].n*l.c)&m == 0 && l.t.args[1].n&m == 0 {
			continue
		}
		g.addAtom(l.t, l.c)
	}
	if len(g.ts) == len(f.ts) && g.k == f.k {
		return nil
	}
	return t.bvbin(TBAnd, g.term(t), t.bvTerm(m, a.w))
}
