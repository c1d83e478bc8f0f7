package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Normal form of real terms: quotients of generalised polynomials over atoms.  Exponents are rationals stored scaled by expD.
const expD = 840

type aKind uint8

const (
	aVar  aKind = iota
	aExp        // exp(m/D) for a monomial m
	aRoot       // base^(frac), exponent kept in [0,1)
	aLog        // log(base), base a polynomial or rational constant
	aUF         // other function of rfs
	aIte
	aB2R
)

type atom struct {
	id   int
	kind aKind
	key  string
	t    *Term // var, ite, b2r
	base *rf   // exp argument (unit), root base, log base
	name string
	args []*rf
	pos  bool // known positive
}

type mexp struct {
	a int32
	e int64
}

type mono []mexp

type pterm struct {
	m mono
	c *big.Rat
}

type poly map[string]*pterm

type factor struct {
	id int // interned polynomial id
	k  int
}

type rf struct {
	num poly
	den []factor
	id  int // interned id, 0 if not computed
}

type NF struct {
	atoms []*atom
	byKey map[string]*atom
	memo  map[*Term]*rf
	facs  []poly
	facID map[string]int
	rfID  map[string]int
	logOf map[int]*rf
	limit int
	ops   int
}

type nfTooBig struct{}

func newNF() *NF {
	return &NF{byKey: map[string]*atom{}, memo: map[*Term]*rf{}, facID: map[string]int{}, rfID: map[string]int{}, logOf: map[int]*rf{}, limit: 6000}
}

func (n *NF) atom(kind aKind, key string) (*atom, bool) {
	if a, ok := n.byKey[key]; ok {
		return a, false
	}
	a := &atom{id: len(n.atoms), kind: kind, key: key}
	n.atoms = append(n.atoms, a)
	n.byKey[key] = a
	return a, true
}

func monoKey(m mono) string {
	b := make([]byte, 0, len(m)*8)
	for _, x := range m {
		b = binary.AppendUvarint(b, uint64(x.a))
		b = binary.AppendVarint(b, x.e)
	}
	return string(b)
}

func monoMul(a, b mono) mono {
	out := make(mono, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i].a < b[j].a:
			out = append(out, a[i])
			i++
		case a[i].a > b[j].a:
			out = append(out, b[j])
			j++
		default:
			if e := a[i].e + b[j].e; e != 0 {
				out = append(out, mexp{a[i].a, e})
			}
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	return append(out, b[j:]...)
}

func monoInv(a mono) mono {
	out := make(mono, len(a))
	for i, x := range a {
		out[i] = mexp{x.a, -x.e}
	}
	return out
}

func (p poly) addTerm(m mono, c *big.Rat) {
	if c.Sign() == 0 {
		return
	}
	k := monoKey(m)
	if t, ok := p[k]; ok {
		s := new(big.Rat).Add(t.c, c)
		if s.Sign() == 0 {
			delete(p, k)
			return
		}
		p[k] = &pterm{t.m, s}
		return
	}
	p[k] = &pterm{m, c}
}

func polyConst(c *big.Rat) poly {
	p := poly{}
	p.addTerm(nil, c)
	return p
}

func polyAdd(a, b poly) poly {
	out := make(poly, len(a)+len(b))
	for k, t := range a {
		out[k] = t
	}
	for _, t := range b {
		out.addTerm(t.m, t.c)
	}
	return out
}

func (n *NF) polyMul(a, b poly) poly {
	if len(a)*len(b) > n.limit*50 {
		panic(nfTooBig{})
	}
	n.ops += len(a) * len(b)
	if n.ops > 40000000 {
		panic(nfTooBig{})
	}
	out := make(poly, len(a)+len(b))
	for _, x := range a {
		for _, y := range b {
			out.addTerm(monoMul(x.m, y.m), new(big.Rat).Mul(x.c, y.c))
		}
	}
	if len(out) > n.limit {
		panic(nfTooBig{})
	}
	return out
}

func polyScale(a poly, c *big.Rat, m mono) poly {
	out := make(poly, len(a))
	for _, x := range a {
		out.addTerm(monoMul(x.m, m), new(big.Rat).Mul(x.c, c))
	}
	return out
}

func (p poly) sorted() []*pterm {
	ks := make([]string, 0, len(p))
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := make([]*pterm, len(ks))
	for i, k := range ks {
		out[i] = p[k]
	}
	return out
}

// monoLess is a fixed monomial order compatible with multiplication: lexicographic by atom id.
func monoCmp(a, b mono) int {
	i, j := 0, 0
	for {
		if i == len(a) && j == len(b) {
			return 0
		}
		var ai, bj int32 = 1 << 30, 1 << 30
		if i < len(a) {
			ai = a[i].a
		}
		if j < len(b) {
			bj = b[j].a
		}
		switch {
		case ai < bj:
			if a[i].e > 0 {
				return 1
			}
			return -1
		case bj < ai:
			if b[j].e > 0 {
				return -1
			}
			return 1
		}
		if a[i].e != b[j].e {
			if a[i].e > b[j].e {
				return 1
			}
			return -1
		}
		i++
		j++
	}
}

func (p poly) lead() *pterm {
	var best *pterm
	for _, t := range p {
		if best == nil || monoCmp(t.m, best.m) > 0 {
			best = t
		}
	}
	return best
}

func polyKey(p poly) string {
	var b strings.Builder
	for _, t := range p.sorted() {
		b.WriteString(monoKey(t.m))
		b.WriteByte('#')
		b.WriteString(t.c.RatString())
		b.WriteByte(';')
	}
	return b.String()
}

func (n *NF) internFac(p poly) int {
	k := polyKey(p)
	if id, ok := n.facID[k]; ok {
		return id
	}
	n.facs = append(n.facs, p)
	id := len(n.facs) - 1
	n.facID[k] = id
	return id
}

func (n *NF) rid(r *rf) int {
	if r.id != 0 {
		return r.id
	}
	var b strings.Builder
	b.WriteString(polyKey(r.num))
	for _, f := range r.den {
		fmt.Fprintf(&b, "/%d^%d", f.id, f.k)
	}
	k := b.String()
	id, ok := n.rfID[k]
	if !ok {
		id = len(n.rfID) + 1
		n.rfID[k] = id
	}
	r.id = id
	return id
}

// polyDivExact divides a by b when the division is exact.
func (n *NF) polyDivExact(a, b poly) (poly, bool) {
	if len(a) == 0 {
		return poly{}, true
	}
	if len(a) < len(b) && len(a) == 1 {
		return nil, false
	}
	if len(a)*len(b) > 60000 {
		return nil, false
	}
	lb := b.lead()
	// cheap necessary condition: degree ranges per atom
	if !degreeOK(a, b) {
		return nil, false
	}
	q := poly{}
	r := a
	cp := make(poly, len(a))
	for k, t := range r {
		cp[k] = t
	}
	steps := 0
	lim := 4*len(a) + 16
	il := new(big.Rat).Inv(lb.c)
	lm := monoInv(lb.m)
	for len(cp) > 0 {
		steps++
		if steps > lim || len(cp) > 3*len(a)+3*len(b)+50 {
			return nil, false
		}
		la := cp.lead()
		c := new(big.Rat).Mul(la.c, il)
		mm := monoMul(la.m, lm)
		q.addTerm(mm, c)
		nc := new(big.Rat).Neg(c)
		for _, t := range b {
			cp.addTerm(monoMul(t.m, mm), new(big.Rat).Mul(t.c, nc))
		}
		n.ops += len(b)
	}
	return q, true
}

func degRange(p poly) map[int32][2]int64 {
	r := map[int32][2]int64{}
	cnt := map[int32]int{}
	for _, t := range p {
		for _, x := range t.m {
			d, ok := r[x.a]
			if !ok {
				d = [2]int64{x.e, x.e}
			}
			if x.e < d[0] {
				d[0] = x.e
			}
			if x.e > d[1] {
				d[1] = x.e
			}
			r[x.a] = d
			cnt[x.a]++
		}
	}
	for a, c := range cnt {
		if c < len(p) {
			d := r[a]
			if d[0] > 0 {
				d[0] = 0
			}
			if d[1] < 0 {
				d[1] = 0
			}
			r[a] = d
		}
	}
	return r
}

func degreeOK(a, b poly) bool {
	ra, rb := degRange(a), degRange(b)
	for k, d := range rb {
		w := d[1] - d[0]
		if w == 0 {
			continue
		}
		da, ok := ra[k]
		if !ok || da[1]-da[0] < w {
			return false
		}
	}
	return true
}

func (n *NF) constRF(c *big.Rat) *rf { return &rf{num: polyConst(c)} }

func (r *rf) isZero() bool { return len(r.num) == 0 }

func (r *rf) isConst() (*big.Rat, bool) {
	if len(r.den) > 0 {
		return nil, false
	}
	if len(r.num) == 0 {
		return new(big.Rat), true
	}
	if len(r.num) == 1 {
		for _, t := range r.num {
			if len(t.m) == 0 {
				return t.c, true
			}
		}
	}
	return nil, false
}

func (n *NF) atomRF(a *atom) *rf {
	p := poly{}
	p.addTerm(mono{{int32(a.id), expD}}, big.NewRat(1, 1))
	return &rf{num: p}
}

// reduce pulls integer parts of root exponents out.
func (n *NF) reduce(num poly, den []factor) *rf {
	type grp struct {
		a *atom
		k int64
	}
	var bad map[grp]poly
	for key, t := range num {
		for i, x := range t.m {
			at := n.atoms[x.a]
			if at.kind != aRoot {
				continue
			}
			if x.e < 0 || x.e >= expD {
				k := x.e / expD
				if x.e < 0 && x.e%expD != 0 {
					k--
				}
				rest := make(mono, 0, len(t.m))
				rest = append(rest, t.m[:i]...)
				if e := x.e - k*expD; e != 0 {
					rest = append(rest, mexp{x.a, e})
				}
				rest = append(rest, t.m[i+1:]...)
				if bad == nil {
					bad = map[grp]poly{}
					cp := make(poly, len(num))
					for k2, t2 := range num {
						cp[k2] = t2
					}
					num = cp
				}
				g := grp{at, k}
				if bad[g] == nil {
					bad[g] = poly{}
				}
				bad[g].addTerm(rest, t.c)
				delete(num, key)
				break
			}
		}
	}
	r := &rf{num: num, den: den}
	if bad == nil {
		return r
	}
	var gs []grp
	for g := range bad {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool {
		if gs[i].a.id != gs[j].a.id {
			return gs[i].a.id < gs[j].a.id
		}
		return gs[i].k < gs[j].k
	})
	for _, g := range gs {
		b := n.powInt(g.a.base, g.k)
		part := n.mul(&rf{num: bad[g], den: den}, b)
		r = n.add(r, part)
	}
	return r
}

func (n *NF) cancel(r *rf) *rf {
	if len(r.num) == 0 {
		return &rf{num: r.num}
	}
	if len(r.den) == 0 {
		return r
	}
	changed := false
	var nd []factor
	num := r.num
	for _, f := range r.den {
		k := f.k
		for k > 0 {
			q, ok := n.polyDivExact(num, n.facs[f.id])
			if !ok {
				break
			}
			num = q
			k--
			changed = true
		}
		if k > 0 {
			nd = append(nd, factor{f.id, k})
		}
	}
	if !changed {
		return r
	}
	return &rf{num: num, den: nd}
}

func (n *NF) mul(a, b *rf) *rf {
	if a.isZero() || b.isZero() {
		return &rf{num: poly{}}
	}
	an, bn := a.num, b.num
	ad, bd := a.den, b.den
	// cross cancellation before multiplying
	if len(bd) > 0 {
		c := n.cancel(&rf{num: an, den: bd})
		an, bd = c.num, c.den
	}
	if len(a.den) > 0 {
		c := n.cancel(&rf{num: bn, den: ad})
		bn, ad = c.num, c.den
	}
	den := mergeDen(ad, bd, true)
	r := n.reduce(n.polyMul(an, bn), den)
	return r
}

func mergeDen(a, b []factor, sum bool) []factor {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	var out []factor
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i].id < b[j].id:
			out = append(out, a[i])
			i++
		case i == len(a) || b[j].id < a[i].id:
			out = append(out, b[j])
			j++
		default:
			k := a[i].k + b[j].k
			if !sum {
				k = a[i].k
				if b[j].k > k {
					k = b[j].k
				}
			}
			out = append(out, factor{a[i].id, k})
			i++
			j++
		}
	}
	return out
}

// missing multiplies num by the factors of full missing from have.
func (n *NF) missing(num poly, have, full []factor) poly {
	hm := map[int]int{}
	for _, f := range have {
		hm[f.id] = f.k
	}
	for _, f := range full {
		for k := hm[f.id]; k < f.k; k++ {
			num = n.polyMul(num, n.facs[f.id])
		}
	}
	return num
}

func (n *NF) add(a, b *rf) *rf {
	if a.isZero() {
		return b
	}
	if b.isZero() {
		return a
	}
	if len(a.den) == 0 && len(b.den) == 0 {
		return &rf{num: polyAdd(a.num, b.num)}
	}
	full := mergeDen(a.den, b.den, false)
	num := polyAdd(n.missing(a.num, a.den, full), n.missing(b.num, b.den, full))
	return n.cancel(n.reduce(num, full))
}

func (n *NF) scale(a *rf, c *big.Rat) *rf {
	return &rf{num: polyScale(a.num, c, nil), den: a.den}
}

// split writes p = c * mono * p' with p' of leading coefficient 1 and no monomial content.
func (n *NF) split(p poly) (*big.Rat, mono, poly) {
	if len(p) == 1 {
		for _, t := range p {
			return t.c, t.m, nil
		}
	}
	rng := degRange(p)
	var m mono
	var ids []int
	for a, d := range rng {
		if d[0] != 0 {
			ids = append(ids, int(a))
		}
	}
	sort.Ints(ids)
	for _, a := range ids {
		e := rng[int32(a)][0]
		if n.atoms[a].kind == aRoot && e < 0 {
			continue
		}
		m = append(m, mexp{int32(a), e})
	}
	ld := p.lead()
	c := ld.c
	return c, m, polyScale(p, new(big.Rat).Inv(c), monoInv(m))
}

func (n *NF) inv(a *rf) *rf {
	if a.isZero() {
		panic(nfDivZero{})
	}
	c, m, p := n.split(a.num)
	num := polyConst(new(big.Rat).Inv(c))
	num = polyScale(num, big.NewRat(1, 1), monoInv(m))
	var den []factor
	if p != nil {
		// divide by already known factors first
		for id := len(n.facs) - 1; id >= 0 && id > len(n.facs)-40 && len(p) > 1; id-- {
			k := 0
			for len(n.facs[id]) <= len(p) {
				q, ok := n.polyDivExact(p, n.facs[id])
				if !ok {
					break
				}
				p = q
				k++
			}
			if k > 0 {
				den = append(den, factor{id, k})
			}
		}
		c2, m2, p2 := n.split(p)
		num = polyScale(num, new(big.Rat).Inv(c2), monoInv(m2))
		if p2 != nil {
			den = append(den, factor{n.internFac(p2), 1})
		}
		sort.Slice(den, func(i, j int) bool { return den[i].id < den[j].id })
	}
	r := n.reduce(num, den)
	for _, f := range a.den {
		for k := 0; k < f.k; k++ {
			r = n.mul(r, &rf{num: n.facs[f.id]})
		}
	}
	return r
}

type nfDivZero struct{}

func (n *NF) powInt(a *rf, k int64) *rf {
	if k < 0 {
		return n.powInt(n.inv(a), -k)
	}
	r := n.constRF(big.NewRat(1, 1))
	for i := int64(0); i < k; i++ {
		r = n.mul(r, a)
	}
	return r
}

// powRat is a^(c) for rational c (a assumed >= 0 for non-integers).
func (n *NF) powRat(a *rf, c *big.Rat) *rf {
	if c.IsInt() && c.Num().IsInt64() && abs64(c.Num().Int64()) <= 16 {
		return n.powInt(a, c.Num().Int64())
	}
	e := new(big.Rat).Mul(c, big.NewRat(expD, 1))
	if k, ok := a.isConst(); ok && k.Sign() > 0 {
		if k.Cmp(big.NewRat(1, 1)) == 0 {
			return a
		}
	}
	if len(a.num) == 1 && len(a.den) == 0 {
		// monomials of positive atoms
		for _, t := range a.num {
			ok := t.c.Sign() > 0
			for _, x := range t.m {
				if n.atoms[x.a].kind != aExp {
					ok = false
				}
			}
			if ok && len(t.m) > 0 {
				var m mono
				for _, x := range t.m {
					ee := new(big.Rat).Mul(c, big.NewRat(x.e, 1))
					if !ee.IsInt() {
						ok = false
						break
					}
					m = append(m, mexp{x.a, ee.Num().Int64()})
				}
				if ok {
					p := poly{}
					p.addTerm(m, big.NewRat(1, 1))
					return n.mul(&rf{num: p}, n.powRat(n.constRF(t.c), c))
				}
			}
		}
	}
	// take out square content of the coefficient
	lead := big.NewRat(1, 1)
	if len(a.num) > 0 {
		l := a.num.lead()
		lead = new(big.Rat).Abs(l.c)
	}
	one := big.NewRat(1, 1)
	out := n.constRF(one)
	if _, isC := a.isConst(); !isC && lead.Cmp(one) != 0 {
		a = n.scale(a, new(big.Rat).Inv(lead))
		out = n.powRat(n.constRF(lead), c)
	} else if isC && c.Cmp(big.NewRat(1, 2)) == 0 {
		if r, ok := ratSqrt(lead); ok {
			return n.constRF(r)
		}
	}
	if e.IsInt() && e.Num().IsInt64() {
		at, nw := n.atom(aRoot, fmt.Sprintf("R%d", n.rid(a)))
		if nw {
			at.base = a
		}
		p := poly{}
		p.addTerm(mono{{int32(at.id), e.Num().Int64()}}, one)
		return n.mul(out, n.reduce(p, nil))
	}
	// exp(c*log a)
	return n.mul(out, n.exp(n.scale(n.log(a), c)))
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func (n *NF) exp(a *rf) *rf {
	r := n.constRF(big.NewRat(1, 1))
	dk := ""
	for _, f := range a.den {
		dk += fmt.Sprintf("/%d^%d", f.id, f.k)
	}
	one := big.NewRat(1, 1)
	for _, t := range a.num.sorted() {
		if len(t.m) == 1 && t.m[0].e == expD && len(a.den) == 0 {
			at := n.atoms[t.m[0].a]
			if at.kind == aLog {
				// |base|^c
				if e := new(big.Rat).Mul(t.c, big.NewRat(expD, 1)); e.IsInt() {
					r = n.mul(r, n.powRat(at.base, t.c))
					continue
				}
			}
		}
		e := new(big.Rat).Mul(t.c, big.NewRat(expD, 1))
		key := fmt.Sprintf("E%q%s", monoKey(t.m), dk)
		unit := one
		if !e.IsInt() || !e.Num().IsInt64() || abs64(e.Num().Int64()) > 1<<40 {
			key += "@" + t.c.RatString()
			unit = t.c
			e = big.NewRat(expD, 1)
		}
		at, nw := n.atom(aExp, key)
		if nw {
			p := poly{}
			p.addTerm(t.m, unit)
			at.base = &rf{num: p, den: a.den}
			at.pos = true
		}
		p := poly{}
		p.addTerm(mono{{int32(at.id), e.Num().Int64()}}, one)
		r = n.mul(r, &rf{num: p})
	}
	return r
}

var smallPrimes = []int64{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47}

func (n *NF) logConst(c *big.Rat) *rf {
	r := &rf{num: poly{}}
	c = new(big.Rat).Abs(c)
	add := func(x *big.Int, s int64) {
		x = new(big.Int).Set(x)
		for _, p := range smallPrimes {
			k := int64(0)
			P := big.NewInt(p)
			for new(big.Int).Mod(x, P).Sign() == 0 {
				x.Div(x, P)
				k++
			}
			if k > 0 {
				r = n.add(r, n.scale(n.logAtom(n.constRF(big.NewRat(p, 1))), big.NewRat(s*k, 1)))
			}
		}
		if x.Cmp(big.NewInt(1)) != 0 {
			r = n.add(r, n.scale(n.logAtom(n.constRF(new(big.Rat).SetInt(x))), big.NewRat(s, 1)))
		}
	}
	add(c.Num(), 1)
	add(c.Denom(), -1)
	return r
}

func (n *NF) logAtom(base *rf) *rf {
	at, nw := n.atom(aLog, fmt.Sprintf("L%d", n.rid(base)))
	if nw {
		at.base = base
	}
	return n.atomRF(at)
}

func (n *NF) log(a *rf) *rf {
	if a.isZero() {
		panic(nfDivZero{})
	}
	c, m, p := n.split(a.num)
	if p != nil && c.Sign() < 0 {
		p = polyScale(p, big.NewRat(-1, 1), nil)
	}
	r := n.logConst(c)
	for _, x := range m {
		at := n.atoms[x.a]
		e := big.NewRat(x.e, expD)
		var l *rf
		switch at.kind {
		case aExp:
			l = at.base
		case aRoot:
			l = n.log(at.base)
		default:
			l = n.logAtom(n.atomRF(at))
		}
		r = n.add(r, n.scale(l, e))
	}
	if p != nil {
		r = n.add(r, n.logAtom(&rf{num: p}))
	}
	for _, f := range a.den {
		r = n.add(r, n.scale(n.logAtom(&rf{num: n.facs[f.id]}), big.NewRat(int64(-f.k), 1)))
	}
	return r
}

// of computes the normal form of a real term.
func (n *NF) of(t *Term) *rf {
	if r, ok := n.memo[t]; ok {
		return r
	}
	var r *rf
	one := big.NewRat(1, 1)
	switch t.op {
	case TConst:
		r = n.constRF(t.rat)
	case TVar:
		at, nw := n.atom(aVar, fmt.Sprintf("V%d", t.id))
		if nw {
			at.t = t
		}
		r = n.atomRF(at)
	case TAdd:
		// gather long sums
		r = n.add(n.of(t.args[0]), n.of(t.args[1]))
	case TMul:
		r = n.mul(n.of(t.args[0]), n.of(t.args[1]))
	case TDiv:
		r = n.mul(n.of(t.args[0]), n.inv(n.of(t.args[1])))
	case TB2Real:
		at, nw := n.atom(aB2R, fmt.Sprintf("B%d", t.id))
		if nw {
			at.t = t
		}
		r = n.atomRF(at)
	case TIte:
		a, b := n.of(t.args[1]), n.of(t.args[2])
		if n.rid(a) == n.rid(b) {
			r = a
			break
		}
		at, nw := n.atom(aIte, fmt.Sprintf("I%d,%d,%d", t.args[0].id, n.rid(a), n.rid(b)))
		if nw {
			at.t = t
			at.args = []*rf{a, b}
		}
		r = n.atomRF(at)
	case TUF:
		a := n.of(t.args[0])
		switch t.name {
		case "exp":
			r = n.exp(a)
		case "log":
			r = n.log(a)
		case "sqrt":
			r = n.powRat(a, big.NewRat(1, 2))
		case "cbrt":
			r = n.uf("cbrt", a)
		case "tanh", "sinh", "cosh":
			e2 := n.exp(n.scale(a, big.NewRat(2, 1)))
			k1 := n.constRF(one)
			switch t.name {
			case "tanh":
				r = n.mul(n.add(e2, n.scale(k1, big.NewRat(-1, 1))), n.inv(n.add(e2, k1)))
			case "sinh":
				e1, em := n.exp(a), n.exp(n.scale(a, big.NewRat(-1, 1)))
				r = n.scale(n.add(e1, n.scale(em, big.NewRat(-1, 1))), big.NewRat(1, 2))
			case "cosh":
				e1, em := n.exp(a), n.exp(n.scale(a, big.NewRat(-1, 1)))
				r = n.scale(n.add(e1, em), big.NewRat(1, 2))
			}
		case "tan":
			r = n.mul(n.uf("sin", a), n.inv(n.uf("cos", a)))
		case "pow":
			b := n.of(t.args[1])
			if c, ok := b.isConst(); ok {
				r = n.powRat(a, c)
			} else {
				r = n.exp(n.mul(b, n.log(a)))
			}
		default:
			r = n.uf(t.name, a)
		}
	default:
		panic(fmt.Sprintf("nf: op %d", t.op))
	}
	n.memo[t] = r
	return r
}

func (n *NF) uf(name string, args ...*rf) *rf {
	if (name == "sin" || name == "cos") && len(args[0].num) > 0 {
		if l := args[0].num.lead(); l.c.Sign() < 0 {
			neg := n.scale(args[0], big.NewRat(-1, 1))
			r := n.uf(name, neg)
			if name == "sin" {
				r = n.scale(r, big.NewRat(-1, 1))
			}
			return r
		}
	}
	key := "U" + name
	for _, a := range args {
		key += fmt.Sprintf(",%d", n.rid(a))
	}
	at, nw := n.atom(aUF, key)
	if nw {
		at.name = name
		at.args = args
	}
	return n.atomRF(at)
}
