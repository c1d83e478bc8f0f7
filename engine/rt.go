package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- maps

type mapEnt struct {
	key  []V
	val  []V
	dead bool
}

type MapObj struct {
	addr  uint64
	ents  []*mapEnt
	index map[string]*mapEnt
	live  int
	sym   bool // has had symbolic keys, which are not in the index
	epoch uint32
	nv    int
	mt    *types.Map
}

type mapSave struct {
	o     *MapObj
	ents  []*mapEnt
	vals  [][]V
	index map[string]*mapEnt
	live  int
	sym   bool
}

func (m *M) newMap(mt *types.Map) *MapObj {
	return &MapObj{addr: m.newAddr(48), index: map[string]*mapEnt{}, nv: nleaves(mt.Elem()), mt: mt}
}

func (m *M) touchMap(o *MapObj) {
	if o.epoch == m.epoch {
		return
	}
	if o.addr < m.snapAddr {
		s := mapSave{o: o, live: o.live, sym: o.sym, index: map[string]*mapEnt{}}
		for _, e := range o.ents {
			s.ents = append(s.ents, &mapEnt{e.key, append([]V(nil), e.val...), e.dead})
		}
		s.ents, s.vals = o.ents, nil
		cp := make([]*mapEnt, len(o.ents))
		re := map[*mapEnt]*mapEnt{}
		for i, e := range o.ents {
			n := &mapEnt{e.key, append([]V(nil), e.val...), e.dead}
			cp[i] = n
			re[e] = n
		}
		s.index = o.index
		ni := make(map[string]*mapEnt, len(o.index))
		for k, e := range o.index {
			ni[k] = re[e]
		}
		o.ents = cp
		o.index = ni
		m.mapJ = append(m.mapJ, s)
	}
	o.epoch = m.epoch
}

// mapKey gives the canonical text of a key.
func (m *M) mapKey(t types.Type, v []V, b []byte) []byte {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		inf := u.Info()
		switch {
		case inf&types.IsString != 0:
			s := m.bytesOf(v[0], int(v[1].n))
			b = strconv.AppendInt(b, int64(len(s)), 10)
			b = append(b, ':')
			return append(b, s...)
		case inf&types.IsFloat != 0, inf&types.IsComplex != 0:
			for _, x := range v {
				if x.r != nil {
					panic(unsupported("symbolic float map key"))
				}
				k := KF64
				if basicKind(u) == KF32 || u.Kind() == types.Complex64 {
					k = KF32
				}
				f := f64of(x, k)
				if f == 0 {
					f = 0
				}
				b = strconv.AppendUint(b, math.Float64bits(f+0), 16)
				b = append(b, ',')
			}
			return b
		case inf&types.IsInteger != 0 || inf&types.IsBoolean != 0:
			x := v[0]
			if x.r != nil {
				if _, ok := x.r.(*Term); ok {
					if inf&types.IsBoolean != 0 {
						x = b2v(m.branch(x))
					} else {
						x = m.concretize(x, basicKind(u), "map key")
					}
				} else {
					a, _ := absAddr(x)
					x = V{n: a}
				}
			}
			b = strconv.AppendUint(b, x.n, 16)
			return append(b, ',')
		}
	case *types.Interface:
		rt, _ := v[0].r.(*RType)
		if rt == nil {
			return append(b, "nil,"...)
		}
		if !types.Comparable(rt.t) {
			m.rtPanic("hash of unhashable type " + rt.str)
		}
		b = append(b, 'T')
		b = strconv.AppendInt(b, int64(rt.id), 10)
		b = append(b, '(')
		b = m.mapKey(rt.t, m.unboxRecv(rt, v[1]), b)
		return append(b, ')')
	case *types.Struct:
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			n := nleaves(u.Field(i).Type())
			b = m.mapKey(u.Field(i).Type(), v[off:off+n], b)
			off += n
		}
		return b
	case *types.Array:
		n := nleaves(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			b = m.mapKey(u.Elem(), v[i*n:(i+1)*n], b)
		}
		return b
	}
	x := v[0]
	a, ok := absAddr(x)
	if !ok {
		panic(unsupported("map key %T", x.r))
	}
	b = append(b, 'p')
	b = strconv.AppendUint(b, a, 16)
	return append(b, ',')
}

// symKey tells whether a key is a symbolic integer.
func symKey(kt types.Type, k []V) bool {
	if u, ok := kt.Underlying().(*types.Basic); !ok || u.Info()&types.IsInteger == 0 {
		return false
	}
	_, ok := k[0].r.(*Term)
	return ok
}

// symFind finds the entry of an integer key where the key or a key of the map is symbolic: the solver decides which keys
// can be equal, and the path splits where more than one answer is possible.
func (m *M) symFind(o *MapObj, kt types.Type, k []V) *mapEnt {
	for _, e := range o.ents {
		if e.dead || (!symKey(kt, k) && !symKey(kt, e.key)) {
			continue
		}
		if m.branchT(m.equal(kt, k, e.key)) {
			return e
		}
	}
	return nil
}

func (m *M) mapGet(o *MapObj, kt types.Type, k []V) *mapEnt {
	if o != nil && (o.sym || symKey(kt, k)) {
		if !symKey(kt, k) {
			var buf [64]byte
			if e := o.index[string(m.mapKey(kt, k, buf[:0]))]; e != nil {
				return e
			}
		}
		return m.symFind(o, kt, k)
	}
	var buf [64]byte
	key := m.mapKey(kt, k, buf[:0])
	if o == nil {
		return nil
	}
	return o.index[string(key)]
}

func (m *M) mapSet(o *MapObj, kt *RType, k, v []V) {
	m.touchMap(o)
	if o.sym || symKey(kt.t, k) {
		if e := m.mapGet(o, kt.t, k); e != nil {
			copy(e.val, v)
			return
		}
		if symKey(kt.t, k) {
			o.sym = true
			o.ents = append(o.ents, &mapEnt{key: append([]V(nil), k...), val: append([]V(nil), v...)})
			o.live++
			return
		}
	}
	var buf [64]byte
	key := m.mapKey(kt.t, k, buf[:0])
	if e := o.index[string(key)]; e != nil {
		copy(e.val, v)
		return
	}
	e := &mapEnt{key: append([]V(nil), k...), val: append([]V(nil), v...)}
	o.ents = append(o.ents, e)
	o.index[string(key)] = e
	o.live++
}

func (m *M) mapDelete(o *MapObj, kt types.Type, k []V) {
	if o != nil && (o.sym || symKey(kt, k)) {
		m.touchMap(o)
		e := m.mapGet(o, kt, k)
		if e == nil {
			return
		}
		for s, x := range o.index {
			if x == e {
				delete(o.index, s)
			}
		}
		e.dead = true
		o.live--
		return
	}
	var buf [64]byte
	key := m.mapKey(kt, k, buf[:0])
	if o == nil {
		return
	}
	m.touchMap(o)
	e := o.index[string(key)]
	if e == nil {
		return
	}
	delete(o.index, string(key))
	e.dead = true
	o.live--
	if o.live == 0 {
		o.ents = nil
	} else if len(o.ents) > 32 && o.live < len(o.ents)/4 && !o.iterating() {
		var ne []*mapEnt
		for _, e := range o.ents {
			if !e.dead {
				ne = append(ne, e)
			}
		}
		o.ents = ne
	}
}

func (o *MapObj) iterating() bool { return true }

type mapIter struct {
	o    *MapObj
	list []*mapEnt
	i    int
}

type strIter struct {
	s string
	i int
}

func (m *M) newMapIter(v V) *mapIter {
	o, _ := v.r.(*MapObj)
	it := &mapIter{o: o}
	if o == nil {
		return it
	}
	for _, e := range o.ents {
		if !e.dead {
			it.list = append(it.list, e)
		}
	}
	m.orderMap(it.list)
	return it
}

func (m *M) orderMap(l []*mapEnt) {
	n := len(l)
	if n < 2 {
		return
	}
	switch m.mapOrder {
	case 1: // reversed
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	case 2: // every order (forks)
		for i := 0; i < n-1; i++ {
			k := m.choose(n-i, "map order")
			l[i], l[i+k] = l[i+k], l[i]
		}
	case 3: // any entry first, the rest in insertion order
		k := m.choose(n, "map order")
		l[0], l[k] = l[k], l[0]
	}
}

func (it *mapIter) next() *mapEnt {
	for it.i < len(it.list) {
		e := it.list[it.i]
		it.i++
		if !e.dead {
			return e
		}
	}
	return nil
}

func (k *compiler) next(x *ssa.Next, d int) op {
	o := k.opd(x.Iter)
	if x.IsString {
		return func(m *M, fr *frame) int {
			it := o.get(m, fr).r.(*strIter)
			if it.i >= len(it.s) {
				fr.regs[d], fr.regs[d+1], fr.regs[d+2] = V{}, V{}, V{}
				return cNext
			}
			r, w := utf8.DecodeRuneInString(it.s[it.i:])
			fr.regs[d] = V{n: 1}
			fr.regs[d+1] = V{n: uint64(it.i)}
			fr.regs[d+2] = V{n: uint64(int64(r))}
			it.i += w
			return cNext
		}
	}
	rng := x.Iter.(*ssa.Range)
	mt := rng.X.Type().Underlying().(*types.Map)
	nk, nv := nleaves(mt.Key()), nleaves(mt.Elem())
	// the tuple may have invalid (blank) component types
	tup := x.Type().(*types.Tuple)
	tk, tv := nleaves(tup.At(1).Type()), nleaves(tup.At(2).Type())
	useK, useV := !isInvalid(tup.At(1).Type()), !isInvalid(tup.At(2).Type())
	return func(m *M, fr *frame) int {
		it := o.get(m, fr).r.(*mapIter)
		e := it.next()
		if e == nil {
			for i := 0; i < 1+tk+tv; i++ {
				fr.regs[d+i] = V{}
			}
			return cNext
		}
		fr.regs[d] = V{n: 1}
		if useK {
			copy(fr.regs[d+1:d+1+nk], e.key)
		}
		if useV {
			copy(fr.regs[d+1+tk:d+1+tk+nv], e.val)
		}
		return cNext
	}
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func (k *compiler) lookup(x *ssa.Lookup, d int) op {
	o, ix := k.opd(x.X), k.opd(x.Index)
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		ik := scalarKind(x.Index.Type())
		return func(m *M, fr *frame) int {
			s := o.slice(m, fr)
			i := ix.get(m, fr)
			if i.r != nil {
				i = m.concretize(i, ik, "index")
			}
			if i.n >= s[1].n {
				m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.n), s[1].n))
			}
			fr.regs[d] = m.byteAt(s[0].r.(*Obj), int(s[0].n+i.n))
			return cNext
		}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	n := nleaves(mt.Elem())
	kt := mt.Key()
	ck := x.CommaOk
	return func(m *M, fr *frame) int {
		mo, _ := o.get(m, fr).r.(*MapObj)
		e := m.mapGet(mo, kt, ix.slice(m, fr))
		if e == nil {
			for i := 0; i < n; i++ {
				fr.regs[d+i] = V{}
			}
			if ck {
				fr.regs[d+n] = V{}
			}
			return cNext
		}
		copy(fr.regs[d:d+n], e.val)
		if ck {
			fr.regs[d+n] = V{n: 1}
		}
		return cNext
	}
}

// ---------------------------------------------------------------- channels

type waiter struct {
	g    *G
	done bool
	idx  int
	val  []V
	ok   bool
	pan  bool
	// per case value to send
	send [][]V
}

type chWait struct {
	w   *waiter
	idx int
}

type Chan struct {
	addr   uint64
	cap    int
	nl     int
	buf    [][]V
	closed bool
	recvq  []chWait
	sendq  []chWait
	epoch  uint32
}

type chanSave struct {
	o   *Chan
	old Chan
}

// touchChan saves a channel of the snapshot before its first change on a path.
func (m *M) touchChan(c *Chan) {
	if c.epoch == m.epoch {
		return
	}
	if c.addr < m.snapAddr {
		s := chanSave{o: c, old: *c}
		s.old.buf = append([][]V(nil), c.buf...)
		s.old.recvq = append([]chWait(nil), c.recvq...)
		s.old.sendq = append([]chWait(nil), c.sendq...)
		m.chanJ = append(m.chanJ, s)
	}
	c.epoch = m.epoch
}

func (q *chWait) live() bool { return !q.w.done }

func popWait(q *[]chWait) *chWait {
	for len(*q) > 0 {
		c := (*q)[0]
		*q = (*q)[1:]
		if c.live() {
			return &c
		}
	}
	return nil
}

func hasWait(q []chWait) bool {
	for i := range q {
		if q[i].live() {
			return true
		}
	}
	return false
}

type selCase struct {
	ch   *Chan
	send bool
	val  []V
}

func (c *selCase) ready() bool {
	if c.ch == nil {
		return false
	}
	if c.send {
		return c.ch.closed || hasWait(c.ch.recvq) || len(c.ch.buf) < c.ch.cap
	}
	return len(c.ch.buf) > 0 || hasWait(c.ch.sendq) || c.ch.closed
}

// doSelect: blocked=true means the goroutine must block and the operation be retried.
func (m *M) doSelect(g *G, cases []selCase, blocking bool) (idx int, val []V, ok, blocked bool) {
	if w := g.wait; w != nil {
		if !w.done {
			g.ready = func(m *M) bool { return w.done }
			return 0, nil, false, true
		}
		g.wait = nil
		if w.pan {
			panic(tPanic{m.plainErr("send on closed channel")})
		}
		return w.idx, w.val, w.ok, false
	}
	if m.delay && !g.yield && m.preempt(nil) {
		g.yield = true
		return 0, nil, false, true
	}
	g.yield = false
	var rd []int
	for i := range cases {
		if cases[i].ready() {
			rd = append(rd, i)
		}
	}
	if len(rd) > 0 {
		p := 0
		if m.sched && !m.delay && len(rd) > 1 {
			p = m.choose(len(rd), "select")
		} else if m.delay && m.preempts > 0 && len(rd) > 1 {
			p = m.choose(min(len(rd), m.preempts+1), "select")
			m.preempts -= p
		}
		i := rd[p]
		c := &cases[i]
		ch := c.ch
		m.touchChan(ch)
		if c.send {
			if ch.closed {
				panic(tPanic{m.plainErr("send on closed channel")})
			}
			if w := popWait(&ch.recvq); w != nil {
				w.w.done, w.w.idx, w.w.val, w.w.ok = true, w.idx, c.val, true
			} else {
				ch.buf = append(ch.buf, c.val)
			}
			return i, nil, false, false
		}
		if len(ch.buf) > 0 {
			v := ch.buf[0]
			ch.buf = append([][]V(nil), ch.buf[1:]...)
			if w := popWait(&ch.sendq); w != nil {
				ch.buf = append(ch.buf, w.w.send[w.idx])
				w.w.done, w.w.idx = true, w.idx
			}
			return i, v, true, false
		}
		if w := popWait(&ch.sendq); w != nil {
			w.w.done, w.w.idx = true, w.idx
			return i, w.w.send[w.idx], true, false
		}
		return i, make([]V, ch.nl), false, false
	}
	if !blocking {
		return -1, nil, false, false
	}
	w := &waiter{g: g, send: make([][]V, len(cases))}
	for i := range cases {
		c := &cases[i]
		if c.ch == nil {
			continue
		}
		m.touchChan(c.ch)
		if c.send {
			w.send[i] = c.val
			c.ch.sendq = append(c.ch.sendq, chWait{w, i})
		} else {
			c.ch.recvq = append(c.ch.recvq, chWait{w, i})
		}
	}
	g.wait = w
	g.ready = func(m *M) bool { return w.done }
	return 0, nil, false, true
}

func (m *M) closeChan(ch *Chan) {
	if ch == nil {
		panic(tPanic{m.plainErr("close of nil channel")})
	}
	if ch.closed {
		panic(tPanic{m.plainErr("close of closed channel")})
	}
	m.touchChan(ch)
	ch.closed = true
	for {
		w := popWait(&ch.recvq)
		if w == nil {
			break
		}
		w.w.done, w.w.idx, w.w.val, w.w.ok = true, w.idx, make([]V, ch.nl), false
	}
	for {
		w := popWait(&ch.sendq)
		if w == nil {
			break
		}
		w.w.done, w.w.idx, w.w.pan = true, w.idx, true
	}
}

// preempt decides (when schedules are explored) whether to yield before a synchronisation operation.
func (m *M) preempt(fr *frame) bool {
	if !m.sched || m.preempts <= 0 {
		return false
	}
	// only when somebody else could run
	n := 0
	for _, g := range m.gs {
		if !g.done && g != m.cur && g.isReady(m) {
			n++
		}
	}
	if n == 0 {
		return false
	}
	if m.choose(2, "preempt") == 1 {
		m.preempts--
		return true
	}
	return false
}

func (k *compiler) recv(x *ssa.UnOp, d int) op {
	o := k.opd(x.X)
	n := nleaves(x.X.Type().Underlying().(*types.Chan).Elem())
	ck := x.CommaOk
	return func(m *M, fr *frame) int {
		ch, _ := o.get(m, fr).r.(*Chan)
		_, v, ok, bl := m.doSelect(fr.g, []selCase{{ch: ch}}, true)
		if bl {
			return cBlock
		}
		copy(fr.regs[d:d+n], v)
		if ck {
			fr.regs[d+n] = b2v(ok)
		}
		return cNext
	}
}

func (k *compiler) send(x *ssa.Send) op {
	o, vo := k.opd(x.Chan), k.opd(x.X)
	return func(m *M, fr *frame) int {
		ch, _ := o.get(m, fr).r.(*Chan)
		v := append([]V(nil), vo.slice(m, fr)...)
		_, _, _, bl := m.doSelect(fr.g, []selCase{{ch: ch, send: true, val: v}}, true)
		if bl {
			return cBlock
		}
		return cNext
	}
}

func (k *compiler) selectOp(x *ssa.Select, d int) op {
	type cs struct {
		ch, val opd
		send    bool
		n       int
		off     int
	}
	var cases []cs
	off := 2
	for _, s := range x.States {
		c := cs{ch: k.opd(s.Chan), send: s.Dir == types.SendOnly}
		if c.send {
			c.val = k.opd(s.Send)
		} else {
			c.n = nleaves(s.Chan.Type().Underlying().(*types.Chan).Elem())
			c.off = off
			off += c.n
		}
		cases = append(cases, c)
	}
	total := off
	blocking := x.Blocking
	return func(m *M, fr *frame) int {
		sc := make([]selCase, len(cases))
		for i := range cases {
			c := &cases[i]
			ch, _ := c.ch.get(m, fr).r.(*Chan)
			sc[i] = selCase{ch: ch, send: c.send}
			if c.send {
				sc[i].val = append([]V(nil), c.val.slice(m, fr)...)
			}
		}
		idx, v, ok, bl := m.doSelect(fr.g, sc, blocking)
		if bl {
			return cBlock
		}
		for i := 0; i < total; i++ {
			fr.regs[d+i] = V{}
		}
		fr.regs[d] = V{n: uint64(int64(idx))}
		fr.regs[d+1] = b2v(ok)
		if idx >= 0 && !cases[idx].send {
			copy(fr.regs[d+cases[idx].off:d+cases[idx].off+cases[idx].n], v)
		}
		return cNext
	}
}

// ---------------------------------------------------------------- slices

func (k *compiler) slice(x *ssa.Slice, d int) op {
	o := k.opd(x.X)
	var lo, hi, mx opd
	hl, hh, hm := x.Low != nil, x.High != nil, x.Max != nil
	var lk, hk, mk Kind
	if hl {
		lo = k.opd(x.Low)
		lk = scalarKind(x.Low.Type())
	}
	if hh {
		hi = k.opd(x.High)
		hk = scalarKind(x.High.Type())
	}
	if hm {
		mx = k.opd(x.Max)
		mk = scalarKind(x.Max.Type())
	}
	get := func(m *M, fr *frame, o *opd, kd Kind) int64 {
		v := o.get(m, fr)
		if v.r != nil {
			v = m.concretize(v, kd, "slice bound")
		}
		return int64(v.n)
	}
	var es int
	kind := 0
	arrLen := int64(0)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		es, kind = 1, 0
	case *types.Slice:
		es, kind = int(stdSizes.Sizeof(u.Elem())), 1
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		es, kind, arrLen = int(stdSizes.Sizeof(a.Elem())), 2, a.Len()
	default:
		panic(fmt.Sprintf("slice of %v", x.X.Type()))
	}
	return func(m *M, fr *frame) int {
		s := o.slice(m, fr)
		var ln, cp int64
		p := s[0]
		switch kind {
		case 0:
			ln = int64(s[1].n)
			cp = ln
		case 1:
			ln, cp = int64(s[1].n), int64(s[2].n)
		case 2:
			ln, cp = arrLen, arrLen
			if p.r == nil {
				m.badPtr(p)
			}
		}
		l, h, c := int64(0), ln, cp
		if hl {
			l = get(m, fr, &lo, lk)
		}
		if hh {
			h = get(m, fr, &hi, hk)
		}
		if hm {
			c = get(m, fr, &mx, mk)
			if c < 0 || c > cp {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", c, cp))
			}
		}
		if h < 0 || h > c {
			if kind == 0 {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, c))
			}
			m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, c))
		}
		if l < 0 || l > h {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if p.r != nil && c-l > 0 {
			p.n += uint64(l) * uint64(es)
		}
		fr.regs[d] = p
		fr.regs[d+1] = V{n: uint64(h - l)}
		if kind != 0 {
			fr.regs[d+2] = V{n: uint64(c - l)}
		}
		return cNext
	}
}

// ---------------------------------------------------------------- builtins

func (m *M) appendSlice(el types.Type, s []V, src V, n int) [3]V {
	lay := layoutOf(el)
	ln, cp := int(s[1].n), int(s[2].n)
	if n == 0 {
		return [3]V{s[0], s[1], s[2]}
	}
	if ln+n <= cp {
		dst := s[0]
		dst.n += uint64(ln * lay.size)
		if lay.size > 0 {
			m.memmove(dst, src, lay, n)
		}
		return [3]V{s[0], {n: uint64(ln + n)}, s[2]}
	}
	nc := growCap(cp, ln+n, lay.size)
	no := m.alloc(el, nc)
	if ln > 0 && lay.size > 0 {
		m.memmove(V{r: no}, s[0], lay, ln)
	}
	if lay.size > 0 {
		m.memmove(V{r: no, n: uint64(ln * lay.size)}, src, lay, n)
	}
	return [3]V{{r: no}, {n: uint64(ln + n)}, {n: uint64(nc)}}
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(old, need, es int) int {
	nc := old
	dbl := nc + nc
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return need
	}
	b := nc * es
	if b <= 32768 {
		i := sort.SearchInts(sizeClasses, b)
		b = sizeClasses[i]
	} else {
		b = (b + 8191) &^ 8191
	}
	return b / es
}

func (k *compiler) builtin(b *ssa.Builtin, c *ssa.CallCommon, d int) op {
	var as []opd
	for _, a := range c.Args {
		as = append(as, k.opd(a))
	}
	t0 := types.Type(nil)
	if len(c.Args) > 0 {
		t0 = c.Args[0].Type()
	}
	switch b.Name() {
	case "len", "cap":
		isLen := b.Name() == "len"
		o := as[0]
		switch u := t0.Underlying().(type) {
		case *types.Basic:
			return func(m *M, fr *frame) int { fr.regs[d] = o.slice(m, fr)[1]; return cNext }
		case *types.Slice:
			i := 1
			if !isLen {
				i = 2
			}
			return func(m *M, fr *frame) int { fr.regs[d] = o.slice(m, fr)[i]; return cNext }
		case *types.Map:
			return func(m *M, fr *frame) int {
				n := 0
				if mo, ok := o.get(m, fr).r.(*MapObj); ok {
					n = mo.live
				}
				fr.regs[d] = V{n: uint64(n)}
				return cNext
			}
		case *types.Chan:
			return func(m *M, fr *frame) int {
				n := 0
				if ch, ok := o.get(m, fr).r.(*Chan); ok {
					n = len(ch.buf)
					if !isLen {
						n = ch.cap
					}
				}
				fr.regs[d] = V{n: uint64(n)}
				return cNext
			}
		case *types.Array:
			n := uint64(u.Len())
			return func(m *M, fr *frame) int { fr.regs[d] = V{n: n}; return cNext }
		case *types.Pointer:
			n := uint64(u.Elem().Underlying().(*types.Array).Len())
			return func(m *M, fr *frame) int { fr.regs[d] = V{n: n}; return cNext }
		}
	case "append":
		el := t0.Underlying().(*types.Slice).Elem()
		s, x := as[0], as[1]
		return func(m *M, fr *frame) int {
			sv := s.slice(m, fr)
			xv := x.slice(m, fr)
			r := m.appendSlice(el, sv, xv[0], int(xv[1].n))
			copy(fr.regs[d:d+3], r[:])
			return cNext
		}
	case "copy":
		el := t0.Underlying().(*types.Slice).Elem()
		lay := layoutOf(el)
		s, x := as[0], as[1]
		return func(m *M, fr *frame) int {
			sv, xv := s.slice(m, fr), x.slice(m, fr)
			n := int(sv[1].n)
			if int(xv[1].n) < n {
				n = int(xv[1].n)
			}
			if n > 0 && lay.size > 0 {
				m.memmove(sv[0], xv[0], lay, n)
			}
			fr.regs[d] = V{n: uint64(n)}
			return cNext
		}
	case "clear":
		o := as[0]
		switch u := t0.Underlying().(type) {
		case *types.Map:
			return func(m *M, fr *frame) int {
				if mo, ok := o.get(m, fr).r.(*MapObj); ok {
					m.touchMap(mo)
					for _, e := range mo.ents {
						e.dead = true
					}
					mo.ents, mo.index, mo.live, mo.sym = nil, map[string]*mapEnt{}, 0, false
				}
				return cNext
			}
		case *types.Slice:
			lay := layoutOf(u.Elem())
			return func(m *M, fr *frame) int {
				s := o.slice(m, fr)
				z := make([]V, len(lay.leaves))
				for i := 0; i < int(s[1].n); i++ {
					m.storeN(V{r: s[0].r, n: s[0].n + uint64(i*lay.size)}, lay, z)
				}
				return cNext
			}
		}
	case "delete":
		mt := t0.Underlying().(*types.Map)
		mo, ko := as[0], as[1]
		return func(m *M, fr *frame) int {
			o, _ := mo.get(m, fr).r.(*MapObj)
			m.mapDelete(o, mt.Key(), ko.slice(m, fr))
			return cNext
		}
	case "close":
		o := as[0]
		return func(m *M, fr *frame) int {
			ch, _ := o.get(m, fr).r.(*Chan)
			m.closeChan(ch)
			return cNext
		}
	case "panic":
		o := as[0]
		return func(m *M, fr *frame) int {
			s := o.slice(m, fr)
			panic(tPanic{[2]V{s[0], s[1]}})
		}
	case "recover":
		return func(m *M, fr *frame) int {
			fr.regs[d], fr.regs[d+1] = V{}, V{}
			if fr.isDefer && fr.unwind && len(fr.g.panics) > 0 {
				p := fr.g.panics[len(fr.g.panics)-1]
				if !p.recovered {
					p.recovered = true
					fr.regs[d], fr.regs[d+1] = p.val[0], p.val[1]
				}
			}
			return cNext
		}
	case "print", "println":
		return func(m *M, fr *frame) int { return cNext }
	case "real", "imag":
		i := 0
		if b.Name() == "imag" {
			i = 1
		}
		o := as[0]
		return func(m *M, fr *frame) int { fr.regs[d] = o.slice(m, fr)[i]; return cNext }
	case "complex":
		x, y := as[0], as[1]
		return func(m *M, fr *frame) int {
			a, b := x.get(m, fr), y.get(m, fr)
			fr.regs[d], fr.regs[d+1] = a, b
			return cNext
		}
	case "min", "max":
		tok := token.LSS
		if b.Name() == "max" {
			tok = token.GTR
		}
		bt := t0.Underlying().(*types.Basic)
		if bt.Info()&types.IsString != 0 {
			break
		}
		kd := basicKind(bt)
		return func(m *M, fr *frame) int {
			v := as[0].get(m, fr)
			for i := 1; i < len(as); i++ {
				w := as[i].get(m, fr)
				var c V
				if kd.isFloat() {
					if w.r == nil && math.IsNaN(f64of(w, kd)) {
						v = w
						continue
					}
					if v.r == nil && math.IsNaN(f64of(v, kd)) {
						continue
					}
					c = m.floatBin(tok, w, v, kd)
				} else {
					c = m.intBinSlow(tok, w, v, kd)
				}
				if m.branch(c) {
					v = w
				}
			}
			fr.regs[d] = v
			return cNext
		}
	case "ssa:wrapnilchk":
		o := as[0]
		return func(m *M, fr *frame) int {
			p := o.get(m, fr)
			if p.r == nil {
				m.rtPanic("value method called using nil pointer")
			}
			fr.regs[d] = p
			return cNext
		}
	case "Add": // unsafe.Add
		x, y := as[0], as[1]
		return func(m *M, fr *frame) int {
			p := x.get(m, fr)
			p.n += y.get(m, fr).n
			fr.regs[d] = p
			return cNext
		}
	case "Slice": // unsafe.Slice
		x, y := as[0], as[1]
		return func(m *M, fr *frame) int {
			p, n := x.get(m, fr), y.get(m, fr)
			fr.regs[d], fr.regs[d+1], fr.regs[d+2] = p, n, n
			return cNext
		}
	case "SliceData":
		x := as[0]
		return func(m *M, fr *frame) int { fr.regs[d] = x.slice(m, fr)[0]; return cNext }
	case "String":
		x, y := as[0], as[1]
		return func(m *M, fr *frame) int {
			p, n := x.get(m, fr), y.get(m, fr)
			fr.regs[d], fr.regs[d+1] = p, n
			return cNext
		}
	case "StringData":
		x := as[0]
		return func(m *M, fr *frame) int { fr.regs[d] = x.slice(m, fr)[0]; return cNext }
	}
	panic(fmt.Sprintf("builtin %s on %v", b.Name(), t0))
}

func (m *M) builtinDeferred(name string, ats []types.Type, args []V) {
	switch name {
	case "close":
		ch, _ := args[0].r.(*Chan)
		m.closeChan(ch)
	case "panic":
		panic(tPanic{[2]V{args[0], args[1]}})
	case "delete":
		mt := ats[0].Underlying().(*types.Map)
		o, _ := args[0].r.(*MapObj)
		m.mapDelete(o, mt.Key(), args[1:])
	case "print", "println", "recover":
	default:
		panic(unsupported("deferred builtin %s", name))
	}
}
