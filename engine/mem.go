package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
)

func (m *M) newAddr(size int) uint64 {
	a := m.nextAddr
	m.nextAddr += uint64((size + 15) &^ 15)
	if size == 0 {
		m.nextAddr += 16
	}
	m.nextAddr += 16
	return a
}

// allocType allocates a zeroed object for n elements of type t.
func (m *M) alloc(t types.Type, n int) *Obj {
	for {
		a, ok := t.Underlying().(*types.Array)
		if !ok {
			break
		}
		n *= int(a.Len())
		t = a.Elem()
	}
	return m.allocLay(layoutOf(t), n)
}

func (m *M) allocLay(l *Layout, n int) *Obj {
	size := l.size * n
	if size > 1<<28 {
		panic(unsupported("allocation of %d bytes", size))
	}
	m.stats.allocs++
	o := &Obj{addr: m.newAddr(size), size: size}
	if l.one && l.size == 1 && l.leaves[0].kind != KBool {
		o.raw = make([]byte, n)
		return o
	}
	o.lay = l
	o.slots = make([]V, n*len(l.leaves))
	return o
}

func (m *M) allocRaw(b []byte) *Obj {
	return &Obj{addr: m.newAddr(len(b)), size: len(b), raw: b}
}

func (m *M) touch(o *Obj) {
	if o.epoch == m.epoch {
		return
	}
	if o.ro {
		panic(unsupported("write to read-only object"))
	}
	if o.addr < m.snapAddr {
		j := objSave{o: o, lay: o.lay}
		if o.raw != nil {
			j.raw = append([]byte(nil), o.raw...)
		}
		if o.slots != nil {
			j.slots = append([]V(nil), o.slots...)
		}
		m.journal = append(m.journal, j)
	}
	o.epoch = m.epoch
}

type objSave struct {
	o     *Obj
	lay   *Layout
	slots []V
	raw   []byte
}

func (m *M) badPtr(p V) {
	if p.r == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported("dereference of %T (%v)", p.r, p.n))
}

// slotIndex finds the slot index of offset off in o; rem is the offset inside the leaf.
func (o *Obj) slotIndex(off int) (idx int, leaf *Leaf, rem int) {
	l := o.lay
	if l.one {
		e := off / l.size
		return e, &l.leaves[0], off - e*l.size
	}
	e := off / l.size
	in := off - e*l.size
	if in < len(l.at) {
		if k := l.at[in]; k >= 0 {
			return e*len(l.leaves) + int(k), &l.leaves[k], 0
		}
	}
	// inside a leaf or padding
	for k := range l.leaves {
		lf := &l.leaves[k]
		if in >= lf.off && in < lf.off+lf.size {
			return e*len(l.leaves) + k, lf, in - lf.off
		}
	}
	return -1, nil, 0
}

func leafZero(v V) bool { return v.n == 0 && v.r == nil }

// concrete leaf to bits
func leafBits(v V, k Kind) (uint64, bool) {
	if v.r == nil {
		return v.n, true
	}
	return 0, false
}

func convKind(n uint64, size int, k Kind) uint64 {
	switch size {
	case 1:
		n = uint64(uint8(n))
	case 2:
		n = uint64(uint16(n))
	case 4:
		n = uint64(uint32(n))
	}
	return normInt(n, k)
}

// load1 loads one leaf.
func (m *M) load1(p V, lf *Leaf, extra int) V {
	o, ok := p.r.(*Obj)
	if !ok {
		m.badPtr(p)
	}
	off := int(p.n) + extra
	if off < 0 || off+lf.size > o.size {
		panic(unsupported("out of bounds load off=%d size=%d obj=%d", off, lf.size, o.size))
	}
	if o.raw != nil {
		switch lf.size {
		case 1:
			return V{n: normInt(uint64(o.raw[off]), lf.kind)}
		case 2:
			return V{n: normInt(uint64(binary.LittleEndian.Uint16(o.raw[off:])), lf.kind)}
		case 4:
			return V{n: normInt(uint64(binary.LittleEndian.Uint32(o.raw[off:])), lf.kind)}
		case 8:
			return V{n: binary.LittleEndian.Uint64(o.raw[off:])}
		}
	}
	idx, ol, rem := o.slotIndex(off)
	if idx < 0 {
		return V{}
	}
	if rem == 0 && ol.size == lf.size {
		v := o.slots[idx]
		if bv, ok := v.r.(*BytesVal); ok {
			v = bv.collapse(m)
		}
		if ol.kind != lf.kind {
			if v.r == nil {
				v.n = convKind(v.n, lf.size, lf.kind)
			}
		}
		return v
	}
	return m.loadPun(o, off, lf)
}

func (m *M) byteAt(o *Obj, off int) V {
	if o.raw != nil {
		return V{n: uint64(o.raw[off])}
	}
	idx, ol, rem := o.slotIndex(off)
	if idx < 0 {
		return V{}
	}
	v := o.slots[idx]
	if v.r == nil {
		return V{n: uint64(byte(v.n >> (8 * uint(rem))))}
	}
	if bv, ok := v.r.(*BytesVal); ok {
		if bv.b[rem] >= 0 {
			return V{n: uint64(bv.b[rem])}
		}
		return V{r: &ByteOf{bv.orig, bv.k, rem}}
	}
	if ol.size == 1 {
		return v
	}
	return V{r: &ByteOf{v, ol.kind, rem}}
}

func (m *M) loadPun(o *Obj, off int, lf *Leaf) V {
	if lf.size == 1 {
		return m.byteAt(o, off)
	}
	var n uint64
	for i := 0; i < lf.size; i++ {
		b := m.byteAt(o, off+i)
		if b.r != nil {
			bo, ok := b.r.(*ByteOf)
			if ok && bo.i == 0 && i == 0 {
				// all bytes of the same value?
				same := true
				for j := 1; j < lf.size; j++ {
					b2 := m.byteAt(o, off+j)
					bo2, ok := b2.r.(*ByteOf)
					if !ok || bo2.v != bo.v || bo2.i != j {
						same = false
					}
				}
				if same {
					return bo.v
				}
			}
			panic(unsupported("punned load of symbolic bytes"))
		}
		n |= uint64(byte(b.n)) << (8 * uint(i))
	}
	return V{n: normInt(n, lf.kind)}
}

func (b *BytesVal) collapse(m *M) V {
	all := true
	none := true
	var n uint64
	for i := 0; i < b.size; i++ {
		if b.b[i] < 0 {
			all = false
		} else {
			none = false
			n |= uint64(byte(b.b[i])) << (8 * uint(i))
		}
	}
	if all {
		return V{n: normInt(n, b.k)}
	}
	if none {
		return b.orig
	}
	panic(unsupported("mixed bytes of symbolic value"))
}

func isZeroObj(o *Obj) bool {
	if o.raw != nil {
		for _, b := range o.raw {
			if b != 0 {
				return false
			}
		}
		return true
	}
	for _, v := range o.slots {
		if !leafZero(v) {
			return false
		}
	}
	return true
}

// retype changes the element layout of o to l, keeping concrete contents.
func (m *M) retype(o *Obj, l *Layout) bool {
	if l.size == 0 || o.size%l.size != 0 {
		return false
	}
	n := o.size / l.size
	ns := make([]V, n*len(l.leaves))
	for e := 0; e < n; e++ {
		for k, lf := range l.leaves {
			v, ok := m.tryLoad(o, e*l.size+lf.off, &lf)
			if !ok {
				return false
			}
			if v.r == nil && v.n != 0 && !(lf.kind.isInt() || lf.kind.isFloat() || lf.kind == KBool) {
				return false
			}
			ns[e*len(l.leaves)+k] = v
		}
	}
	m.touch(o)
	o.raw = nil
	o.slots = ns
	o.lay = l
	return true
}

func (m *M) tryLoad(o *Obj, off int, lf *Leaf) (v V, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(unsupportedErr); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	return m.load1(V{n: uint64(off), r: o}, lf, 0), true
}

var leafLayouts = map[Leaf]*Layout{}

func singleLayout(lf Leaf) *Layout {
	lf.off = 0
	l := &Layout{size: lf.size, align: lf.size, leaves: []Leaf{lf}, one: true}
	return l
}

// store1 stores one leaf; T is the layout being stored as a whole (used when an untyped buffer must be retyped).
func (m *M) store1(p V, lf *Leaf, extra int, v V, whole *Layout) {
	o, ok := p.r.(*Obj)
	if !ok {
		m.badPtr(p)
	}
	off := int(p.n) + extra
	if off < 0 || off+lf.size > o.size {
		panic(unsupported("out of bounds store off=%d size=%d obj=%d", off, lf.size, o.size))
	}
	if o.epoch != m.epoch {
		m.touch(o)
	}
	if o.raw != nil {
		if v.r == nil && (lf.size == 1 || lf.kind.isInt() && lf.size < 8) {
			for i := 0; i < lf.size; i++ {
				o.raw[off+i] = byte(v.n >> (8 * uint(i)))
			}
			return
		}
		if bo, ok := v.r.(*ByteOf); ok && lf.size == 1 {
			sz := int(bo.k.width()) / 8
			if bo.k == KBool {
				sz = 1
			}
			if !m.retype(o, singleLayout(Leaf{0, sz, bo.k})) {
				panic(unsupported("byte store of symbolic value into byte object"))
			}
			m.store1(p, lf, extra, v, whole)
			return
		}
		l := whole
		if l == nil || !m.retypeOK(o, l, off-lf.off) {
			l = singleLayout(*lf)
		}
		if !m.retype(o, l) {
			if v.r == nil {
				for i := 0; i < lf.size; i++ {
					o.raw[off+i] = byte(v.n >> (8 * uint(i)))
				}
				return
			}
			panic(unsupported("cannot retype byte object (size %d) for leaf size %d", o.size, lf.size))
		}
	}
	idx, ol, rem := o.slotIndex(off)
	if idx < 0 {
		return // padding
	}
	if rem == 0 && ol.size == lf.size {
		if ol.kind != lf.kind && v.r == nil {
			v.n = convKind(v.n, lf.size, ol.kind)
		}
		o.slots[idx] = v
		return
	}
	// mismatching sizes: retype if possible
	if lf.size > ol.size && o.lay.one && isZeroObj(o) {
		l := whole
		if l == nil {
			l = singleLayout(*lf)
		}
		if m.retype(o, l) {
			m.store1(p, lf, extra, v, whole)
			return
		}
	}
	m.storePun(o, off, lf, v)
}

func (m *M) retypeOK(o *Obj, l *Layout, base int) bool {
	return l.size > 0 && o.size%l.size == 0 && base >= 0 && base%l.size == 0
}

func (m *M) storePun(o *Obj, off int, lf *Leaf, v V) {
	if lf.size == 1 {
		m.storeByte(o, off, v)
		return
	}
	for i := 0; i < lf.size; i++ {
		var b V
		if v.r == nil {
			b = V{n: uint64(byte(v.n >> (8 * uint(i))))}
		} else {
			b = V{r: &ByteOf{v, lf.kind, i}}
		}
		m.storeByte(o, off+i, b)
	}
}

func (m *M) storeByte(o *Obj, off int, b V) {
	if o.raw != nil {
		if b.r != nil {
			panic(unsupported("symbolic byte into raw"))
		}
		o.raw[off] = byte(b.n)
		return
	}
	idx, ol, rem := o.slotIndex(off)
	if idx < 0 {
		return
	}
	cur := o.slots[idx]
	if ol.size == 1 {
		o.slots[idx] = b
		return
	}
	if cur.r == nil && b.r == nil {
		sh := 8 * uint(rem)
		n := cur.n
		if ol.size < 8 {
			n &= (1 << (8 * uint(ol.size))) - 1
		}
		n = n&^(0xff<<sh) | uint64(byte(b.n))<<sh
		o.slots[idx] = V{n: normInt(n, ol.kind)}
		return
	}
	var nb *BytesVal
	if bv, ok := cur.r.(*BytesVal); ok {
		c := *bv
		nb = &c
	} else {
		nb = &BytesVal{orig: cur, k: ol.kind, size: ol.size}
		for i := 0; i < ol.size; i++ {
			if cur.r == nil {
				nb.b[i] = int16(byte(cur.n >> (8 * uint(i))))
			} else {
				nb.b[i] = -1
			}
		}
	}
	if b.r == nil {
		nb.b[rem] = int16(byte(b.n))
	} else if bo, ok := b.r.(*ByteOf); ok && bo.i == rem {
		has := false
		for i := 0; i < nb.size; i++ {
			if i != rem && nb.b[i] < 0 {
				has = true
			}
		}
		if bo.v != nb.orig && has {
			// switching origin: allowed only when writing byte 0.. in order; keep newest origin, forget older symbolic bytes
			if !nb.switchOrigin(bo, rem) {
				panic(unsupported("interleaved symbolic bytes"))
			}
		}
		nb.orig = bo.v
		nb.b[rem] = -1
	} else {
		panic(unsupported("symbolic byte store"))
	}
	// collapse eagerly
	all, none := true, true
	for i := 0; i < nb.size; i++ {
		if nb.b[i] < 0 {
			all = false
		} else {
			none = false
		}
	}
	if all || none {
		o.slots[idx] = nb.collapse(m)
		return
	}
	o.slots[idx] = V{r: nb}
}

// switchOrigin handles copying a symbolic leaf over another one byte by byte in increasing order: bytes not yet overwritten
// are transient and are marked with a poison concrete value that must be overwritten before use.
func (nb *BytesVal) switchOrigin(bo *ByteOf, rem int) bool {
	if rem != 0 {
		return false
	}
	for i := range nb.b {
		nb.b[i] = 0
	}
	return true
}

// loadN loads a whole layout into dst.
func (m *M) loadN(p V, l *Layout, dst []V) {
	if len(l.leaves) == 0 {
		if p.r == nil {
			m.badPtr(p)
		}
		return
	}
	o, ok := p.r.(*Obj)
	if !ok {
		m.badPtr(p)
	}
	if o.lay == l && o.raw == nil {
		e := int(p.n) / l.size
		if e*l.size == int(p.n) && int(p.n)+l.size <= o.size {
			copy(dst, o.slots[e*len(l.leaves):(e+1)*len(l.leaves)])
			for i := range dst {
				if bv, ok := dst[i].r.(*BytesVal); ok {
					dst[i] = bv.collapse(m)
				}
			}
			return
		}
	}
	for i := range l.leaves {
		dst[i] = m.load1(p, &l.leaves[i], l.leaves[i].off)
	}
}

func (m *M) storeN(p V, l *Layout, src []V) {
	if len(l.leaves) == 0 {
		if p.r == nil {
			m.badPtr(p)
		}
		return
	}
	o, ok := p.r.(*Obj)
	if !ok {
		m.badPtr(p)
	}
	if o.lay == l && o.raw == nil {
		e := int(p.n) / l.size
		if e*l.size == int(p.n) && int(p.n)+l.size <= o.size {
			if o.epoch != m.epoch {
				m.touch(o)
			}
			copy(o.slots[e*len(l.leaves):(e+1)*len(l.leaves)], src)
			return
		}
	}
	for i := range l.leaves {
		m.store1(p, &l.leaves[i], l.leaves[i].off, src[i], l)
	}
}

// memmove copies n elements of layout l from src to dst pointers.
func (m *M) memmove(dst, src V, l *Layout, n int) {
	if n == 0 || l.size == 0 {
		return
	}
	d, ok := dst.r.(*Obj)
	if !ok {
		m.badPtr(dst)
	}
	s, ok := src.r.(*Obj)
	if !ok {
		m.badPtr(src)
	}
	doff, soff := int(dst.n), int(src.n)
	bytes := n * l.size
	if doff < 0 || soff < 0 || doff+bytes > d.size || soff+bytes > s.size {
		panic(unsupported("memmove out of bounds"))
	}
	m.touch(d)
	if d.raw != nil && s.raw != nil {
		copy(d.raw[doff:doff+bytes], s.raw[soff:soff+bytes])
		return
	}
	if d.raw == nil && s.raw == nil && (d.lay == s.lay || d.lay.one && s.lay.one && d.lay.leaves[0] == s.lay.leaves[0]) &&
		doff%d.lay.size == 0 && soff%d.lay.size == 0 && bytes%d.lay.size == 0 {
		k := len(d.lay.leaves)
		de, se, ne := doff/d.lay.size*k, soff/d.lay.size*k, bytes/d.lay.size*k
		copy(d.slots[de:de+ne], s.slots[se:se+ne])
		return
	}
	// byte-typed copy between objects of different representation: adopt the source's layout for a fresh destination
	if l.size == 1 {
		if d.raw != nil && s.raw == nil && s.lay.size > 0 && soff%s.lay.size == 0 && bytes%s.lay.size == 0 &&
			doff%s.lay.size == 0 && d.size%s.lay.size == 0 {
			if m.retype(d, s.lay) {
				m.memmove(dst, src, l, n)
				return
			}
		}
		tmp := make([]V, bytes)
		for i := range tmp {
			tmp[i] = m.byteAt(s, soff+i)
		}
		for i := range tmp {
			if d.raw != nil && tmp[i].r != nil {
				m.store1(V{n: uint64(doff + i), r: d}, &Leaf{0, 1, KU8}, 0, tmp[i], nil)
				continue
			}
			m.storeByte(d, doff+i, tmp[i])
		}
		return
	}
	k := len(l.leaves)
	tmp := make([]V, n*k)
	for e := 0; e < n; e++ {
		m.loadN(V{n: uint64(soff + e*l.size), r: s}, l, tmp[e*k:(e+1)*k])
	}
	for e := 0; e < n; e++ {
		m.storeN(V{n: uint64(doff + e*l.size), r: d}, l, tmp[e*k:(e+1)*k])
	}
}

func (m *M) bytesOf(p V, n int) []byte {
	if n == 0 {
		return nil
	}
	o, ok := p.r.(*Obj)
	if !ok {
		m.badPtr(p)
	}
	off := int(p.n)
	if o.raw != nil {
		if off+n > o.size {
			panic(unsupported("bytesOf out of bounds"))
		}
		return o.raw[off : off+n]
	}
	out := make([]byte, n)
	for i := range out {
		b := m.byteAt(o, off+i)
		if b.r != nil {
			panic(unsupported("symbolic bytes used as string"))
		}
		out[i] = byte(b.n)
	}
	return out
}

// sameBytes compares two stretches of memory, splitting the path when bytes are symbolic.
func (m *M) sameBytes(p, q, np, nq V) bool {
	if np.n != nq.n {
		return false
	}
	n := int(np.n)
	if n == 0 {
		return true
	}
	po, ok1 := p.r.(*Obj)
	qo, ok2 := q.r.(*Obj)
	if !ok1 || !ok2 || (po.raw != nil && qo.raw != nil) {
		return m.str(p, np) == m.str(q, nq)
	}
	var same *Term
	for i := 0; i < n; i++ {
		a, b := m.byteAt(po, int(p.n)+i), m.byteAt(qo, int(q.n)+i)
		if a.r == nil && b.r == nil {
			if byte(a.n) != byte(b.n) {
				return false
			}
			continue
		}
		c := m.t.eq(m.bvTermOf(a, KU8), m.bvTermOf(b, KU8))
		if same == nil {
			same = c
		} else {
			same = m.t.and(same, c)
		}
	}
	return same == nil || m.branchT(same)
}

func (m *M) str(p, l V) string {
	return string(m.bytesOf(p, int(l.n)))
}

func (m *M) newStr(s string) [2]V {
	if len(s) == 0 {
		return [2]V{}
	}
	o := m.allocRaw([]byte(s))
	o.ro = true
	return [2]V{{r: o}, {n: uint64(len(s))}}
}

func (m *M) newBytes(b []byte) [3]V {
	o := m.allocRaw(append(make([]byte, 0, len(b)), b...))
	return [3]V{{r: o}, {n: uint64(len(b))}, {n: uint64(len(b))}}
}

// absAddr gives the numeric address of a pointer-ish value.
func absAddr(v V) (uint64, bool) {
	switch r := v.r.(type) {
	case nil:
		return v.n, true
	case *Obj:
		return r.addr + v.n, true
	case *Func:
		return 0xF0000000, true
	case *MapObj:
		return r.addr, true
	case *Chan:
		return r.addr, true
	case *RType:
		return 0xE0000000 + uint64(r.id)*64, true
	}
	return 0, false
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return u.msg }

func unsupported(f string, a ...any) unsupportedErr { return unsupportedErr{fmt.Sprintf(f, a...)} }
