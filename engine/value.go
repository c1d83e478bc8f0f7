package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// V is one leaf of a Go value.  Concrete scalars live in n (ints normalised to 64 bits, floats as IEEE bits);
// r holds the reference part: *Term (symbolic), *Obj (pointer, n = byte offset), *Func, *MapObj, *Chan, *RType, ...
type V struct {
	n uint64
	r any
}

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KI8
	KI16
	KI32
	KI64
	KU8
	KU16
	KU32
	KU64
	KF32
	KF64
	KPtr
	KMap
	KChan
	KFunc
	KType // type word of an interface
	KData // data word of an interface
	KOpaque
)

func (k Kind) isInt() bool    { return k >= KI8 && k <= KU64 }
func (k Kind) isSigned() bool { return k >= KI8 && k <= KI64 }
func (k Kind) isFloat() bool  { return k == KF32 || k == KF64 }
func (k Kind) width() uint8 {
	switch k {
	case KBool, KI8, KU8:
		return 8
	case KI16, KU16:
		return 16
	case KI32, KU32, KF32:
		return 32
	}
	return 64
}

func normInt(n uint64, k Kind) uint64 {
	switch k {
	case KI8:
		return uint64(int64(int8(n)))
	case KI16:
		return uint64(int64(int16(n)))
	case KI32:
		return uint64(int64(int32(n)))
	case KU8, KBool:
		return uint64(uint8(n))
	case KU16:
		return uint64(uint16(n))
	case KU32, KF32:
		return uint64(uint32(n))
	}
	return n
}

type Leaf struct {
	off  int
	size int
	kind Kind
}

// Layout is the memory layout of a type, as flattened leaves.
type Layout struct {
	size   int
	align  int
	leaves []Leaf
	at     []int32 // offset -> leaf index or -1
	one    bool    // single leaf covering the whole type
}

// RType is the canonical descriptor of a type.
type RType struct {
	t    types.Type
	id   int
	lay  *Layout
	str  string
	once sync.Once
	// single leaf types are stored inline in interface data words
	inline bool
	// if the type is represented as zero leaves
	mu      sync.Mutex
	methods map[string]any
}

var stdSizes = types.SizesFor("gc", "amd64")

var rtypes struct {
	sync.RWMutex
	m typeutil.Map
	n int
}

func rtypeOf(t types.Type) *RType {
	rtypes.RLock()
	if x := rtypes.m.At(t); x != nil {
		rtypes.RUnlock()
		return x.(*RType)
	}
	rtypes.RUnlock()
	rtypes.Lock()
	defer rtypes.Unlock()
	if x := rtypes.m.At(t); x != nil {
		return x.(*RType)
	}
	rtypes.n++
	rt := &RType{t: t, id: rtypes.n}
	rt.lay = computeLayout(t)
	rt.inline = len(rt.lay.leaves) == 1
	rt.str = types.TypeString(t, func(p *types.Package) string { return p.Name() })
	rtypes.m.Set(t, rt)
	return rt
}

func layoutOf(t types.Type) *Layout { return rtypeOf(t).lay }

func computeLayout(t types.Type) *Layout {
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && b.Kind() != types.UntypedNil {
		t = types.Default(t)
	}
	l := &Layout{size: int(stdSizes.Sizeof(t)), align: int(stdSizes.Alignof(t))}
	flatten(t, 0, &l.leaves)
	if l.size <= 1<<14 {
		l.at = make([]int32, l.size)
		for i := range l.at {
			l.at[i] = -1
		}
		for i, lf := range l.leaves {
			l.at[lf.off] = int32(i)
		}
	}
	l.one = len(l.leaves) == 1 && l.leaves[0].size == l.size
	return l
}

func basicKind(b *types.Basic) Kind {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return KBool
	case types.Int8:
		return KI8
	case types.Int16:
		return KI16
	case types.Int32, types.UntypedRune:
		return KI32
	case types.Int, types.Int64, types.UntypedInt:
		return KI64
	case types.Uint8:
		return KU8
	case types.Uint16:
		return KU16
	case types.Uint32:
		return KU32
	case types.Uint, types.Uint64, types.Uintptr:
		return KU64
	case types.Float32:
		return KF32
	case types.Float64, types.UntypedFloat:
		return KF64
	case types.UnsafePointer, types.UntypedNil:
		return KPtr
	}
	return KInvalid
}

func scalarKind(t types.Type) Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return basicKind(u)
	case *types.Pointer:
		return KPtr
	case *types.Map:
		return KMap
	case *types.Chan:
		return KChan
	case *types.Signature:
		return KFunc
	}
	return KInvalid
}

func flatten(t types.Type, off int, out *[]Leaf) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			*out = append(*out, Leaf{off, 8, KPtr}, Leaf{off + 8, 8, KI64})
		case types.Complex64:
			*out = append(*out, Leaf{off, 4, KF32}, Leaf{off + 4, 4, KF32})
		case types.Complex128, types.UntypedComplex:
			*out = append(*out, Leaf{off, 8, KF64}, Leaf{off + 8, 8, KF64})
		default:
			k := basicKind(u)
			if k == KInvalid {
				panic(fmt.Sprintf("flatten basic %v", u))
			}
			*out = append(*out, Leaf{off, int(stdSizes.Sizeof(u)), k})
		}
	case *types.Pointer:
		*out = append(*out, Leaf{off, 8, KPtr})
	case *types.Map:
		*out = append(*out, Leaf{off, 8, KMap})
	case *types.Chan:
		*out = append(*out, Leaf{off, 8, KChan})
	case *types.Signature:
		*out = append(*out, Leaf{off, 8, KFunc})
	case *types.Slice:
		*out = append(*out, Leaf{off, 8, KPtr}, Leaf{off + 8, 8, KI64}, Leaf{off + 16, 8, KI64})
	case *types.Interface:
		*out = append(*out, Leaf{off, 8, KType}, Leaf{off + 8, 8, KData})
	case *types.Array:
		es := int(stdSizes.Sizeof(u.Elem()))
		n := int(u.Len())
		if n > 1<<16 {
			// huge arrays are only ever used as pointer targets (unsafe casts); keep the layout empty
			return
		}
		for i := 0; i < n; i++ {
			flatten(u.Elem(), off+i*es, out)
		}
	case *types.Struct:
		fs := make([]*types.Var, u.NumFields())
		for i := range fs {
			fs[i] = u.Field(i)
		}
		offs := stdSizes.Offsetsof(fs)
		for i, f := range fs {
			flatten(f.Type(), off+int(offs[i]), out)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			flatten(u.At(i).Type(), 0, out) // offsets meaningless for tuples
		}
	default:
		panic(fmt.Sprintf("flatten: %T %v", u, t))
	}
}

func nleaves(t types.Type) int {
	if tp, ok := t.(*types.Tuple); ok {
		n := 0
		for i := 0; i < tp.Len(); i++ {
			n += nleaves(tp.At(i).Type())
		}
		return n
	}
	if _, ok := t.(*types.Basic); ok && t.(*types.Basic).Kind() == types.Invalid {
		return 1 // opaque iterator type
	}
	return len(layoutOf(t).leaves)
}

// Obj is a memory object.
type Obj struct {
	addr  uint64
	size  int
	lay   *Layout // element layout (nil: raw bytes)
	slots []V
	raw   []byte
	ro    bool
	epoch uint32
	tag   string
}

type Func struct {
	code   *Code
	binds  []V
	native func(m *M, args []V) []V
	name   string
}

// BytesVal is a leaf that has been partially overwritten bytewise: b[i] is the byte at offset i, each either concrete or
// "byte i of orig".
type BytesVal struct {
	orig V
	k    Kind
	b    [8]int16 // >=0 concrete byte; -1: byte i of orig
	size int
}

// ByteOf is byte number i of a non-concrete leaf.
type ByteOf struct {
	v V
	k Kind
	i int
}
