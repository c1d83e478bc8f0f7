package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"
)

// reflect.Value leaves: [0] r=*RType, [1] pointer to storage, [2] flag bits
const (
	rfValid = 1
	rfAddr  = 2
	rfRO    = 4
)

func (m *M) rval(a []V) (*RType, V, uint64) {
	rt, _ := a[0].r.(*RType)
	if rt == nil {
		return nil, V{}, 0
	}
	return rt, a[1], a[2].n
}

func putRV(ret []V, rt *RType, p V, fl uint64) {
	ret[0] = V{r: rt}
	ret[1] = p
	ret[2] = V{n: fl | rfValid}
}

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (m *M) putType(ret []V, rt *RType) {
	if rt == nil {
		ret[0], ret[1] = V{}, V{}
		return
	}
	ret[0], ret[1] = V{r: m.e.rtypeType}, V{r: rt}
}

func typeArg(a V) *RType {
	rt, _ := a.r.(*RType)
	return rt
}

// allocVal allocates storage holding the leaves.
func (m *M) allocVal(rt *RType, leaves []V) V {
	o := m.allocLayT(rt)
	if len(rt.lay.leaves) > 0 {
		m.storeN(V{r: o}, rt.lay, leaves)
	}
	return V{r: o}
}

func (m *M) allocLayT(rt *RType) *Obj { return m.alloc(rt.t, 1) }

func (m *M) loadVal(rt *RType, p V) []V {
	out := make([]V, len(rt.lay.leaves))
	m.loadN(p, rt.lay, out)
	return out
}

// ifaceOf packs storage into an interface value.
func (m *M) ifaceOf(rt *RType, p V) [2]V {
	lv := m.loadVal(rt, p)
	if isIfaceType(rt.t) {
		return [2]V{lv[0], lv[1]}
	}
	return m.box(rt, lv)
}

func typeName(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		s := types.TypeString(x, func(p *types.Package) string { return "" })
		return s
	case *types.Basic:
		return x.Name()
	}
	return ""
}

func rtString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	s = strings.ReplaceAll(s, "struct{}", "struct {}")
	if s == "any" {
		s = "interface {}"
	}
	return s
}

func (m *M) reflectPanic(msg string) { panic(tPanic{m.boxStr(msg)}) }

func init() {
	R := func(name string, f Intrinsic) { reg(f, "reflect."+name) }
	V_ := func(name string, f func(m *M, rt *RType, p V, fl uint64, args, ret []V)) {
		reg(func(m *M, fr *frame, args, ret []V) int {
			rt, p, fl := m.rval(args)
			f(m, rt, p, fl, args[3:], ret)
			return cNext
		}, "(reflect.Value)."+name)
	}
	T_ := func(name string, f func(m *M, rt *RType, args, ret []V)) {
		reg(func(m *M, fr *frame, args, ret []V) int {
			rt := typeArg(args[0])
			f(m, rt, args[1:], ret)
			return cNext
		}, "(*reflect.rtype)."+name)
	}
	R("TypeOf", func(m *M, fr *frame, args, ret []V) int {
		rt, _ := args[0].r.(*RType)
		if rt == nil {
			zero(ret)
			return cNext
		}
		if strings.HasPrefix(fr.code.name, "internal/reflectlite") || m.liteCaller(fr) {
			ret[0], ret[1] = V{r: m.e.rliteType}, V{r: rt}
			return cNext
		}
		m.putType(ret, rt)
		return cNext
	})
	reg(func(m *M, fr *frame, args, ret []V) int {
		rt, _ := args[0].r.(*RType)
		if rt == nil {
			zero(ret)
			return cNext
		}
		ret[0], ret[1] = V{r: m.e.rliteType}, V{r: rt}
		return cNext
	}, "internal/reflectlite.TypeOf")
	R("ValueOf", func(m *M, fr *frame, args, ret []V) int {
		rt, _ := args[0].r.(*RType)
		if rt == nil {
			zero(ret)
			return cNext
		}
		if rt.inline {
			putRV(ret, rt, m.allocVal(rt, []V{args[1]}), 0)
		} else {
			lv := m.unboxRecv(rt, args[1])
			putRV(ret, rt, m.allocVal(rt, lv), 0)
		}
		return cNext
	})
	R("Zero", func(m *M, fr *frame, args, ret []V) int {
		rt := typeArg(args[1])
		putRV(ret, rt, V{r: m.allocLayT(rt)}, 0)
		return cNext
	})
	R("New", func(m *M, fr *frame, args, ret []V) int {
		rt := typeArg(args[1])
		o := m.allocLayT(rt)
		pt := rtypeOf(types.NewPointer(rt.t))
		putRV(ret, pt, m.allocVal(pt, []V{{r: o}}), 0)
		return cNext
	})
	R("NewAt", func(m *M, fr *frame, args, ret []V) int {
		rt := typeArg(args[1])
		pt := rtypeOf(types.NewPointer(rt.t))
		putRV(ret, pt, m.allocVal(pt, []V{args[2]}), 0)
		return cNext
	})
	R("Indirect", func(m *M, fr *frame, args, ret []V) int {
		rt, p, fl := m.rval(args)
		if rt == nil || rkind(rt.t) != reflect.Ptr {
			copy(ret, args[:3])
			return cNext
		}
		m.rvElem(rt, p, fl, ret)
		return cNext
	})
	R("MakeSlice", func(m *M, fr *frame, args, ret []V) int {
		rt := typeArg(args[1])
		el := rt.t.Underlying().(*types.Slice).Elem()
		if args[2].r != nil || args[3].r != nil {
			args[2] = m.concretize(args[2], KI64, "MakeSlice")
			args[3] = m.concretize(args[3], KI64, "MakeSlice")
		}
		if int64(args[2].n) < 0 {
			m.reflectPanic("reflect.MakeSlice: negative len")
		}
		o := m.alloc(el, int(args[3].n))
		putRV(ret, rt, m.allocVal(rt, []V{{r: o}, args[2], args[3]}), 0)
		return cNext
	})
	R("SliceOf", func(m *M, fr *frame, args, ret []V) int {
		m.putType(ret, rtypeOf(types.NewSlice(typeArg(args[1]).t)))
		return cNext
	})
	R("PtrTo", func(m *M, fr *frame, args, ret []V) int {
		m.putType(ret, rtypeOf(types.NewPointer(typeArg(args[1]).t)))
		return cNext
	})
	R("PointerTo", intrinsics["reflect.PtrTo"])
	R("ArrayOf", func(m *M, fr *frame, args, ret []V) int {
		m.putType(ret, rtypeOf(types.NewArray(typeArg(args[2]).t, int64(args[0].n))))
		return cNext
	})
	R("MapOf", func(m *M, fr *frame, args, ret []V) int {
		m.putType(ret, rtypeOf(types.NewMap(typeArg(args[1]).t, typeArg(args[3]).t)))
		return cNext
	})
	R("MakeMap", func(m *M, fr *frame, args, ret []V) int {
		rt := typeArg(args[1])
		mo := m.newMap(rt.t.Underlying().(*types.Map))
		putRV(ret, rt, m.allocVal(rt, []V{{r: mo}}), 0)
		return cNext
	})
	R("Copy", func(m *M, fr *frame, args, ret []V) int {
		d, dp, _ := m.rval(args[:3])
		s, sp, _ := m.rval(args[3:])
		dl, sl := m.sliceLeaves(d, dp), m.sliceLeaves(s, sp)
		n := int(dl[1].n)
		if int(sl[1].n) < n {
			n = int(sl[1].n)
		}
		var el types.Type
		switch u := d.t.Underlying().(type) {
		case *types.Slice:
			el = u.Elem()
		case *types.Array:
			el = u.Elem()
		}
		if n > 0 {
			m.memmove(dl[0], sl[0], layoutOf(el), n)
		}
		ret[0] = V{n: uint64(n)}
		return cNext
	})
	R("Append", func(m *M, fr *frame, args, ret []V) int {
		d, dp, _ := m.rval(args[:3])
		lv := m.loadVal(d, dp)
		el := d.t.Underlying().(*types.Slice).Elem()
		// variadic []Value
		n := int(args[4].n)
		vl := layoutOf(m.e.pkgType("reflect", "Value"))
		for i := 0; i < n; i++ {
			x := make([]V, 3)
			m.loadN(V{r: args[3].r, n: args[3].n + uint64(i*vl.size)}, vl, x)
			_, xp, _ := m.rval(x)
			r := m.appendSlice(el, lv, xp, 1)
			lv = r[:]
		}
		putRV(ret, d, m.allocVal(d, lv), 0)
		return cNext
	})
	R("Swapper", func(m *M, fr *frame, args, ret []V) int {
		rt, _ := args[0].r.(*RType)
		lv := m.unboxRecv(rt, args[1])
		el := layoutOf(rt.t.Underlying().(*types.Slice).Elem())
		ret[0] = V{r: &Func{name: "swapper", native: func(m *M, a []V) []V {
			p := V{r: lv[0].r, n: lv[0].n + a[0].n*uint64(el.size)}
			q := V{r: lv[0].r, n: lv[0].n + a[1].n*uint64(el.size)}
			x, y := make([]V, len(el.leaves)), make([]V, len(el.leaves))
			m.loadN(p, el, x)
			m.loadN(q, el, y)
			m.storeN(p, el, y)
			m.storeN(q, el, x)
			return nil
		}}}
		return cNext
	})
	R("DeepEqual", func(m *M, fr *frame, args, ret []V) int {
		x, _ := args[0].r.(*RType)
		y, _ := args[2].r.(*RType)
		if x == nil || y == nil {
			ret[0] = b2v(x == y)
			return cNext
		}
		if x != y {
			ret[0] = V{}
			return cNext
		}
		t := m.deepEqual(x.t, m.unboxRecv(x, args[1]), m.unboxRecv(x, args[3]), 0)
		ret[0] = m.termV(t, KBool)
		return cNext
	})

	// ---- Type methods
	T_("Kind", func(m *M, rt *RType, a, ret []V) { ret[0] = V{n: uint64(rkind(rt.t))} })
	T_("Size", func(m *M, rt *RType, a, ret []V) { ret[0] = V{n: uint64(rt.lay.size)} })
	T_("Align", func(m *M, rt *RType, a, ret []V) { ret[0] = V{n: uint64(rt.lay.align)} })
	T_("Bits", func(m *M, rt *RType, a, ret []V) { ret[0] = V{n: uint64(rt.lay.size * 8)} })
	T_("String", func(m *M, rt *RType, a, ret []V) { m.putStr(ret, 0, rtString(rt.t)) })
	T_("Name", func(m *M, rt *RType, a, ret []V) { m.putStr(ret, 0, typeName(rt.t)) })
	T_("PkgPath", func(m *M, rt *RType, a, ret []V) {
		s := ""
		if n, ok := types.Unalias(rt.t).(*types.Named); ok && n.Obj().Pkg() != nil {
			s = n.Obj().Pkg().Path()
		}
		m.putStr(ret, 0, s)
	})
	T_("Elem", func(m *M, rt *RType, a, ret []V) {
		switch u := rt.t.Underlying().(type) {
		case *types.Pointer:
			m.putType(ret, rtypeOf(u.Elem()))
		case *types.Slice:
			m.putType(ret, rtypeOf(u.Elem()))
		case *types.Array:
			m.putType(ret, rtypeOf(u.Elem()))
		case *types.Map:
			m.putType(ret, rtypeOf(u.Elem()))
		case *types.Chan:
			m.putType(ret, rtypeOf(u.Elem()))
		default:
			m.reflectPanic("reflect: Elem of invalid type " + rt.str)
		}
	})
	T_("Key", func(m *M, rt *RType, a, ret []V) { m.putType(ret, rtypeOf(rt.t.Underlying().(*types.Map).Key())) })
	T_("Len", func(m *M, rt *RType, a, ret []V) { ret[0] = V{n: uint64(rt.t.Underlying().(*types.Array).Len())} })
	T_("Comparable", func(m *M, rt *RType, a, ret []V) { ret[0] = b2v(types.Comparable(rt.t)) })
	T_("NumMethod", func(m *M, rt *RType, a, ret []V) {
		if it, ok := rt.t.Underlying().(*types.Interface); ok {
			ret[0] = V{n: uint64(it.NumMethods())}
			return
		}
		ms := m.e.prog.MethodSets.MethodSet(rt.t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		ret[0] = V{n: uint64(n)}
	})
	T_("NumField", func(m *M, rt *RType, a, ret []V) {
		ret[0] = V{n: uint64(rt.t.Underlying().(*types.Struct).NumFields())}
	})
	T_("NumIn", func(m *M, rt *RType, a, ret []V) {
		ret[0] = V{n: uint64(rt.t.Underlying().(*types.Signature).Params().Len())}
	})
	T_("NumOut", func(m *M, rt *RType, a, ret []V) {
		ret[0] = V{n: uint64(rt.t.Underlying().(*types.Signature).Results().Len())}
	})
	T_("IsVariadic", func(m *M, rt *RType, a, ret []V) { ret[0] = b2v(rt.t.Underlying().(*types.Signature).Variadic()) })
	T_("In", func(m *M, rt *RType, a, ret []V) {
		m.putType(ret, rtypeOf(rt.t.Underlying().(*types.Signature).Params().At(int(a[0].n)).Type()))
	})
	T_("Out", func(m *M, rt *RType, a, ret []V) {
		m.putType(ret, rtypeOf(rt.t.Underlying().(*types.Signature).Results().At(int(a[0].n)).Type()))
	})
	T_("Implements", func(m *M, rt *RType, a, ret []V) {
		it := typeArg(a[1])
		ret[0] = b2v(types.Implements(rt.t, it.t.Underlying().(*types.Interface)))
	})
	T_("AssignableTo", func(m *M, rt *RType, a, ret []V) { ret[0] = b2v(types.AssignableTo(rt.t, typeArg(a[1]).t)) })
	T_("ConvertibleTo", func(m *M, rt *RType, a, ret []V) { ret[0] = b2v(types.ConvertibleTo(rt.t, typeArg(a[1]).t)) })
	T_("common", func(m *M, rt *RType, a, ret []V) { ret[0] = V{r: rt} })
	T_("Field", func(m *M, rt *RType, a, ret []V) {
		// StructField{Name, PkgPath string; Type Type; Tag StructTag; Offset uintptr; Index []int; Anonymous bool}
		st := rt.t.Underlying().(*types.Struct)
		i := int(a[0].n)
		f := st.Field(i)
		zero(ret)
		m.putStr(ret, 0, f.Name())
		if !f.Exported() && f.Pkg() != nil {
			m.putStr(ret, 2, f.Pkg().Path())
		}
		m.putType(ret[4:], rtypeOf(f.Type()))
		m.putStr(ret, 6, st.Tag(i))
		fs := make([]*types.Var, st.NumFields())
		for j := range fs {
			fs[j] = st.Field(j)
		}
		ret[8] = V{n: uint64(stdSizes.Offsetsof(fs)[i])}
		o := m.alloc(types.Typ[types.Int], 1)
		o.slots[0] = V{n: uint64(i)}
		ret[9], ret[10], ret[11] = V{r: o}, V{n: 1}, V{n: 1}
		ret[12] = b2v(f.Anonymous())
	})

	// ---- Value methods
	V_("Kind", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		if rt == nil {
			ret[0] = V{}
			return
		}
		ret[0] = V{n: uint64(rkind(rt.t))}
	})
	reg(intrinsics["(reflect.Value).Kind"], "(reflect.flag).kind_")
	V_("Type", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		if rt == nil {
			m.reflectPanic("reflect: call of reflect.Value.Type on zero Value")
		}
		m.putType(ret, rt)
	})
	reg(func(m *M, fr *frame, args, ret []V) int {
		rt, _, _ := m.rval(args)
		ret[0], ret[1] = V{r: m.e.rliteType}, V{r: rt}
		return cNext
	}, "(internal/reflectlite.Value).Type")
	V_("IsValid", func(m *M, rt *RType, p V, fl uint64, a, ret []V) { ret[0] = b2v(rt != nil) })
	V_("CanInterface", func(m *M, rt *RType, p V, fl uint64, a, ret []V) { ret[0] = b2v(fl&rfRO == 0) })
	V_("CanAddr", func(m *M, rt *RType, p V, fl uint64, a, ret []V) { ret[0] = b2v(fl&rfAddr != 0) })
	V_("CanSet", func(m *M, rt *RType, p V, fl uint64, a, ret []V) { ret[0] = b2v(fl&(rfAddr|rfRO) == rfAddr) })
	V_("CanFloat", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		k := rkind(rt.t)
		ret[0] = b2v(k == reflect.Float32 || k == reflect.Float64)
	})
	V_("CanInt", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		k := rkind(rt.t)
		ret[0] = b2v(k >= reflect.Int && k <= reflect.Int64)
	})
	num := func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		lv := m.loadVal(rt, p)
		k := rkind(rt.t)
		switch k {
		case reflect.Float32:
			if lv[0].r == nil {
				ret[0] = fval(f64of(lv[0], KF32), KF64)
			} else {
				ret[0] = lv[0]
			}
		default:
			if t, ok := lv[0].r.(*Term); ok && t.sort == SBV {
				kk := scalarKind(rt.t)
				ret[0] = m.convInt(lv[0], kk, KI64)
			} else {
				ret[0] = lv[0]
			}
		}
	}
	V_("Int", num)
	V_("Uint", num)
	V_("Float", num)
	V_("Bool", num)
	V_("Complex", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		lv := m.loadVal(rt, p)
		for i := range lv {
			if rkind(rt.t) == reflect.Complex64 && lv[i].r == nil {
				lv[i] = fval(f64of(lv[i], KF32), KF64)
			}
		}
		copy(ret, lv)
	})
	V_("String", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		if rt == nil {
			m.putStr(ret, 0, "<invalid Value>")
			return
		}
		if rkind(rt.t) == reflect.String {
			copy(ret, m.loadVal(rt, p))
			return
		}
		m.putStr(ret, 0, "<"+rtString(rt.t)+" Value>")
	})
	V_("Bytes", func(m *M, rt *RType, p V, fl uint64, a, ret []V) { copy(ret, m.loadVal(rt, p)) })
	V_("Len", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		switch u := rt.t.Underlying().(type) {
		case *types.Array:
			ret[0] = V{n: uint64(u.Len())}
		case *types.Map:
			lv := m.loadVal(rt, p)
			ret[0] = V{}
			if mo, ok := lv[0].r.(*MapObj); ok {
				ret[0] = V{n: uint64(mo.live)}
			}
		case *types.Slice, *types.Basic:
			if rkind(rt.t) != reflect.Slice && rkind(rt.t) != reflect.String {
				m.reflectPanic("reflect: call of reflect.Value.Len on " + rkind(rt.t).String() + " Value")
			}
			ret[0] = m.loadVal(rt, p)[1]
		default:
			m.reflectPanic("reflect: call of reflect.Value.Len on " + rkind(rt.t).String() + " Value")
		}
	})
	V_("Cap", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		if u, ok := rt.t.Underlying().(*types.Array); ok {
			ret[0] = V{n: uint64(u.Len())}
			return
		}
		ret[0] = m.loadVal(rt, p)[2]
	})
	V_("IsNil", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		switch rkind(rt.t) {
		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer:
			ret[0] = b2v(m.loadVal(rt, p)[0].r == nil)
		default:
			m.reflectPanic("reflect: call of reflect.Value.IsNil on " + rkind(rt.t).String() + " Value")
		}
	})
	V_("IsZero", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		z := make([]V, len(rt.lay.leaves))
		lv := m.loadVal(rt, p)
		r := m.t.tt
		for i, lf := range rt.lay.leaves {
			if lf.kind.isFloat() {
				r = m.t.and(r, m.boolTermOf(m.floatBin(39, lv[i], z[i], lf.kind)))
			} else if lv[i].r != nil {
				if tm, ok := lv[i].r.(*Term); ok {
					r = m.t.and(r, m.t.eq(tm, m.t.bvTerm(0, tm.w)))
				} else {
					r = m.t.ff
				}
			} else {
				r = m.t.and(r, m.t.boolTerm(lv[i].n == 0))
			}
		}
		ret[0] = m.termV(r, KBool)
	})
	V_("Pointer", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		ret[0] = m.loadVal(rt, p)[0]
	})
	V_("UnsafePointer", func(m *M, rt *RType, p V, fl uint64, a, ret []V) { ret[0] = m.loadVal(rt, p)[0] })
	V_("UnsafeAddr", func(m *M, rt *RType, p V, fl uint64, a, ret []V) { ret[0] = p })
	V_("Addr", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		pt := rtypeOf(types.NewPointer(rt.t))
		putRV(ret, pt, m.allocVal(pt, []V{p}), fl&rfRO)
	})
	V_("Elem", func(m *M, rt *RType, p V, fl uint64, a, ret []V) { m.rvElem(rt, p, fl, ret) })
	V_("Interface", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		r := m.ifaceOf(rt, p)
		ret[0], ret[1] = r[0], r[1]
	})
	reg(func(m *M, fr *frame, args, ret []V) int {
		rt, p, _ := m.rval(args)
		r := m.ifaceOf(rt, p)
		ret[0], ret[1] = r[0], r[1]
		return cNext
	}, "reflect.valueInterface")
	V_("Index", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		i := a[0]
		if i.r != nil {
			i = m.concretize(i, KI64, "reflect index")
		}
		switch u := rt.t.Underlying().(type) {
		case *types.Slice:
			lv := m.loadVal(rt, p)
			if i.n >= lv[1].n {
				m.reflectPanic("reflect: slice index out of range")
			}
			er := rtypeOf(u.Elem())
			putRV(ret, er, V{r: lv[0].r, n: lv[0].n + i.n*uint64(er.lay.size)}, rfAddr|fl&rfRO)
		case *types.Array:
			if i.n >= uint64(u.Len()) {
				m.reflectPanic("reflect: array index out of range")
			}
			er := rtypeOf(u.Elem())
			putRV(ret, er, V{r: p.r, n: p.n + i.n*uint64(er.lay.size)}, fl)
		case *types.Basic:
			lv := m.loadVal(rt, p)
			er := rtypeOf(types.Typ[types.Uint8])
			putRV(ret, er, m.allocVal(er, []V{m.byteAt(lv[0].r.(*Obj), int(lv[0].n+i.n))}), 0)
		default:
			m.reflectPanic("reflect: call of reflect.Value.Index on " + rkind(rt.t).String() + " Value")
		}
	})
	field := func(m *M, rt *RType, p V, fl uint64, i int, ret []V) {
		st := rt.t.Underlying().(*types.Struct)
		fs := make([]*types.Var, st.NumFields())
		for j := range fs {
			fs[j] = st.Field(j)
		}
		off := stdSizes.Offsetsof(fs)[i]
		f := fl & (rfAddr | rfRO)
		if !fs[i].Exported() {
			f |= rfRO
		}
		putRV(ret, rtypeOf(fs[i].Type()), V{r: p.r, n: p.n + uint64(off)}, f)
	}
	V_("Field", func(m *M, rt *RType, p V, fl uint64, a, ret []V) { field(m, rt, p, fl, int(a[0].n), ret) })
	V_("FieldByName", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		name := m.str(a[0], a[1])
		st := rt.t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				field(m, rt, p, fl, i, ret)
				return
			}
		}
		zero(ret)
	})
	V_("NumField", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		ret[0] = V{n: uint64(rt.t.Underlying().(*types.Struct).NumFields())}
	})
	V_("NumMethod", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		ms := m.e.prog.MethodSets.MethodSet(rt.t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		ret[0] = V{n: uint64(n)}
	})
	V_("Set", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		if fl&rfAddr == 0 {
			m.reflectPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		xt, xp, _ := m.rval(a)
		lv := m.loadVal(xt, xp)
		if isIfaceType(rt.t) && !isIfaceType(xt.t) {
			b := m.box(xt, lv)
			lv = b[:]
		} else if xt != rt && len(lv) != len(rt.lay.leaves) {
			m.reflectPanic("reflect.Set: value of type " + xt.str + " is not assignable to type " + rt.str)
		}
		m.storeN(p, rt.lay, lv)
	})
	setNum := func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		v := a[0]
		k := scalarKind(rt.t)
		if v.r == nil {
			if k == KF32 {
				v = fval(math.Float64frombits(v.n), KF32)
			} else if k != KF64 {
				v.n = normInt(v.n, k)
			}
		} else if t, ok := v.r.(*Term); ok && t.sort != SReal && k != KF32 && k != KF64 && k != KBool {
			v = m.convInt(v, KU64, k)
		}
		m.storeN(p, rt.lay, []V{v})
	}
	V_("SetInt", setNum)
	V_("SetUint", setNum)
	V_("SetFloat", setNum)
	V_("SetBool", setNum)
	V_("SetString", func(m *M, rt *RType, p V, fl uint64, a, ret []V) { m.storeN(p, rt.lay, a[:2]) })
	V_("SetLen", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		lv := m.loadVal(rt, p)
		lv[1] = a[0]
		m.storeN(p, rt.lay, lv)
	})
	slice := func(m *M, rt *RType, p V, fl uint64, i, j, k int64, three bool, ret []V) {
		switch u := rt.t.Underlying().(type) {
		case *types.Slice:
			lv := m.loadVal(rt, p)
			cp := int64(lv[2].n)
			if !three {
				k = cp
			}
			if i < 0 || j < i || j > k || k > cp {
				m.reflectPanic("reflect.Value.Slice: slice index out of bounds")
			}
			es := stdSizes.Sizeof(u.Elem())
			nl := []V{lv[0], {n: uint64(j - i)}, {n: uint64(k - i)}}
			if k-i > 0 {
				nl[0].n += uint64(i * es)
			}
			putRV(ret, rt, m.allocVal(rt, nl), 0)
		case *types.Array:
			if i < 0 || j < i || j > u.Len() {
				m.reflectPanic("reflect.Value.Slice: slice index out of bounds")
			}
			es := stdSizes.Sizeof(u.Elem())
			st := rtypeOf(types.NewSlice(u.Elem()))
			putRV(ret, st, m.allocVal(st, []V{{r: p.r, n: p.n + uint64(i*es)}, {n: uint64(j - i)}, {n: uint64(u.Len() - i)}}), 0)
		default:
			panic(unsupported("reflect slice of %s", rt.str))
		}
	}
	V_("Slice", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		slice(m, rt, p, fl, int64(a[0].n), int64(a[1].n), 0, false, ret)
	})
	V_("Slice3", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		slice(m, rt, p, fl, int64(a[0].n), int64(a[1].n), int64(a[2].n), true, ret)
	})
	V_("MapKeys", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		mt := rt.t.Underlying().(*types.Map)
		kt := rtypeOf(mt.Key())
		lv := m.loadVal(rt, p)
		mo, _ := lv[0].r.(*MapObj)
		vt := m.e.pkgType("reflect", "Value")
		vl := layoutOf(vt)
		var ents []*mapEnt
		if mo != nil {
			ents = m.newMapIter(lv[0]).list
		}
		o := m.alloc(vt, len(ents))
		for i, e := range ents {
			x := make([]V, 3)
			putRV(x, kt, m.allocVal(kt, e.key), 0)
			m.storeN(V{r: o, n: uint64(i * vl.size)}, vl, x)
		}
		ret[0], ret[1], ret[2] = V{r: o}, V{n: uint64(len(ents))}, V{n: uint64(len(ents))}
	})
	V_("MapIndex", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		mt := rt.t.Underlying().(*types.Map)
		lv := m.loadVal(rt, p)
		mo, _ := lv[0].r.(*MapObj)
		xt, xp, _ := m.rval(a)
		e := m.mapGet(mo, mt.Key(), m.loadVal(xt, xp))
		if e == nil {
			zero(ret)
			return
		}
		et := rtypeOf(mt.Elem())
		putRV(ret, et, m.allocVal(et, e.val), 0)
	})
	V_("SetMapIndex", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		mt := rt.t.Underlying().(*types.Map)
		mo, _ := m.loadVal(rt, p)[0].r.(*MapObj)
		kt, kp, _ := m.rval(a[:3])
		vt, vp, _ := m.rval(a[3:])
		if vt == nil {
			m.mapDelete(mo, mt.Key(), m.loadVal(kt, kp))
			return
		}
		m.mapSet(mo, rtypeOf(mt.Key()), m.loadVal(kt, kp), m.loadVal(vt, vp))
	})
	V_("Convert", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		to := typeArg(a[1])
		lv := m.loadVal(rt, p)
		if isIfaceType(to.t) && !isIfaceType(rt.t) {
			b := m.box(rt, lv)
			putRV(ret, to, m.allocVal(to, b[:]), 0)
			return
		}
		if len(lv) == 1 && len(to.lay.leaves) == 1 {
			fk, tk := scalarKind(rt.t), scalarKind(to.t)
			v := lv[0]
			if v.r == nil {
				switch {
				case fk.isInt() && tk.isInt():
					v.n = normInt(v.n, tk)
				case fk.isInt() && tk.isFloat():
					if fk.isSigned() {
						v = fval(float64(int64(v.n)), tk)
					} else {
						v = fval(float64(v.n), tk)
					}
				case fk.isFloat() && tk.isInt():
					v = V{n: normInt(uint64(int64(f64of(v, fk))), tk)}
				case fk.isFloat() && tk.isFloat():
					v = fval(f64of(v, fk), tk)
				}
			}
			lv = []V{v}
		}
		if len(lv) != len(to.lay.leaves) {
			panic(unsupported("reflect convert %s to %s", rt.str, to.str))
		}
		putRV(ret, to, m.allocVal(to, lv), 0)
	})
	V_("Call", func(m *M, rt *RType, p V, fl uint64, a, ret []V) { panic(unsupported("reflect.Value.Call")) })
	V_("OverflowFloat", func(m *M, rt *RType, p V, fl uint64, a, ret []V) { ret[0] = V{} })
	V_("OverflowInt", func(m *M, rt *RType, p V, fl uint64, a, ret []V) { ret[0] = V{} })
	V_("MapRange", func(m *M, rt *RType, p V, fl uint64, a, ret []V) {
		it := m.newMapIter(m.loadVal(rt, p)[0])
		o := m.alloc(m.e.pkgType("reflect", "MapIter"), 1)
		m.side[o] = &reflIter{it: it, mt: rt.t.Underlying().(*types.Map)}
		ret[0] = V{r: o}
	})
	reg(func(m *M, fr *frame, args, ret []V) int {
		it := m.side[args[0].r].(*reflIter)
		it.cur = it.it.next()
		ret[0] = b2v(it.cur != nil)
		return cNext
	}, "(*reflect.MapIter).Next")
	reg(func(m *M, fr *frame, args, ret []V) int {
		it := m.side[args[0].r].(*reflIter)
		kt := rtypeOf(it.mt.Key())
		putRV(ret, kt, m.allocVal(kt, it.cur.key), 0)
		return cNext
	}, "(*reflect.MapIter).Key")
	reg(func(m *M, fr *frame, args, ret []V) int {
		it := m.side[args[0].r].(*reflIter)
		vt := rtypeOf(it.mt.Elem())
		putRV(ret, vt, m.allocVal(vt, it.cur.val), 0)
		return cNext
	}, "(*reflect.MapIter).Value")
	// Kind.String etc. of reflect are ordinary code
	reg(func(m *M, fr *frame, args, ret []V) int {
		m.putStr(ret, 0, reflect.Kind(args[0].n).String())
		return cNext
	}, "(reflect.Kind).String")
	reg(func(m *M, fr *frame, args, ret []V) int { // reflect.TypeFor generic etc. not needed
		panic(unsupported("reflect.TypeFor"))
	}, "reflect.TypeFor_")
	T_("uncommon", func(m *M, rt *RType, a, ret []V) { ret[0] = V{} })
}

type reflIter struct {
	it  *mapIter
	mt  *types.Map
	cur *mapEnt
}

func (m *M) liteCaller(fr *frame) bool { return false }

func (m *M) sliceLeaves(rt *RType, p V) []V {
	if u, ok := rt.t.Underlying().(*types.Array); ok {
		return []V{p, {n: uint64(u.Len())}, {n: uint64(u.Len())}}
	}
	return m.loadVal(rt, p)
}

func (m *M) rvElem(rt *RType, p V, fl uint64, ret []V) {
	lv := m.loadVal(rt, p)
	switch u := rt.t.Underlying().(type) {
	case *types.Pointer:
		if lv[0].r == nil {
			zero(ret)
			return
		}
		putRV(ret, rtypeOf(u.Elem()), lv[0], rfAddr|fl&rfRO)
	case *types.Interface:
		dt, _ := lv[0].r.(*RType)
		if dt == nil {
			zero(ret)
			return
		}
		putRV(ret, dt, m.allocVal(dt, m.unboxRecv(dt, lv[1])), fl&rfRO)
	default:
		m.reflectPanic("reflect: call of reflect.Value.Elem on " + rkind(rt.t).String() + " Value")
	}
}

func (m *M) deepEqual(t types.Type, x, y []V, depth int) *Term {
	if depth > 200 {
		panic(unsupported("deep DeepEqual"))
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if m.ptrEq(x[0], y[0]) {
			return m.t.tt
		}
		if x[0].r == nil || y[0].r == nil {
			return m.t.ff
		}
		er := rtypeOf(u.Elem())
		return m.deepEqual(u.Elem(), m.loadVal(er, x[0]), m.loadVal(er, y[0]), depth+1)
	case *types.Slice:
		if (x[0].r == nil) != (y[0].r == nil) || x[1].n != y[1].n {
			return m.t.ff
		}
		er := rtypeOf(u.Elem())
		r := m.t.tt
		for i := 0; i < int(x[1].n); i++ {
			off := uint64(i * er.lay.size)
			r = m.t.and(r, m.deepEqual(u.Elem(), m.loadVal(er, V{r: x[0].r, n: x[0].n + off}), m.loadVal(er, V{r: y[0].r, n: y[0].n + off}), depth+1))
		}
		return r
	case *types.Array:
		n := nleaves(u.Elem())
		r := m.t.tt
		for i := 0; i < int(u.Len()); i++ {
			r = m.t.and(r, m.deepEqual(u.Elem(), x[i*n:(i+1)*n], y[i*n:(i+1)*n], depth+1))
		}
		return r
	case *types.Struct:
		r := m.t.tt
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			n := nleaves(u.Field(i).Type())
			r = m.t.and(r, m.deepEqual(u.Field(i).Type(), x[off:off+n], y[off:off+n], depth+1))
			off += n
		}
		return r
	case *types.Interface:
		rx, _ := x[0].r.(*RType)
		ry, _ := y[0].r.(*RType)
		if rx != ry {
			return m.t.ff
		}
		if rx == nil {
			return m.t.tt
		}
		return m.deepEqual(rx.t, m.unboxRecv(rx, x[1]), m.unboxRecv(rx, y[1]), depth+1)
	case *types.Map:
		a, _ := x[0].r.(*MapObj)
		b, _ := y[0].r.(*MapObj)
		if (a == nil) != (b == nil) {
			return m.t.ff
		}
		if a == nil || a == b {
			return m.t.tt
		}
		if a.live != b.live {
			return m.t.ff
		}
		r := m.t.tt
		for k, e := range a.index {
			f := b.index[k]
			if f == nil {
				return m.t.ff
			}
			r = m.t.and(r, m.deepEqual(u.Elem(), e.val, f.val, depth+1))
		}
		return r
	case *types.Signature:
		return m.t.boolTerm(x[0].r == nil && y[0].r == nil)
	}
	return m.equal(t, x, y)
}

var _ = fmt.Sprint
