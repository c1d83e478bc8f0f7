package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	prog     *ssa.Program
	codes    sync.Map // *ssa.Function -> *Code
	globals  []*ssa.Global
	gindex   map[*ssa.Global]int
	pkgs     []*ssa.Package
	pindex   map[*ssa.Package]int
	skipInit map[string]bool
	maxSteps int64

	rtErrType  *RType
	rtypeType  *RType // *reflect.rtype
	rliteType  *RType // internal/reflectlite *rtype (may be nil)
	constAddr  uint64
	ncompiled  int64
	funcAddrMu sync.Mutex
	compileMu  sync.Mutex
	snapWiden  bool
	branchTO   time.Duration
	assertTO   time.Duration
	pathTO     time.Duration
	z3         string
	verbose    bool
	warmMu     sync.Mutex
	warmList   []int
	wgI        *wgInfo
	mpool      []*M
	mpoolVer   int
}

// redirected are functions of the operating system that are done by functions of the harness interface.
var redirected = map[string]string{"os.Open": "openFile", "os.OpenFile": "openFlags", "os.ReadFile": "wholeFile", "(*os.File).Read": "readFile", "(*os.File).Close": "closeFile"}

func (e *Engine) code(fn *ssa.Function) *Code {
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "os" {
		if r := redirected[fn.String()]; r != "" {
			if p := e.prog.ImportedPackage(strings.TrimSuffix(vsymPath, ".")); p != nil && p.Func(r) != nil {
				fn = p.Func(r)
			}
		}
	}
	if c, ok := e.codes.Load(fn); ok {
		return c.(*Code)
	}
	c := &Code{fn: fn, name: fn.String(), recov: -1, pkg: -1}
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p != nil {
		if i, ok := e.pindex[p]; ok {
			c.pkg = i
		}
	}
	x, _ := e.codes.LoadOrStore(fn, c)
	return x.(*Code)
}

func (c *Code) ensure(e *Engine) {
	c.once.Do(func() {
		defer func() {
			if x := recover(); x != nil {
				c.err = x
				c.intr = func(m *M, fr *frame, args, ret []V) int {
					panic(unsupported("compile %s: %v", c.name, x))
				}
			}
		}()
		e.compile(c)
	})
}

type opd struct {
	k uint8 // 0 reg 1 const 2 global
	i int
	n int
}

func (o *opd) get(m *M, fr *frame) V {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		return fr.code.consts[o.i]
	}
	return V{r: m.global(o.i)}
}

func (o *opd) slice(m *M, fr *frame) []V {
	switch o.k {
	case 0:
		return fr.regs[o.i : o.i+o.n]
	case 1:
		return fr.code.consts[o.i : o.i+o.n]
	}
	return []V{{r: m.global(o.i)}}
}

type compiler struct {
	e      *Engine
	c      *Code
	regs   map[ssa.Value]int
	consts map[ssa.Value]int
	starts []int
	fix    []func()
	gpkgs  []int // packages of globals used by the current instruction
}

func (e *Engine) newConstObj(s string) *Obj {
	a := atomic.AddUint64(&e.constAddr, uint64((len(s)+31)&^15))
	return &Obj{addr: a, size: len(s), raw: []byte(s), ro: true}
}

func (e *Engine) constLeaves(c *ssa.Const) []V {
	t := c.Type()
	n := nleaves(t)
	out := make([]V, n)
	if c.Value == nil {
		return out
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if constant.BoolVal(c.Value) {
				out[0].n = 1
			}
		case u.Info()&types.IsString != 0:
			s := constant.StringVal(c.Value)
			if c.Value.Kind() == constant.Int {
				panic("int const to string")
			}
			if len(s) > 0 {
				out[0].r = e.newConstObj(s)
				out[1].n = uint64(len(s))
			}
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				out[0].n = normInt(uint64(i), basicKind(u))
			} else if x, ok := constant.Uint64Val(v); ok {
				out[0].n = normInt(x, basicKind(u))
			} else {
				panic("big int const")
			}
		case u.Info()&types.IsFloat != 0:
			if u.Kind() == types.Float32 {
				f, _ := constant.Float32Val(c.Value)
				out[0].n = uint64(math.Float32bits(f))
			} else {
				f, _ := constant.Float64Val(c.Value)
				out[0].n = math.Float64bits(f)
			}
		case u.Info()&types.IsComplex != 0:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			if u.Kind() == types.Complex64 {
				out[0].n = uint64(math.Float32bits(float32(re)))
				out[1].n = uint64(math.Float32bits(float32(im)))
			} else {
				out[0].n = math.Float64bits(re)
				out[1].n = math.Float64bits(im)
			}
		case u.Kind() == types.UnsafePointer:
		default:
			panic(fmt.Sprintf("const %v", c))
		}
	default:
		panic(fmt.Sprintf("const of type %v", t))
	}
	return out
}

func (k *compiler) opd(v ssa.Value) opd {
	switch x := v.(type) {
	case *ssa.Const:
		if i, ok := k.consts[v]; ok {
			return opd{1, i, nleaves(x.Type())}
		}
		lv := k.e.constLeaves(x)
		i := len(k.c.consts)
		k.c.consts = append(k.c.consts, lv...)
		k.consts[v] = i
		return opd{1, i, len(lv)}
	case *ssa.Function:
		if i, ok := k.consts[v]; ok {
			return opd{1, i, 1}
		}
		i := len(k.c.consts)
		code := k.e.code(x)
		k.c.consts = append(k.c.consts, V{r: k.e.funcVal(code)})
		k.consts[v] = i
		return opd{1, i, 1}
	case *ssa.Global:
		if x.Pkg.Pkg.Path() == "os" && strings.HasPrefix(x.Name(), "Err") {
			// the initialiser of os does not run; its errors are those of io/fs
			if p := k.e.prog.ImportedPackage("io/fs"); p != nil {
				if g, ok := p.Members[x.Name()].(*ssa.Global); ok {
					x = g
				}
			}
		}
		gi, ok := k.e.gindex[x]
		if !ok {
			panic(fmt.Sprintf("unknown global %v", x))
		}
		if pi, ok := k.e.pindex[x.Pkg]; ok && pi != k.c.pkg {
			k.gpkgs = append(k.gpkgs, pi)
		}
		return opd{2, gi, 1}
	case *ssa.Builtin:
		return opd{1, 0, 0}
	}
	i, ok := k.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v %T in %s", v, v, k.c.name))
	}
	return opd{0, i, nleaves(v.Type())}
}

func (e *Engine) funcVal(c *Code) *Func {
	return &Func{code: c, name: c.name}
}

func (e *Engine) compile(c *Code) {
	fn := c.fn
	sig := fn.Signature
	c.nres = nleaves(sig.Results())
	np := 0
	for _, p := range fn.Params {
		np += nleaves(p.Type())
	}
	c.params = np
	if in := e.lookupIntrinsic(fn); in != nil {
		c.intr = in
		if len(fn.Params) == 0 { // body-less functions have no params recorded
			if sig.Recv() != nil {
				np += nleaves(sig.Recv().Type())
			}
			np += nleaves(sig.Params())
			c.params = np
		}
		return
	}
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		if o := fn.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
	}
	if fn.Blocks == nil {
		c.intr = func(m *M, fr *frame, args, ret []V) int {
			panic(unsupported("body-less function %s", c.name))
		}
		if len(fn.Params) == 0 {
			if sig.Recv() != nil {
				np += nleaves(sig.Recv().Type())
			}
			np += nleaves(sig.Params())
			c.params = np
		}
		return
	}
	atomic.AddInt64(&e.ncompiled, 1)
	k := &compiler{e: e, c: c, regs: map[ssa.Value]int{}, consts: map[ssa.Value]int{}}
	n := 0
	add := func(v ssa.Value) {
		k.regs[v] = n
		n += nleaves(v.Type())
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	c.nregs = n
	c.nblk = len(fn.Blocks)
	k.starts = make([]int, len(fn.Blocks))
	for _, b := range fn.Blocks {
		k.starts[b.Index] = len(c.ops)
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			k.gpkgs = nil
			o := k.instr(in)
			if len(k.gpkgs) > 0 {
				o = guardInit(k.gpkgs, o)
			}
			c.ops = append(c.ops, o)
			c.pos = append(c.pos, in)
		}
	}
	if hook := preHooks[fn.String()]; hook != nil && len(c.ops) > 0 {
		first := c.ops[0]
		c.ops[0] = func(m *M, fr *frame) int {
			hook(m, fr.regs[:np])
			return first(m, fr)
		}
	}
	if fn.Recover != nil {
		c.recov = k.starts[fn.Recover.Index]
	}
	for _, f := range k.fix {
		f()
	}
}

func guardInit(pk []int, o op) op {
	pk = append([]int(nil), pk...)
	if len(pk) == 1 {
		p := pk[0]
		return func(m *M, fr *frame) int {
			if !m.inited[p] {
				n := len(fr.g.frames)
				m.pushInit(fr.g, p)
				if len(fr.g.frames) > n {
					return cFrame
				}
			}
			return o(m, fr)
		}
	}
	return func(m *M, fr *frame) int {
		for _, p := range pk {
			if !m.inited[p] {
				n := len(fr.g.frames)
				m.pushInit(fr.g, p)
				if len(fr.g.frames) > n {
					return cFrame
				}
			}
		}
		return o(m, fr)
	}
}

type phiMove struct {
	dst int
	src opd
}

// edge compiles the transfer from block b to its successor s.
func (k *compiler) edge(b, s *ssa.BasicBlock) func(m *M, fr *frame) {
	pi := -1
	for i, p := range s.Preds {
		if p == b {
			pi = i
			break
		}
	}
	var moves []phiMove
	total := 0
	for _, in := range s.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		src := k.opd(ph.Edges[pi])
		moves = append(moves, phiMove{k.regs[ph], src})
		total += src.n
	}
	si := s.Index
	starts := k.starts
	if len(moves) == 0 {
		return func(m *M, fr *frame) { fr.pc = starts[si] }
	}
	if len(moves) == 1 {
		mv := moves[0]
		if mv.src.n == 1 {
			return func(m *M, fr *frame) {
				fr.regs[mv.dst] = mv.src.get(m, fr)
				fr.pc = starts[si]
			}
		}
		return func(m *M, fr *frame) {
			copy(fr.regs[mv.dst:mv.dst+mv.src.n], mv.src.slice(m, fr))
			fr.pc = starts[si]
		}
	}
	return func(m *M, fr *frame) {
		var buf [16]V
		tmp := buf[:0]
		for i := range moves {
			mv := &moves[i]
			if mv.src.n == 1 {
				tmp = append(tmp, mv.src.get(m, fr))
			} else {
				tmp = append(tmp, mv.src.slice(m, fr)...)
			}
		}
		j := 0
		for i := range moves {
			mv := &moves[i]
			copy(fr.regs[mv.dst:mv.dst+mv.src.n], tmp[j:j+mv.src.n])
			j += mv.src.n
		}
		fr.pc = starts[si]
	}
}

// an edge from a two-way branch where both successors are the same block needs the right predecessor index
func (k *compiler) edgeN(b *ssa.BasicBlock, n int) func(m *M, fr *frame) {
	return k.edge(b, b.Succs[n])
}

func (k *compiler) instr(in ssa.Instruction) op {
	var d int
	if v, ok := in.(ssa.Value); ok {
		d = k.regs[v]
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		n := 1
		for {
			a, ok := t.Underlying().(*types.Array)
			if !ok {
				break
			}
			n *= int(a.Len())
			t = a.Elem()
		}
		lay := layoutOf(t)
		return func(m *M, fr *frame) int {
			fr.regs[d] = V{r: m.allocLay(lay, n)}
			return cNext
		}
	case *ssa.BinOp:
		return k.binop(x, d)
	case *ssa.UnOp:
		return k.unop(x, d)
	case *ssa.Call:
		return k.call(x.Common(), d, x)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var src ssa.Value
		if ci, ok := x.(*ssa.ChangeInterface); ok {
			src = ci.X
		} else {
			src = x.(*ssa.ChangeType).X
		}
		o := k.opd(src)
		return func(m *M, fr *frame) int {
			copy(fr.regs[d:d+o.n], o.slice(m, fr))
			return cNext
		}
	case *ssa.Convert:
		return k.convert(x.X, x.Type(), d)
	case *ssa.MultiConvert:
		return k.convert(x.X, x.Type(), d)
	case *ssa.SliceToArrayPointer:
		o := k.opd(x.X)
		al := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(m *M, fr *frame) int {
			s := o.slice(m, fr)
			if int64(s[1].n) < al {
				m.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", s[1].n, al))
			}
			fr.regs[d] = s[0]
			return cNext
		}
	case *ssa.Extract:
		o := k.opd(x.Tuple)
		tup := x.Tuple.Type().(*types.Tuple)
		off := 0
		for i := 0; i < x.Index; i++ {
			off += nleaves(tup.At(i).Type())
		}
		n := nleaves(tup.At(x.Index).Type())
		base := o.i + off
		if n == 1 {
			return func(m *M, fr *frame) int {
				fr.regs[d] = fr.regs[base]
				return cNext
			}
		}
		return func(m *M, fr *frame) int {
			copy(fr.regs[d:d+n], fr.regs[base:base+n])
			return cNext
		}
	case *ssa.Field:
		o := k.opd(x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		off := 0
		for i := 0; i < x.Field; i++ {
			off += nleaves(st.Field(i).Type())
		}
		n := nleaves(st.Field(x.Field).Type())
		return func(m *M, fr *frame) int {
			copy(fr.regs[d:d+n], o.slice(m, fr)[off:off+n])
			return cNext
		}
	case *ssa.FieldAddr:
		o := k.opd(x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		fs := make([]*types.Var, st.NumFields())
		for i := range fs {
			fs[i] = st.Field(i)
		}
		off := uint64(stdSizes.Offsetsof(fs)[x.Field])
		return func(m *M, fr *frame) int {
			p := o.get(m, fr)
			if p.r == nil {
				m.badPtr(p)
			}
			p.n += off
			fr.regs[d] = p
			return cNext
		}
	case *ssa.Index:
		return k.index(x, d)
	case *ssa.IndexAddr:
		o := k.opd(x.X)
		ix := k.opd(x.Index)
		ik := scalarKind(x.Index.Type())
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			es := uint64(stdSizes.Sizeof(u.Elem()))
			return func(m *M, fr *frame) int {
				s := o.slice(m, fr)
				i := ix.get(m, fr)
				if i.r != nil {
					i = m.concretize(i, ik, "index")
				}
				if i.n >= s[1].n {
					m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.n), s[1].n))
				}
				p := s[0]
				p.n += i.n * es
				fr.regs[d] = p
				return cNext
			}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			es := uint64(stdSizes.Sizeof(at.Elem()))
			ln := uint64(at.Len())
			return func(m *M, fr *frame) int {
				p := o.get(m, fr)
				i := ix.get(m, fr)
				if i.r != nil {
					i = m.concretize(i, ik, "index")
				}
				if p.r == nil {
					m.badPtr(p)
				}
				if i.n >= ln {
					m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.n), ln))
				}
				p.n += i.n * es
				fr.regs[d] = p
				return cNext
			}
		}
		panic("indexaddr")
	case *ssa.Lookup:
		return k.lookup(x, d)
	case *ssa.MakeChan:
		sz := k.opd(x.Size)
		el := layoutOf(x.Type().Underlying().(*types.Chan).Elem())
		return func(m *M, fr *frame) int {
			s := sz.get(m, fr)
			if s.r != nil {
				s = m.concretize(s, KI64, "chan size")
			}
			if int64(s.n) < 0 {
				m.rtPanic("makechan: size out of range")
			}
			fr.regs[d] = V{r: &Chan{cap: int(s.n), addr: m.newAddr(8), nl: len(el.leaves)}}
			return cNext
		}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		code := k.e.code(f)
		var bs []opd
		n := 0
		for _, b := range x.Bindings {
			o := k.opd(b)
			bs = append(bs, o)
			n += o.n
		}
		return func(m *M, fr *frame) int {
			binds := make([]V, 0, n)
			for i := range bs {
				binds = append(binds, bs[i].slice(m, fr)...)
			}
			fr.regs[d] = V{r: &Func{code: code, binds: binds, name: code.name}}
			return cNext
		}
	case *ssa.MakeInterface:
		o := k.opd(x.X)
		rt := rtypeOf(x.X.Type())
		return func(m *M, fr *frame) int {
			if rt.inline {
				v := o.get(m, fr)
				fr.regs[d] = V{r: rt}
				fr.regs[d+1] = v
				return cNext
			}
			b := m.box(rt, o.slice(m, fr))
			fr.regs[d] = b[0]
			fr.regs[d+1] = b[1]
			return cNext
		}
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		return func(m *M, fr *frame) int {
			fr.regs[d] = V{r: m.newMap(mt)}
			return cNext
		}
	case *ssa.MakeSlice:
		ln, cp := k.opd(x.Len), k.opd(x.Cap)
		el := x.Type().Underlying().(*types.Slice).Elem()
		return func(m *M, fr *frame) int {
			l, c := ln.get(m, fr), cp.get(m, fr)
			if l.r != nil {
				l = m.concretize(l, KI64, "make len")
			}
			if c.r != nil {
				c = m.concretize(c, KI64, "make cap")
			}
			if int64(l.n) < 0 || int64(l.n) > 1<<40 {
				m.rtPanic("makeslice: len out of range")
			}
			if int64(c.n) < int64(l.n) || int64(c.n) > 1<<40 {
				m.rtPanic("makeslice: cap out of range")
			}
			fr.regs[d] = V{r: m.alloc(el, int(c.n))}
			fr.regs[d+1] = l
			fr.regs[d+2] = c
			return cNext
		}
	case *ssa.MapUpdate:
		mo, ko, vo := k.opd(x.Map), k.opd(x.Key), k.opd(x.Value)
		mt := x.Map.Type().Underlying().(*types.Map)
		kt := rtypeOf(mt.Key())
		return func(m *M, fr *frame) int {
			mv := mo.get(m, fr)
			if mv.r == nil {
				panic(tPanic{m.plainErr("assignment to entry in nil map")})
			}
			mp := mv.r.(*MapObj)
			m.mapSet(mp, kt, ko.slice(m, fr), vo.slice(m, fr))
			return cNext
		}
	case *ssa.Next:
		return k.next(x, d)
	case *ssa.Range:
		o := k.opd(x.X)
		isStr := false
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			isStr = true
		}
		return func(m *M, fr *frame) int {
			if isStr {
				s := o.slice(m, fr)
				fr.regs[d] = V{r: &strIter{s: m.str(s[0], s[1])}}
				return cNext
			}
			v := o.get(m, fr)
			fr.regs[d] = V{r: m.newMapIter(v)}
			return cNext
		}
	case *ssa.Panic:
		o := k.opd(x.X)
		return func(m *M, fr *frame) int {
			s := o.slice(m, fr)
			v := [2]V{s[0], s[1]}
			if v[0].r == nil {
				m.rtPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			panic(tPanic{v})
		}
	case *ssa.Return:
		var rs []opd
		n := 0
		for _, r := range x.Results {
			o := k.opd(r)
			rs = append(rs, o)
			n += o.n
		}
		if len(rs) == 1 {
			r0 := rs[0]
			return func(m *M, fr *frame) int {
				m.doReturn(fr, r0.slice(m, fr))
				return cFrame
			}
		}
		return func(m *M, fr *frame) int {
			if n == 0 {
				m.doReturn(fr, nil)
				return cFrame
			}
			var buf [12]V
			tmp := buf[:0]
			for i := range rs {
				tmp = append(tmp, rs[i].slice(m, fr)...)
			}
			m.doReturn(fr, tmp)
			return cFrame
		}
	case *ssa.RunDefers:
		return func(m *M, fr *frame) int {
			n := len(fr.defers)
			if n == 0 {
				return cNext
			}
			dr := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			nf := m.pushCall(fr.g, dr.f, dr.args, -1)
			nf.isDefer = true
			return cFrame
		}
	case *ssa.Defer:
		return k.deferOrGo(&x.Call, false)
	case *ssa.Go:
		return k.deferOrGo(&x.Call, true)
	case *ssa.Select:
		return k.selectOp(x, d)
	case *ssa.Send:
		return k.send(x)
	case *ssa.Slice:
		return k.slice(x, d)
	case *ssa.Store:
		a := k.opd(x.Addr)
		v := k.opd(x.Val)
		l := layoutOf(x.Val.Type())
		if len(l.leaves) == 1 {
			lf := &l.leaves[0]
			off := lf.off
			return func(m *M, fr *frame) int {
				m.store1(a.get(m, fr), lf, off, v.get(m, fr), l)
				return cNext
			}
		}
		return func(m *M, fr *frame) int {
			m.storeN(a.get(m, fr), l, v.slice(m, fr))
			return cNext
		}
	case *ssa.TypeAssert:
		return k.typeAssert(x, d)
	case *ssa.If:
		c := k.opd(x.Cond)
		var e0, e1 func(m *M, fr *frame)
		b := x.Block()
		k.fix = append(k.fix, func() {})
		e0 = k.edgeN(b, 0)
		e1 = k.edgeN(b, 1)
		return func(m *M, fr *frame) int {
			v := c.get(m, fr)
			var t bool
			if v.r == nil {
				t = v.n != 0
			} else {
				t = m.branch(v)
			}
			if t {
				e0(m, fr)
			} else {
				e1(m, fr)
			}
			return cJump
		}
	case *ssa.Jump:
		e := k.edgeN(x.Block(), 0)
		return func(m *M, fr *frame) int {
			e(m, fr)
			return cJump
		}
	}
	panic(fmt.Sprintf("instr %T", in))
}

func (k *compiler) index(x *ssa.Index, d int) op {
	o := k.opd(x.X)
	ix := k.opd(x.Index)
	ik := scalarKind(x.Index.Type())
	switch u := x.X.Type().Underlying().(type) {
	case *types.Array:
		n := nleaves(u.Elem())
		ln := uint64(u.Len())
		return func(m *M, fr *frame) int {
			i := ix.get(m, fr)
			if i.r != nil {
				i = m.concretize(i, ik, "index")
			}
			if i.n >= ln {
				m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.n), ln))
			}
			copy(fr.regs[d:d+n], o.slice(m, fr)[int(i.n)*n:])
			return cNext
		}
	case *types.Basic: // string
		return func(m *M, fr *frame) int {
			s := o.slice(m, fr)
			i := ix.get(m, fr)
			if i.r != nil {
				i = m.concretize(i, ik, "index")
			}
			if i.n >= s[1].n {
				m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.n), s[1].n))
			}
			ob := s[0].r.(*Obj)
			fr.regs[d] = m.byteAt(ob, int(s[0].n+i.n))
			return cNext
		}
	case *types.Slice, *types.Pointer:
	}
	panic(fmt.Sprintf("index %v", x.X.Type()))
}

func (k *compiler) typeAssert(x *ssa.TypeAssert, d int) op {
	o := k.opd(x.X)
	at := x.AssertedType
	art := rtypeOf(at)
	n := len(art.lay.leaves)
	iface, isIface := at.Underlying().(*types.Interface)
	commaOk := x.CommaOk
	srcT := x.X.Type()
	return func(m *M, fr *frame) int {
		s := o.slice(m, fr)
		rt, _ := s[0].r.(*RType)
		ok := false
		if rt != nil {
			if isIface {
				ok = m.e.implements(rt, iface, art)
			} else {
				ok = rt == art
			}
		}
		if !ok {
			if !commaOk {
				have := "nil"
				if rt != nil {
					have = rt.str
				}
				m.rtPanicTA(fmt.Sprintf("interface conversion: %v is %s, not %s", srcT, have, art.str))
			}
			for i := 0; i < n; i++ {
				fr.regs[d+i] = V{}
			}
			fr.regs[d+n] = V{}
			return cNext
		}
		if isIface {
			a, b := s[0], s[1]
			fr.regs[d] = a
			fr.regs[d+1] = b
		} else if rt.inline {
			fr.regs[d] = s[1]
		} else if n > 0 {
			m.loadN(s[1], rt.lay, fr.regs[d:d+n])
		}
		if commaOk {
			fr.regs[d+n] = V{n: 1}
		}
		return cNext
	}
}

func (m *M) rtPanicTA(msg string) { m.rtPanic(msg) }

func (m *M) plainErr(msg string) [2]V {
	s := m.newStr(msg)
	return m.box(m.e.rtErrType, s[:])
}

func (e *Engine) implements(rt *RType, iface *types.Interface, art *RType) bool {
	key := fmt.Sprintf("impl%d", art.id)
	rt.mu.Lock()
	if rt.methods == nil {
		rt.methods = map[string]any{}
	}
	if v, ok := rt.methods[key]; ok {
		rt.mu.Unlock()
		return v.(bool)
	}
	rt.mu.Unlock()
	r := types.Implements(rt.t, iface)
	rt.mu.Lock()
	rt.methods[key] = r
	rt.mu.Unlock()
	return r
}

// findMethod resolves a method of the dynamic type.
func (e *Engine) findMethod(rt *RType, mth *types.Func) *Func {
	key := mth.Id()
	rt.mu.Lock()
	if rt.methods == nil {
		rt.methods = map[string]any{}
	}
	if v, ok := rt.methods[key]; ok {
		rt.mu.Unlock()
		f, _ := v.(*Func)
		return f
	}
	rt.mu.Unlock()
	fn := e.prog.LookupMethod(rt.t, mth.Pkg(), mth.Name())
	var f *Func
	if fn != nil {
		f = e.funcVal(e.code(fn))
	}
	rt.mu.Lock()
	if v, ok := rt.methods[key]; ok {
		f, _ = v.(*Func)
	} else {
		rt.methods[key] = f
	}
	rt.mu.Unlock()
	return f
}

func (m *M) findMethodByName(rt *RType, name string) *Func {
	ms := m.e.prog.MethodSets.MethodSet(rt.t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			fn := m.e.prog.MethodValue(s)
			if fn == nil {
				return nil
			}
			return m.e.funcVal(m.e.code(fn))
		}
	}
	return nil
}

func isIfaceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (k *compiler) callArgs(c *ssa.CallCommon) (as []opd, n int) {
	for _, a := range c.Args {
		o := k.opd(a)
		as = append(as, o)
		n += o.n
	}
	return
}

func (k *compiler) call(c *ssa.CallCommon, d int, site *ssa.Call) op {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return k.builtin(b, c, d)
	}
	as, n := k.callArgs(c)
	if c.IsInvoke() {
		recv := k.opd(c.Value)
		mth := c.Method
		type cache struct {
			rt *RType
			f  *Func
		}
		var ic atomic.Pointer[cache]
		return func(m *M, fr *frame) int {
			s := recv.slice(m, fr)
			rt, _ := s[0].r.(*RType)
			if rt == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			var f *Func
			if cc := ic.Load(); cc != nil && cc.rt == rt {
				f = cc.f
			} else {
				f = m.e.findMethod(rt, mth)
				if f == nil {
					panic(unsupported("method %s not found on %s", mth.Name(), rt.str))
				}
				ic.Store(&cache{rt, f})
			}
			var buf [24]V
			args := buf[:0]
			if rt.inline {
				args = append(args, s[1])
			} else if len(rt.lay.leaves) > 0 {
				args = args[:len(rt.lay.leaves)]
				if len(rt.lay.leaves) > len(buf) {
					args = make([]V, len(rt.lay.leaves))
				}
				m.loadN(s[1], rt.lay, args)
			}
			for i := range as {
				if as[i].n == 1 {
					args = append(args, as[i].get(m, fr))
				} else {
					args = append(args, as[i].slice(m, fr)...)
				}
			}
			return m.callTo(fr, f, args, d)
		}
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		if f.Synthetic == "package initializer" {
			return func(m *M, fr *frame) int { return cNext }
		}
		code := k.e.code(f)
		fv := k.e.funcVal(code)
		return func(m *M, fr *frame) int {
			var buf [24]V
			args := buf[:0]
			if n > len(buf) {
				args = make([]V, 0, n)
			}
			for i := range as {
				if as[i].n == 1 {
					args = append(args, as[i].get(m, fr))
				} else {
					args = append(args, as[i].slice(m, fr)...)
				}
			}
			return m.callTo(fr, fv, args, d)
		}
	}
	fo := k.opd(c.Value)
	return func(m *M, fr *frame) int {
		fv := fo.get(m, fr)
		f, _ := fv.r.(*Func)
		if f == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		var buf [24]V
		args := buf[:0]
		for i := range as {
			if as[i].n == 1 {
				args = append(args, as[i].get(m, fr))
			} else {
				args = append(args, as[i].slice(m, fr)...)
			}
		}
		return m.callTo(fr, f, args, d)
	}
}

// callTo performs a call from fr; results go to register d of fr.
func (m *M) callTo(fr *frame, f *Func, args []V, d int) int {
	g := fr.g
	if f.native != nil {
		res := f.native(m, args)
		copy(fr.regs[d:], res)
		return cNext
	}
	code := f.code
	code.ensure(m.e)
	if code.pkg >= 0 && !m.inited[code.pkg] && code.intr == nil {
		n := len(g.frames)
		m.pushInit(g, code.pkg)
		if len(g.frames) > n {
			return cFrame
		}
	}
	if code.intr != nil {
		c := code.intr(m, fr, args, fr.regs[d:d+code.nres:d+code.nres])
		return c
	}
	if len(args) != code.params {
		panic(fmt.Sprintf("call %s: %d arg leaves, want %d", code.name, len(args), code.params))
	}
	m.funcsSeen[code] = true
	nf := g.push(code)
	copy(nf.regs, args)
	copy(nf.regs[len(args):], f.binds)
	nf.ret = d
	return cFrame
}

func (k *compiler) deferOrGo(c *ssa.CallCommon, isGo bool) op {
	as, _ := k.callArgs(c)
	collect := func(m *M, fr *frame) []V {
		var args []V
		for i := range as {
			args = append(args, as[i].slice(m, fr)...)
		}
		return args
	}
	finish := func(m *M, fr *frame, f *Func, args []V) int {
		if isGo {
			if f == nil {
				m.rtPanic("go of nil func value")
			}
			if f.code != nil && m.needInit(f.code.pkg) {
				n := len(fr.g.frames)
				m.pushInit(fr.g, f.code.pkg)
				if len(fr.g.frames) > n {
					return cFrame
				}
			}
			m.spawn(f, args)
			if m.sched && m.preempt(fr) {
				fr.pc++
				return cYield
			}
			return cNext
		}
		fr.defers = append(fr.defers, deferRec{f, args})
		return cNext
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		// evaluate builtin later through a native closure
		var ats []types.Type
		for _, a := range c.Args {
			ats = append(ats, a.Type())
		}
		name := b.Name()
		return func(m *M, fr *frame) int {
			args := collect(m, fr)
			f := &Func{name: "builtin " + name, native: func(m *M, args []V) []V {
				m.builtinDeferred(name, ats, args)
				return nil
			}}
			return finish(m, fr, f, args)
		}
	}
	if c.IsInvoke() {
		recv := k.opd(c.Value)
		mth := c.Method
		return func(m *M, fr *frame) int {
			s := recv.slice(m, fr)
			rt, _ := s[0].r.(*RType)
			if rt == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			f := m.e.findMethod(rt, mth)
			args := append(m.unboxRecv(rt, s[1]), collect(m, fr)...)
			return finish(m, fr, f, args)
		}
	}
	fo := k.opd(c.Value)
	return func(m *M, fr *frame) int {
		f, _ := fo.get(m, fr).r.(*Func)
		return finish(m, fr, f, collect(m, fr))
	}
}

// ---------------------------------------------------------------- numeric helpers

func f64of(v V, k Kind) float64 {
	if k == KF32 {
		return float64(math.Float32frombits(uint32(v.n)))
	}
	return math.Float64frombits(v.n)
}

func fval(f float64, k Kind) V {
	if k == KF32 {
		return V{n: uint64(math.Float32bits(float32(f)))}
	}
	return V{n: math.Float64bits(f)}
}

// realTerm converts a float leaf to a real term; ok=false for Inf/NaN.
func (m *M) realTerm(v V, k Kind) (*Term, bool) {
	if t, ok := v.r.(*Term); ok {
		if t.sort != SReal {
			panic(unsupported("float operation on non-real term"))
		}
		return t, true
	}
	if v.r != nil {
		panic(unsupported("float operation on %T", v.r))
	}
	f := f64of(v, k)
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return nil, false
	}
	// the rounded constant ln 2 stands for the exact number
	if a := math.Abs(f); a == math.Ln2 || a == float64(float32(math.Ln2)) {
		t := m.t.uf("log", m.t.intTerm(2))
		if f < 0 {
			t = m.t.neg(t)
		}
		return t, true
	}
	return m.t.ratTerm(snapRat(f, k == KF32)), true
}

func (m *M) termV(t *Term, k Kind) V {
	if t.isConst() {
		switch t.sort {
		case SBool:
			return V{n: t.n}
		case SBV:
			return V{n: normInt(t.n, k)}
		case SReal:
			// exact small constants become concrete again
			f, exact := t.rat.Float64()
			if exact || true {
				if snapRat(f, false).Cmp(t.rat) == 0 {
					return fval(f, k)
				}
			}
		}
	}
	return V{r: t}
}

func (m *M) bvTermOf(v V, k Kind) *Term {
	if t, ok := v.r.(*Term); ok {
		if t.sort == SReal {
			panic(unsupported("integer operation on real term"))
		}
		if t.sort == SBool {
			panic(unsupported("integer operation on bool term"))
		}
		return t
	}
	if v.r != nil {
		a, ok := absAddr(v)
		if !ok {
			panic(unsupported("integer operation on %T", v.r))
		}
		return m.t.bvTerm(a, k.width())
	}
	return m.t.bvTerm(v.n, k.width())
}

func (m *M) boolTermOf(v V) *Term {
	if t, ok := v.r.(*Term); ok {
		if t.sort == SBV { // bool loaded through byte punning
			return m.t.not(m.t.eq(t, m.t.bvTerm(0, t.w)))
		}
		return t
	}
	return m.t.boolTerm(v.n != 0)
}

func b2v(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}

// zeroSkip: the BLAS matrix kernels of gonum skip zero factors; the skip adds nothing in exact arithmetic, so
// comparisons of symbolic factors with zero inside these kernels do not fork.
func zeroSkip(fn *ssa.Function) bool {
	p := fn.Package()
	if p == nil || !strings.HasPrefix(p.Pkg.Path(), "gonum.org/v1/gonum/") {
		return false
	}
	n := strings.ToLower(fn.Name())
	return strings.Contains(n, "gemm") || strings.Contains(n, "gemv") || strings.Contains(n, "ger")
}

func (k *compiler) binop(x *ssa.BinOp, d int) op {
	a, b := k.opd(x.X), k.opd(x.Y)
	t := x.X.Type()
	tok := x.Op
	switch u := t.Underlying().(type) {
	case *types.Basic:
		inf := u.Info()
		switch {
		case inf&types.IsInteger != 0:
			kd := basicKind(u)
			if tok == token.SHL || tok == token.SHR {
				yk := scalarKind(x.Y.Type())
				return func(m *M, fr *frame) int {
					fr.regs[d] = m.shift(tok, a.get(m, fr), b.get(m, fr), kd, yk)
					return cNext
				}
			}
			return intBin(tok, kd, a, b, d)
		case inf&types.IsFloat != 0:
			kd := basicKind(u)
			if (tok == token.EQL || tok == token.NEQ) && zeroSkip(x.Parent()) {
				return func(m *M, fr *frame) int {
					x, y := a.get(m, fr), b.get(m, fr)
					if (x.r != nil && y.r == nil && f64of(y, kd) == 0) || (y.r != nil && x.r == nil && f64of(x, kd) == 0) {
						fr.regs[d] = b2v(tok == token.NEQ)
						return cNext
					}
					fr.regs[d] = m.floatBin(tok, x, y, kd)
					return cNext
				}
			}
			return func(m *M, fr *frame) int {
				fr.regs[d] = m.floatBin(tok, a.get(m, fr), b.get(m, fr), kd)
				return cNext
			}
		case inf&types.IsComplex != 0:
			kd := KF64
			if u.Kind() == types.Complex64 {
				kd = KF32
			}
			return func(m *M, fr *frame) int {
				m.complexBin(tok, a.slice(m, fr), b.slice(m, fr), kd, fr.regs[d:])
				return cNext
			}
		case inf&types.IsString != 0:
			return func(m *M, fr *frame) int {
				x, y := a.slice(m, fr), b.slice(m, fr)
				sx, sy := m.bytesOf(x[0], int(x[1].n)), m.bytesOf(y[0], int(y[1].n))
				if tok == token.ADD {
					if len(sx) == 0 {
						copy(fr.regs[d:d+2], y)
						return cNext
					}
					if len(sy) == 0 {
						copy(fr.regs[d:d+2], x)
						return cNext
					}
					nb := make([]byte, 0, len(sx)+len(sy))
					nb = append(append(nb, sx...), sy...)
					o := m.allocRaw(nb)
					o.ro = true
					fr.regs[d] = V{r: o}
					fr.regs[d+1] = V{n: uint64(len(nb))}
					return cNext
				}
				s1, s2 := string(sx), string(sy)
				var r bool
				switch tok {
				case token.EQL:
					r = s1 == s2
				case token.NEQ:
					r = s1 != s2
				case token.LSS:
					r = s1 < s2
				case token.LEQ:
					r = s1 <= s2
				case token.GTR:
					r = s1 > s2
				case token.GEQ:
					r = s1 >= s2
				}
				fr.regs[d] = b2v(r)
				return cNext
			}
		case inf&types.IsBoolean != 0:
			return func(m *M, fr *frame) int {
				x, y := a.get(m, fr), b.get(m, fr)
				if x.r == nil && y.r == nil {
					eq := (x.n != 0) == (y.n != 0)
					switch tok {
					case token.EQL:
						fr.regs[d] = b2v(eq)
					case token.NEQ:
						fr.regs[d] = b2v(!eq)
					case token.AND:
						fr.regs[d] = b2v(x.n != 0 && y.n != 0)
					case token.OR:
						fr.regs[d] = b2v(x.n != 0 || y.n != 0)
					}
					return cNext
				}
				tx, ty := m.boolTermOf(x), m.boolTermOf(y)
				var r *Term
				switch tok {
				case token.EQL:
					r = m.t.eq(tx, ty)
				case token.NEQ:
					r = m.t.not(m.t.eq(tx, ty))
				case token.AND:
					r = m.t.and(tx, ty)
				case token.OR:
					r = m.t.or(tx, ty)
				}
				fr.regs[d] = m.termV(r, KBool)
				return cNext
			}
		}
	}
	// equality on everything else
	if tok != token.EQL && tok != token.NEQ {
		panic(fmt.Sprintf("binop %v on %v", tok, t))
	}
	// comparisons of interface with concrete, or nil
	xt, yt := x.X.Type(), x.Y.Type()
	return func(m *M, fr *frame) int {
		r := m.equalMixed(xt, a.slice(m, fr), yt, b.slice(m, fr))
		if tok == token.NEQ {
			r = m.t.not(r)
		}
		fr.regs[d] = m.termV(r, KBool)
		return cNext
	}
}

func (m *M) equalMixed(xt types.Type, x []V, yt types.Type, y []V) *Term {
	xi, yi := isIfaceType(xt), isIfaceType(yt)
	if xi && !yi {
		if isUntypedNil(yt) {
			return m.t.boolTerm(x[0].r == nil)
		}
		b := m.box(rtypeOf(yt), y)
		return m.equalIface(x, b[:])
	}
	if yi && !xi {
		if isUntypedNil(xt) {
			return m.t.boolTerm(y[0].r == nil)
		}
		b := m.box(rtypeOf(xt), x)
		return m.equalIface(b[:], y)
	}
	return m.equal(xt, x, y)
}

func isUntypedNil(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (m *M) equalIface(x, y []V) *Term {
	rx, _ := x[0].r.(*RType)
	ry, _ := y[0].r.(*RType)
	if rx != ry {
		return m.t.ff
	}
	if rx == nil {
		return m.t.tt
	}
	if !types.Comparable(rx.t) {
		m.rtPanic("comparing uncomparable type " + rx.str)
	}
	return m.equal(rx.t, m.unboxRecv(rx, x[1]), m.unboxRecv(rx, y[1]))
}

// equal compares two values of type t.
func (m *M) equal(t types.Type, x, y []V) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		inf := u.Info()
		switch {
		case inf&types.IsString != 0:
			return m.t.boolTerm(x[1].n == y[1].n && m.str(x[0], x[1]) == m.str(y[0], y[1]))
		case inf&types.IsFloat != 0:
			return m.boolTermOf(m.floatBin(token.EQL, x[0], y[0], basicKind(u)))
		case inf&types.IsComplex != 0:
			kd := KF64
			if u.Kind() == types.Complex64 {
				kd = KF32
			}
			return m.t.and(m.boolTermOf(m.floatBin(token.EQL, x[0], y[0], kd)), m.boolTermOf(m.floatBin(token.EQL, x[1], y[1], kd)))
		case inf&types.IsBoolean != 0:
			return m.t.eq(m.boolTermOf(x[0]), m.boolTermOf(y[0]))
		case inf&types.IsInteger != 0:
			return m.boolTermOf(m.intBinSlow(token.EQL, x[0], y[0], basicKind(u)))
		}
		return m.t.boolTerm(m.ptrEq(x[0], y[0]))
	case *types.Interface:
		return m.equalIface(x, y)
	case *types.Struct:
		r := m.t.tt
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := nleaves(ft)
			if u.Field(i).Name() != "_" {
				r = m.t.and(r, m.equal(ft, x[off:off+n], y[off:off+n]))
			}
			off += n
		}
		return r
	case *types.Array:
		r := m.t.tt
		n := nleaves(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			r = m.t.and(r, m.equal(u.Elem(), x[i*n:(i+1)*n], y[i*n:(i+1)*n]))
		}
		return r
	case *types.Signature, *types.Map, *types.Chan, *types.Pointer, *types.Slice:
		return m.t.boolTerm(m.ptrEq(x[0], y[0]))
	}
	panic(unsupported("equality on %v", t))
}

func (m *M) ptrEq(a, b V) bool {
	if a.r == nil && b.r == nil {
		return a.n == b.n
	}
	return a.r == b.r && a.n == b.n
}

func intBin(tok token.Token, kd Kind, a, b opd, d int) op {
	signed := kd.isSigned()
	switch tok {
	case token.ADD:
		return func(m *M, fr *frame) int {
			x, y := a.get(m, fr), b.get(m, fr)
			if x.r == nil && y.r == nil {
				fr.regs[d] = V{n: normInt(x.n+y.n, kd)}
			} else {
				fr.regs[d] = m.intBinSlow(tok, x, y, kd)
			}
			return cNext
		}
	case token.LSS:
		return func(m *M, fr *frame) int {
			x, y := a.get(m, fr), b.get(m, fr)
			if x.r == nil && y.r == nil {
				if signed {
					fr.regs[d] = b2v(int64(x.n) < int64(y.n))
				} else {
					fr.regs[d] = b2v(x.n < y.n)
				}
			} else {
				fr.regs[d] = m.intBinSlow(tok, x, y, kd)
			}
			return cNext
		}
	}
	return func(m *M, fr *frame) int {
		x, y := a.get(m, fr), b.get(m, fr)
		if x.r == nil && y.r == nil {
			fr.regs[d] = m.intBinConc(tok, x.n, y.n, kd)
		} else {
			fr.regs[d] = m.intBinSlow(tok, x, y, kd)
		}
		return cNext
	}
}

func (m *M) intBinConc(tok token.Token, x, y uint64, kd Kind) V {
	s := kd.isSigned()
	switch tok {
	case token.ADD:
		return V{n: normInt(x+y, kd)}
	case token.SUB:
		return V{n: normInt(x-y, kd)}
	case token.MUL:
		return V{n: normInt(x*y, kd)}
	case token.QUO, token.REM:
		if y == 0 {
			m.rtPanic("integer divide by zero")
		}
		if s {
			if int64(y) == -1 {
				if tok == token.QUO {
					return V{n: normInt(-x, kd)}
				}
				return V{}
			}
			if tok == token.QUO {
				return V{n: normInt(uint64(int64(x)/int64(y)), kd)}
			}
			return V{n: normInt(uint64(int64(x)%int64(y)), kd)}
		}
		if tok == token.QUO {
			return V{n: x / y}
		}
		return V{n: x % y}
	case token.AND:
		return V{n: x & y}
	case token.OR:
		return V{n: x | y}
	case token.XOR:
		return V{n: normInt(x^y, kd)}
	case token.AND_NOT:
		return V{n: normInt(x&^y, kd)}
	case token.EQL:
		return b2v(x == y)
	case token.NEQ:
		return b2v(x != y)
	case token.LSS:
		if s {
			return b2v(int64(x) < int64(y))
		}
		return b2v(x < y)
	case token.LEQ:
		if s {
			return b2v(int64(x) <= int64(y))
		}
		return b2v(x <= y)
	case token.GTR:
		if s {
			return b2v(int64(x) > int64(y))
		}
		return b2v(x > y)
	case token.GEQ:
		if s {
			return b2v(int64(x) >= int64(y))
		}
		return b2v(x >= y)
	}
	panic("intBinConc")
}

func (m *M) intBinSlow(tok token.Token, x, y V, kd Kind) V {
	if x.r == nil && y.r == nil {
		return m.intBinConc(tok, x.n, y.n, kd)
	}
	// pointers held in uintptrs
	xo, xp := x.r.(*Obj)
	yo, yp := y.r.(*Obj)
	if xp || yp {
		switch {
		case xp && y.r == nil && tok == token.ADD:
			return V{n: x.n + y.n, r: xo}
		case yp && x.r == nil && tok == token.ADD:
			return V{n: x.n + y.n, r: yo}
		case xp && y.r == nil && tok == token.SUB:
			return V{n: x.n - y.n, r: xo}
		case xp && yp && xo == yo && tok == token.SUB:
			return V{n: x.n - y.n}
		case xp && y.r == nil && tok == token.XOR && y.n == 0: // noescape idiom
			return x
		}
		ax, ok1 := absAddr(x)
		ay, ok2 := absAddr(y)
		if ok1 && ok2 {
			return m.intBinConc(tok, ax, ay, kd)
		}
	}
	// bytes of symbolic leaves can only be compared for identity
	if bx, ok := x.r.(*ByteOf); ok {
		x = m.byteOfTerm(bx)
	}
	if by, ok := y.r.(*ByteOf); ok {
		y = m.byteOfTerm(by)
	}
	if bt, ok := x.r.(*Term); ok && bt.sort == SBool {
		x = V{r: m.t.ite(bt, m.t.bvTerm(1, kd.width()), m.t.bvTerm(0, kd.width()))}
	}
	if bt, ok := y.r.(*Term); ok && bt.sort == SBool {
		y = V{r: m.t.ite(bt, m.t.bvTerm(1, kd.width()), m.t.bvTerm(0, kd.width()))}
	}
	if xt, ok := x.r.(*Term); ok && xt.sort == SReal {
		if yt, ok := y.r.(*Term); ok && yt.sort == SReal && (tok == token.EQL || tok == token.NEQ) {
			r := m.t.eq(xt, yt)
			if tok == token.NEQ {
				r = m.t.not(r)
			}
			return m.termV(r, KBool)
		}
	}
	tx, ty := m.bvTermOf(x, kd), m.bvTermOf(y, kd)
	if tx.w != ty.w {
		panic(unsupported("width mismatch %d %d", tx.w, ty.w))
	}
	s := kd.isSigned()
	t := m.t
	var r *Term
	switch tok {
	case token.ADD:
		r = t.bvbin(TBAdd, tx, ty)
	case token.SUB:
		r = t.bvbin(TBSub, tx, ty)
	case token.MUL:
		r = t.bvbin(TBMul, tx, ty)
	case token.QUO, token.REM:
		// division by zero is a real branch
		z := t.eq(ty, t.bvTerm(0, ty.w))
		if m.branchT(z) {
			m.rtPanic("integer divide by zero")
		}
		op := TBSDiv
		if tok == token.REM {
			op = TBSRem
		}
		if !s {
			op = TBUDiv
			if tok == token.REM {
				op = TBURem
			}
		}
		r = t.bvbin(op, tx, ty)
	case token.AND:
		r = t.bvbin(TBAnd, tx, ty)
	case token.OR:
		r = t.bvbin(TBOr, tx, ty)
	case token.XOR:
		r = t.bvbin(TBXor, tx, ty)
	case token.AND_NOT:
		r = t.bvbin(TBAnd, tx, t.bvbin(TBXor, ty, t.bvTerm(^uint64(0), ty.w)))
	case token.EQL:
		r = t.eq(tx, ty)
	case token.NEQ:
		r = t.not(t.eq(tx, ty))
	case token.LSS:
		if s {
			r = t.bvcmp(TBSlt, tx, ty)
		} else {
			r = t.bvcmp(TBUlt, tx, ty)
		}
	case token.LEQ:
		if s {
			r = t.bvcmp(TBSle, tx, ty)
		} else {
			r = t.bvcmp(TBUle, tx, ty)
		}
	case token.GTR:
		if s {
			r = t.bvcmp(TBSlt, ty, tx)
		} else {
			r = t.bvcmp(TBUlt, ty, tx)
		}
	case token.GEQ:
		if s {
			r = t.bvcmp(TBSle, ty, tx)
		} else {
			r = t.bvcmp(TBUle, ty, tx)
		}
	default:
		panic("intBinSlow")
	}
	return m.termV(r, kd)
}

func (m *M) byteOfTerm(b *ByteOf) V {
	t, ok := b.v.r.(*Term)
	if !ok || t.sort != SBV {
		panic(unsupported("byte of a non-integer symbolic value"))
	}
	sh := m.t.bvbin(TBLshr, t, m.t.bvTerm(uint64(8*b.i), t.w))
	return V{r: m.t.bvresize(sh, 8, false)}
}

func (m *M) shift(tok token.Token, x, y V, kd, yk Kind) V {
	if yk.isSigned() && y.r == nil && int64(y.n) < 0 {
		m.rtPanic("negative shift amount")
	}
	if x.r == nil && y.r == nil {
		w := uint64(kd.width())
		if tok == token.SHL {
			if y.n >= w {
				return V{}
			}
			return V{n: normInt(x.n<<y.n, kd)}
		}
		if kd.isSigned() {
			s := y.n
			if s > 63 {
				s = 63
			}
			return V{n: normInt(uint64(int64(x.n)>>s), kd)}
		}
		if y.n >= w {
			return V{}
		}
		return V{n: x.n >> y.n}
	}
	if _, ok := x.r.(*Obj); ok {
		a, _ := absAddr(x)
		return m.shift(tok, V{n: a}, y, kd, yk)
	}
	if bx, ok := x.r.(*ByteOf); ok {
		x = m.byteOfTerm(bx)
	}
	tx, ty := m.bvTermOf(x, kd), m.bvTermOf(y, yk)
	if yk.isSigned() && y.r != nil {
		neg := m.t.bvcmp(TBSlt, ty, m.t.bvTerm(0, ty.w))
		if m.branchT(neg) {
			m.rtPanic("negative shift amount")
		}
	}
	// clamp the amount to the width of x
	w := kd.width()
	big := m.t.bvcmp(TBUle, m.t.bvTerm(uint64(w), ty.w), ty)
	if ty.w < 8 {
		panic("shift width")
	}
	amt := m.t.bvresize(ty, w, false)
	amt = m.t.ite(big, m.t.bvTerm(uint64(w), w), amt)
	var r *Term
	switch {
	case tok == token.SHL:
		r = m.t.bvbin(TBShl, tx, amt)
	case kd.isSigned():
		r = m.t.bvbin(TBAshr, tx, amt)
	default:
		r = m.t.bvbin(TBLshr, tx, amt)
	}
	return m.termV(r, kd)
}

func (m *M) floatBin(tok token.Token, x, y V, kd Kind) V {
	if x.r == nil && y.r == nil {
		if kd == KF32 {
			a, b := math.Float32frombits(uint32(x.n)), math.Float32frombits(uint32(y.n))
			var r float32
			switch tok {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.EQL:
				return b2v(a == b)
			case token.NEQ:
				return b2v(a != b)
			case token.LSS:
				return b2v(a < b)
			case token.LEQ:
				return b2v(a <= b)
			case token.GTR:
				return b2v(a > b)
			case token.GEQ:
				return b2v(a >= b)
			}
			return V{n: uint64(math.Float32bits(r))}
		}
		a, b := math.Float64frombits(x.n), math.Float64frombits(y.n)
		var r float64
		switch tok {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.EQL:
			return b2v(a == b)
		case token.NEQ:
			return b2v(a != b)
		case token.LSS:
			return b2v(a < b)
		case token.LEQ:
			return b2v(a <= b)
		case token.GTR:
			return b2v(a > b)
		case token.GEQ:
			return b2v(a >= b)
		}
		return V{n: math.Float64bits(r)}
	}
	tx, okx := m.realTerm(x, kd)
	ty, oky := m.realTerm(y, kd)
	if !okx || !oky {
		return m.floatSpecial(tok, x, y, okx, oky, kd)
	}
	t := m.t
	var r *Term
	switch tok {
	case token.ADD:
		r = t.add(tx, ty)
	case token.SUB:
		r = t.sub(tx, ty)
	case token.MUL:
		r = t.mul(tx, ty)
	case token.QUO:
		if ty.isConst() && ty.rat.Sign() == 0 {
			// x/0 with finite symbolic x: sign decides the infinity
			neg := math.Signbit(f64of(y, kd)) && y.r == nil
			if m.branchT(t.eq(tx, t.zero)) {
				return fval(math.NaN(), kd)
			}
			s := 1
			if m.branchT(t.lt(tx, t.zero)) {
				s = -1
			}
			if neg {
				s = -s
			}
			return fval(math.Inf(s), kd)
		}
		m.noteDiv(ty)
		r = t.div(tx, ty)
	case token.EQL:
		r = t.eq(tx, ty)
	case token.NEQ:
		r = t.not(t.eq(tx, ty))
	case token.LSS:
		r = t.lt(tx, ty)
	case token.LEQ:
		r = t.le(tx, ty)
	case token.GTR:
		r = t.lt(ty, tx)
	case token.GEQ:
		r = t.le(ty, tx)
	}
	return m.termV(r, kd)
}

// floatSpecial handles an Inf/NaN operand combined with a finite symbolic one.
func (m *M) floatSpecial(tok token.Token, x, y V, okx, oky bool, kd Kind) V {
	fx, fy := 0.0, 0.0
	if !okx {
		fx = f64of(x, kd)
	}
	if !oky {
		fy = f64of(y, kd)
	}
	if math.IsNaN(fx) || math.IsNaN(fy) {
		switch tok {
		case token.EQL, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return V{}
		case token.NEQ:
			return V{n: 1}
		}
		return fval(math.NaN(), kd)
	}
	// exactly one is infinite
	switch tok {
	case token.ADD:
		return fval(fx+fy, kd)
	case token.SUB:
		return fval(fx-fy, kd)
	case token.EQL:
		return V{}
	case token.NEQ:
		return V{n: 1}
	case token.LSS:
		return b2v(fx < fy)
	case token.LEQ:
		return b2v(fx <= fy)
	case token.GTR:
		return b2v(fx > fy)
	case token.GEQ:
		return b2v(fx >= fy)
	}
	s, f := x, fy
	if !okx {
		s, f = y, fx
	}
	st, _ := m.realTerm(s, kd)
	switch tok {
	case token.MUL:
		if m.branchT(m.t.eq(st, m.t.zero)) {
			return fval(math.NaN(), kd)
		}
		if m.branchT(m.t.lt(st, m.t.zero)) {
			return fval(-f, kd)
		}
		return fval(f, kd)
	case token.QUO:
		if okx { // finite / inf
			return fval(0, kd)
		}
		if m.branchT(m.t.lt(st, m.t.zero)) {
			return fval(-f, kd)
		}
		return fval(f, kd)
	}
	panic("floatSpecial")
}

func (m *M) complexBin(tok token.Token, x, y []V, kd Kind, out []V) {
	add := func(a, b V) V { return m.floatBin(token.ADD, a, b, kd) }
	sub := func(a, b V) V { return m.floatBin(token.SUB, a, b, kd) }
	mul := func(a, b V) V { return m.floatBin(token.MUL, a, b, kd) }
	div := func(a, b V) V { return m.floatBin(token.QUO, a, b, kd) }
	switch tok {
	case token.ADD:
		out[0], out[1] = add(x[0], y[0]), add(x[1], y[1])
	case token.SUB:
		out[0], out[1] = sub(x[0], y[0]), sub(x[1], y[1])
	case token.MUL:
		re := sub(mul(x[0], y[0]), mul(x[1], y[1]))
		im := add(mul(x[0], y[1]), mul(x[1], y[0]))
		out[0], out[1] = re, im
	case token.QUO:
		den := add(mul(y[0], y[0]), mul(y[1], y[1]))
		re := div(add(mul(x[0], y[0]), mul(x[1], y[1])), den)
		im := div(sub(mul(x[1], y[0]), mul(x[0], y[1])), den)
		out[0], out[1] = re, im
	case token.EQL, token.NEQ:
		r := m.t.and(m.boolTermOf(m.floatBin(token.EQL, x[0], y[0], kd)), m.boolTermOf(m.floatBin(token.EQL, x[1], y[1], kd)))
		if tok == token.NEQ {
			r = m.t.not(r)
		}
		out[0] = m.termV(r, KBool)
	}
}

func (k *compiler) unop(x *ssa.UnOp, d int) op {
	o := k.opd(x.X)
	switch x.Op {
	case token.MUL:
		l := layoutOf(x.Type())
		if len(l.leaves) == 1 {
			lf := &l.leaves[0]
			off := lf.off
			return func(m *M, fr *frame) int {
				fr.regs[d] = m.load1(o.get(m, fr), lf, off)
				return cNext
			}
		}
		n := len(l.leaves)
		return func(m *M, fr *frame) int {
			m.loadN(o.get(m, fr), l, fr.regs[d:d+n])
			return cNext
		}
	case token.NOT:
		return func(m *M, fr *frame) int {
			v := o.get(m, fr)
			if v.r == nil {
				fr.regs[d] = b2v(v.n == 0)
			} else {
				fr.regs[d] = m.termV(m.t.not(m.boolTermOf(v)), KBool)
			}
			return cNext
		}
	case token.SUB:
		u := x.X.Type().Underlying().(*types.Basic)
		if u.Info()&types.IsFloat != 0 {
			kd := basicKind(u)
			return func(m *M, fr *frame) int {
				fr.regs[d] = m.negF(o.get(m, fr), kd)
				return cNext
			}
		}
		if u.Info()&types.IsComplex != 0 {
			kd := KF64
			if u.Kind() == types.Complex64 {
				kd = KF32
			}
			return func(m *M, fr *frame) int {
				s := o.slice(m, fr)
				a, b := m.negF(s[0], kd), m.negF(s[1], kd)
				fr.regs[d], fr.regs[d+1] = a, b
				return cNext
			}
		}
		kd := basicKind(u)
		return func(m *M, fr *frame) int {
			v := o.get(m, fr)
			if v.r == nil {
				fr.regs[d] = V{n: normInt(-v.n, kd)}
			} else {
				fr.regs[d] = m.intBinSlow(token.SUB, V{}, v, kd)
			}
			return cNext
		}
	case token.XOR:
		kd := scalarKind(x.X.Type())
		return func(m *M, fr *frame) int {
			v := o.get(m, fr)
			if v.r == nil {
				fr.regs[d] = V{n: normInt(^v.n, kd)}
			} else {
				fr.regs[d] = m.intBinSlow(token.XOR, v, V{n: normInt(^uint64(0), kd)}, kd)
			}
			return cNext
		}
	case token.ARROW:
		return k.recv(x, d)
	}
	panic(fmt.Sprintf("unop %v", x.Op))
}

func (m *M) negF(v V, kd Kind) V {
	if v.r == nil {
		if kd == KF32 {
			return V{n: uint64(math.Float32bits(-math.Float32frombits(uint32(v.n))))}
		}
		return V{n: math.Float64bits(-math.Float64frombits(v.n))}
	}
	t, _ := m.realTerm(v, kd)
	return m.termV(m.t.neg(t), kd)
}

// ---------------------------------------------------------------- conversions

func (k *compiler) convert(xv ssa.Value, to types.Type, d int) op {
	o := k.opd(xv)
	from := xv.Type()
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := fu.(*types.Interface); ok && tp.NumEmbeddeds() > 0 {
		panic("convert of type parameter")
	}
	fb, fIsB := fu.(*types.Basic)
	tb, tIsB := tu.(*types.Basic)
	// unsafe pointers, pointers
	if fIsB && tIsB {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer:
			return func(m *M, fr *frame) int { fr.regs[d] = o.get(m, fr); return cNext }
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			fk, tk := basicKind(fb), basicKind(tb)
			return func(m *M, fr *frame) int {
				v := o.get(m, fr)
				if v.r == nil {
					fr.regs[d] = V{n: normInt(v.n, tk)}
					return cNext
				}
				fr.regs[d] = m.convInt(v, fk, tk)
				return cNext
			}
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			fk, tk := basicKind(fb), basicKind(tb)
			return func(m *M, fr *frame) int {
				v := o.get(m, fr)
				if v.r != nil {
					t := m.bvTermOf(v, fk)
					fr.regs[d] = m.termV(m.t.bv2real(t, fk.isSigned()), tk)
					return cNext
				}
				var f float64
				if tk == KF32 {
					if fk.isSigned() {
						f = float64(float32(int64(v.n)))
					} else {
						f = float64(float32(v.n))
					}
				} else if fk.isSigned() {
					f = float64(int64(v.n))
				} else {
					f = float64(v.n)
				}
				fr.regs[d] = fval(f, tk)
				return cNext
			}
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			fk, tk := basicKind(fb), basicKind(tb)
			return func(m *M, fr *frame) int {
				v := o.get(m, fr)
				if v.r != nil {
					fr.regs[d] = m.realToInt(v, fk, tk)
					return cNext
				}
				f := f64of(v, fk)
				var n uint64
				if tk.isSigned() {
					n = uint64(int64(f))
				} else if f < 0 {
					n = uint64(int64(f))
				} else {
					n = uint64(f)
				}
				fr.regs[d] = V{n: normInt(n, tk)}
				return cNext
			}
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			fk, tk := basicKind(fb), basicKind(tb)
			return func(m *M, fr *frame) int {
				v := o.get(m, fr)
				if v.r != nil {
					fr.regs[d] = v
					return cNext
				}
				if fk == tk {
					fr.regs[d] = v
				} else if fk == KF32 && tk == KF64 && m.e.snapWiden {
					fr.regs[d] = fval(f64of(v, fk), tk)
				} else {
					fr.regs[d] = fval(f64of(v, fk), tk)
				}
				return cNext
			}
		case fi&types.IsComplex != 0 && ti&types.IsComplex != 0:
			fk, tk := KF64, KF64
			if fb.Kind() == types.Complex64 {
				fk = KF32
			}
			if tb.Kind() == types.Complex64 {
				tk = KF32
			}
			return func(m *M, fr *frame) int {
				s := o.slice(m, fr)
				for i := 0; i < 2; i++ {
					v := s[i]
					if v.r == nil {
						v = fval(f64of(v, fk), tk)
					}
					fr.regs[d+i] = v
				}
				return cNext
			}
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			fk := basicKind(fb)
			return func(m *M, fr *frame) int {
				v := o.get(m, fr)
				if v.r != nil {
					v = m.concretize(v, fk, "rune")
				}
				s := m.newStr(string(rune(int64(v.n))))
				fr.regs[d], fr.regs[d+1] = s[0], s[1]
				return cNext
			}
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return func(m *M, fr *frame) int { copy(fr.regs[d:d+2], o.slice(m, fr)); return cNext }
		}
	}
	if fIsB && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			eb := sl.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return func(m *M, fr *frame) int {
					s := o.slice(m, fr)
					b := m.newBytes(m.bytesOf(s[0], int(s[1].n)))
					copy(fr.regs[d:d+3], b[:])
					return cNext
				}
			}
			return func(m *M, fr *frame) int {
				s := o.slice(m, fr)
				rs := []rune(m.str(s[0], s[1]))
				ob := m.alloc(sl.Elem(), len(rs))
				for i, r := range rs {
					ob.slots[i] = V{n: uint64(int64(r))}
				}
				fr.regs[d] = V{r: ob}
				fr.regs[d+1] = V{n: uint64(len(rs))}
				fr.regs[d+2] = V{n: uint64(len(rs))}
				return cNext
			}
		}
	}
	if sl, ok := fu.(*types.Slice); ok && tIsB && tb.Info()&types.IsString != 0 {
		eb := sl.Elem().Underlying().(*types.Basic)
		if eb.Kind() == types.Uint8 {
			return func(m *M, fr *frame) int {
				s := o.slice(m, fr)
				r := m.newStr(m.str(s[0], s[1]))
				fr.regs[d], fr.regs[d+1] = r[0], r[1]
				return cNext
			}
		}
		return func(m *M, fr *frame) int {
			s := o.slice(m, fr)
			var rs []rune
			lf := Leaf{0, 4, KI32}
			for i := 0; i < int(s[1].n); i++ {
				v := m.load1(s[0], &lf, i*4)
				rs = append(rs, rune(int32(v.n)))
			}
			r := m.newStr(string(rs))
			fr.regs[d], fr.regs[d+1] = r[0], r[1]
			return cNext
		}
	}
	if _, ok := fu.(*types.Pointer); ok {
		return func(m *M, fr *frame) int { fr.regs[d] = o.get(m, fr); return cNext }
	}
	if _, ok := tu.(*types.Pointer); ok {
		return func(m *M, fr *frame) int { fr.regs[d] = o.get(m, fr); return cNext }
	}
	n := nleaves(to)
	if n == o.n {
		return func(m *M, fr *frame) int { copy(fr.regs[d:d+n], o.slice(m, fr)); return cNext }
	}
	panic(fmt.Sprintf("convert %v -> %v", from, to))
}

func (m *M) convInt(v V, fk, tk Kind) V {
	switch r := v.r.(type) {
	case *Obj:
		if tk.width() == 64 {
			return v
		}
		a, _ := absAddr(v)
		return V{n: normInt(a, tk)}
	case *ByteOf:
		if tk.width() == 8 {
			return v
		}
		v = m.byteOfTerm(r)
	case *Term:
		if r.sort == SReal {
			if fk.width() == tk.width() {
				return v
			}
			panic(unsupported("integer conversion of real bits"))
		}
	}
	t := m.bvTermOf(v, fk)
	return m.termV(m.t.bvresize(t, tk.width(), fk.isSigned()), tk)
}

func (m *M) realToInt(v V, fk, tk Kind) V {
	t, _ := m.realTerm(v, fk)
	if t.op == TB2Real {
		return m.convInt(V{r: t.args[0]}, KI64, tk)
	}
	// truncation: fork over the integer value
	return m.concretizeReal(t, tk)
}

var _ = big.NewRat
