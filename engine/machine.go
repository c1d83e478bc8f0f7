package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	cNext = iota
	cJump
	cBlock
	cFrame
)

type op func(m *M, fr *frame) int

type Code struct {
	fn     *ssa.Function
	name   string
	once   sync.Once
	err    any
	ops    []op
	pos    []ssa.Instruction
	nregs  int
	params int // number of leaves of params
	consts []V
	recov  int // pc of recover block, -1
	nres   int // leaves of results
	pkg    int // package index for init, -1
	intr   Intrinsic
	inRepo bool
	nblk   int
}

type Intrinsic func(m *M, fr *frame, args []V, ret []V) int

type deferRec struct {
	f    *Func
	args []V
}

type frame struct {
	code    *Code
	regs    []V
	pc      int
	ret     int
	defers  []deferRec
	isDefer bool
	unwind  bool // deferred call during panicking
	sync    bool // boundary of callSync
	isInit  bool
	g       *G
	sp      int
	recov   bool
	iret    []V // scratch
}

type panicRec struct {
	val       [2]V
	recovered bool
	exit      bool
}

type G struct {
	id      int
	frames  []*frame
	pool    []*frame
	slab    []V
	sp      int
	panics  []*panicRec
	wait    *waiter
	done    bool
	ready   func(m *M) bool
	syncRes []V
	yield   bool
}

// tPanic is a Go-level carrier of a target program panic.
type tPanic struct{ val [2]V }

// pathEnd terminates the current path.
type pathEnd struct {
	kind string // "done","assume","panic","deadlock","limit"
	msg  string
}

type M struct {
	e         *Engine
	nextAddr  uint64
	snapAddr  uint64
	epoch     uint32
	journal   []objSave
	mapJ      []mapSave
	chanJ     []chanSave
	globals   []*Obj
	inited    []bool
	initList  []int
	gs        []*G
	cur       *G
	nextG     int
	t         *Terms
	steps     int64
	pools     map[poolKey][]V
	side      map[any]any // per path side tables
	path      *Path
	sol       *Solver
	stats     mstats
	deadline  time.Time
	sched     bool
	delay     bool // schedules differ from round robin by a bounded number of delays
	mapOrder  int
	funcsSeen map[*Code]bool
	trace     bool
	choiceG   int
	depthMax  int
	randN     int
	preempts  int
	schedEver bool
	lateG     []int
	generic   bool
}

type poolKey struct {
	o   *Obj
	off uint64
}

type mstats struct {
	allocs int64
}

func newM(e *Engine) *M {
	m := &M{e: e, nextAddr: 1 << 32, epoch: 1}
	m.globals = make([]*Obj, len(e.globals))
	m.inited = make([]bool, len(e.pkgs))
	m.t = newTerms()
	m.pools = map[poolKey][]V{}
	m.side = map[any]any{}
	m.funcsSeen = map[*Code]bool{}
	return m
}

func (m *M) global(i int) *Obj {
	o := m.globals[i]
	if o == nil {
		g := m.e.globals[i]
		o = m.alloc(g.Type().(*types.Pointer).Elem(), 1)
		o.tag = g.String()
		// globals live below the snapshot so that they are journalled
		m.globals[i] = o
		if m.path != nil {
			m.lateG = append(m.lateG, i)
		}
	}
	return o
}

func (g *G) push(code *Code) *frame {
	var fr *frame
	if n := len(g.frames); n < len(g.pool) {
		fr = g.pool[n]
	} else {
		fr = &frame{}
		g.pool = append(g.pool, fr)
	}
	*fr = frame{code: code, g: g, sp: g.sp, ret: -1, defers: fr.defers[:0], iret: fr.iret}
	if g.sp+code.nregs > len(g.slab) {
		n := 1 << 14
		if code.nregs > n {
			n = code.nregs
		}
		g.slab = make([]V, n)
		g.sp = 0
		fr.sp = -1
	}
	fr.regs = g.slab[g.sp : g.sp+code.nregs : g.sp+code.nregs]
	g.sp += code.nregs
	g.frames = append(g.frames, fr)
	if len(g.frames) > 20000 {
		panic(pathEnd{"limit", "stack depth"})
	}
	return fr
}

func (g *G) pop() *frame {
	fr := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	if fr.sp >= 0 {
		g.sp = fr.sp
	} else {
		// frame started a new slab; keep using it from the start
		g.sp = 0
	}
	return fr
}

func (g *G) top() *frame { return g.frames[len(g.frames)-1] }

func (m *M) spawn(f *Func, args []V) *G {
	m.nextG++
	g := &G{id: m.nextG}
	m.gs = append(m.gs, g)
	m.pushCall(g, f, args, -1)
	return g
}

// pushCall pushes a frame for f; intrinsics/natives are executed through a trampoline frame.
func (m *M) pushCall(g *G, f *Func, args []V, ret int) *frame {
	if f == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if f.native != nil {
		nat := f.native
		tr := &Code{name: "native", pkg: -1, recov: -1, nregs: len(args)}
		tr.ops = []op{func(m *M, fr *frame) int {
			res := nat(m, fr.regs)
			m.doReturn(fr, res)
			return cFrame
		}}
		fr := g.push(tr)
		copy(fr.regs, args)
		fr.ret = ret
		return fr
	}
	code := f.code
	code.ensure(m.e)
	if code.intr != nil {
		in := code.intr
		nr := code.nres
		tr := &Code{name: "intrinsic " + code.name, pkg: -1, recov: -1, nregs: len(args) + nr, nres: nr}
		tr.ops = []op{func(m *M, fr *frame) int {
			rv := fr.regs[len(args):]
			c := in(m, fr, fr.regs[:len(args)], rv)
			if c == cBlock || c == cYield {
				return c
			}
			if c == cFrame {
				panic(unsupported("frame intrinsic in trampoline"))
			}
			m.doReturn(fr, rv)
			return cFrame
		}}
		fr := g.push(tr)
		copy(fr.regs, args)
		fr.ret = ret
		return fr
	}
	fr := g.push(code)
	copy(fr.regs, args)
	copy(fr.regs[len(args):], f.binds)
	fr.ret = ret
	if len(args) != code.params {
		panic(fmt.Sprintf("call %s: %d arg leaves, want %d", code.name, len(args), code.params))
	}
	return fr
}

func (m *M) needInit(pkg int) bool { return pkg >= 0 && !m.inited[pkg] }

// pushInit pushes the initialiser of the package.
func (m *M) pushInit(g *G, pkg int) {
	m.inited[pkg] = true
	m.initList = append(m.initList, pkg)
	p := m.e.pkgs[pkg]
	if m.e.skipInit[p.Pkg.Path()] {
		return
	}
	fn := p.Func("init")
	if fn == nil {
		return
	}
	c := m.e.code(fn)
	c.ensure(m.e)
	fr := g.push(c)
	fr.isInit = true
}

// doReturn pops fr (the top frame) delivering res.
func (m *M) doReturn(fr *frame, res []V) {
	g := fr.g
	if fr.sync {
		g.syncRes = append([]V(nil), res...)
	}
	ret, unwind, isDefer := fr.ret, fr.unwind, fr.isDefer
	if len(g.frames) > 1 && !fr.sync && ret >= 0 && !isDefer {
		caller := g.frames[len(g.frames)-2]
		copy(caller.regs[ret:], res)
	}
	if fr.sync {
		g.pop()
		return
	}
	isInit := fr.isInit
	g.pop()
	if isInit || len(g.frames) == 0 {
		return
	}
	if isDefer {
		caller := g.top()
		if unwind {
			p := g.panics[len(g.panics)-1]
			if p.recovered {
				g.panics = g.panics[:len(g.panics)-1]
				caller.recov = true
				m.continueRecover(g, caller)
				return
			}
			m.unwind(g)
			return
		}
		if caller.recov {
			m.continueRecover(g, caller)
		}
		return // RunDefers retries
	}
	if fr.ret != -2 {
		g.top().pc++
	}
}

// continueRecover runs the remaining deferred calls of a frame that recovered and then returns from it.
func (m *M) continueRecover(g *G, fr *frame) {
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		nf := m.pushCall(g, d.f, d.args, -1)
		nf.isDefer = true
		return
	}
	if fr.code.recov >= 0 {
		fr.pc = fr.code.recov
		fr.recov = false
		return
	}
	m.doReturn(fr, make([]V, fr.code.nres))
}

func (m *M) startPanic(g *G, val [2]V) {
	g.panics = append(g.panics, &panicRec{val: val})
	m.unwind(g)
}

func (m *M) unwind(g *G) {
	for {
		fr := g.top()
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			nf := m.pushCall(g, d.f, d.args, -1)
			nf.isDefer = true
			nf.unwind = true
			return
		}
		p := g.panics[len(g.panics)-1]
		if fr.sync {
			g.pop()
			g.panics = g.panics[:len(g.panics)-1]
			panic(tPanic{p.val})
		}
		if fr.isDefer && fr.unwind && len(g.panics) > 1 {
			// new panic in a deferred call replaces the old one
			g.panics = append(g.panics[:len(g.panics)-2], p)
		}
		g.pop()
		if len(g.frames) == 0 {
			panic(pathEnd{"panic", m.panicString(p.val)})
		}
	}
}

func (m *M) panicString(val [2]V) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("panic (%v)", val[0].r)
		}
	}()
	rt, _ := val[0].r.(*RType)
	if rt == nil {
		return "panic(nil)"
	}
	if f := m.findMethodByName(rt, "Error"); f != nil {
		res := m.callSync(f, m.unboxRecv(rt, val[1]))
		return rt.str + ": " + m.str(res[0], res[1])
	}
	if b, ok := rt.t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
		o := val[1].r.(*Obj)
		return m.str(o.slots[0], o.slots[1])
	}
	return "panic of type " + rt.str
}

// unboxRecv converts an interface data word to receiver leaves.
func (m *M) unboxRecv(rt *RType, data V) []V {
	if rt.inline {
		return []V{data}
	}
	if len(rt.lay.leaves) == 0 {
		return nil
	}
	o := data.r.(*Obj)
	out := make([]V, len(rt.lay.leaves))
	m.loadN(V{r: o, n: data.n}, rt.lay, out)
	return out
}

func (m *M) box(rt *RType, leaves []V) [2]V {
	if rt.inline {
		return [2]V{{r: rt}, leaves[0]}
	}
	o := m.allocLay(rt.lay, 1)
	if o.raw == nil {
		copy(o.slots, leaves)
	} else {
		m.storeN(V{r: o}, rt.lay, leaves)
	}
	return [2]V{{r: rt}, {r: o}}
}

// callSync runs f to completion on the current goroutine.
func (m *M) callSync(f *Func, args []V) []V {
	g := m.cur
	depth := len(g.frames)
	if f.code != nil && m.needInit(f.code.pkg) {
		m.pushInit(g, f.code.pkg)
		if len(g.frames) > depth {
			m.runNested(g, depth)
		}
	}
	fr := m.pushCall(g, f, args, -2)
	fr.sync = true
	m.runNested(g, depth)
	r := g.syncRes
	g.syncRes = nil
	return r
}

func (m *M) runNested(g *G, depth int) {
	for len(g.frames) > depth {
		if st := m.runProtected(g, depth); st == stBlocked {
			panic(unsupported("blocking inside a nested call"))
		}
	}
}

const (
	stDone = iota
	stBlocked
	stYield
)

// runProtected executes g until its depth falls to the given one, it blocks, or yields.
func (m *M) runProtected(g *G, depth int) (st int) {
	for {
		st, again := m.runOnce(g, depth)
		if !again {
			return st
		}
	}
}

func (m *M) runOnce(g *G, depth int) (st int, again bool) {
	defer func() {
		if e := recover(); e != nil {
			if tp, ok := e.(tPanic); ok {
				m.startPanic(g, tp.val)
				again = true
				return
			}
			if _, ok := e.(pathEnd); ok {
				panic(e)
			}
			if u, ok := e.(unsupportedErr); ok {
				if len(u.msg) < 4 || u.msg[:3] != "@@ " {
					panic(unsupportedErr{"@@ " + u.msg + m.backtrace(g)})
				}
				panic(e)
			}
			if _, ok := e.(engineErr); ok {
				panic(e)
			}
			panic(engineErr{fmt.Sprint(e), m.backtrace(g) + "\n" + goStack()})
		}
	}()
	for len(g.frames) > depth {
		fr := g.frames[len(g.frames)-1]
		ops := fr.code.ops
		var c int
		g.ready = nil
		for {
			c = ops[fr.pc](m, fr)
			if c == cNext {
				fr.pc++
				continue
			}
			if c == cJump {
				m.steps++
				if m.steps&0xffff == 0 {
					m.tick()
				}
				continue
			}
			break
		}
		m.steps++
		if m.steps&0xffff == 0 {
			m.tick()
		}
		if c == cBlock {
			return stBlocked, false
		}
		if c == cYield {
			return stYield, false
		}
	}
	return stDone, false
}

const cYield = 10

type engineErr struct {
	msg   string
	trace string
}

func (m *M) tick() {
	if time.Now().After(m.deadline) {
		panic(pathEnd{"limit", "path time limit"})
	}
	if m.steps > m.e.maxSteps {
		panic(pathEnd{"limit", "step limit"})
	}
}

func (m *M) backtrace(g *G) string {
	s := ""
	n := 0
	for i := len(g.frames) - 1; i >= 0 && n < 14; i-- {
		fr := g.frames[i]
		p := ""
		if fr.pc < len(fr.code.pos) && fr.code.pos[fr.pc] != nil && fr.code.fn != nil {
			p = fr.code.fn.Prog.Fset.Position(fr.code.pos[fr.pc].Pos()).String() + " " + fr.code.pos[fr.pc].String()
		}
		s += "\n   at " + fr.code.name + " " + p
		n++
	}
	return s
}

// runMain drives all goroutines until main finishes.
func (m *M) runMain(main *G) {
	last := main
	for {
		var cand []*G
		// the goroutine that just ran goes last so that blocked ones get their turn
		for _, g := range m.gs {
			if !g.done && g.isReady(m) {
				cand = append(cand, g)
			}
		}
		if len(cand) == 0 {
			bt := ""
			for _, g := range m.gs {
				if !g.done {
					bt += fmt.Sprintf("\n goroutine %d:", g.id) + m.backtrace(g)
				}
			}
			panic(pathEnd{"deadlock", "all goroutines are asleep - deadlock!" + bt})
		}
		var g *G
		if m.sched && !m.delay && len(cand) > 1 {
			g = cand[m.choose(len(cand), "sched")]
		} else {
			// round robin: first candidate after last
			first := 0
			for i, c := range cand {
				if c.id > last.id {
					first = i
					break
				}
			}
			if m.delay && m.preempts > 0 && len(cand) > 1 {
				k := m.choose(min(len(cand), m.preempts+1), "delay")
				m.preempts -= k
				first = (first + k) % len(cand)
			}
			g = cand[first]
		}
		last = g
		m.cur = g
		st := m.runProtected(g, 0)
		if st == stDone {
			g.done = true
			if g == main {
				return
			}
			for i, x := range m.gs {
				if x == g {
					m.gs = append(m.gs[:i:i], m.gs[i+1:]...)
					break
				}
			}
		}
	}
}

func (g *G) isReady(m *M) bool {
	if g.ready == nil {
		return true
	}
	return g.ready(m)
}

func goStack() string { return string(debug.Stack()) }

// rtPanic raises a Go runtime error in the target program.
func (m *M) rtPanic(msg string) {
	rt := m.e.rtErrType
	s := m.newStr(msg)
	panic(tPanic{m.box(rt, s[:])})
}
