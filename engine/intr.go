package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]Intrinsic{}

// preHooks run on the parameters of a function before its body.
var preHooks = map[string]func(m *M, args []V){
	// printed symbolic integers and truth values become text that names their term
	"(*fmt.pp).fmtInteger": func(m *M, args []V) { nameTerm(&args[1], 1000000000) },
	"(*fmt.pp).fmtBool":    func(m *M, args []V) { nameTerm(&args[1], 0) },
}

func nameTerm(v *V, base uint64) {
	t, ok := v.r.(*Term)
	if !ok {
		return
	}
	if base == 0 {
		*v = V{n: 1}
		return
	}
	*v = V{n: base + uint64(t.id)}
}

func reg(f Intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func (e *Engine) lookupIntrinsic(fn *ssa.Function) Intrinsic {
	name := fn.String()
	if in, ok := intrinsics[name]; ok {
		return in
	}
	if o := fn.Origin(); o != nil && o != fn {
		if in, ok := intrinsics[o.String()]; ok {
			return in
		}
		if g, ok := genericIntr[o.String()]; ok {
			return g(fn)
		}
	}
	if fn.Parent() != nil {
		return nil
	}
	// reflectlite shares reflect's implementation
	if strings.Contains(name, "internal/reflectlite.") {
		n2 := strings.Replace(name, "internal/reflectlite.", "reflect.", 1)
		n2 = strings.Replace(n2, "(reflect.rtype)", "(*reflect.rtype)", 1)
		if in, ok := intrinsics[n2]; ok {
			return in
		}
	}
	if pk := fn.Pkg; pk != nil {
		p := pk.Pkg.Path()
		switch p {
		case "reflect", "internal/reflectlite":
			if fn.Synthetic != "" {
				return nil
			}
			return func(m *M, fr *frame, args, ret []V) int {
				panic(unsupported("reflect function %s", name))
			}
		case "runtime", "internal/runtime/atomic", "syscall", "internal/poll", "internal/syscall/unix", "os", "internal/cpu", "runtime/debug", "net", "crypto/rand":
			if allowRun[name] {
				return nil
			}
			return func(m *M, fr *frame, args, ret []V) int {
				panic(unsupported("runtime function %s", name))
			}
		}
	}
	return nil
}

var allowRun = map[string]bool{
	"(runtime.errorString).Error":         true,
	"(runtime.errorString).RuntimeError":  true,
	"(*runtime.errorString).Error":        true,
	"(*runtime.TypeAssertionError).Error": true,
	"(runtime.plainError).Error":          true,
	"os.IsNotExist":                       true,
}

var genericIntr = map[string]func(fn *ssa.Function) Intrinsic{}

func zero(ret []V) {
	for i := range ret {
		ret[i] = V{}
	}
}

func nop(m *M, fr *frame, args, ret []V) int {
	zero(ret)
	return cNext
}

func (m *M) argStr(args []V, i int) string { return m.str(args[i], args[i+1]) }

func (m *M) putStr(ret []V, i int, s string) {
	r := m.newStr(s)
	ret[i], ret[i+1] = r[0], r[1]
}

// realUF registers a one-argument math function with a concrete implementation.
func realUF(k Kind, name string, conc func(float64) float64, sym func(m *M, t *Term) *Term) Intrinsic {
	return func(m *M, fr *frame, args, ret []V) int {
		v := args[0]
		if v.r == nil {
			ret[0] = fval(conc(f64of(v, k)), k)
			return cNext
		}
		t, _ := m.realTerm(v, k)
		ret[0] = m.termV(sym(m, t), k)
		return cNext
	}
}

func uf1(name string) func(m *M, t *Term) *Term {
	return func(m *M, t *Term) *Term { return m.t.uf(name, t) }
}

func (m *M) abs(t *Term) *Term {
	// forks: keeps later arithmetic polynomial
	if m.branchT(m.t.lt(t, m.t.zero)) {
		return m.t.neg(t)
	}
	return t
}

func init() {
	for _, k := range []Kind{KF64, KF32} {
		pk := "math."
		if k == KF32 {
			pk = "github.com/chewxy/math32."
		}
		k := k
		u := func(names string, conc func(float64) float64, sym func(m *M, t *Term) *Term) {
			for _, n := range strings.Split(names, ",") {
				reg(realUF(k, n, conc, sym), pk+n)
			}
		}
		u("Exp,exp", math.Exp, uf1("exp"))
		u("Log,log", math.Log, uf1("log"))
		u("Sqrt,sqrt", math.Sqrt, uf1("sqrt"))
		u("Tanh,tanh", math.Tanh, uf1("tanh"))
		u("Sin,sin", math.Sin, uf1("sin"))
		u("Cos,cos", math.Cos, uf1("cos"))
		u("Tan,tan", math.Tan, uf1("tan"))
		u("Sinh,sinh", math.Sinh, uf1("sinh"))
		u("Cosh,cosh", math.Cosh, uf1("cosh"))
		u("Asin,asin", math.Asin, uf1("asin"))
		u("Acos,acos", math.Acos, uf1("acos"))
		u("Atan,atan", math.Atan, uf1("atan"))
		u("Cbrt,cbrt", math.Cbrt, uf1("cbrt"))
		u("Erf,erf", math.Erf, uf1("erf"))
		u("Log1p,log1p", math.Log1p, func(m *M, t *Term) *Term { return m.t.uf("log", m.t.add(m.t.one, t)) })
		u("Expm1,expm1", math.Expm1, func(m *M, t *Term) *Term { return m.t.sub(m.t.uf("exp", t), m.t.one) })
		u("Log2,log2", math.Log2, func(m *M, t *Term) *Term { return m.t.div(m.t.uf("log", t), m.t.uf("log", m.t.intTerm(2))) })
		u("Log10,log10", math.Log10, func(m *M, t *Term) *Term { return m.t.div(m.t.uf("log", t), m.t.uf("log", m.t.intTerm(10))) })
		u("Exp2,exp2", math.Exp2, func(m *M, t *Term) *Term { return m.t.uf("exp", m.t.mul(t, m.t.uf("log", m.t.intTerm(2)))) })
		u("Abs,abs", math.Abs, func(m *M, t *Term) *Term { return m.abs(t) })
		u("Floor,floor", math.Floor, func(m *M, t *Term) *Term { return m.intPart(t, "floor") })
		u("Ceil,ceil", math.Ceil, func(m *M, t *Term) *Term { return m.intPart(t, "ceil") })
		u("Trunc,trunc", math.Trunc, func(m *M, t *Term) *Term { return m.intPart(t, "trunc") })
		u("Round,round", math.Round, func(m *M, t *Term) *Term { return m.intPart(t, "round") })
		reg(func(m *M, fr *frame, args, ret []V) int {
			ret[0] = m.powV(args[0], args[1], k)
			return cNext
		}, pk+"Pow", pk+"pow")
		mm := func(name string, tok token.Token, conc func(a, b float64) float64) {
			reg(func(m *M, fr *frame, args, ret []V) int {
				a, b := args[0], args[1]
				if a.r == nil && b.r == nil {
					ret[0] = fval(conc(f64of(a, k), f64of(b, k)), k)
					return cNext
				}
				if a.r == nil && math.IsNaN(f64of(a, k)) || b.r == nil && math.IsNaN(f64of(b, k)) {
					ret[0] = fval(math.NaN(), k)
					return cNext
				}
				if m.branch(m.floatBin(tok, a, b, k)) {
					ret[0] = a
				} else {
					ret[0] = b
				}
				return cNext
			}, pk+name, pk+strings.ToLower(name))
		}
		mm("Max", token.GTR, math.Max)
		mm("Min", token.LSS, math.Min)
		reg(func(m *M, fr *frame, args, ret []V) int {
			if args[0].r != nil {
				ret[0] = V{}
			} else {
				ret[0] = b2v(math.IsNaN(f64of(args[0], k)))
			}
			return cNext
		}, pk+"IsNaN")
		reg(func(m *M, fr *frame, args, ret []V) int {
			if args[0].r != nil {
				ret[0] = V{}
			} else {
				ret[0] = b2v(math.IsInf(f64of(args[0], k), int(int64(args[1].n))))
			}
			return cNext
		}, pk+"IsInf")
		reg(func(m *M, fr *frame, args, ret []V) int {
			if args[0].r == nil {
				ret[0] = b2v(math.Signbit(f64of(args[0], k)))
				return cNext
			}
			t, _ := m.realTerm(args[0], k)
			ret[0] = m.termV(m.t.lt(t, m.t.zero), KBool)
			return cNext
		}, pk+"Signbit")
		reg(func(m *M, fr *frame, args, ret []V) int {
			if args[0].r == nil && args[1].r == nil {
				ret[0] = fval(math.Mod(f64of(args[0], k), f64of(args[1], k)), k)
				return cNext
			}
			x, _ := m.realTerm(args[0], k)
			y, _ := m.realTerm(args[1], k)
			ret[0] = m.termV(m.t.sub(x, m.t.mul(y, m.intPart(m.t.div(x, y), "trunc"))), k)
			return cNext
		}, pk+"Mod", pk+"mod")
		reg(func(m *M, fr *frame, args, ret []V) int {
			if args[0].r == nil && args[1].r == nil {
				ret[0] = fval(math.Copysign(f64of(args[0], k), f64of(args[1], k)), k)
				return cNext
			}
			x, _ := m.realTerm(args[0], k)
			y, _ := m.realTerm(args[1], k)
			x = m.abs(x)
			if m.branchT(m.t.lt(y, m.t.zero)) {
				x = m.t.neg(x)
			}
			ret[0] = m.termV(x, k)
			return cNext
		}, pk+"Copysign", pk+"copysign")
		reg(func(m *M, fr *frame, args, ret []V) int {
			if args[0].r == nil {
				i, f := math.Modf(f64of(args[0], k))
				ret[0], ret[1] = fval(i, k), fval(f, k)
				return cNext
			}
			x, _ := m.realTerm(args[0], k)
			i := m.intPart(x, "trunc")
			ret[0], ret[1] = m.termV(i, k), m.termV(m.t.sub(x, i), k)
			return cNext
		}, pk+"Modf", pk+"modf")
		reg(func(m *M, fr *frame, args, ret []V) int {
			if args[0].r == nil && args[1].r == nil && args[2].r == nil {
				ret[0] = fval(math.FMA(f64of(args[0], k), f64of(args[1], k), f64of(args[2], k)), k)
				return cNext
			}
			ret[0] = m.floatBin(token.ADD, m.floatBin(token.MUL, args[0], args[1], k), args[2], k)
			return cNext
		}, pk+"FMA")
		reg(func(m *M, fr *frame, args, ret []V) int {
			if args[0].r == nil && args[1].r == nil {
				ret[0] = fval(math.Hypot(f64of(args[0], k), f64of(args[1], k)), k)
				return cNext
			}
			s := m.floatBin(token.ADD, m.floatBin(token.MUL, args[0], args[0], k), m.floatBin(token.MUL, args[1], args[1], k), k)
			t, _ := m.realTerm(s, k)
			ret[0] = m.termV(m.t.uf("sqrt", t), k)
			return cNext
		}, pk+"Hypot", pk+"hypot")
		// log-gamma and error functions of symbolic values are not modelled
	}
	// bit views of floats: identity on concrete values, carried through for symbolic ones
	ident := func(m *M, fr *frame, args, ret []V) int { ret[0] = args[0]; return cNext }
	reg(ident, "math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits",
		"github.com/chewxy/math32.Float32bits", "github.com/chewxy/math32.Float32frombits")

	// ---- runtime / sync
	reg(nop, "runtime.GC", "runtime.Gosched_", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"sync.runtime_registerPoolCleanup", "sync.runtime_notifyListCheck", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge",
		"internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "runtime/debug.FreeOSMemory",
		"runtime.ReadMemStats", "runtime/debug.SetGCPercent",
		"(*log.Logger).Printf", "(*log.Logger).Println", "(*log.Logger).Print", "(*log.Logger).Output", "log.Printf", "log.Println", "log.Print",
		"(*log.Logger).SetFlags", "(*log.Logger).SetPrefix", "log.SetFlags", "log.SetPrefix", "(*log.Logger).SetOutput", "log.SetOutput",
		"fmt.Printf", "fmt.Println", "fmt.Print", "os.runtime_beforeExit", "internal/godebug.setUpdate", "internal/godebug.registerMetric",
		"internal/godebug.setNewIncNonDefault", "(*internal/godebug.Setting).IncNonDefault", "sync.fatal", "sync.throw",
		"runtime.SetCPUProfileRate", "internal/abi.Escape_", "(*os.File).Sync")
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf", "os.Exit"} {
		n := n
		reg(func(m *M, fr *frame, args, ret []V) int { panic(pathEnd{"panic", "process exit through " + n}) }, n)
	}
	for _, n := range []string{"fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		n := n
		_ = n
	}
	reg(func(m *M, fr *frame, args, ret []V) int { ret[0] = V{n: 1}; return cNext }, "runtime.NumCPU", "runtime.GOMAXPROCS")
	reg(func(m *M, fr *frame, args, ret []V) int { ret[0] = V{n: uint64(len(m.gs))}; return cNext }, "runtime.NumGoroutine")
	reg(func(m *M, fr *frame, args, ret []V) int {
		m.putStr(ret, 0, "")
		return cNext
	}, "(*internal/godebug.Setting).Value", "os.Getenv", "syscall.runtime_envs_", "internal/godebug.write_")
	reg(func(m *M, fr *frame, args, ret []V) int {
		zero(ret)
		return cNext
	}, "os.LookupEnv", "syscall.Getenv")
	reg(func(m *M, fr *frame, args, ret []V) int {
		if fr.g.yield {
			fr.g.yield = false
			return cNext
		}
		fr.g.yield = true
		return cBlock // always ready: other goroutines get a turn first
	}, "runtime.Gosched")
	reg(func(m *M, fr *frame, args, ret []V) int { // runtime.Callers(skip, pc) int
		ret[0] = V{}
		return cNext
	}, "runtime.Callers")
	reg(func(m *M, fr *frame, args, ret []V) int { // runtime.Caller
		zero(ret)
		return cNext
	}, "runtime.Caller")
	reg(func(m *M, fr *frame, args, ret []V) int { zero(ret); return cNext }, "runtime.FuncForPC", "(*runtime.Func).Name")
	reg(func(m *M, fr *frame, args, ret []V) int { m.putStr(ret, 0, "go1.23"); return cNext }, "runtime.Version")
	reg(func(m *M, fr *frame, args, ret []V) int { zero(ret); return cNext }, "runtime/debug.Stack", "runtime.Stack")

	i32 := &Leaf{0, 4, KI32}
	reg(func(m *M, fr *frame, args, ret []V) int {
		st := m.load1(args[0], i32, 0)
		if st.n != 0 {
			p := args[0]
			fr.g.ready = func(m *M) bool { return m.load1(p, i32, 0).n == 0 }
			return cBlock
		}
		if m.sched && !fr.g.yield && m.preempt(fr) {
			fr.g.yield = true
			return cYield
		}
		fr.g.yield = false
		m.store1(args[0], i32, 0, V{n: 1}, nil)
		return cNext
	}, "(*sync.Mutex).Lock", "(*internal/sync.Mutex).Lock")
	reg(func(m *M, fr *frame, args, ret []V) int {
		st := m.load1(args[0], i32, 0)
		if st.n != 0 {
			ret[0] = V{}
			return cNext
		}
		m.store1(args[0], i32, 0, V{n: 1}, nil)
		ret[0] = V{n: 1}
		return cNext
	}, "(*sync.Mutex).TryLock")
	reg(func(m *M, fr *frame, args, ret []V) int {
		st := m.load1(args[0], i32, 0)
		if st.n == 0 {
			panic(pathEnd{"panic", "fatal error: sync: unlock of unlocked mutex"})
		}
		m.store1(args[0], i32, 0, V{}, nil)
		return cNext
	}, "(*sync.Mutex).Unlock", "(*internal/sync.Mutex).Unlock")
	// RWMutex: w Mutex{state,sema}, writerSem, readerSem, readerCount, readerWait: use w.state (0) as writer flag, offset 4 as reader count
	reg(func(m *M, fr *frame, args, ret []V) int {
		p := args[0]
		free := func(m *M) bool { return m.load1(p, i32, 0).n == 0 && m.load1(p, i32, 4).n == 0 }
		if !free(m) {
			fr.g.ready = free
			return cBlock
		}
		m.store1(p, i32, 0, V{n: 1}, nil)
		return cNext
	}, "(*sync.RWMutex).Lock")
	reg(func(m *M, fr *frame, args, ret []V) int {
		if m.load1(args[0], i32, 0).n == 0 {
			panic(pathEnd{"panic", "fatal error: sync: Unlock of unlocked RWMutex"})
		}
		m.store1(args[0], i32, 0, V{}, nil)
		return cNext
	}, "(*sync.RWMutex).Unlock")
	reg(func(m *M, fr *frame, args, ret []V) int {
		p := args[0]
		if m.load1(p, i32, 0).n != 0 {
			fr.g.ready = func(m *M) bool { return m.load1(p, i32, 0).n == 0 }
			return cBlock
		}
		c := m.load1(p, i32, 4)
		m.store1(p, i32, 4, V{n: c.n + 1}, nil)
		return cNext
	}, "(*sync.RWMutex).RLock")
	reg(func(m *M, fr *frame, args, ret []V) int {
		c := m.load1(args[0], i32, 4)
		if c.n == 0 {
			panic(pathEnd{"panic", "fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		m.store1(args[0], i32, 4, V{n: c.n - 1}, nil)
		return cNext
	}, "(*sync.RWMutex).RUnlock")
	// WaitGroup: counter kept in the first 8-byte word of its state
	wgOff := func(m *M) *wgInfo { return m.e.wg() }
	reg(func(m *M, fr *frame, args, ret []V) int {
		w := wgOff(m)
		c := int64(m.load1(args[0], w.leaf, w.off).n) + int64(args[1].n)
		if c < 0 {
			panic(tPanic{m.boxStr("sync: negative WaitGroup counter")})
		}
		m.store1(args[0], w.leaf, w.off, V{n: uint64(c)}, nil)
		return cNext
	}, "(*sync.WaitGroup).Add")
	reg(func(m *M, fr *frame, args, ret []V) int {
		w := wgOff(m)
		c := int64(m.load1(args[0], w.leaf, w.off).n) - 1
		if c < 0 {
			panic(tPanic{m.boxStr("sync: negative WaitGroup counter")})
		}
		m.store1(args[0], w.leaf, w.off, V{n: uint64(c)}, nil)
		return cNext
	}, "(*sync.WaitGroup).Done")
	reg(func(m *M, fr *frame, args, ret []V) int {
		w := wgOff(m)
		p := args[0]
		if m.load1(p, w.leaf, w.off).n != 0 {
			fr.g.ready = func(m *M) bool { return m.load1(p, w.leaf, w.off).n == 0 }
			return cBlock
		}
		return cNext
	}, "(*sync.WaitGroup).Wait")
	// sync.Pool: LIFO free list
	reg(func(m *M, fr *frame, args, ret []V) int {
		o, ok := args[0].r.(*Obj)
		if !ok {
			m.badPtr(args[0])
		}
		k := poolKey{o, args[0].n}
		if l := m.pools[k]; len(l) > 0 {
			ret[0], ret[1] = l[len(l)-2], l[len(l)-1]
			m.pools[k] = l[:len(l)-2]
			return cNext
		}
		nf := m.e.poolNewOff()
		f, _ := m.load1(args[0], &Leaf{0, 8, KFunc}, nf).r.(*Func)
		if f == nil {
			zero(ret)
			return cNext
		}
		r := m.callSync(f, nil)
		ret[0], ret[1] = r[0], r[1]
		return cNext
	}, "(*sync.Pool).Get")
	reg(func(m *M, fr *frame, args, ret []V) int {
		if args[1].r == nil {
			return cNext
		}
		k := poolKey{args[0].r.(*Obj), args[0].n}
		m.pools[k] = append(m.pools[k], args[1], args[2])
		return cNext
	}, "(*sync.Pool).Put")

	// ---- atomics (functions on addresses)
	for _, w := range []struct {
		n string
		l Leaf
	}{{"Int32", Leaf{0, 4, KI32}}, {"Uint32", Leaf{0, 4, KU32}}, {"Int64", Leaf{0, 8, KI64}}, {"Uint64", Leaf{0, 8, KU64}}, {"Uintptr", Leaf{0, 8, KU64}}, {"Pointer", Leaf{0, 8, KPtr}}} {
		l := w.l
		n := w.n
		reg(func(m *M, fr *frame, args, ret []V) int { ret[0] = m.load1(args[0], &l, 0); return cNext }, "sync/atomic.Load"+n)
		reg(func(m *M, fr *frame, args, ret []V) int { m.store1(args[0], &l, 0, args[1], nil); return cNext }, "sync/atomic.Store"+n)
		reg(func(m *M, fr *frame, args, ret []V) int {
			old := m.load1(args[0], &l, 0)
			m.store1(args[0], &l, 0, args[1], nil)
			ret[0] = old
			return cNext
		}, "sync/atomic.Swap"+n)
		reg(func(m *M, fr *frame, args, ret []V) int {
			v := V{n: normInt(m.load1(args[0], &l, 0).n+args[1].n, l.kind)}
			m.store1(args[0], &l, 0, v, nil)
			ret[0] = v
			return cNext
		}, "sync/atomic.Add"+n)
		reg(func(m *M, fr *frame, args, ret []V) int {
			old := m.load1(args[0], &l, 0)
			if m.ptrEq(old, args[1]) {
				m.store1(args[0], &l, 0, args[2], nil)
				ret[0] = V{n: 1}
			} else {
				ret[0] = V{}
			}
			return cNext
		}, "sync/atomic.CompareAndSwap"+n)
		reg(func(m *M, fr *frame, args, ret []V) int {
			old := m.load1(args[0], &l, 0)
			m.store1(args[0], &l, 0, V{n: old.n & args[1].n}, nil)
			ret[0] = old
			return cNext
		}, "sync/atomic.And"+n)
		reg(func(m *M, fr *frame, args, ret []V) int {
			old := m.load1(args[0], &l, 0)
			m.store1(args[0], &l, 0, V{n: old.n | args[1].n}, nil)
			ret[0] = old
			return cNext
		}, "sync/atomic.Or"+n)
	}
	// atomic.Value: {v any}
	ifl := &Layout{size: 16, align: 8, leaves: []Leaf{{0, 8, KType}, {8, 8, KData}}}
	reg(func(m *M, fr *frame, args, ret []V) int { m.loadN(args[0], ifl, ret[:2]); return cNext }, "(*sync/atomic.Value).Load")
	reg(func(m *M, fr *frame, args, ret []V) int { m.storeN(args[0], ifl, args[1:3]); return cNext }, "(*sync/atomic.Value).Store")

	// ---- bytealg
	reg(func(m *M, fr *frame, args, ret []V) int {
		b := m.bytesOf(args[0], int(args[1].n))
		ret[0] = V{n: uint64(int64(indexByte(b, byte(args[3].n))))}
		return cNext
	}, "internal/bytealg.IndexByte")
	reg(func(m *M, fr *frame, args, ret []V) int {
		b := m.bytesOf(args[0], int(args[1].n))
		ret[0] = V{n: uint64(int64(indexByte(b, byte(args[2].n))))}
		return cNext
	}, "internal/bytealg.IndexByteString")
	reg(func(m *M, fr *frame, args, ret []V) int {
		b := m.bytesOf(args[0], int(args[1].n))
		ret[0] = V{n: uint64(strings.Count(string(b), string([]byte{byte(args[2].n)})))}
		return cNext
	}, "internal/bytealg.CountString")
	reg(func(m *M, fr *frame, args, ret []V) int {
		b := m.bytesOf(args[0], int(args[1].n))
		ret[0] = V{n: uint64(strings.Count(string(b), string([]byte{byte(args[3].n)})))}
		return cNext
	}, "internal/bytealg.Count")
	reg(func(m *M, fr *frame, args, ret []V) int {
		ret[0] = V{n: uint64(int64(strings.Index(m.str(args[0], args[1]), m.str(args[2], args[3]))))}
		return cNext
	}, "internal/bytealg.IndexString", "strings.Index", "internal/stringslite.Index")
	reg(func(m *M, fr *frame, args, ret []V) int {
		ret[0] = V{n: uint64(int64(strings.Index(m.str(args[0], args[1]), m.str(args[3], args[4]))))}
		return cNext
	}, "internal/bytealg.Index", "bytes.Index")
	reg(func(m *M, fr *frame, args, ret []V) int {
		ret[0] = b2v(m.sameBytes(args[0], args[3], args[1], args[4]))
		return cNext
	}, "internal/bytealg.Equal", "bytes.Equal")
	reg(func(m *M, fr *frame, args, ret []V) int {
		ret[0] = V{n: uint64(int64(strings.Compare(m.str(args[0], args[1]), m.str(args[3], args[4]))))}
		return cNext
	}, "internal/bytealg.Compare", "bytes.Compare")
	reg(func(m *M, fr *frame, args, ret []V) int {
		ret[0] = V{n: uint64(int64(strings.Compare(m.str(args[0], args[1]), m.str(args[2], args[3]))))}
		return cNext
	}, "internal/bytealg.CompareString", "strings.Compare")
	reg(func(m *M, fr *frame, args, ret []V) int {
		b := m.newBytes(make([]byte, int(args[0].n)))
		copy(ret, b[:])
		return cNext
	}, "internal/bytealg.MakeNoZero")
	reg(ident, "internal/abi.NoEscape", "strings.noescape", "reflect.noescape", "internal/abi.FuncPCABI0", "internal/abi.FuncPCABIInternal")
	reg(func(m *M, fr *frame, args, ret []V) int { copy(ret, args); return cNext }, "strings.Clone", "internal/stringslite.Clone", "internal/abi.Escape")

	// ---- math/bits
	b1 := func(name string, f func(uint64) uint64) {
		reg(func(m *M, fr *frame, args, ret []V) int {
			v := args[0]
			if v.r != nil {
				v = m.concretize(v, KU64, name)
			}
			ret[0] = V{n: f(v.n)}
			return cNext
		}, "math/bits."+name)
	}
	b1("LeadingZeros64", func(x uint64) uint64 { return uint64(bits.LeadingZeros64(x)) })
	b1("LeadingZeros", func(x uint64) uint64 { return uint64(bits.LeadingZeros64(x)) })
	b1("LeadingZeros32", func(x uint64) uint64 { return uint64(bits.LeadingZeros32(uint32(x))) })
	b1("TrailingZeros64", func(x uint64) uint64 { return uint64(bits.TrailingZeros64(x)) })
	b1("TrailingZeros", func(x uint64) uint64 { return uint64(bits.TrailingZeros64(x)) })
	b1("TrailingZeros32", func(x uint64) uint64 { return uint64(bits.TrailingZeros32(uint32(x))) })
	b1("Len64", func(x uint64) uint64 { return uint64(bits.Len64(x)) })
	b1("Len", func(x uint64) uint64 { return uint64(bits.Len64(x)) })
	b1("Len32", func(x uint64) uint64 { return uint64(bits.Len32(uint32(x))) })
	b1("OnesCount64", func(x uint64) uint64 { return uint64(bits.OnesCount64(x)) })

	// ---- strconv of floats
	reg(func(m *M, fr *frame, args, ret []V) int { // FormatFloat(f float64, fmt byte, prec, bitSize int) string
		m.putStr(ret, 0, m.fmtFloat(args[0], byte(args[1].n), int(int64(args[2].n)), int(int64(args[3].n))))
		return cNext
	}, "strconv.FormatFloat")
	reg(func(m *M, fr *frame, args, ret []V) int { // AppendFloat(dst []byte, f float64, fmt byte, prec, bitSize int) []byte
		s := m.fmtFloat(args[3], byte(args[4].n), int(int64(args[5].n)), int(int64(args[6].n)))
		src := m.newStr(s)
		r := m.appendSlice(types.Typ[types.Uint8], args[:3], src[0], len(s))
		copy(ret, r[:])
		return cNext
	}, "strconv.AppendFloat")

	// ---- time
	reg(func(m *M, fr *frame, args, ret []V) int { zero(ret); return cNext }, "time.Now", "time.Since", "time.now", "time.runtimeNano", "(time.Time).UnixNano", "(time.Time).Unix", "time.Sleep", "(time.Time).Sub")

	// ---- gonum asm stubs (pure Go fallbacks are used with noasm; nothing here)
	reg(func(m *M, fr *frame, args, ret []V) int { // fast hash for maps in stdlib
		ret[0] = V{n: 12345}
		return cNext
	}, "hash/maphash.runtime_rand", "runtime.fastrand", "math/rand.runtime_rand", "math/rand/v2.runtime_rand", "internal/rand.runtime_rand", "maps.rand", "os.runtime_rand", "sync.runtime_randn", "runtime.rand")
	// divmod of the tensor and gorgonia modules is implemented in assembly
	reg(func(m *M, fr *frame, args, ret []V) int {
		a, b := args[0], args[1]
		if a.r == nil && b.r == nil {
			if b.n == 0 {
				m.rtPanic("integer divide by zero")
			}
			ret[0] = V{n: uint64(int64(a.n) / int64(b.n))}
			ret[1] = V{n: uint64(int64(a.n) % int64(b.n))}
			return cNext
		}
		ret[0] = m.intBinSlow(token.QUO, a, b, KI64)
		ret[1] = m.intBinSlow(token.REM, a, b, KI64)
		return cNext
	}, "gorgonia.org/tensor.divmod", "gorgonia.org/gorgonia.divmod")
}

func indexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}

type wgInfo struct {
	leaf *Leaf
	off  int
}

func (e *Engine) wg() *wgInfo {
	e.compileMu.Lock()
	defer e.compileMu.Unlock()
	if e.wgI == nil {
		// the first 8-byte integer leaf of sync.WaitGroup
		t := e.pkgType("sync", "WaitGroup")
		for _, lf := range layoutOf(t).leaves {
			if lf.size == 8 && lf.kind.isInt() {
				l := lf
				e.wgI = &wgInfo{&Leaf{0, 8, KI64}, l.off}
				break
			}
		}
	}
	return e.wgI
}

func (e *Engine) poolNewOff() int {
	t := e.pkgType("sync", "Pool").Underlying().(*types.Struct)
	fs := make([]*types.Var, t.NumFields())
	for i := range fs {
		fs[i] = t.Field(i)
	}
	offs := stdSizes.Offsetsof(fs)
	for i, f := range fs {
		if f.Name() == "New" {
			return int(offs[i])
		}
	}
	panic("sync.Pool.New")
}

func (e *Engine) pkgType(path, name string) types.Type {
	p := e.prog.ImportedPackage(path)
	if p == nil {
		panic("package not loaded: " + path)
	}
	return p.Pkg.Scope().Lookup(name).Type()
}

func (m *M) boxStr(s string) [2]V {
	v := m.newStr(s)
	return m.box(rtypeOf(types.Typ[types.String]), v[:])
}

func (m *M) powV(a, b V, k Kind) V {
	if a.r == nil && b.r == nil {
		return fval(math.Pow(f64of(a, k), f64of(b, k)), k)
	}
	ta, ok1 := m.realTerm(a, k)
	tb, ok2 := m.realTerm(b, k)
	if !ok1 || !ok2 {
		panic(unsupported("pow with Inf/NaN"))
	}
	return m.termV(m.t.pow(ta, tb), k)
}

// intPart forks over the integer part of a real.
func (m *M) intPart(t *Term, how string) *Term {
	v := m.concretizeReal(t, KI64)
	n := int64(v.n)
	it := m.t.intTerm(n)
	switch how {
	case "trunc":
		return it
	case "floor":
		if n <= 0 && m.branchT(m.t.lt(t, it)) {
			return m.t.intTerm(n - 1)
		}
		return it
	case "ceil":
		if n >= 0 && m.branchT(m.t.lt(it, t)) {
			return m.t.intTerm(n + 1)
		}
		return it
	}
	half := m.t.ratTerm(snapRat(0.5, false))
	if m.branchT(m.t.le(half, m.t.sub(t, it))) {
		return m.t.intTerm(n + 1)
	}
	if m.branchT(m.t.le(half, m.t.sub(it, t))) {
		return m.t.intTerm(n - 1)
	}
	return it
}

func (m *M) fmtFloat(v V, f byte, prec, bs int) string {
	if t, ok := v.r.(*Term); ok {
		return fmt.Sprintf("<sym#%d>", t.id)
	}
	if v.r != nil {
		return "<?>"
	}
	return strconv.FormatFloat(math.Float64frombits(v.n), f, prec, bs)
}
