package main

import (
	"fmt"
	"go/token"
	"math"
	"math/bits"
	"strings"
)

const vsymPath = "gorgonia.org/gorgonia/internal/vsym."

func (m *M) input(kind, name string, t *Term, i int64) {
	m.path.inputs = append(m.path.inputs, Input{Kind: kind, Name: name, t: t, I: i})
}

// fmtMsg renders a message with its index arguments.
func (m *M) fmtMsg(args []V) string {
	s := m.str(args[0], args[1])
	if len(args) >= 5 {
		n := int(args[3].n)
		if n > 0 {
			var p []string
			lf := &Leaf{0, 8, KI64}
			for i := 0; i < n; i++ {
				v := m.load1(args[2], lf, i*8)
				if v.r != nil {
					p = append(p, "?")
				} else {
					p = append(p, fmt.Sprint(int64(v.n)))
				}
			}
			s += " [" + strings.Join(p, ",") + "]"
		}
	}
	return s
}

func closeConc(a, b float64, k Kind) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return a == b
	}
	tol := 1e-8
	if k == KF32 {
		tol = 1e-4
	}
	return math.Abs(a-b) <= tol*(1+math.Abs(a)+math.Abs(b))
}

func init() {
	V := func(name string, f Intrinsic) { reg(f, vsymPath+name) }
	fl := func(k Kind, kind string) Intrinsic {
		return func(m *M, fr *frame, args, ret []V1) int {
			name := m.str(args[0], args[1])
			t := m.t.newVar(name, SReal, 0)
			m.input(kind, name, t, 0)
			ret[0] = V1{r: t}
			return cNext
		}
	}
	V("Float64", fl(KF64, "f64"))
	V("Float32", fl(KF32, "f32"))
	flIn := func(k Kind, kind string) Intrinsic {
		return func(m *M, fr *frame, args, ret []V1) int {
			name := m.str(args[0], args[1])
			t := m.t.newVar(name, SReal, 0)
			m.input(kind, name, t, 0)
			lo, _ := m.realTerm(args[2], k)
			hi, _ := m.realTerm(args[3], k)
			m.addPC(m.t.le(lo, t))
			m.addPC(m.t.le(t, hi))
			ret[0] = V1{r: t}
			return cNext
		}
	}
	V("Float64In", flIn(KF64, "f64"))
	V("Float32In", flIn(KF32, "f32"))
	V("Int", func(m *M, fr *frame, args, ret []V1) int {
		name := m.str(args[0], args[1])
		t := m.t.newVar(name, SBV, 64)
		m.input("int", name, t, 0)
		m.addPC(m.t.bvcmp(TBSle, m.t.bvTerm(args[2].n, 64), t))
		m.addPC(m.t.bvcmp(TBSle, t, m.t.bvTerm(args[3].n, 64)))
		if lo, hi := int64(args[2].n), int64(args[3].n); lo >= 0 && hi > 0 {
			t.bits, t.lo, t.hi = uint8(bits.Len64(uint64(hi))), lo, hi
		}
		ret[0] = V1{r: t}
		return cNext
	})
	V("Bool", func(m *M, fr *frame, args, ret []V1) int {
		name := m.str(args[0], args[1])
		t := m.t.newVar(name, SBool, 0)
		m.input("bool", name, t, 0)
		ret[0] = V1{r: t}
		return cNext
	})
	V("Choice", func(m *M, fr *frame, args, ret []V1) int {
		name := m.str(args[0], args[1])
		c := m.choose(int(args[2].n), name)
		m.input("choice", name, nil, int64(c))
		ret[0] = V1{n: uint64(c)}
		return cNext
	})
	V("Concrete", func(m *M, fr *frame, args, ret []V1) int {
		ret[0] = m.concretize(args[0], KI64, "harness")
		return cNext
	})
	V("Assume", func(m *M, fr *frame, args, ret []V1) int {
		m.assume(m.boolTermOf(args[0]))
		return cNext
	})
	V("Assert", func(m *M, fr *frame, args, ret []V1) int {
		m.assertT(m.boolTermOf(args[0]), m.fmtMsg(args[1:]))
		return cNext
	})
	eq := func(k Kind, withTol bool) Intrinsic {
		return func(m *M, fr *frame, args, ret []V1) int {
			a, b := args[0], args[1]
			ck := k
			if withTol {
				if f64of(args[2], KF64) > 1e-5 {
					ck = KF32
				}
				args = args[1:]
			}
			msg := m.fmtMsg(args[2:])
			if a.r == nil && b.r == nil {
				ok := closeConc(f64of(a, k), f64of(b, k), ck)
				if !ok {
					msg += fmt.Sprintf(" (%g vs %g)", f64of(a, k), f64of(b, k))
				}
				m.assertT(m.t.boolTerm(ok), msg)
				return cNext
			}
			ta, ok1 := m.realTerm(a, k)
			tb, ok2 := m.realTerm(b, k)
			if !ok1 || !ok2 {
				m.assertT(m.t.ff, msg+" (not a finite number)")
				return cNext
			}
			if ta == tb {
				if p := m.path; p.pos >= len(p.prefix) {
					p.res.asserts++
					p.batch = append(p.batch, ta)
					p.ex.sampleAssert(msg, "unsat")
					if len(p.batch) >= 256 {
						m.flushBatch()
					}
				}
				return cNext
			}
			m.assertT(m.t.eq(ta, tb), msg)
			return cNext
		}
	}
	V("AssertEq", eq(KF64, false))
	V("AssertEq32", eq(KF32, false))
	V("AssertNear", eq(KF64, true))
	dv := func(k Kind) Intrinsic {
		return func(m *M, fr *frame, args, ret []V1) int {
			y, ok := m.realTerm(args[0], k)
			if !ok {
				panic(unsupported("derivative of a non-finite value"))
			}
			x, isT := args[1].r.(*Term)
			if !isT || x.op != TVar {
				panic(unsupported("derivative with respect to a non-variable"))
			}
			m.interior(x)
			memo, _ := m.side[x].(map[*Term]*Term)
			if memo == nil {
				memo = map[*Term]*Term{}
				m.side[x] = memo
			}
			d := m.t.deriv(y, x, memo)
			m.input("deriv", x.name, d, 0)
			ret[0] = m.termV(d, k)
			return cNext
		}
	}
	V("Deriv", dv(KF64))
	V("Deriv32", dv(KF32))
	V("Cover", func(m *M, fr *frame, args, ret []V1) int {
		m.path.covers[m.str(args[0], args[1])] = true
		return cNext
	})
	V("Symbolic", func(m *M, fr *frame, args, ret []V1) int { ret[0] = V1{n: 1}; return cNext })
	V("Schedules", func(m *M, fr *frame, args, ret []V1) int {
		m.sched = int64(args[0].n) >= 0
		m.schedEver = m.schedEver || m.sched
		m.preempts = int(int64(args[0].n))
		return cNext
	})
	V("Delays", func(m *M, fr *frame, args, ret []V1) int {
		m.sched = int64(args[0].n) >= 0
		m.delay = m.sched
		m.schedEver = m.schedEver || m.sched
		m.preempts = int(int64(args[0].n))
		return cNext
	})
	V("Generic", func(m *M, fr *frame, args, ret []V1) int { m.generic = args[0].n != 0; return cNext })
	V("MapOrder", func(m *M, fr *frame, args, ret []V1) int { m.mapOrder = int(args[0].n); return cNext })
	// transcendental reference functions used by oracles
	for _, n := range []string{"Exp", "Log", "Sqrt", "Tanh", "Sin", "Cos", "Pow"} {
		V(n, intrinsics["math."+n])
	}
	// Max/Min fork like ordinary comparisons
	V("Abs", intrinsics["math.Abs"])
	// Rand: number of symbolic random draws consumed
	_ = token.ADD
}

type V1 = V

// text/template is only used for rendering graphs; it is opaque here.
func init() {
	reg(func(m *M, fr *frame, args, ret []V1) int {
		ret[0] = V1{r: m.alloc(m.e.pkgType("text/template", "Template"), 1)}
		return cNext
	}, "text/template.New")
	self := func(m *M, fr *frame, args, ret []V1) int {
		zero(ret)
		ret[0] = args[0]
		return cNext
	}
	reg(self, "text/template.Must", "(*text/template.Template).Funcs", "(*text/template.Template).Parse", "(*text/template.Template).New", "(*text/template.Template).Lookup",
		"(*text/template.Template).Delims", "(*text/template.Template).Option")
	reg(func(m *M, fr *frame, args, ret []V1) int { zero(ret); return cNext }, "(*text/template.Template).Execute", "(*text/template.Template).ExecuteTemplate")
}

// interior restricts the path to the interior of its domain in x: derivatives are taken where the path's
// expression describes the function in a neighbourhood.
func (m *M) interior(x *Term) {
	p := m.path
	for i := 0; i < len(p.pc); i++ {
		l := p.pc[i]
		if !p.pcVars[i][x] {
			continue
		}
		switch l.op {
		case TEq:
			if l.args[0].sort == SReal {
				panic(pathEnd{"assume", "boundary"})
			}
		case TLe:
			m.addPC(m.t.lt(l.args[0], l.args[1]))
		}
	}
}
