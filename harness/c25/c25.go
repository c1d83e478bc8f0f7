// Package c25: rewrites made while building expressions.
package c25

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{hlp.F64, hlp.F32}

var shapes = [][]int{{}, {2}, {2, 1}}

// term is a node and the values it stands for, by construction and not by what the library made of it.
type term struct {
	n *G.Node
	a hlp.Arr
}

func konst(dt tensor.Dtype, c float64) *G.Node { return G.NewConstant(hlp.Scalar(dt, c)) }

func sigmoid(x float64) float64  { return 1 / (1 + vsym.Exp(-x)) }
func softplus(x float64) float64 { return vsym.Log(1 + vsym.Exp(x)) }

// step is an operation applied to a term; dom says which operands it is defined on.
type step struct {
	name string
	mk   func(dt tensor.Dtype, x *G.Node) (*G.Node, error)
	f    func(x float64) float64
	dom  func(x float64) bool
}

func all(float64) bool { return true }

func withConst(name string, c float64, op func(a, b *G.Node) (*G.Node, error), left bool, f func(x float64) float64) step {
	return step{name, func(dt tensor.Dtype, x *G.Node) (*G.Node, error) {
		if left {
			return op(konst(dt, c), x)
		}
		return op(x, konst(dt, c))
	}, f, all}
}

func un(name string, op func(*G.Node) (*G.Node, error), f func(float64) float64, dom func(float64) bool) step {
	return step{name, func(_ tensor.Dtype, x *G.Node) (*G.Node, error) { return op(x) }, f, dom}
}

var steps = []step{
	un("log", G.Log, vsym.Log, func(x float64) bool { return x > 0 }),
	un("log1p", G.Log1p, func(x float64) float64 { return vsym.Log(1 + x) }, func(x float64) bool { return x > -1 }),
	un("neg", G.Neg, func(x float64) float64 { return -x }, all),
	un("exp", G.Exp, vsym.Exp, func(x float64) bool { return x < 6 && x > -6 }),
	un("expm1", G.Expm1, func(x float64) float64 { return vsym.Exp(x) - 1 }, func(x float64) bool { return x < 6 && x > -6 }),
	un("sigmoid", G.Sigmoid, sigmoid, func(x float64) bool { return x < 6 && x > -6 }),
	un("softplus", G.Softplus, softplus, func(x float64) bool { return x < 6 && x > -6 }),
	withConst("1+x", 1, G.Add, true, func(x float64) float64 { return 1 + x }),
	withConst("x+1", 1, G.Add, false, func(x float64) float64 { return x + 1 }),
	withConst("1-x", 1, G.Sub, true, func(x float64) float64 { return 1 - x }),
	withConst("x-1", 1, G.Sub, false, func(x float64) float64 { return x - 1 }),
	withConst("1*x", 1, G.HadamardProd, true, func(x float64) float64 { return x }),
	withConst("x/1", 1, G.HadamardDiv, false, func(x float64) float64 { return x }),
	withConst("2+x", 2, G.Add, true, func(x float64) float64 { return 2 + x }),
	withConst("x+2", 2, G.Add, false, func(x float64) float64 { return x + 2 }),
	withConst("2-x", 2, G.Sub, true, func(x float64) float64 { return 2 - x }),
	withConst("x-2", 2, G.Sub, false, func(x float64) float64 { return x - 2 }),
	withConst("-1+x", -1, G.Add, true, func(x float64) float64 { return x - 1 }),
	withConst("-1-x", -1, G.Sub, true, func(x float64) float64 { return -1 - x }),
	withConst("x-0", 0, G.Sub, false, func(x float64) float64 { return x }),
}

func (s step) to(dt tensor.Dtype, t term) term {
	a := t.a.Map(func(x float64) float64 {
		vsym.Assume(s.dom(x))
		return s.f(x)
	})
	return term{hlp.Node(s.mk(dt, t.n)), a}
}

func start(g *G.ExprGraph, dt tensor.Dtype, sh []int) (*hlp.In, term) {
	x := hlp.Syms("x", hlp.Prod(sh))
	for _, v := range x {
		vsym.Assume(v > -6)
		vsym.Assume(v < 6)
	}
	in := hlp.Var(g, dt, "x", x, sh...)
	return in, term{in.N, in.Arr()}
}

// finish runs with gradients on one of the machines and compares the watched terms.
func finish(g *G.ExprGraph, in *hlp.In, cost *G.Node, vals []*G.Value, ts []term) {
	if vsym.Choice("lisp", 2) == 1 {
		hlp.LispGrads(g, cost, in)
	} else {
		hlp.TapeGrads(g, cost, in)
	}
	for i, t := range ts {
		hlp.ValIsArr(*vals[i], t.a, hlp.Tol(in.DT), "value of a term")
	}
}

func chain(depth int, sh []int, dt tensor.Dtype) {
	vsym.Generic(true)
	g := G.NewGraph()
	in, t := start(g, dt, sh)
	for i := 0; i < depth; i++ {
		t = steps[vsym.Choice("step", len(steps))].to(dt, t)
	}
	v := hlp.Watch(t.n)
	finish(g, in, hlp.Weighted(g, t.n), []*G.Value{v}, []term{t})
	vsym.Cover("chain")
}

// HPairs: every ordered pair of twenty unary operations and operations with a constant (those that trigger a rewrite,
// and the same with other constants and operand orders) applied to a two-element vector or a scalar: value and gradient
// are those of the expression as written, on both machines.
//
//vsym:paths=6000
func HPairs() { chain(2, shapes[vsym.Choice("shape", 2)], hlp.F64) }

var index = map[string]int{}

func init() {
	for i, s := range steps {
		index[s.name] = i
	}
}

// patterns are the chains that are rewritten, innermost operation first, and some that look like them.
var patterns = [][]string{
	{"1+x", "log"}, {"x+1", "log"}, {"1-x", "log"}, {"x-1", "log"}, {"exp", "x-1"}, {"exp", "1-x"}, {"sigmoid", "1-x"},
	{"sigmoid", "x-1"}, {"sigmoid", "log"}, {"exp", "log1p"}, {"sigmoid", "neg", "log1p"}, {"sigmoid", "log1p"}, {"neg", "neg"},
	{"exp", "1+x", "log"}, {"neg", "exp", "1+x", "log"}, {"sigmoid", "1-x", "log"}, {"sigmoid", "neg", "x+1", "log"},
	{"neg", "sigmoid", "log"}, {"exp", "x-1", "log1p"}, {"exp", "neg", "log1p"}, {"neg", "neg", "neg"}, {"log", "neg", "neg"},
	{"x-1", "log", "exp", "x-1"}, {"sigmoid", "1-x", "1-x"}, {"1*x", "1+x", "log"},
}

// HPatterns: each of 25 chains that are rewritten or look like ones that are, on scalars, vectors and matrices of both
// float widths.
//
//vsym:paths=6000
func HPatterns() {
	vsym.Generic(true)
	dt := dts[vsym.Choice("dt", 2)]
	g := G.NewGraph()
	in, t := start(g, dt, shapes[vsym.Choice("shape", 3)])
	for _, s := range patterns[vsym.Choice("pattern", len(patterns))] {
		t = steps[index[s]].to(dt, t)
	}
	v := hlp.Watch(t.n)
	finish(g, in, hlp.Weighted(g, t.n), []*G.Value{v}, []term{t})
	vsym.Cover("pattern")
}

// HShared: what a rewritten expression was built on keeps its value and takes part in the gradient, whether it was used
// before or is used after, or only read.
//
//vsym:paths=8000
func HShared() {
	vsym.Generic(true)
	g := G.NewGraph()
	sh := shapes[vsym.Choice("shape", 2)]
	in, t := start(g, hlp.F64, sh)
	p := patterns[vsym.Choice("pattern", len(patterns))]
	use := vsym.Choice("use", 4)
	var vals []*G.Value
	var ts []term
	watch := func(t term) {
		vals, ts = append(vals, hlp.Watch(t.n)), append(ts, t)
	}
	sum := term{in.N, in.Arr()}
	also := func(t term) {
		sq := hlp.Node(G.Square(t.n))
		sum = term{hlp.Node(G.Add(sum.n, sq)), hlp.Zip(sum.a, t.a, func(x, y float64) float64 { return x + y*y })}
	}
	var inner []term
	for _, s := range p {
		t = steps[index[s]].to(hlp.F64, t)
		inner = append(inner, t)
		switch use {
		case 0:
			watch(t)
		case 1:
			also(t)
		}
	}
	switch use {
	case 2:
		for _, t := range inner {
			also(t)
		}
	case 3:
		for _, t := range inner {
			watch(t)
		}
	}
	y := term{hlp.Node(G.Add(t.n, sum.n)), hlp.Zip(t.a, sum.a, func(x, y float64) float64 { return x + y })}
	watch(y)
	finish(g, in, hlp.Weighted(g, y.n), vals, ts)
	vsym.Cover("shared")
}

func softmax(a hlp.Arr) hlp.Arr {
	rows := len(a.D) / a.Sh[len(a.Sh)-1]
	n := a.Sh[len(a.Sh)-1]
	r := hlp.Zero(a.Sh...)
	for i := 0; i < rows; i++ {
		s := 0.0
		for j := 0; j < n; j++ {
			s += vsym.Exp(a.D[i*n+j])
		}
		for j := 0; j < n; j++ {
			r.D[i*n+j] = vsym.Exp(a.D[i*n+j]) / s
		}
	}
	return r
}

// HLogSoftmax: the logarithm of a softmax, and of a product with a softmax on either or both sides, with the softmax
// itself read, used elsewhere, or neither; values and gradients on both machines.
//
//vsym:paths=6000
func HLogSoftmax() {
	vsym.Generic(true)
	g := G.NewGraph()
	sh := [][]int{{2}, {1, 2}}[vsym.Choice("shape", 2)]
	in, x := start(g, hlp.F64, sh)
	s := term{hlp.Node(G.SoftMax(x.n)), softmax(x.a)}
	var vals []*G.Value
	var ts []term
	use := vsym.Choice("use", 4)
	if use == 0 {
		vals, ts = append(vals, hlp.Watch(s.n)), append(ts, s)
	}
	mul := func(x, y float64) float64 { return x * y }
	var arg term
	form := vsym.Choice("form", 5)
	var w *hlp.In
	if form > 0 && form < 4 {
		w = hlp.SymPos(g, hlp.F64, "k", sh...)
	}
	switch form {
	case 0:
		arg = s
	case 1:
		arg = term{hlp.Node(G.HadamardProd(w.N, s.n)), hlp.Zip(w.Arr(), s.a, mul)}
	case 2:
		arg = term{hlp.Node(G.HadamardProd(s.n, w.N)), hlp.Zip(s.a, w.Arr(), mul)}
	case 3:
		t := term{hlp.Node(G.SoftMax(w.N)), softmax(w.Arr())}
		arg = term{hlp.Node(G.HadamardProd(s.n, t.n)), hlp.Zip(s.a, t.a, mul)}
	case 4:
		arg = term{hlp.Node(G.HadamardProd(s.n, s.n)), hlp.Zip(s.a, s.a, mul)}
	}
	y := term{hlp.Node(G.Log(arg.n)), arg.a.Map(vsym.Log)}
	out := y
	switch use {
	case 1:
		vals, ts = append(vals, hlp.Watch(s.n)), append(ts, s)
	case 2:
		out = term{hlp.Node(G.HadamardProd(y.n, s.n)), hlp.Zip(y.a, s.a, mul)}
	case 3:
		out = term{hlp.Node(G.HadamardProd(arg.n, y.n)), hlp.Zip(arg.a, y.a, mul)}
	}
	vals, ts = append(vals, hlp.Watch(out.n)), append(ts, out)
	finish(g, in, hlp.Weighted(g, out.n), vals, ts)
	vsym.Cover("log softmax")
}

// HLogSoftmaxAxes: the logarithm of a softmax along each axis of a matrix, and of a product of two of them, along the
// same axis or different ones; values on both machines.
//
//vsym:paths=6000
func HLogSoftmaxAxes() {
	g := G.NewGraph()
	in, x := start(g, hlp.F64, []int{2, 2})
	along := func(axis int) term {
		a := x.a
		if axis == 0 {
			a = a.Perm(1, 0)
		}
		a = softmax(a)
		if axis == 0 {
			a = a.Perm(1, 0)
		}
		return term{hlp.Node(G.SoftMax(x.n, axis)), a}
	}
	t := along(vsym.Choice("axis", 2))
	if vsym.Bool("product") {
		o := along(vsym.Choice("other axis", 2))
		t = term{hlp.Node(G.HadamardProd(t.n, o.n)), hlp.Zip(t.a, o.a, func(x, y float64) float64 { return x * y })}
	}
	y := term{hlp.Node(G.Log(t.n)), t.a.Map(vsym.Log)}
	v := hlp.Watch(y.n)
	var m G.VM
	if vsym.Bool("lisp") {
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	} else {
		m = G.NewTapeMachine(g)
	}
	hlp.Ok(m.RunAll(), "run")
	hlp.ValIsArr(*v, y.a, hlp.Tol(in.DT), "logarithm of a softmax")
	vsym.Cover("axes")
}

// HOnes: operands that hold one without being a scalar constant: inputs, and constants that are tensors of ones or of
// other numbers.
//
//vsym:paths=4000
func HOnes() {
	vsym.Generic(true)
	g := G.NewGraph()
	in, x := start(g, hlp.F64, []int{2})
	var one term
	switch vsym.Choice("one", 4) {
	case 0:
		one = term{G.NewConstant(hlp.Dense(hlp.F64, []float64{1, 1}, 2)), hlp.A([]float64{1, 1}, 2)}
	case 1:
		one = term{G.NewConstant(hlp.Dense(hlp.F64, []float64{1, 3}, 2)), hlp.A([]float64{1, 3}, 2)}
	case 2:
		v := hlp.Sym(g, hlp.F64, "1", 2)
		one = term{v.N, v.Arr()}
	case 3:
		one = term{G.NewConstant(hlp.Dense(hlp.F64, []float64{1, 1}, 2), G.WithName("1")), hlp.A([]float64{1, 1}, 2)}
	}
	var y term
	switch vsym.Choice("form", 5) {
	case 0:
		y = steps[0].to(hlp.F64, term{hlp.Node(G.Add(one.n, x.n)), hlp.Zip(one.a, x.a, func(a, b float64) float64 { return a + b })})
	case 1:
		y = steps[0].to(hlp.F64, term{hlp.Node(G.Add(x.n, one.n)), hlp.Zip(one.a, x.a, func(a, b float64) float64 { return a + b })})
	case 2:
		y = steps[0].to(hlp.F64, term{hlp.Node(G.Sub(one.n, x.n)), hlp.Zip(one.a, x.a, func(a, b float64) float64 { return a - b })})
	case 3:
		e := steps[index["exp"]].to(hlp.F64, x)
		y = term{hlp.Node(G.Sub(e.n, one.n)), hlp.Zip(e.a, one.a, func(a, b float64) float64 { return a - b })}
	case 4:
		e := steps[index["sigmoid"]].to(hlp.F64, x)
		y = term{hlp.Node(G.Sub(one.n, e.n)), hlp.Zip(one.a, e.a, func(a, b float64) float64 { return a - b })}
	}
	v := hlp.Watch(y.n)
	finish(g, in, hlp.Weighted(g, y.n), []*G.Value{v}, []term{y})
	vsym.Cover("ones")
}

// HTriples: every chain of three of the twenty operations, on a scalar.
//
//vsym:paths=40000
//vsym:thorough
func HTriples() { chain(3, nil, hlp.F64) }
