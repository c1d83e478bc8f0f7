// Package hlp holds what the harnesses share: symbolic inputs bound to graph nodes, reading values back, running
// the two machines, and comparing gradients with derivatives of the computed cost.
package hlp

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/tensor"
)

// F64 and F32 select the element type of inputs.
var (
	F64 = tensor.Float64
	F32 = tensor.Float32
)

// Tol is the native comparison tolerance for a dtype.
func Tol(dt tensor.Dtype) float64 {
	if dt == tensor.Float32 {
		return 2e-3
	}
	return 1e-6
}

// Prod multiplies.
func Prod(s []int) int {
	n := 1
	for _, d := range s {
		n *= d
	}
	return n
}

// Syms makes n symbolic reals.
func Syms(name string, n int) []float64 {
	r := make([]float64, n)
	for i := range r {
		r[i] = vsym.Float64(name)
	}
	return r
}

// SymsPos makes n symbolic reals greater than lo.
func SymsPos(name string, n int, lo float64) []float64 {
	r := Syms(name, n)
	for _, x := range r {
		vsym.Assume(x > lo)
	}
	return r
}

// Backing converts to a slice of the dtype.
func Backing(dt tensor.Dtype, x []float64) interface{} {
	if dt == tensor.Float32 {
		r := make([]float32, len(x))
		for i := range x {
			r[i] = float32(x[i])
		}
		return r
	}
	r := make([]float64, len(x))
	copy(r, x)
	return r
}

// Dense makes a tensor holding a copy of x.
func Dense(dt tensor.Dtype, x []float64, shape ...int) *tensor.Dense {
	return tensor.New(tensor.WithShape(shape...), tensor.WithBacking(Backing(dt, x)))
}

// Scalar makes a scalar value.
func Scalar(dt tensor.Dtype, x float64) interface{} {
	if dt == tensor.Float32 {
		return float32(x)
	}
	return x
}

// In is an input node with the values bound to it.
type In struct {
	N     *G.Node
	X     []float64
	Shape []int
	DT    tensor.Dtype
	T     *tensor.Dense
}

// Var makes an input node (a scalar if no shape is given) bound to x.
func Var(g *G.ExprGraph, dt tensor.Dtype, name string, x []float64, shape ...int) *In {
	in := &In{X: x, Shape: shape, DT: dt}
	if len(shape) == 0 {
		in.N = G.NewScalar(g, dt, G.WithName(name))
		Ok(G.Let(in.N, Scalar(dt, x[0])), "let")
		return in
	}
	in.N = G.NewTensor(g, dt, len(shape), G.WithName(name), G.WithShape(shape...))
	in.T = Dense(dt, x, shape...)
	Ok(G.Let(in.N, in.T), "let")
	return in
}

// Sym makes an input with fresh symbolic contents.
func Sym(g *G.ExprGraph, dt tensor.Dtype, name string, shape ...int) *In {
	return Var(g, dt, name, Syms(name, Prod(shape)), shape...)
}

// SymPos makes an input with fresh positive contents.
func SymPos(g *G.ExprGraph, dt tensor.Dtype, name string, shape ...int) *In {
	return Var(g, dt, name, SymsPos(name, Prod(shape), 0), shape...)
}

// Ok asserts that an operation of the supported domain succeeds.
func Ok(err error, msg string) {
	if err != nil {
		if !vsym.Symbolic() {
			msg += ": " + err.Error()
		}
		vsym.Assert(false, msg)
	}
}

// Node unwraps the result of a graph building function.
func Node(n *G.Node, err error) *G.Node {
	if err != nil {
		if vsym.Symbolic() {
			vsym.Assert(false, "building a node failed")
		}
		vsym.Assert(false, "building a node failed: "+err.Error())
	}
	return n
}

// Nums reads a value as reals, in row-major order of its shape.
func Nums(v G.Value) []float64 {
	vsym.Assert(v != nil, "value is missing")
	if t, ok := v.(*tensor.Dense); ok && !t.IsScalar() {
		if t.RequiresIterator() || !t.DataOrder().IsRowMajor() {
			it := t.Iterator()
			var r []float64
			for i, err := it.Next(); err == nil; i, err = it.Next() {
				r = append(r, num(t.Data(), i))
			}
			return r
		}
	}
	switch d := v.Data().(type) {
	case float64:
		return []float64{d}
	case float32:
		return []float64{float64(d)}
	case []float64:
		r := make([]float64, len(d))
		copy(r, d)
		return r
	case []float32:
		r := make([]float64, len(d))
		for i := range d {
			r[i] = float64(d[i])
		}
		return r
	}
	vsym.Assert(false, "value has an unexpected element type")
	return nil
}

func num(d interface{}, i int) float64 {
	switch x := d.(type) {
	case []float64:
		return x[i]
	case []float32:
		return float64(x[i])
	}
	vsym.Assert(false, "value has an unexpected element type")
	return 0
}

// Same asserts elementwise equality.
func Same(got, want []float64, tol float64, msg string) {
	vsym.Assert(len(got) == len(want), msg+": number of elements")
	for i := range want {
		vsym.AssertNear(got[i], want[i], tol, msg, i)
	}
}

// SameShape asserts equality of shapes.
func SameShape(got tensor.Shape, want []int, msg string) {
	vsym.Assert(len(got) == len(want), msg+": rank")
	for i := range want {
		vsym.Assert(got[i] == want[i], msg+": extent", i)
	}
}

// Is asserts that the node holds want.
func Is(n *G.Node, want []float64, msg string) {
	Same(Nums(n.Value()), want, Tol(n.Dtype()), msg)
}

// RunTape runs the graph on a fresh tape machine.
func RunTape(g *G.ExprGraph, opts ...G.VMOpt) {
	m := G.NewTapeMachine(g, opts...)
	err := m.RunAll()
	Ok(err, "tape run")
	Ok(m.Close(), "close")
}

// TapeGrads derives the gradients symbolically, runs the tape machine and compares the gradient of every input with the
// derivative of the computed cost.
func TapeGrads(g *G.ExprGraph, cost *G.Node, ins ...*In) { TapeGradsWith(nil, g, cost, ins...) }

// TapeGradsWith does so on a machine with options.
func TapeGradsWith(opts []G.VMOpt, g *G.ExprGraph, cost *G.Node, ins ...*In) {
	var wrt G.Nodes
	for _, in := range ins {
		wrt = append(wrt, in.N)
	}
	gs, err := G.Grad(cost, wrt...)
	Ok(err, "symbolic differentiation")
	m := G.NewTapeMachine(g, append(opts, G.BindDualValues(wrt...))...)
	Ok(m.RunAll(), "tape run")
	c := Nums(cost.Value())
	vsym.Assert(len(c) == 1, "cost is not a scalar")
	for k, in := range ins {
		Deriv(c[0], in, gs[k].Value(), "symbolic gradient of input", k)
		d, err := in.N.Grad()
		Ok(err, "gradient")
		Deriv(c[0], in, d, "bound gradient of input", k)
	}
	Ok(m.Close(), "close")
	vsym.Cover("tape gradients")
}

// LispGrads runs the interpreting machine and compares gradients.
func LispGrads(g *G.ExprGraph, cost *G.Node, ins ...*In) { LispGradsWith(nil, g, cost, ins...) }

// LispGradsWith does so on a machine with options.
func LispGradsWith(opts []G.VMOpt, g *G.ExprGraph, cost *G.Node, ins ...*In) {
	m := G.NewLispMachine(g, opts...)
	Ok(m.RunAll(), "lisp run")
	c := Nums(cost.Value())
	vsym.Assert(len(c) == 1, "cost is not a scalar")
	for k, in := range ins {
		d, err := in.N.Grad()
		Ok(err, "gradient")
		Deriv(c[0], in, d, "automatic gradient of input", k)
	}
	Ok(m.Close(), "close")
	vsym.Cover("automatic gradients")
}

// Deriv compares a gradient value with the derivative of the cost.
func Deriv(cost float64, in *In, d G.Value, msg string, k int) {
	if len(in.Shape) > 0 {
		SameShape(d.Shape(), in.Shape, msg+": shape")
	}
	got := Nums(d)
	vsym.Assert(len(got) == len(in.X), msg+": number of elements", k)
	for i := range in.X {
		vsym.AssertNear(got[i], vsym.Deriv(cost, in.X[i]), Tol(in.DT), msg, k, i)
	}
}

// Weighted turns a node into a scalar cost by multiplying with symbolic weights and summing, so that every output
// position gets an independent upstream gradient.
func Weighted(g *G.ExprGraph, n *G.Node) *G.Node {
	if n.IsScalar() {
		w := Var(g, n.Dtype(), "w", Syms("w", 1))
		return Node(G.HadamardProd(n, w.N))
	}
	sh := n.Shape()
	w := Sym(g, n.Dtype(), "w", sh.Clone()...)
	return Node(G.Sum(Node(G.HadamardProd(n, w.N))))
}

// Watch has the value of a node kept after the run, as intermediate memory may be reused.
func Watch(n *G.Node) *G.Value {
	v := new(G.Value)
	G.Read(n, v)
	return v
}
