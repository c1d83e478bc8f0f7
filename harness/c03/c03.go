// Package c03: gradients of elementwise operations.
package c03

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

type unary struct {
	name string
	f    func(*G.Node) (*G.Node, error)
	dom  int // 0 all reals, 1 positive, 2 nonzero, 3 > -1, 4 within (-6,6)
}

func domain(x []float64, dom int) {
	for _, v := range x {
		switch dom {
		case 1:
			vsym.Assume(v > 0)
		case 2:
			vsym.Assume(v != 0)
		case 3:
			vsym.Assume(v > -1)
		case 4:
			vsym.Assume(v > -6)
			vsym.Assume(v < 6)
		}
	}
}

var shapes = [][]int{nil, {2}, {2, 2}}
var dts = []tensor.Dtype{hlp.F64, hlp.F32}

func un(u func(*G.Node) (*G.Node, error), dom int) {
	vsym.Generic(true)
	sh := shapes[vsym.Choice("shape", len(shapes))]
	dt := dts[vsym.Choice("dtype", 2)]
	lisp := vsym.Choice("machine", 2) == 1
	g := G.NewGraph()
	x := hlp.Syms("x", hlp.Prod(sh))
	domain(x, dom)
	in := hlp.Var(g, dt, "x", x, sh...)
	y := hlp.Node(u(in.N))
	cost := hlp.Weighted(g, y)
	if lisp {
		hlp.LispGrads(g, cost, in)
	} else {
		hlp.TapeGrads(g, cost, in)
	}
}

func HAbs()         { un(G.Abs, 2) }
func HSin()         { un(G.Sin, 0) }
func HCos()         { un(G.Cos, 0) }
func HExp()         { un(G.Exp, 0) }
func HLog()         { un(G.Log, 1) }
func HLog2()        { un(G.Log2, 1) }
func HNeg()         { un(G.Neg, 0) }
func HSquare()      { un(G.Square, 0) }
func HSqrt()        { un(G.Sqrt, 1) }
func HInverse()     { un(G.Inverse, 2) }
func HInverseSqrt() { un(G.InverseSqrt, 1) }
func HCube()        { un(G.Cube, 0) }
func HTanh()        { un(G.Tanh, 0) }
func HSigmoid()     { un(G.Sigmoid, 4) }
func HLog1p()       { un(G.Log1p, 3) }
func HExpm1()       { un(G.Expm1, 0) }
func HSoftplus()    { un(G.Softplus, 4) }

// bin checks a binary operation; form 0 scalar-scalar, 1 tensor-tensor, 2 scalar-tensor, 3 tensor-scalar.
func bin(b func(x, y *G.Node) (*G.Node, error), domX, domY int) {
	vsym.Generic(true)
	form := vsym.Choice("form", 4)
	dt := dts[vsym.Choice("dtype", 2)]
	lisp := vsym.Choice("machine", 2) == 1
	var sx, sy []int
	switch form {
	case 1:
		sx, sy = []int{2, 2}, []int{2, 2}
	case 2:
		sy = []int{3}
	case 3:
		sx = []int{3}
	}
	g := G.NewGraph()
	xs, ys := hlp.Syms("x", hlp.Prod(sx)), hlp.Syms("y", hlp.Prod(sy))
	domain(xs, domX)
	domain(ys, domY)
	x := hlp.Var(g, dt, "x", xs, sx...)
	y := hlp.Var(g, dt, "y", ys, sy...)
	z := hlp.Node(b(x.N, y.N))
	cost := hlp.Weighted(g, z)
	if lisp {
		hlp.LispGrads(g, cost, x, y)
	} else {
		hlp.TapeGrads(g, cost, x, y)
	}
}

func HAdd() { bin(G.Add, 0, 0) }
func HSub() { bin(G.Sub, 0, 0) }
func HMul() { bin(G.HadamardProd, 0, 0) }
func HDiv() { bin(G.HadamardDiv, 0, 2) }
func HPow() { bin(G.Pow, 1, 0) }

var unaries = []unary{
	{"abs", G.Abs, 1}, {"sin", G.Sin, 0}, {"cos", G.Cos, 0}, {"exp", G.Exp, 0}, {"log", G.Log, 1}, {"log2", G.Log2, 1}, {"neg", G.Neg, 0},
	{"square", G.Square, 0}, {"sqrt", G.Sqrt, 1}, {"inverse", G.Inverse, 2}, {"inverse sqrt", G.InverseSqrt, 1}, {"cube", G.Cube, 0},
	{"tanh", G.Tanh, 0}, {"log1p", G.Log1p, 3}, {"expm1", G.Expm1, 0}, {"sigmoid", G.Sigmoid, 4}, {"softplus", G.Softplus, 4},
}

// HLong: the unary operations on vectors of 19 elements and matrices of 5 by 7 (positive ones for the absolute value), on both machines.
//
//vsym:paths=2000
func HLong() {
	vsym.Generic(true)
	u := unaries[vsym.Choice("op", len(unaries))]
	sh := [][]int{{19}, {5, 7}}[vsym.Choice("shape", 2)]
	lisp := vsym.Choice("machine", 2) == 1
	g := G.NewGraph()
	x := hlp.Syms("x", hlp.Prod(sh))
	domain(x, u.dom)
	in := hlp.Var(g, hlp.F64, "x", x, sh...)
	cost := hlp.Weighted(g, hlp.Node(u.f(in.N)))
	if lisp {
		hlp.LispGrads(g, cost, in)
	} else {
		hlp.TapeGrads(g, cost, in)
	}
}

// HLongPairs: the binary operations on operands of 19 elements or a scalar, on both machines.
//
//vsym:paths=2000
func HLongPairs() {
	vsym.Generic(true)
	k := vsym.Choice("op", 5)
	op := []func(x, y *G.Node) (*G.Node, error){G.Add, G.Sub, G.HadamardProd, G.HadamardDiv, G.Pow}[k]
	form := vsym.Choice("form", 3)
	lisp := vsym.Choice("machine", 2) == 1
	sx, sy := []int{19}, []int{19}
	if form == 1 {
		sx = nil
	} else if form == 2 {
		sy = nil
	}
	g := G.NewGraph()
	xs, ys := hlp.Syms("x", hlp.Prod(sx)), hlp.Syms("y", hlp.Prod(sy))
	if k == 4 {
		domain(xs, 1)
	} else if k == 3 {
		domain(ys, 2)
	}
	x, y := hlp.Var(g, hlp.F64, "x", xs, sx...), hlp.Var(g, hlp.F64, "y", ys, sy...)
	cost := hlp.Weighted(g, hlp.Node(op(x.N, y.N)))
	if lisp {
		hlp.LispGrads(g, cost, x, y)
	} else {
		hlp.TapeGrads(g, cost, x, y)
	}
}
