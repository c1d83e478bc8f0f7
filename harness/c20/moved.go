package c20

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// HMovedSlice: the part of a matrix that a slice takes is changed between runs to another one of the same shape, and the
// next run computes with it, on both machines; gradients on the interpreting one.
func HMovedSlice() {
	vsym.Generic(true)
	lisp := vsym.Bool("lisp")
	wide := vsym.Bool("range")
	sl := func(i int) tensor.Slice {
		if wide {
			return G.S(i, i+2)
		}
		return G.S(i)
	}
	g := G.NewGraph()
	x := hlp.Sym(g, hlp.F64, "x", 3, 2)
	n := 3
	if wide {
		n = 2
	}
	i := vsym.Choice("first", n)
	part := hlp.Node(G.Slice(x.N, sl(i)))
	out := hlp.Node(G.Square(part))
	cost := hlp.Node(G.Sum(out))
	v := hlp.Watch(out)
	c := hlp.Watch(cost)
	var m G.VM
	if lisp {
		m = G.NewLispMachine(g)
	} else {
		m = G.NewTapeMachine(g)
	}
	var grad []float64
	for k := 0; k < 3; k++ {
		if k > 0 {
			i = vsym.Choice("next", n)
			hlp.Ok(G.UnsafeLet(part, sl(i)), "moving a slice")
			m.Reset()
		}
		hlp.Ok(m.RunAll(), "run")
		rows := 1
		if wide {
			rows = 2
		}
		var want []float64
		total := 0.0
		if grad == nil {
			grad = make([]float64, 6)
		}
		for j := 2 * i; j < 2*(i+rows); j++ {
			want = append(want, x.X[j]*x.X[j])
			total += x.X[j] * x.X[j]
			grad[j] += 2 * x.X[j]
		}
		hlp.Same(hlp.Nums(*v), want, 1e-9, "part")
		hlp.Same(hlp.Nums(*c), []float64{total}, 1e-9, "sum of the part")
		if lisp {
			d, err := x.N.Grad()
			hlp.Ok(err, "gradient")
			hlp.Same(hlp.Nums(d), grad, 1e-9, "gradient of a moved slice")
		}
	}
	hlp.Is(x.N, x.X, "sliced matrix")
	vsym.Assert(G.UnsafeLet(out, sl(0)) != nil, "a slice is given to an operation that takes none")
	vsym.Cover("moved")
}
