package c03

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
)

// HConstants: the binary operations with a constant on either side, scalars and tensors, arbitrary or one of -1, 0, 1, 2, 3 and 1/2, of
// an input or of something computed, on both machines and in both float widths.
//
//vsym:paths=4000
func HConstants() {
	vsym.Generic(true)
	k := vsym.Choice("op", 5)
	op := []func(x, y *G.Node) (*G.Node, error){G.Add, G.Sub, G.HadamardProd, G.HadamardDiv, G.Pow}[k]
	form := vsym.Choice("form", 4)
	left := vsym.Choice("side", 2) == 1
	lisp := vsym.Choice("machine", 2) == 1
	which := vsym.Choice("constant", 7)
	dt := dts[(k+which)&1]
	var sx, sc []int
	if form&1 == 1 {
		sx = []int{2}
	}
	if form&2 == 2 {
		sc = []int{2}
	}
	g := G.NewGraph()
	xs := hlp.SymsPos("x", hlp.Prod(sx), 0)
	cs := hlp.SymsPos("c", hlp.Prod(sc), 0)
	if which > 0 {
		for i := range cs {
			cs[i] = []float64{-1, 0, 1, 2, 3, 0.5}[which-1]
		}
		vsym.Assume(k != 4 || !left || cs[0] == 1) // the logarithms of the others are rounded
		vsym.Assume(k != 3 || left || cs[0] != 0)
	}
	x := hlp.Var(g, dt, "x", xs, sx...)
	c := G.NewConstant(hlp.Value(dt, cs, sc), G.WithName("c"))
	n := x.N
	if which < 2 {
		n = hlp.Node(G.Square(n))
	}
	var z *G.Node
	if left {
		z = hlp.Node(op(c, n))
	} else {
		z = hlp.Node(op(n, c))
	}
	cost := hlp.Weighted(g, z)
	if lisp {
		hlp.LispGrads(g, cost, x)
	} else {
		hlp.TapeGrads(g, cost, x)
	}
}
