package c20

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// HSingle: a tensor of one element is the value of a scalar that is made with it, whatever its rank.
func HSingle() {
	dt := []tensor.Dtype{hlp.F64, hlp.F32}[vsym.Choice("type", 2)]
	sh := [][]int{{1}, {1, 1}, {1, 1, 1}}[vsym.Choice("rank", 3)]
	g := G.NewGraph()
	x := hlp.Syms("x", 1)
	var n *G.Node
	if vsym.Choice("let", 2) == 0 {
		t := hlp.Dense(dt, x, sh...)
		n = G.NewScalar(g, dt, G.WithName("n"), G.WithValue(t))
		vsym.Assert(t.Dims() == len(sh), "tensor of the caller has another rank")
	} else {
		n = G.NewScalar(g, dt, G.WithName("n"))
		var e interface{} = x[0]
		if dt == hlp.F32 {
			e = float32(x[0])
		}
		hlp.Ok(G.Let(n, tensor.New(tensor.FromScalar(e))), "binding")
	}
	vsym.Assert(n.IsScalar(), "announced scalar")
	vsym.Assert(n.Value() != nil && n.Value().Shape().IsScalar(), "value of a scalar has a rank")
	hlp.Same(hlp.Nums(n.Value()), x, hlp.Tol(dt), "value")
	y := hlp.Sym(g, dt, "y")
	s := hlp.Watch(hlp.Node(G.Sub(n, y.N)))
	p := hlp.Watch(hlp.Node(G.HadamardProd(n, hlp.Sym(g, dt, "v", 2).N)))
	hlp.RunTape(g)
	hlp.Same(hlp.Nums(*s), []float64{x[0] - y.X[0]}, hlp.Tol(dt), "difference")
	hlp.SameShape((*p).Shape(), []int{2}, "shape of a product")
	vsym.Cover("single")
}
