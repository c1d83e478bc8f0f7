package c22

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// HNoisy: gradients of a cost that uses drawn numbers, on both machines: one draw serves the value and the gradient.
//
//vsym:paths=2000
func HNoisy() {
	dt := []tensor.Dtype{hlp.F64, hlp.F32}[vsym.Choice("dtype", 2)]
	shs := [][]int{nil, {2}, {2, 1}}
	sh := shs[vsym.Choice("shape", len(shs))]
	lisp := vsym.Choice("machine", 2) == 1
	normal := vsym.Choice("kind", 2) == 1
	d := watch()
	g := G.NewGraph()
	x := hlp.Sym(g, dt, "x", sh...)
	var r *G.Node
	if normal {
		r = G.GaussianRandomNode(g, dt, 0, 1, sh...)
	} else {
		r = G.UniformRandomNode(g, dt, 0, 1, sh...)
	}
	p := hlp.Node(G.HadamardProd(x.N, r))
	q := hlp.Node(G.Add(hlp.Node(G.HadamardProd(p, x.N)), r))
	if sh != nil {
		q = hlp.Node(G.Sum(q))
	}
	if lisp {
		hlp.LispGrads(g, q, x)
	} else {
		hlp.TapeGrads(g, q, x)
	}
	u := d.uni
	if normal {
		u = d.norm
	}
	vsym.Assert(len(u) == len(x.X), "number of draws")
	want := 0.0
	for i := range u {
		want += x.X[i]*x.X[i]*u[i] + u[i]
	}
	hlp.Same(hlp.Nums(q.Value()), []float64{want}, 1e-4, "cost")
	vsym.Cover("noisy")
}
