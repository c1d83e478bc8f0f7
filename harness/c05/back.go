package c05

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
)

// HBackpropagate: propagating back from two outputs with gradients of theirs that are inputs, constants of the graph
// or values computed in it, gives the derivatives of both weighted by these; one output may be used by the other, both
// may have one gradient, and the outputs may be given in either order.
func HBackpropagate() {
	vsym.Generic(true)
	dt := dts[vsym.Choice("width", 2)]
	g := G.NewGraph()
	a, b := hlp.Sym(g, dt, "a", 2), hlp.Sym(g, dt, "b", 2)
	u, v := hlp.Sym(g, dt, "u", 2), hlp.Sym(g, dt, "v", 2)
	N := hlp.Node
	ks := []int{1, 3, 4, 9}
	k := ks[vsym.Choice("pattern", len(ks))]
	o1 := pattern(k, a.N, b.N)
	var o2 *G.Node
	if vsym.Choice("over", 2) == 1 {
		o2 = N(G.HadamardProd(o1, N(G.Sub(o1, b.N))))
	} else {
		o2 = N(G.HadamardProd(N(G.Square(b.N)), N(G.Neg(a.N))))
	}
	gu, gv := u.N, v.N
	wu, wv := u.X, v.X
	switch vsym.Choice("grads", 3) {
	case 1:
		gv, wv = gu, wu
	case 2:
		gu, wu = N(G.Neg(v.N)), []float64{-v.X[0], -v.X[1]}
	}
	outs, gos := G.Nodes{o1, o2}, G.Nodes{gu, gv}
	if vsym.Choice("order", 2) == 1 {
		outs, gos = G.Nodes{o2, o1}, G.Nodes{gv, gu}
	}
	wrts := [][]*hlp.In{{a, b}, {b, a}, {b}}
	wrt := wrts[vsym.Choice("wrt", len(wrts))]
	if k == 1 && len(wrt) == 1 {
		return // the first output does not depend on b
	}
	var ws G.Nodes
	for _, in := range wrt {
		ws = append(ws, in.N)
	}
	r1, r2 := hlp.Watch(o1), hlp.Watch(o2)
	d, err := G.Backpropagate(outs, gos, ws)
	hlp.Ok(err, "propagating back")
	vsym.Assert(len(d) == len(wrt), "one gradient for every node asked for")
	var ds []*G.Value
	for _, n := range d {
		ds = append(ds, hlp.Watch(n))
	}
	hlp.RunTape(g)
	x1, x2 := hlp.Nums(*r1), hlp.Nums(*r2)
	total := wu[0]*x1[0] + wu[1]*x1[1] + wv[0]*x2[0] + wv[1]*x2[1]
	for i, in := range wrt {
		hlp.Deriv(total, in, *ds[i], "gradient from two outputs", i)
		a, err := in.N.Grad()
		hlp.Ok(err, "gradient of the input")
		hlp.Deriv(total, in, a, "gradient of the input", i)
	}
	vsym.Cover("propagated")
}
