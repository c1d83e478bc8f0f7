package c05

import (
	"fmt"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
)

// HWide: a vector used by twelve operations, each together with an input of its own or with the result before it, of which
// the cost is the sum: twelve contributions to one gradient, and a chain of twelve of them.
//
//vsym:paths=200
func HWide() {
	vsym.Generic(true)
	g := G.NewGraph()
	dt := dts[vsym.Choice("width", 2)]
	N := hlp.Node
	w := hlp.Sym(g, dt, "shared", 2)
	ins := []*hlp.In{w}
	var acc *G.Node
	how := vsym.Choice("how", 3)
	for i := 0; i < 12; i++ {
		x := hlp.Sym(g, dt, fmt.Sprintf("x%d", i), 2)
		ins = append(ins, x)
		var t *G.Node
		switch {
		case i%3 == 0:
			t = N(G.HadamardProd(w.N, x.N))
		case i%3 == 1:
			t = N(G.Sub(x.N, N(G.Square(w.N))))
		default:
			t = N(G.HadamardProd(x.N, N(G.Neg(w.N))))
		}
		switch {
		case acc == nil:
			acc = t
		case how == 0:
			acc = N(G.Add(acc, t))
		case how == 1:
			acc = N(G.Sub(t, acc))
		case i%4 == 3:
			acc = N(G.HadamardProd(acc, t))
		default:
			acc = N(G.Add(t, acc))
		}
	}
	grads(g, hlp.Weighted(g, acc), ins...)
}
