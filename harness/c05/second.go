package c05

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
)

// HSecondCatalog: gradients of the squared gradients of every operation of the catalogue. The gradients of average
// pooling, upsampling and normalisation by batches and groups may refuse to be differentiated.
//
//vsym:paths=4000
func HSecondCatalog() {
	vsym.Generic(true)
	es := hlp.Catalog()
	k := vsym.Choice("operation", len(es))
	e := es[k]
	vsym.Assume(!e.Flat)
	dt := dts[0]
	g := G.NewGraph()
	N := hlp.Node
	ins := e.Ins(g, dt, e.Draw())
	z := e.Build(ins)
	cost := hlp.Weighted(g, z)
	var wrt G.Nodes
	for _, in := range ins {
		t := N(G.Cube(in.N))
		if !t.IsScalar() {
			t = N(G.Sum(t))
		}
		cost = N(G.Add(cost, t))
		wrt = append(wrt, in.N)
	}
	gs, err := G.Grad(cost, wrt...)
	hlp.Ok(err, "symbolic differentiation")
	var sq *G.Node
	for _, d := range gs {
		t := N(G.Square(d))
		if !t.IsScalar() {
			t = N(G.Sum(t))
		}
		if sq == nil {
			sq = t
		} else {
			sq = N(G.Add(sq, t))
		}
	}
	hs, err := G.Grad(sq, wrt...)
	if err != nil {
		// what is only ever differentiated once
		once := map[string]bool{"average pool": true, "upsample": true, "batch norm": true, "group norm": true}
		vsym.Assert(once[e.Name], "differentiating the gradient of "+e.Name, k)
		return
	}
	hlp.RunTape(g)
	for j, in := range ins {
		hlp.Deriv(hlp.Nums(sq.Value())[0], in, hs[j].Value(), "gradient of gradients of "+e.Name, j)
	}
}
