package c02

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
)

// HApart: an interpreting machine that only goes forward followed by one that only goes backward gives the values and the
// gradients of one that does both, for every operation of the catalogue. Going backward before values are there is an error.
//
//vsym:paths=4000
func HApart() {
	vsym.Generic(true)
	es := hlp.Catalog()
	e := es[vsym.Choice("operation", len(es))]
	vsym.Assume(!e.Flat && !e.NoLisp)
	dt := dts[vsym.Choice("type", 2)]
	xs, w := e.Draw(), hlp.Syms("w", 1)
	build := func() (*G.ExprGraph, []*hlp.In, *G.Node) {
		g := G.NewGraph()
		ins := e.Ins(g, dt, xs)
		s := hlp.Node(G.Square(e.Build(ins)))
		if !s.IsScalar() {
			s = hlp.Node(G.Sum(s))
		}
		return g, ins, hlp.Node(G.HadamardProd(s, hlp.Var(g, dt, "weight", w).N))
	}
	whole, insw, costw := build()
	l := G.NewLispMachine(whole)
	hlp.Ok(l.RunAll(), "going both ways")
	g, ins, cost := build()
	early := G.NewLispMachine(g, G.ExecuteBwdOnly())
	vsym.Assert(early.RunAll() != nil, "going backward without values is not reported")
	f := G.NewLispMachine(g, G.ExecuteFwdOnly())
	hlp.Ok(f.RunAll(), "going forward")
	b := G.NewLispMachine(g, G.ExecuteBwdOnly())
	hlp.Ok(b.RunAll(), "going backward")
	hlp.Same(hlp.Nums(cost.Value()), hlp.Nums(costw.Value()), hlp.Tol(dt), "cost")
	for i := range ins {
		d, err := ins[i].N.Grad()
		hlp.Ok(err, "gradient")
		dw, err := insw[i].N.Grad()
		hlp.Ok(err, "gradient")
		hlp.SameShape(d.Shape(), dw.Shape(), "shape of a gradient")
		hlp.Same(hlp.Nums(d), hlp.Nums(dw), hlp.Tol(dt), "gradient")
	}
	hlp.Ok(early.Close(), "close")
	hlp.Ok(f.Close(), "close")
	hlp.Ok(b.Close(), "close")
	hlp.Ok(l.Close(), "close")
	vsym.Cover("apart")
}
