package c25

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
)

// HOff: every ordered pair of the twenty operations built with rewriting switched off, and afterwards with it on again in the
// same graph, on scalars.
//
//vsym:paths=4000
func HOff() {
	vsym.Generic(true)
	g := G.NewGraph()
	in, t := start(g, hlp.F64, nil)
	a, b := steps[vsym.Choice("step", len(steps))], steps[vsym.Choice("step", len(steps))]
	G.UseNonStable()
	p := b.to(hlp.F64, a.to(hlp.F64, t))
	G.UseStabilization()
	q := a.to(hlp.F64, t)
	q = b.to(hlp.F64, q)
	vals := []*G.Value{hlp.Watch(p.n), hlp.Watch(q.n)}
	cost := hlp.Node(G.Add(hlp.Weighted(g, p.n), hlp.Node(G.Square(q.n))))
	finish(g, in, cost, vals, []term{p, q})
}
