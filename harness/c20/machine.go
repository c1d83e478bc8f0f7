package c20

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// HMachine: binding through a machine: a variable to a value, to the value of another variable and to a result, and
// running after each. Nodes of other graphs are refused.
func HMachine() {
	dt := []tensor.Dtype{hlp.F64, hlp.F32}[vsym.Choice("type", 2)]
	sh := [][]int{nil, {2}, {2, 1}}[vsym.Choice("shape", 3)]
	g := G.NewGraph()
	a, b := hlp.Sym(g, dt, "a", sh...), hlp.Sym(g, dt, "b", sh...)
	s := hlp.Node(G.Sub(a.N, b.N))
	c := hlp.Node(G.Add(hlp.Node(G.Neg(s)), b.N))
	sv, cv := hlp.Watch(s), hlp.Watch(c)
	m := G.NewTapeMachine(g)
	defer m.Close()
	av, bv := append([]float64{}, a.X...), append([]float64{}, b.X...)
	for step := 0; step < 3; step++ {
		switch vsym.Choice("step", 5) {
		case 0:
			av = hlp.Syms("v", len(a.X))
			hlp.Ok(m.Let(a.N, hlp.Value(dt, append([]float64{}, av...), sh)), "let")
		case 1:
			av = append([]float64{}, bv...)
			hlp.Ok(m.Set(a.N, b.N), "set")
		case 2:
			bv = append([]float64{}, av...)
			hlp.Ok(m.Set(b.N, a.N), "set")
		case 3:
			if step == 0 {
				break
			}
			w := make([]float64, len(av))
			for i := range w {
				w[i] = bv[i] - (av[i] - bv[i])
			}
			hlp.Ok(m.Set(a.N, c), "set to a result")
			av = w
		case 4:
			o := hlp.Sym(G.NewGraph(), dt, "o", sh...)
			vsym.Assert(m.Let(o.N, hlp.Value(dt, o.X, sh)) != nil, "node of another graph is let")
			vsym.Assert(m.Set(o.N, a.N) != nil && m.Set(a.N, o.N) != nil, "node of another graph is set")
		}
		hlp.Same(hlp.Nums(a.N.Value()), av, hlp.Tol(dt), "value of the first variable")
		hlp.Same(hlp.Nums(b.N.Value()), bv, hlp.Tol(dt), "value of the second variable")
		hlp.Ok(m.RunAll(), "run")
		for i := range av {
			vsym.AssertNear(hlp.Nums(*sv)[i], av[i]-bv[i], hlp.Tol(dt), "difference", i)
			vsym.AssertNear(hlp.Nums(*cv)[i], bv[i]-(av[i]-bv[i]), hlp.Tol(dt), "result", i)
		}
		hlp.Same(hlp.Nums(a.N.Value()), av, hlp.Tol(dt), "value of the first variable after the run")
		m.Reset()
	}
	vsym.Cover("bound")
}
