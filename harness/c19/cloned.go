package c19

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
)

// HCloneRead: a graph with a read-out of an input, of something in between or of the cost is cloned, before or after
// running it, and the clone run with gradients on either machine; the read-out sees the value in the clone and adds
// nothing to the gradients.
func HCloneRead() {
	vsym.Generic(true)
	g := G.NewGraph()
	x, y := hlp.Sym(g, hlp.F64, "x", 2), hlp.Sym(g, hlp.F64, "y", 2)
	sq := hlp.Node(G.Square(x.N))
	pr := hlp.Node(G.HadamardProd(sq, y.N))
	cost := hlp.Node(G.Sum(pr))
	k := vsym.Choice("read", 4)
	v := hlp.Watch([]*G.Node{x.N, sq, pr, cost}[k])
	lisp := vsym.Bool("lisp")
	if !lisp {
		_, err := G.Grad(cost, x.N, y.N)
		hlp.Ok(err, "grad")
	}
	run := func(g *G.ExprGraph) {
		var m G.VM
		if lisp {
			m = G.NewLispMachine(g)
		} else {
			m = G.NewTapeMachine(g, G.BindDualValues(g.Node(x.N.ID()).(*G.Node), g.Node(y.N.ID()).(*G.Node)))
		}
		hlp.Ok(m.RunAll(), "run")
		hlp.Ok(m.Close(), "close")
	}
	was := 0.0
	if vsym.Bool("run first") {
		run(g)
		was = 1
	}
	c := g.Clone().(*G.ExprGraph)
	vsym.Assert(len(c.Roots()) == len(g.Roots()), "roots of a clone")
	cx, cy := c.Node(x.N.ID()).(*G.Node), c.Node(y.N.ID()).(*G.Node)
	z := hlp.Syms("z", 2)
	hlp.Ok(G.Let(cx, hlp.Dense(hlp.F64, z, 2)), "let")
	run(c)
	want := [][]float64{z, {z[0] * z[0], z[1] * z[1]}, {z[0] * z[0] * y.X[0], z[1] * z[1] * y.X[1]}, {z[0]*z[0]*y.X[0] + z[1]*z[1]*y.X[1]}}[k]
	hlp.Same(hlp.Nums(*v), want, 1e-9, "value read in a clone")
	dx, err := cx.Grad()
	hlp.Ok(err, "gradient")
	dy, err := cy.Grad()
	hlp.Ok(err, "gradient")
	for i := range z {
		vsym.AssertNear(hlp.Nums(dx)[i], 2*z[i]*y.X[i]+was*2*x.X[i]*y.X[i], 1e-9, "gradient in a clone", i)
		vsym.AssertNear(hlp.Nums(dy)[i], z[i]*z[i]+was*x.X[i]*x.X[i], 1e-9, "gradient in a clone", i)
	}
	hlp.Is(x.N, x.X, "value of the original")
	vsym.Cover("clone")
}

// HNames: up to four inputs, each with one of two names and of one of two shapes, and a named sum: asking for a name gives
// every node that was given it and no other; a node of the same name, shape and type as an earlier one is that one.
func HNames() {
	g := G.NewGraph()
	k := 2 + vsym.Choice("inputs", 3)
	var ns []*G.Node
	var names []string
	for i := 0; i < k; i++ {
		name := []string{"a", "b"}[vsym.Choice("name", 2)]
		size := 2 + vsym.Choice("size", 2)
		n := G.NewVector(g, hlp.F64, G.WithShape(size), G.WithName(name))
		known := false
		for j, o := range ns {
			same := names[j] == name && o.Shape()[0] == size
			vsym.Assert((o == n) == same, "an input of the same name, shape and type", i, j)
			known = known || same
		}
		if !known {
			ns, names = append(ns, n), append(names, name)
		}
	}
	c := G.NewConstant(1.5, G.WithName("b"))
	s := hlp.Node(G.Add(ns[0], c))
	G.WithName("a")(s)
	ns, names = append(ns, s, s.Graph().Constant(c.Value())), append(names, "a", "b")
	check := func(g *G.ExprGraph, of func(n *G.Node) *G.Node) {
		for _, name := range []string{"a", "b", "c"} {
			got := g.ByName(name)
			want := 0
			for i, n := range ns {
				if names[i] != name {
					continue
				}
				want++
				vsym.Assert(got.Contains(of(n)), "a node is found by its name", i)
			}
			vsym.Assert(len(got) == want, "nodes of a name")
		}
	}
	check(g, func(n *G.Node) *G.Node { return n })
	cl := g.Clone().(*G.ExprGraph)
	check(cl, func(n *G.Node) *G.Node { return cl.Node(n.ID()).(*G.Node) })
	vsym.Cover("names")
}
