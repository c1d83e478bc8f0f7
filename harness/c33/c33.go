// Package c33 checks that observing a graph or a run changes neither.
package c33

import (
	"bytes"
	"fmt"
	"log"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{hlp.F64, hlp.F32}

// program builds one of the operations on top of two inputs and something that can run in place after it.
func program(g *G.ExprGraph, dt tensor.Dtype) (ins []*hlp.In, all []hlp.V, cost *G.Node) {
	a, b := hlp.Sym(g, dt, "a", 2, 2), hlp.Sym(g, dt, "b", 2, 2)
	ops := hlp.Core
	pool := []hlp.V{a.V(), b.V()}
	pool = hlp.Extend(pool, ops, false)
	last := pool[2]
	n, _ := hlp.OpSq.Build(last, last)
	pool = append(pool, n)
	return []*hlp.In{a, b}, pool, hlp.Node(G.Add(hlp.Weighted(g, n.N), hlp.Node(G.Sum(hlp.Node(G.HadamardProd(a.N, b.N))))))
}

const observers = 9

// observer gives options by which a machine tells what it does.
func observer(k int, tape bool, g *G.ExprGraph, all []hlp.V) []G.VMOpt {
	var buf bytes.Buffer
	lg := G.WithLogger(log.New(&buf, "", 0))
	n := all[2].N
	switch k {
	case 0:
		return []G.VMOpt{lg}
	case 1:
		return []G.VMOpt{lg, G.WithWatchlist()}
	case 2:
		return []G.VMOpt{lg, G.WithWatchlist(n, all[0].N), G.WithValueFmt("%+1.1s")}
	case 3:
		return []G.VMOpt{G.WithNaNWatch(), G.WithInfWatch()}
	case 4:
		return []G.VMOpt{G.WithWatchlist(), G.WithNaNWatch()}
	}
	if tape {
		switch k {
		case 5:
			return []G.VMOpt{lg, G.WithWatchlist(1, 2)}
		case 6:
			return []G.VMOpt{lg, G.WithWatchlist(G.NodeID(n.ID())), G.WithValueFmt("%v")}
		case 7:
			return []G.VMOpt{G.TraceExec(), lg, G.WithWatchlist()}
		}
		return []G.VMOpt{G.TraceExec(), G.WithInfWatch()}
	}
	switch k {
	case 5:
		return []G.VMOpt{lg, G.LogFwd(), G.WithWatchlist()}
	case 6:
		return []G.VMOpt{lg, G.LogBwd(), G.WithWatchlist(n), G.WithValueFmt("%v")}
	case 7:
		return []G.VMOpt{lg, G.LogBothDir(), G.WithWatchlist()}
	}
	return []G.VMOpt{G.LogBothDir(), G.WithWatchlist(n)}
}

// HMachine: values and gradients of every operation of the program family, followed by one that may run in place, on machines that
// log, watch values, registers or numbers, or keep copies.
//
//vsym:paths=8000
func HMachine() {
	vsym.Generic(true)
	tape := vsym.Choice("machine", 2) == 0
	k := vsym.Choice("observer", observers)
	dt := dts[vsym.Choice("width", 2)]
	g := G.NewGraph()
	ins, all, cost := program(g, dt)
	opts := observer(k, tape, g, all)
	v := hlp.Watch(all[3].N)
	if tape {
		hlp.TapeGradsWith(opts, g, cost, ins...)
	} else {
		hlp.LispGradsWith(opts, g, cost, ins...)
	}
	hlp.ValIsArr(*v, all[3].A, hlp.Tol(dt), "value on a machine that is observed")
	for _, in := range ins {
		hlp.IsArr(in.N, in.Arr(), "input of a machine that is observed")
	}
	vsym.Cover("observed")
}

// show prints everything there is to print of the graph.
func show(g *G.ExprGraph) {
	_ = g.String()
	_ = g.ToDot()
	for _, n := range g.AllNodes() {
		for _, f := range []string{"%v", "%s", "%+v"} {
			_ = fmt.Sprintf(f, n)
		}
		_ = n.Name()
		if v := n.Value(); v != nil {
			_ = fmt.Sprintf("%v %+v %s %1.1f", v, v, v, v)
		}
	}
	_ = fmt.Sprintf("%v %+v %d %-v", g.AllNodes(), g.AllNodes(), g.AllNodes(), g.AllNodes())
}

// HPrint: values and gradients of every operation of the program family in a graph that was printed when built, when differentiated
// and when run.
//
//vsym:paths=8000
func HPrint() {
	vsym.Generic(true)
	dt := dts[vsym.Choice("width", 2)]
	g := G.NewGraph(G.WithGraphName("g"))
	ins, all, cost := program(g, dt)
	v := hlp.Watch(all[3].N)
	n, roots := len(g.AllNodes()), len(g.Roots())
	show(g)
	vsym.Assert(len(g.AllNodes()) == n && len(g.Roots()) == roots, "printing changes the graph")
	var wrt G.Nodes
	for _, in := range ins {
		wrt = append(wrt, in.N)
	}
	gs, err := G.Grad(cost, wrt...)
	hlp.Ok(err, "differentiation")
	show(g)
	m := G.NewTapeMachine(g, G.BindDualValues(wrt...))
	_ = m.Prog().String()
	hlp.Ok(m.RunAll(), "run")
	c := hlp.Nums(cost.Value())[0]
	show(g)
	_ = m.Prog().String()
	for i, in := range ins {
		hlp.Deriv(c, in, gs[i].Value(), "gradient in a graph that was printed", i)
		hlp.IsArr(in.N, in.Arr(), "input of a graph that was printed")
	}
	hlp.ValIsArr(*v, all[3].A, hlp.Tol(dt), "value in a graph that was printed")
	m.Close()
	vsym.Cover("printed")
}
