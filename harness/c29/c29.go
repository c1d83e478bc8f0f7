// Package c29: the concurrent machine computes the graph under every schedule.
package c29

import (
	"context"
	"strings"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	xvm "gorgonia.org/gorgonia/x/vm"
	"gorgonia.org/tensor"
)

// results compares what the machine holds for every member of the pool.
func results(m *xvm.Machine, pool []hlp.V) {
	for _, v := range pool {
		hlp.ValIsArr(m.GetResult(v.N.ID()), v.A, hlp.Tol(v.N.Dtype()), "value of node")
	}
}

// unchanged: the inputs hold what they were given.
func unchanged(ins []*hlp.In) {
	for _, in := range ins {
		hlp.IsArr(in.N, in.Arr(), "input")
	}
}

// HTwo: all programs of two operations out of 17 over two 2x2 inputs, run twice.
//
//vsym:paths=9000
func HTwo() {
	g := G.NewGraph()
	ins := []*hlp.In{hlp.Sym(g, tensor.Float64, "a", 2, 2), hlp.SymPos(g, tensor.Float64, "b", 2, 2)}
	pool := []hlp.V{ins[0].V(), ins[1].V()}
	pool = hlp.Extend(pool, hlp.Wide, false)
	pool = hlp.Extend(pool, hlp.Wide, true)
	m := xvm.NewMachine(g)
	hlp.Ok(m.Run(context.Background()), "run")
	results(m, pool)
	unchanged(ins)
	if vsym.Choice("again", 2) == 1 {
		hlp.Ok(m.Run(context.Background()), "second run")
		results(m, pool)
		unchanged(ins)
	}
	m.Close()
	vsym.Cover("programs")
}

// HScalars: all programs of two operations on two scalars, in both widths.
//
//vsym:paths=9000
func HScalars() {
	dt := []tensor.Dtype{tensor.Float64, tensor.Float32}[vsym.Choice("width", 2)]
	g := G.NewGraph()
	ops := []hlp.Op{hlp.OpAdd, hlp.OpSub, hlp.OpProd, hlp.OpDiv, hlp.OpNeg, hlp.OpSq, hlp.OpExp, hlp.OpAddC, hlp.OpRsubC}
	pool := []hlp.V{hlp.Sym(g, dt, "a").V(), hlp.SymPos(g, dt, "b").V()}
	pool = hlp.Extend(pool, ops, false)
	pool = hlp.Extend(pool, ops, true)
	m := xvm.NewMachine(g)
	hlp.Ok(m.Run(context.Background()), "run")
	results(m, pool)
	m.Close()
}

// shapes of graphs: a single operation, a chain, a diamond, an operand used twice, two outputs, a constant.
func program(k int, a, b hlp.V) []hlp.V {
	pool := []hlp.V{a, b}
	do := func(op hlp.Op, i, j int) {
		v, ok := op.Build(pool[i], pool[j])
		vsym.Assume(ok)
		pool = append(pool, v)
	}
	switch k {
	case 0:
		do(hlp.OpSub, 0, 1)
	case 1:
		do(hlp.OpSub, 0, 1)
		do(hlp.OpSub, 1, 2)
	case 2:
		do(hlp.OpNeg, 0, 0)
		do(hlp.OpSub, 0, 2)
	case 3:
		do(hlp.OpProd, 0, 0)
	case 4:
		do(hlp.OpSub, 0, 1)
		do(hlp.OpSub, 1, 0)
	case 5:
		do(hlp.OpRsubC, 0, 0)
	}
	return pool
}

// HSchedules: six graphs of up to two operations, run once in every schedule which differs from round robin in 1 place.
//
//vsym:paths=60000
func HSchedules() { schedules(6, 1) }

// HSchedules2: a single operation, run in every schedule which differs from round robin in up to 2 places.
//
//vsym:paths=60000
func HSchedules2() { schedules(1, 2) }

// HSchedulesLong: the six graphs, in every schedule which differs from round robin in up to 2 places.
//
//vsym:thorough
//vsym:paths=400000
func HSchedulesLong() { schedules(6, 2) }

func schedules(graphs, n int) {
	g := G.NewGraph()
	a, b := hlp.Sym(g, tensor.Float64, "a"), hlp.Sym(g, tensor.Float64, "b")
	pool := program(vsym.Choice("graph", graphs), a.V(), b.V())
	m := xvm.NewMachine(g)
	vsym.Delays(n)
	err := m.Run(context.Background())
	vsym.Delays(-1)
	hlp.Ok(err, "run")
	results(m, pool)
	m.Close()
}

// HAgain: two runs of a machine, one of them in any schedule which differs from round robin in 1 place.
//
//vsym:paths=60000
func HAgain() {
	g := G.NewGraph()
	a, b := hlp.Sym(g, tensor.Float64, "a"), hlp.Sym(g, tensor.Float64, "b")
	pool := program(vsym.Choice("graph", 5), a.V(), b.V())
	m := xvm.NewMachine(g)
	first := vsym.Choice("first", 2)
	for i := 0; i < 2; i++ {
		if i == 1-first {
			vsym.Delays(1)
		} else {
			vsym.Delays(0)
		}
		err := m.Run(context.Background())
		vsym.Delays(-1)
		hlp.Ok(err, "run")
		results(m, pool)
	}
	m.Close()
}

// HGrads: gradients which are part of the graph, for all programs of one operation out of 13: the cost is the sum of
// its elements and of the products of the inputs.
//
//vsym:paths=3000
func HGrads() {
	vsym.Generic(true)
	g := G.NewGraph()
	a, b := hlp.Sym(g, tensor.Float64, "a", 2, 2), hlp.SymPos(g, tensor.Float64, "b", 2, 2)
	ops := []hlp.Op{hlp.OpAdd, hlp.OpSub, hlp.OpProd, hlp.OpDiv, hlp.OpMatMul, hlp.OpConcat, hlp.OpNeg, hlp.OpSq, hlp.OpExp, hlp.OpTanh, hlp.OpTrans, hlp.OpReshape, hlp.OpRsubC}
	pool := hlp.Extend([]hlp.V{a.V(), b.V()}, ops, false)
	cost, want := pool[2].N, 0.0
	for _, x := range pool[2].A.D {
		want += x
	}
	if !cost.IsScalar() {
		cost = hlp.Node(G.Sum(cost))
	}
	cost = hlp.Node(G.Add(cost, hlp.Node(G.Sum(hlp.Node(G.HadamardProd(a.N, b.N))))))
	for i := range a.X {
		want += a.X[i] * b.X[i]
	}
	grads, err := G.Grad(cost, a.N, b.N)
	hlp.Ok(err, "gradients")
	m := xvm.NewMachine(g)
	hlp.Ok(m.Run(context.Background()), "run")
	results(m, pool)
	hlp.ValIsArr(m.GetResult(cost.ID()), hlp.A([]float64{want}), hlp.Tol(tensor.Float64), "cost")
	for i, in := range []*hlp.In{a, b} {
		hlp.Deriv(want, in, m.GetResult(grads[i].ID()), "gradient", i)
	}
	m.Close()
}

// HSources: drawn values are drawn by each run, and used as drawn.
func HSources() {
	g := G.NewGraph()
	a := hlp.Sym(g, tensor.Float64, "a", 2)
	var r *G.Node
	if vsym.Choice("kind", 2) == 0 {
		r = G.UniformRandomNode(g, tensor.Float64, 1, 2, 2)
	} else {
		r = G.GaussianRandomNode(g, tensor.Float64, 1, 2, 2)
	}
	z := hlp.Node(G.Sub(r, a.N))
	m := xvm.NewMachine(g)
	for i := 0; i < 2; i++ {
		hlp.Ok(m.Run(context.Background()), "run")
		d := hlp.Nums(m.GetResult(r.ID()))
		hlp.ValIsArr(m.GetResult(z.ID()), hlp.Zip(hlp.A(d, 2), a.Arr(), func(x, y float64) float64 { return x - y }), hlp.Tol(tensor.Float64), "difference")
	}
	m.Close()
}

// HFault: an operation fails at any of three positions of two graphs, in schedules which differ from round robin in 1 place:
// the run gives an error that tells of the failure. Once the operation works the same machine gives the values.
//
//vsym:paths=60000
func HFault() {
	g := G.NewGraph()
	a, b := hlp.Sym(g, tensor.Float64, "a"), hlp.Sym(g, tensor.Float64, "b")
	at := vsym.Choice("position", 3)
	f := &hlp.Fault{On: true}
	x, y := a.N, b.N
	if at == 0 {
		x = hlp.Faulty(x, "f", f)
	}
	var z *G.Node
	if vsym.Choice("graph", 2) == 0 {
		z = hlp.Node(G.Sub(x, y))
	} else {
		z = hlp.Node(G.Sub(x, hlp.Node(G.Neg(y))))
	}
	want := a.X[0] - b.X[0]
	if len(g.AllNodes()) > 3+at/3+b2i(at == 0) {
		want = a.X[0] + b.X[0]
	}
	if at == 1 {
		z = hlp.Faulty(z, "f", f)
	}
	w := z
	if at == 2 {
		w = hlp.Node(G.Add(hlp.Faulty(z, "f", f), a.N))
		want += a.X[0]
	}
	m := xvm.NewMachine(g)
	vsym.Delays(1)
	err := m.Run(context.Background())
	vsym.Delays(-1)
	vsym.Assert(err != nil, "a run with a failing operation reported success")
	vsym.Assert(strings.Contains(err.Error(), hlp.ErrInjected.Error()), "the error of a run tells which failure caused it")
	f.On = false
	vsym.Delays(0)
	err = m.Run(context.Background())
	vsym.Delays(-1)
	hlp.Ok(err, "run after the failure")
	hlp.ValIsArr(m.GetResult(w.ID()), hlp.A([]float64{want}), hlp.Tol(tensor.Float64), "value after the failure")
	m.Close()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// HCancel: the context is cancelled before or while running, in schedules which differ from round robin in 1 place: the run
// ends, with an error or with the values. A later run gives the values.
//
//vsym:paths=60000
func HCancel() {
	g := G.NewGraph()
	a, b := hlp.Sym(g, tensor.Float64, "a"), hlp.Sym(g, tensor.Float64, "b")
	pool := program(vsym.Choice("graph", 4), a.V(), b.V())
	m := xvm.NewMachine(g)
	ctx, cancel := context.WithCancel(context.Background())
	early := vsym.Choice("early", 2) == 1
	vsym.Delays(1)
	if early {
		cancel()
	} else {
		go cancel()
	}
	err := m.Run(ctx)
	vsym.Delays(-1)
	if err == nil {
		results(m, pool)
	}
	vsym.Delays(0)
	err = m.Run(context.Background())
	vsym.Delays(-1)
	hlp.Ok(err, "run after cancelling")
	results(m, pool)
	m.Close()
}

// HUnbound: an input without a value is reported; a graph without nodes is run without effect.
func HUnbound() {
	g := G.NewGraph()
	if vsym.Choice("empty", 2) == 1 {
		m := xvm.NewMachine(g)
		hlp.Ok(m.Run(context.Background()), "run of nothing")
		m.Close()
		return
	}
	sh := [][]int{{}, {2}, {2, 2}}[vsym.Choice("shape", 3)]
	a := hlp.Sym(g, tensor.Float64, "a", sh...)
	b := G.NewTensor(g, tensor.Float64, len(sh), G.WithShape(sh...), G.WithName("b"))
	if len(sh) == 0 {
		b = G.NewScalar(g, tensor.Float64, G.WithName("b"))
	}
	switch vsym.Choice("use", 4) {
	case 0:
		hlp.Node(G.Add(a.N, b))
	case 1:
		hlp.Node(G.Sub(b, a.N))
	case 2:
		hlp.Node(G.Neg(b))
	case 3:
		hlp.Node(G.Add(hlp.Node(G.Neg(a.N)), b))
	}
	m := xvm.NewMachine(g)
	err := m.Run(context.Background())
	vsym.Assert(err != nil, "a run without a value for an input reported success")
	m.Close()
}
