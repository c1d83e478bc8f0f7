// Package c01: running a compiled graph computes the function the graph denotes.
package c01

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{tensor.Float64, tensor.Float32}

// roots are the members of the pool no other member uses.
func isRoot(n *G.Node, g *G.ExprGraph) bool {
	for _, r := range g.Roots() {
		if r == n {
			return true
		}
	}
	return false
}

// check runs the graph in one of three ways and compares: plainly (outputs), tracing (every node), and with a read-out
// of every node.
func check(g *G.ExprGraph, pool []hlp.V, way int) {
	switch way {
	case 0:
		hlp.RunTape(g)
		for _, v := range pool {
			if isRoot(v.N, g) {
				hlp.IsArr(v.N, v.A, "output")
			}
		}
		vsym.Cover("outputs")
	case 1:
		hlp.RunTape(g, G.TraceExec())
		for _, v := range pool {
			hlp.IsArr(v.N, v.A, "traced value")
		}
		vsym.Cover("traced")
	case 2:
		out := make([]G.Value, len(pool))
		for i, v := range pool {
			G.Read(v.N, &out[i])
		}
		hlp.RunTape(g)
		for i, v := range pool {
			hlp.ValIsArr(out[i], v.A, hlp.Tol(v.N.Dtype()), "value read out")
		}
		vsym.Cover("read out")
	}
}

// HTwo: all programs of two operations out of 17 over two 2x2 inputs.
//
//vsym:paths=9000
func HTwo() {
	g := G.NewGraph()
	pool := []hlp.V{hlp.Sym(g, tensor.Float64, "a", 2, 2).V(), hlp.SymPos(g, tensor.Float64, "b", 2, 2).V()}
	pool = hlp.Extend(pool, hlp.Wide, false)
	pool = hlp.Extend(pool, hlp.Wide, true)
	check(g, pool, vsym.Choice("way", 3))
}

// HThree: all programs of three operations out of 5 over two 2x2 inputs where each operation uses the previous result.
//
//vsym:paths=20000
func HThree() {
	g := G.NewGraph()
	pool := []hlp.V{hlp.Sym(g, tensor.Float64, "a", 2, 2).V(), hlp.Sym(g, tensor.Float64, "b", 2, 2).V()}
	pool = hlp.Extend(pool, hlp.Core, false)
	pool = hlp.Extend(pool, hlp.Core, true)
	pool = hlp.Extend(pool, hlp.Core, true)
	check(g, pool, 2*vsym.Choice("way", 2))
}

// HFork: three operations where the last two are independent of each other or share operands freely (several outputs).
//
//vsym:paths=20000
func HFork() {
	ops := []hlp.Op{hlp.OpSub, hlp.OpProd, hlp.OpTrans, hlp.OpAddC}
	g := G.NewGraph()
	dt := dts[vsym.Choice("width", 2)]
	pool := []hlp.V{hlp.Sym(g, dt, "a", 2, 2).V()}
	pool = hlp.Extend(pool, ops, false)
	pool = hlp.Extend(pool, ops, false)
	pool = hlp.Extend(pool, ops, false)
	check(g, pool, vsym.Choice("way", 2))
}

// HScalars: all programs of two operations on two scalars, and on a scalar and a vector.
//
//vsym:paths=9000
func HScalars() {
	ops := []hlp.Op{hlp.OpAdd, hlp.OpSub, hlp.OpProd, hlp.OpDiv, hlp.OpNeg, hlp.OpSq, hlp.OpTanh, hlp.OpSum, hlp.OpAddC, hlp.OpRsubC}
	g := G.NewGraph()
	dt := dts[vsym.Choice("width", 2)]
	pool := []hlp.V{hlp.SymPos(g, dt, "a").V()}
	if vsym.Choice("second", 2) == 0 {
		pool = append(pool, hlp.SymPos(g, dt, "b").V())
	} else {
		pool = append(pool, hlp.SymPos(g, dt, "b", 2).V())
	}
	pool = hlp.Extend(pool, ops, false)
	pool = hlp.Extend(pool, ops, true)
	check(g, pool, vsym.Choice("way", 3))
}

// HRead: a read-out in the middle of a program sees the value at that point, whichever node is read and wherever the read-out is
// attached.
func HRead() {
	g := G.NewGraph()
	a, b := hlp.Sym(g, tensor.Float64, "a", 2), hlp.Sym(g, tensor.Float64, "b", 2)
	var got G.Value
	k := vsym.Choice("node", 4)
	after := vsym.Choice("after", 2) == 1
	pool := []hlp.V{a.V(), b.V()}
	step := func(op hlp.Op, i, j int) {
		v, ok := op.Build(pool[i], pool[j])
		vsym.Assume(ok)
		pool = append(pool, v)
		if !after && len(pool)-2 == k+1 {
			G.Read(pool[len(pool)-1].N, &got)
		}
	}
	step(hlp.OpAdd, 0, 1)
	step(hlp.OpTanh, 2, 2)
	step(hlp.OpProd, 3, 2)
	step(hlp.OpNeg, 4, 4)
	if after {
		G.Read(pool[k+2].N, &got)
	}
	hlp.RunTape(g)
	hlp.ValIsArr(got, pool[k+2].A, 1e-6, "value read out")
	hlp.IsArr(pool[5].N, pool[5].A, "output")
}

// HMLP: a two-layer network with biases, shared weights and two outputs, on 2x3 inputs.
func HMLP() {
	g := G.NewGraph()
	dt := dts[vsym.Choice("width", 2)]
	x := hlp.Sym(g, dt, "x", 2, 3)
	w, v := hlp.Sym(g, dt, "w", 3, 2), hlp.Sym(g, dt, "v", 2, 2)
	bias := hlp.Sym(g, dt, "bias", 2)
	l1 := hlp.Node(G.BroadcastAdd(hlp.Node(G.Mul(x.N, w.N)), bias.N, nil, []byte{0}))
	h := hlp.Node(G.Tanh(l1))
	l2 := hlp.Node(G.Mul(h, v.N))
	l3 := hlp.Node(G.Mul(l2, v.N))
	out := hlp.Node(G.Sum(hlp.Node(G.Square(hlp.Node(G.Sub(l3, l2))))))
	mean := hlp.Node(G.Mean(l3, 0))
	hlp.RunTape(g)
	l1a := hlp.Dot(x.Arr(), w.Arr(), []int{1}, []int{0})
	ha := hlp.Build([]int{2, 2}, func(ix []int) float64 { return vsym.Tanh(l1a.At(ix...) + bias.X[ix[1]]) })
	l2a := hlp.Dot(ha, v.Arr(), []int{1}, []int{0})
	l3a := hlp.Dot(l2a, v.Arr(), []int{1}, []int{0})
	s := 0.0
	for i := range l3a.D {
		s += (l3a.D[i] - l2a.D[i]) * (l3a.D[i] - l2a.D[i])
	}
	hlp.Same(hlp.Nums(out.Value()), []float64{s}, hlp.Tol(dt), "cost")
	hlp.IsArr(mean, hlp.A([]float64{(l3a.D[0] + l3a.D[2]) / 2, (l3a.D[1] + l3a.D[3]) / 2}, 2), "mean")
}

// HConstants: constants on either side, shared or repeated, scalar and tensor.
func HConstants() {
	g := G.NewGraph()
	a := hlp.Sym(g, tensor.Float64, "a", 2)
	var c *G.Node
	var cv []float64
	if vsym.Choice("form", 2) == 0 {
		c, cv = G.NewConstant(2.0), []float64{2, 2}
	} else {
		c, cv = G.NewConstant(tensor.New(tensor.WithShape(2), tensor.WithBacking([]float64{2, 5}))), []float64{2, 5}
	}
	y := hlp.Node(G.HadamardProd(a.N, c))
	z := hlp.Node(G.Sub(c, y))
	o := G.NewConstant(1.0)
	u := hlp.Node(G.Add(hlp.Node(G.HadamardProd(z, o)), o))
	hlp.RunTape(g)
	hlp.Is(u, []float64{cv[0] - a.X[0]*cv[0] + 1, cv[1] - a.X[1]*cv[1] + 1}, "value")
	hlp.Is(a.N, a.X, "input changed")
}

// HDeep: chains of eight operations alternating in-place capable and other operations.
func HDeep() {
	g := G.NewGraph()
	dt := dts[vsym.Choice("width", 2)]
	a, b := hlp.Sym(g, dt, "a", 2, 2), hlp.Sym(g, dt, "b", 2, 2)
	pool := []hlp.V{a.V(), b.V()}
	seqs := [][]hlp.Op{
		{hlp.OpAdd, hlp.OpNeg, hlp.OpMatMul, hlp.OpSub, hlp.OpTrans, hlp.OpProd, hlp.OpSq, hlp.OpAdd},
		{hlp.OpTrans, hlp.OpMatMul, hlp.OpMatMul, hlp.OpAdd, hlp.OpNeg, hlp.OpSub, hlp.OpTrans, hlp.OpAdd},
		{hlp.OpProd, hlp.OpTanh, hlp.OpAddC, hlp.OpMatMul, hlp.OpTrans, hlp.OpSub, hlp.OpRsubC, hlp.OpProd},
	}
	s := seqs[vsym.Choice("sequence", len(seqs))]
	back := 1 + vsym.Choice("distance", 5)
	for _, op := range s {
		n := len(pool)
		j := n - 1 - back
		if j < 0 {
			j = 0
		}
		v, ok := op.Build(pool[n-1], pool[j])
		vsym.Assume(ok)
		pool = append(pool, v)
	}
	check(g, pool, vsym.Choice("way", 3))
}

// HViews: every operation of the catalogue of operations on operands that are transposes or slices, and on inputs bound to strided views
// and transposed tensors: the result is that for the same elements held contiguously.
//
//vsym:paths=9000
func HViews() {
	vsym.Generic(true)
	es := hlp.Catalog()
	e := es[vsym.Choice("operation", len(es))]
	form := vsym.Choice("form", hlp.Forms)
	dt := dts[vsym.Choice("width", 2)]
	xs := e.Draw()
	g := G.NewGraph()
	ns, ins, any := e.Viewed(g, dt, xs, form)
	vsym.Assume(any)
	y := hlp.Node(e.F(ns))
	alone := G.NewGraph()
	want := e.Build(e.Ins(alone, dt, xs))
	hlp.RunTape(alone)
	hlp.RunTape(g)
	hlp.SameShape(y.Value().Shape(), want.Value().Shape(), "shape of the result")
	hlp.Same(hlp.Nums(y.Value()), hlp.Nums(want.Value()), hlp.Tol(dt)*10, "result on a view")
	for _, in := range ins {
		hlp.Same(hlp.Nums(in.N.Value()), in.X, hlp.Tol(dt), "input after the run")
	}
	vsym.Cover("viewed")
}
