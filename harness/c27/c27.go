// Package c27: the ways of executing an operation agree.
package c27

import (
	"strings"

	rng "github.com/leesper/go_rng"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{hlp.F64, hlp.F32}

// walker evaluates every node of a graph from the values of its operands, one operation at a time and in every way.
type walker struct {
	g    *G.ExprGraph
	vals map[*G.Node]G.Value
	u    []float64 // random draws, the same in every way of executing
	pos  int
}

func children(g *G.ExprGraph, n *G.Node) []*G.Node {
	var r []*G.Node
	it := g.From(n.ID())
	for it != nil && it.Next() {
		r = append(r, it.Node().(*G.Node))
	}
	return r
}

func clones(vs []G.Value) []G.Value {
	var r []G.Value
	for _, v := range vs {
		c, err := G.CloneValue(v)
		hlp.Ok(err, "clone")
		r = append(r, c)
	}
	return r
}

func numeric(dt tensor.Dtype) bool { return dt == hlp.F64 || dt == hlp.F32 }

// accumulates tells whether the operation is the one that adds to a slice of the storage it is given: it is specified
// to add, so what it is given has to be clear.
func accumulates(op G.Op) bool { return strings.HasSuffix(op.String(), "+=...") }

// stale makes storage like v with arbitrary contents.
func stale(op G.Op, v G.Value, name string) (G.Value, []float64) {
	sh := v.Shape()
	x := hlp.Syms(name, sh.TotalSize())
	if accumulates(op) {
		for i := range x {
			x[i] = 0
		}
	}
	return hlp.Value(v.Dtype(), x, sh), x
}

func unchanged(got, want []G.Value, what string) {
	for i := range got {
		hlp.SameShape(got[i].Shape(), want[i].Shape(), "shape of an operand after "+what)
		if numeric(got[i].Dtype()) {
			hlp.Same(hlp.Nums(got[i]), hlp.Nums(want[i]), 1e-5, "operand after "+what)
		}
	}
}

func agree(got, want G.Value, what string) {
	hlp.SameShape(got.Shape(), want.Shape(), "shape from "+what)
	vsym.Assert(got.Dtype() == want.Dtype(), "type from "+what)
	if numeric(got.Dtype()) {
		hlp.Same(hlp.Nums(got), hlp.Nums(want), 1e-5, "result of "+what)
	}
}

func (w *walker) eval(n *G.Node) G.Value {
	if v, ok := w.vals[n]; ok {
		return v
	}
	op := n.Op()
	cs := children(w.g, n)
	if op == nil || len(cs) == 0 {
		w.vals[n] = n.Value()
		return n.Value()
	}
	var args []G.Value
	for _, c := range cs {
		args = append(args, w.eval(c))
	}
	keep := clones(args)
	do := func(what string, f func(args []G.Value) (G.Value, error)) (G.Value, []G.Value) {
		w.pos = 0
		in := clones(keep)
		v, err := f(in)
		hlp.Ok(err, what+" "+op.String())
		return v, in
	}
	base, in := do("plain execution", func(a []G.Value) (G.Value, error) { return op.Do(a...) })
	unchanged(in, keep, "plain execution")
	hlp.SameShape(base.Shape(), n.Shape(), "announced shape")
	base = clones([]G.Value{base})[0]
	again, _ := do("plain execution", func(a []G.Value) (G.Value, error) { return op.Do(a...) })
	agree(again, base, "executing again")
	if numeric(base.Dtype()) {
		_, scalar := base.(G.Scalar) // there is no storage to reuse in a scalar
		if pd, ok := op.(G.UsePreallocDoer); ok && !scalar {
			p, _ := stale(op, base, "stale")
			v, in := do("into storage", func(a []G.Value) (G.Value, error) { return pd.UsePreallocDo(p, a...) })
			agree(v, base, "executing into storage")
			unchanged(in, keep, "executing into storage")
		}
		if ud, ok := op.(G.UnsafeDoer); ok {
			v, _ := do("in place", func(a []G.Value) (G.Value, error) { return ud.UnsafeDo(a...) })
			agree(v, base, "executing in place")
		}
		ctx := G.ExecutionContext{Device: G.CPU}
		if _, ok := op.(G.IncrDoer); ok {
			p, x := stale(op, base, "sum")
			e := G.NewExternalOp(op, ctx, nil)
			e.Incr = p
			v, in := do("as an increment", func(a []G.Value) (G.Value, error) { return e.Do(a...) })
			hlp.SameShape(v.Shape(), base.Shape(), "shape from executing as an increment")
			want := hlp.Nums(base)
			for i := range want {
				want[i] += x[i]
			}
			hlp.Same(hlp.Nums(v), want, 1e-5, "result of executing as an increment")
			unchanged(in, keep, "executing as an increment")
		}
		if !scalar {
			p, _ := stale(op, base, "external")
			v, in := do("externally", func(a []G.Value) (G.Value, error) { return G.NewExternalOp(op, ctx, p).Do(a...) })
			agree(v, base, "executing externally into storage")
			unchanged(in, keep, "executing externally into storage")
		}
		e := G.NewExternalOp(op, ctx, nil)
		e.UseUnsafe = true
		v, _ := do("externally in place", func(a []G.Value) (G.Value, error) { return e.Do(a...) })
		agree(v, base, "executing externally in place")
	}
	w.vals[n] = base
	vsym.Cover("executed")
	return base
}

type shaped struct {
	shape []int
	pos   bool
}

type prog func(ins []*hlp.In) *G.Node

// modes builds an expression with its gradients and executes all its operations in every way.
func modes(dt tensor.Dtype, grad bool, sh []shaped, p prog) {
	vsym.Generic(true)
	g := G.NewGraph()
	var ins []*hlp.In
	var wrt G.Nodes
	for i, s := range sh {
		name := string(rune('a' + i))
		if s.pos {
			ins = append(ins, hlp.SymPos(g, dt, name, s.shape...))
		} else {
			ins = append(ins, hlp.Sym(g, dt, name, s.shape...))
		}
		wrt = append(wrt, ins[i].N)
	}
	w := &walker{g: g, vals: map[*G.Node]G.Value{}}
	rng.Draw = func() float64 {
		if w.pos == len(w.u) {
			v := vsym.Float64In("draw", 0, 1)
			vsym.Assume(v < 1)
			w.u = append(w.u, v)
		}
		w.pos++
		return w.u[w.pos-1]
	}
	out := p(ins)
	if grad {
		cost := hlp.Node(G.Square(out))
		if !cost.IsScalar() {
			cost = hlp.Node(G.Sum(cost))
		}
		_, err := G.Grad(cost, wrt...)
		hlp.Ok(err, "symbolic differentiation")
	}
	for _, n := range append(G.Nodes{}, g.AllNodes()...) {
		w.eval(n)
	}
}

func u(f func(*G.Node) (*G.Node, error)) prog {
	return func(ins []*hlp.In) *G.Node { return hlp.Node(f(ins[0].N)) }
}

func b(f func(a, b *G.Node) (*G.Node, error)) prog {
	return func(ins []*hlp.In) *G.Node { return hlp.Node(f(ins[0].N, ins[1].N)) }
}

// HBinary: elementwise operations on two matrices, vectors or scalars, and a tensor with a scalar.
//
//vsym:paths=4000
func HBinary() {
	fs := []func(a, b *G.Node) (*G.Node, error){G.Add, G.Sub, G.HadamardProd, G.HadamardDiv, G.Pow}
	shs := [][2][]int{{{2, 2}, {2, 2}}, {{2}, {2}}, {nil, nil}, {{2}, nil}, {nil, {2, 2}}, {{2, 1}, {2, 1}}, {{1}, {1}}, {{1}, nil}, {{1, 1}, {1, 1}}}
	s := shs[vsym.Choice("shapes", len(shs))]
	modes(dts[vsym.Choice("dtype", 2)], vsym.Bool("grad"), []shaped{{s[0], true}, {s[1], true}}, b(fs[vsym.Choice("op", len(fs))]))
}

// HCompare: comparisons and the smaller and larger of two.
//
//vsym:paths=4000
func HCompare() {
	same := func(f func(a, b *G.Node, s bool) (*G.Node, error), s bool) prog {
		return b(func(x, y *G.Node) (*G.Node, error) { return f(x, y, s) })
	}
	ret := vsym.Bool("same")
	ps := []prog{same(G.Lt, ret), same(G.Gt, ret), same(G.Lte, ret), same(G.Gte, ret), same(G.Eq, ret), same(G.Ne, ret), b(G.MinBetween), b(G.MaxBetween)}
	k := vsym.Choice("op", len(ps))
	shs := [][2][]int{{{2}, {2}}, {nil, nil}, {{1, 2}, nil}, {nil, {2}}, {{1}, {1}}}
	i := vsym.Choice("shapes", len(shs))
	s := shs[i]
	vsym.Assume(k < 6 || ret && (i == 0 || i == 4)) // the smaller and the larger are of tensors of one shape
	modes(dts[vsym.Choice("dtype", 2)], false, []shaped{{s[0], false}, {s[1], false}}, ps[k])
}

// HUnary: elementwise functions with their gradients.
//
//vsym:paths=4000
func HUnary() {
	fs := []func(*G.Node) (*G.Node, error){G.Sin, G.Cos, G.Exp, G.Log, G.Neg, G.Square, G.Sqrt, G.Inverse, G.InverseSqrt, G.Cube, G.Tanh, G.Log1p, G.Expm1, G.Log2, G.Abs}
	shs := [][]int{{2, 2}, {2}, {1}, nil, {1, 2}}
	modes(dts[vsym.Choice("dtype", 2)], vsym.Bool("grad"), []shaped{{shs[vsym.Choice("shape", len(shs))], true}}, u(fs[vsym.Choice("op", len(fs))]))
}

// HLinalg: products of vectors, matrices and batches with their gradients.
//
//vsym:paths=4000
func HLinalg() {
	type c struct {
		a, b []int
		p    prog
	}
	cs := []c{
		{[]int{2, 3}, []int{3, 2}, b(G.Mul)}, {[]int{1, 2}, []int{2, 1}, b(G.Mul)}, {[]int{2, 1}, []int{1, 2}, b(G.Mul)}, {[]int{2, 3}, []int{3}, b(G.Mul)}, {[]int{2}, []int{2, 3}, b(G.Mul)},
		{[]int{2}, []int{2}, b(G.Mul)}, {[]int{2}, []int{3}, b(G.OuterProd)}, {[]int{1, 1}, []int{1, 1}, b(G.Mul)},
		{[]int{2, 1, 2}, []int{2, 2, 1}, b(func(x, y *G.Node) (*G.Node, error) { return G.BatchedMatMul(x, y) })},
		{[]int{2, 2, 1}, []int{2, 2, 1}, b(func(x, y *G.Node) (*G.Node, error) { return G.BatchedMatMul(x, y, true, false) })},
		{[]int{2, 1, 2}, []int{2, 1, 2}, b(func(x, y *G.Node) (*G.Node, error) { return G.BatchedMatMul(x, y, false, true) })},
		{[]int{2, 3}, []int{2, 2}, b(func(x, y *G.Node) (*G.Node, error) { return G.Tensordot([]int{0}, []int{1}, x, y) })},
		{[]int{2, 2, 1}, []int{2, 2}, b(func(x, y *G.Node) (*G.Node, error) { return G.Tensordot([]int{1}, []int{0}, x, y) })},
		{[]int{2, 3}, []int{2, 2}, b(func(x, y *G.Node) (*G.Node, error) { return G.Mul(hlp.Node(G.Transpose(x)), y) })},
	}
	k := cs[vsym.Choice("case", len(cs))]
	modes(dts[vsym.Choice("dtype", 2)], vsym.Bool("grad"), []shaped{{k.a, false}, {k.b, false}}, k.p)
}

// HShapes: reductions, selections and rearrangements with their gradients.
//
//vsym:paths=4000
func HShapes() {
	type c struct {
		sh []int
		f  func(n *G.Node) (*G.Node, error)
	}
	cs := []c{
		{[]int{2, 3}, func(n *G.Node) (*G.Node, error) { return G.Sum(n) }},
		{[]int{2, 3}, func(n *G.Node) (*G.Node, error) { return G.Sum(n, 0) }},
		{[]int{2, 3}, func(n *G.Node) (*G.Node, error) { return G.Sum(n, 1) }},
		{[]int{2, 1, 2}, func(n *G.Node) (*G.Node, error) { return G.Sum(n, 0, 2) }},
		{[]int{2, 3}, func(n *G.Node) (*G.Node, error) { return G.Mean(n, 0) }},
		{[]int{3}, func(n *G.Node) (*G.Node, error) { return G.Norm(n, 0, 2) }},
		{[]int{2, 3}, func(n *G.Node) (*G.Node, error) { return G.Slice(n, G.S(1)) }},
		{[]int{2, 3}, func(n *G.Node) (*G.Node, error) { return G.Slice(n, nil, G.S(1, 3)) }},
		{[]int{3}, func(n *G.Node) (*G.Node, error) { return G.Slice(n, G.S(0, 2)) }},
		{[]int{3}, func(n *G.Node) (*G.Node, error) { return G.Slice(n, G.S(1)) }},
		{[]int{2, 3}, func(n *G.Node) (*G.Node, error) { return G.Reshape(n, tensor.Shape{3, 2}) }},
		{[]int{2, 3}, func(n *G.Node) (*G.Node, error) { return G.Ravel(n) }},
		{[]int{2, 3}, func(n *G.Node) (*G.Node, error) { return G.Transpose(n) }},
		{[]int{2, 1, 3}, func(n *G.Node) (*G.Node, error) { return G.Transpose(n, 2, 0, 1) }},
		{[]int{2, 2}, func(n *G.Node) (*G.Node, error) { return G.Concat(1, n, n) }},
		{[]int{2}, func(n *G.Node) (*G.Node, error) { return G.Concat(0, n, hlp.Node(G.Neg(n)), n) }},
		{[]int{2, 3}, func(n *G.Node) (*G.Node, error) {
			return G.KeepDims(n, false, func(a *G.Node) (*G.Node, error) { return G.Sum(a, 1) })
		}},
	}
	k := cs[vsym.Choice("case", len(cs))]
	modes(dts[vsym.Choice("dtype", 2)], vsym.Bool("grad"), []shaped{{k.sh, false}}, u(k.f))
}

// HBroadcast: broadcasting operations with their gradients.
//
//vsym:paths=4000
func HBroadcast() {
	fs := []func(a, b *G.Node, l, r []byte) (*G.Node, error){G.BroadcastAdd, G.BroadcastSub, G.BroadcastHadamardProd, G.BroadcastHadamardDiv}
	f := fs[vsym.Choice("op", len(fs))]
	var p prog
	sh := []shaped{{[]int{2, 3}, true}, {[]int{1, 3}, true}}
	switch vsym.Choice("pattern", 4) {
	case 0:
		p = b(func(x, y *G.Node) (*G.Node, error) { return f(x, y, nil, []byte{0}) })
	case 1:
		p = b(func(x, y *G.Node) (*G.Node, error) { return f(y, x, []byte{0}, nil) })
	case 2:
		sh[1].shape = []int{2, 1}
		p = b(func(x, y *G.Node) (*G.Node, error) { return f(x, y, nil, []byte{1}) })
	case 3:
		sh[1].shape = []int{3}
		p = b(func(x, y *G.Node) (*G.Node, error) { return f(x, y, nil, []byte{0}) })
	}
	modes(dts[vsym.Choice("dtype", 2)], vsym.Bool("grad"), sh, p)
}

// HLayers: layers of neural networks with their gradients.
//
//vsym:paths=6000
func HLayers() {
	type c struct {
		sh []shaped
		p  prog
	}
	one, zero := []int{1, 1}, []int{0, 0}
	cs := []c{
		{[]shaped{{[]int{1, 1, 1, 3}, false}}, u(func(n *G.Node) (*G.Node, error) { return G.MaxPool2D(n, tensor.Shape{1, 2}, zero, one) })},
		{[]shaped{{[]int{1, 2, 2, 1}, false}}, u(func(n *G.Node) (*G.Node, error) { return G.AveragePool2D(n, tensor.Shape{2, 1}, one, one) })},
		{[]shaped{{[]int{1, 2, 1, 2}, false}}, u(func(n *G.Node) (*G.Node, error) { return G.Upsample2D(n, 1) })},
		{[]shaped{{[]int{1, 1, 2, 2}, false}, {[]int{2, 1, 2, 1}, false}}, b(func(x, y *G.Node) (*G.Node, error) {
			return G.Conv2d(x, y, tensor.Shape{2, 1}, []int{1, 0}, one, one)
		})},
		{[]shaped{{[]int{1, 1, 3, 3}, false}, {[]int{1, 1, 2, 2}, false}}, b(func(x, y *G.Node) (*G.Node, error) {
			return G.Conv2d(x, y, tensor.Shape{2, 2}, zero, []int{2, 1}, one)
		})},
		{[]shaped{{[]int{1, 2}, false}}, u(func(n *G.Node) (*G.Node, error) { return G.SoftMax(n, 1) })},
		{[]shaped{{[]int{2}, false}}, u(func(n *G.Node) (*G.Node, error) { return G.LogSoftMax(n) })},
		{[]shaped{{[]int{2}, false}}, u(G.Rectify)},
		{[]shaped{{[]int{2}, false}}, u(func(n *G.Node) (*G.Node, error) { return G.LeakyRelu(n, 0.25) })},
		{[]shaped{{[]int{1}, false}}, u(G.Sigmoid)},
		{[]shaped{{[]int{1}, false}}, u(G.Softplus)},
		{[]shaped{{[]int{2, 2, 1, 1}, true}, {[]int{2, 2, 1, 1}, true}, {[]int{2, 2, 1, 1}, true}}, func(ins []*hlp.In) *G.Node {
			y, _, _, _, err := G.BatchNorm(ins[0].N, ins[1].N, ins[2].N, 0.5, 0.25)
			return hlp.Node(y, err)
		}},
		{[]shaped{{[]int{1, 2, 1, 2}, true}, {[]int{1, 2, 1, 1}, true}, {[]int{1, 2, 1, 1}, true}}, func(ins []*hlp.In) *G.Node {
			return hlp.Node(G.GroupNorm(ins[0].N, ins[1].N, ins[2].N, 1, 2, 0.25))
		}},
	}
	k := cs[vsym.Choice("case", len(cs))]
	modes(dts[vsym.Choice("dtype", 2)], vsym.Bool("grad"), k.sh, k.p)
}

// HDropout: dropping out elements by the same draws.
//
//vsym:paths=4000
func HDropout() {
	modes(dts[vsym.Choice("dtype", 2)], vsym.Bool("grad"), []shaped{{[]int{2}, true}}, u(func(n *G.Node) (*G.Node, error) { return G.Dropout(n, 0.5) }))
}

// HConvert: conversion of whole numbers.
func HConvert() {
	to := dts[vsym.Choice("to", 2)]
	shs := [][]int{{2}, nil, {2, 1}}
	sh := shs[vsym.Choice("shape", len(shs))]
	g := G.NewGraph()
	var n *G.Node
	x := make([]int, hlp.Prod(sh))
	for i := range x {
		x[i] = vsym.Int("x", -1000, 1000)
	}
	var v G.Value = G.NewI(x[0])
	if sh == nil {
		n = G.NewScalar(g, tensor.Int, G.WithName("x"))
	} else {
		v = tensor.New(tensor.WithShape(sh...), tensor.WithBacking(x))
		n = G.NewTensor(g, tensor.Int, len(sh), G.WithShape(sh...), G.WithName("x"))
	}
	hlp.Ok(G.Let(n, v), "let")
	c, err := G.ConvType(n, tensor.Int, to)
	hlp.Ok(err, "conversion")
	w := &walker{g: g, vals: map[*G.Node]G.Value{}}
	got := w.eval(c)
	want := make([]float64, len(x))
	for i := range x {
		want[i] = float64(x[i])
	}
	hlp.Same(hlp.Nums(got), want, 1e-5, "converted")
}
