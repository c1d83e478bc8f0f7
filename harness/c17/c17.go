// Package c17: what a machine computes does not depend on what it ran before.
package c17

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{hlp.F64, hlp.F32}

// shape of an input; positive contents if pos.
type shaped struct {
	shape []int
	pos   bool
}

func draw(sh []shaped) [][]float64 {
	var r [][]float64
	for i, s := range sh {
		name := string(rune('a' + i))
		if s.pos {
			r = append(r, hlp.SymsPos(name, hlp.Prod(s.shape), 0))
		} else {
			r = append(r, hlp.Syms(name, hlp.Prod(s.shape)))
		}
	}
	return r
}

func inputs(g *G.ExprGraph, dt tensor.Dtype, sh []shaped, xs [][]float64) []*hlp.In {
	var r []*hlp.In
	for i, s := range sh {
		r = append(r, hlp.Var(g, dt, string(rune('a'+i)), xs[i], s.shape...))
	}
	return r
}

// between are the things that can happen between two runs.
const (
	resetThenBind = iota
	bindThenReset
	runAgain
	failFirst
	failLater
	newMachine
	unbindResults
	unbindMachine
	ways
)

// setup is a graph with a cost, everything in it that is compared, and a fault.
type setup struct {
	g     *G.ExprGraph
	ins   []*hlp.In
	vals  []*G.Value
	grads G.Nodes
	cost  *G.Node
	fault hlp.Fault
	m     G.VM
}

type prog func(ins []*hlp.In) []*G.Node

func build(dt tensor.Dtype, lisp, fwd, faulty bool, sh []shaped, xs [][]float64, w float64, p prog) *setup {
	s := &setup{g: G.NewGraph()}
	s.ins = inputs(s.g, dt, sh, xs)
	ns := p(s.ins)
	for _, n := range ns {
		s.vals = append(s.vals, hlp.Watch(n))
	}
	if fwd {
		s.machine(lisp, fwd)
		return s
	}
	var cost *G.Node
	if faulty {
		ns = append(ns, s.ins[0].N)
	}
	for _, n := range ns {
		if faulty && !n.IsScalar() {
			n = hlp.Faulty(n, "f", &s.fault)
		}
		t := hlp.Node(G.Square(n))
		if !t.IsScalar() {
			t = hlp.Node(G.Sum(t))
		}
		if cost == nil {
			cost = t
		} else {
			cost = hlp.Node(G.Add(cost, t))
		}
	}
	s.cost = cost
	s.vals = append(s.vals, hlp.Watch(cost))
	if !lisp {
		var wrt G.Nodes
		for _, in := range s.ins {
			wrt = append(wrt, in.N)
		}
		var err error
		s.grads, err = G.Grad(cost, wrt...)
		hlp.Ok(err, "symbolic differentiation")
		for _, n := range s.grads {
			s.vals = append(s.vals, hlp.Watch(n))
		}
	}
	s.machine(lisp, fwd)
	return s
}

func (s *setup) machine(lisp, fwd bool) {
	switch {
	case lisp && fwd:
		s.m = G.NewLispMachine(s.g, G.ExecuteFwdOnly())
	case lisp:
		s.m = G.NewLispMachine(s.g)
	case fwd:
		s.m = G.NewTapeMachine(s.g)
	default:
		var wrt G.Nodes
		for _, in := range s.ins {
			wrt = append(wrt, in.N)
		}
		s.m = G.NewTapeMachine(s.g, G.BindDualValues(wrt...))
	}
}

func (s *setup) bind(xs [][]float64) {
	for i, in := range s.ins {
		in.Rebind(xs[i])
	}
}

// gradients are what is attached to the inputs.
func (s *setup) gradients() [][]float64 {
	var r [][]float64
	for _, in := range s.ins {
		d, err := in.N.Grad()
		hlp.Ok(err, "gradient")
		r = append(r, append([]float64{}, hlp.Nums(d)...))
	}
	return r
}

// history runs a machine on several inputs in turn and compares each run with a fresh graph and machine; the attached
// gradients are the sums of those of the fresh machines.
func history(dt tensor.Dtype, lisp, fwd bool, way, runs int, sh []shaped, p prog) {
	faulty := way == failFirst || way == failLater
	xs := draw(sh)
	s := build(dt, lisp, fwd, faulty, sh, xs, 1, p)
	tol := hlp.Tol(dt) * 10
	var sum [][]float64
	for k := 0; k < runs; k++ {
		if faulty && (k == 0) == (way == failFirst) {
			s.fault.On = true
			err := s.m.RunAll()
			vsym.Assert(err != nil, "a failing operation is not reported")
			s.fault.On = false
			s.m.Reset()
			if way == failLater {
				s.bind(xs)
			}
		}
		hlp.Ok(s.m.RunAll(), "run")
		f := build(dt, lisp, fwd, faulty, sh, xs, 1, p)
		hlp.Ok(f.m.RunAll(), "fresh run")
		for i := range s.vals {
			hlp.SameShape((*s.vals[i]).Shape(), (*f.vals[i]).Shape(), "shape")
			hlp.Same(hlp.Nums(*s.vals[i]), hlp.Nums(*f.vals[i]), tol, "value in a later run")
		}
		for i, in := range s.ins {
			hlp.Is(in.N, xs[i], "input")
		}
		if !fwd {
			d := f.gradients()
			if sum == nil {
				sum = d
			} else {
				for i := range d {
					for j := range d[i] {
						sum[i][j] += d[i][j]
					}
				}
			}
			for i, x := range s.gradients() {
				hlp.Same(x, sum[i], tol, "attached gradient")
			}
		}
		if k == runs-1 {
			break
		}
		switch way {
		case resetThenBind, failFirst, failLater:
			s.m.Reset()
			xs = draw(sh)
			s.bind(xs)
		case bindThenReset:
			xs = draw(sh)
			s.bind(xs)
			s.m.Reset()
		case runAgain:
			s.m.Reset()
		case newMachine:
			xs = draw(sh)
			s.bind(xs)
			hlp.Ok(s.m.Close(), "close")
			s.machine(lisp, fwd)
		case unbindResults:
			s.m.Reset()
			s.g.UnbindAllNonInputs()
			xs = draw(sh)
			s.bind(xs)
		case unbindMachine:
			hlp.Ok(s.m.Close(), "close")
			s.g.UnbindAllNonInputs()
			s.machine(lisp, fwd)
		}
	}
	vsym.Cover("runs")
}

func matrix(pos bool) []shaped { return []shaped{{[]int{2, 2}, false}, {[]int{2, 2}, pos}} }

// HPrograms: two runs of all programs of two operations out of 15, evaluated only.
//
//vsym:paths=6000
func HPrograms() {
	lisp := vsym.Bool("lisp")
	ops := []hlp.Op{hlp.OpAdd, hlp.OpSub, hlp.OpProd, hlp.OpDiv, hlp.OpMatMul, hlp.OpConcat, hlp.OpNeg, hlp.OpSq, hlp.OpTanh, hlp.OpTrans, hlp.OpSum, hlp.OpSumRow, hlp.OpRow, hlp.OpReshape, hlp.OpAddC}
	var rec []int
	history(hlp.F64, lisp, true, resetThenBind, 2, matrix(true), func(ins []*hlp.In) []*G.Node {
		return steps(&rec, ins, ops, ops)
	})
}

// steps builds a program of two operations: the second uses the result of the first. The choices are made once and kept.
func steps(rec *[]int, ins []*hlp.In, first, second []hlp.Op) []*G.Node {
	pos := 0
	choice := func(name string, n int) int {
		if pos == len(*rec) {
			*rec = append(*rec, vsym.Choice(name, n))
		}
		pos++
		return (*rec)[pos-1]
	}
	op := first[choice("first", len(first))]
	x, y := ins[0].V(), ins[1].V()
	v, ok := op.Build(x, y)
	vsym.Assume(ok)
	op2 := second[choice("second", len(second))]
	var u hlp.V
	if op2.Arity == 1 {
		u, ok = op2.Build(v, v)
	} else {
		switch choice("operands", 3) {
		case 0:
			u, ok = op2.Build(v, x)
		case 1:
			u, ok = op2.Build(y, v)
		case 2:
			u, ok = op2.Build(v, v)
		}
	}
	vsym.Assume(ok)
	// nothing is left over which is not part of the result
	ns := []*G.Node{u.N}
	if op.Arity == 1 {
		ns = append(ns, hlp.Node(G.Neg(y.N)))
	}
	return ns
}

// HGradients: two runs with gradients of programs of two operations in every way of going on after a run.
//
//vsym:paths=6000
func HGradients() {
	vsym.Generic(true)
	lisp := vsym.Bool("lisp")
	way := vsym.Choice("way", ways)
	first := []hlp.Op{hlp.OpAdd, hlp.OpProd, hlp.OpMatMul, hlp.OpTrans}
	second := []hlp.Op{hlp.OpSub, hlp.OpProd, hlp.OpMatMul, hlp.OpTrans, hlp.OpSum}
	var rec []int
	history(hlp.F64, lisp, false, way, 2, matrix(false), func(ins []*hlp.In) []*G.Node {
		return steps(&rec, ins, first, second)
	})
}

// HThreeRuns: three runs with gradients of a small network, both widths, every way of going on.
//
//vsym:paths=6000
func HThreeRuns() {
	vsym.Generic(true)
	lisp := vsym.Bool("lisp")
	dt := dts[vsym.Choice("dtype", 2)]
	way := vsym.Choice("way", ways)
	history(dt, lisp, false, way, 3, []shaped{{[]int{2}, false}, {[]int{2, 2}, false}, {[]int{2}, false}}, func(ins []*hlp.In) []*G.Node {
		h := hlp.Node(G.Mul(ins[1].N, ins[0].N))
		return []*G.Node{hlp.Node(G.Add(h, ins[2].N)), hlp.Node(G.HadamardProd(ins[2].N, ins[0].N))}
	})
}

// HSixRuns: six runs with gradients of a product and a sum, both widths, every way of going on.
//
//vsym:paths=400
func HSixRuns() {
	vsym.Generic(true)
	lisp := vsym.Choice("lisp", 2) == 1
	dt := dts[vsym.Choice("dtype", 2)]
	way := vsym.Choice("way", ways)
	history(dt, lisp, false, way, 6, []shaped{{[]int{2}, false}, {[]int{2}, false}}, func(ins []*hlp.In) []*G.Node {
		h := hlp.Node(G.HadamardProd(ins[1].N, ins[0].N))
		return []*G.Node{hlp.Node(G.Add(h, ins[1].N))}
	})
}

func u(f func(*G.Node) (*G.Node, error)) prog {
	return func(ins []*hlp.In) []*G.Node { return []*G.Node{hlp.Node(f(ins[0].N))} }
}

// HLayers: two runs with gradients of operations which keep something between runs or have their own way of storing
// results, both machines and widths, bound again or run again.
//
//vsym:paths=9000
func HLayers() {
	vsym.Generic(true)
	lisp := vsym.Bool("lisp")
	dt := dts[vsym.Choice("dtype", 2)]
	way := vsym.Choice("way", 2)
	if way == 1 {
		way = runAgain
	}
	im := []shaped{{[]int{1, 1, 2, 2}, false}}
	mat := []shaped{{[]int{2, 2}, true}}
	two := []shaped{{[]int{2, 2}, true}, {[]int{2, 2}, true}}
	one := []int{1, 1}
	zero := []int{0, 0}
	layers := []layer{
		{im, u(func(n *G.Node) (*G.Node, error) { return G.AveragePool2D(n, tensor.Shape{2, 1}, zero, one) })},
		{im, u(func(n *G.Node) (*G.Node, error) { return G.Upsample2D(n, 1) })},
		{[]shaped{{[]int{1, 1, 2, 2}, false}, {[]int{1, 1, 2, 1}, false}}, func(ins []*hlp.In) []*G.Node {
			return []*G.Node{hlp.Node(G.Conv2d(ins[0].N, ins[1].N, tensor.Shape{2, 1}, []int{1, 0}, one, one))}
		}},
		{mat, u(func(n *G.Node) (*G.Node, error) { return G.Sum(n, 0) })},
		{mat, u(func(n *G.Node) (*G.Node, error) { return G.Mean(n, 1) })},
		{mat, u(func(n *G.Node) (*G.Node, error) { return G.Slice(n, nil, G.S(1)) })},
		{mat, u(func(n *G.Node) (*G.Node, error) { return G.Reshape(n, tensor.Shape{4}) })},
		{mat, u(func(n *G.Node) (*G.Node, error) { return G.Transpose(n) })},
		{two, func(ins []*hlp.In) []*G.Node { return []*G.Node{hlp.Node(G.Concat(1, ins[0].N, ins[1].N))} }},
		{two, func(ins []*hlp.In) []*G.Node {
			return []*G.Node{hlp.Node(G.Tensordot([]int{0}, []int{1}, ins[0].N, ins[1].N))}
		}},
		{[]shaped{{[]int{2, 1, 2}, false}, {[]int{2, 2, 1}, false}}, func(ins []*hlp.In) []*G.Node {
			return []*G.Node{hlp.Node(G.BatchedMatMul(ins[0].N, ins[1].N))}
		}},
		{[]shaped{{[]int{2}, false}, {[]int{2}, false}}, func(ins []*hlp.In) []*G.Node { return []*G.Node{hlp.Node(G.OuterProd(ins[0].N, ins[1].N))} }},
		{[]shaped{{[]int{2, 2}, false}, {[]int{1, 2}, false}}, func(ins []*hlp.In) []*G.Node {
			return []*G.Node{hlp.Node(G.BroadcastHadamardProd(ins[0].N, ins[1].N, nil, []byte{0}))}
		}},
		{[]shaped{{[]int{2, 2}, false}, {nil, false}}, func(ins []*hlp.In) []*G.Node {
			return []*G.Node{hlp.Node(G.HadamardProd(ins[0].N, ins[1].N)), hlp.Node(G.Sub(ins[1].N, ins[0].N))}
		}},
		{[]shaped{{nil, true}, {nil, true}}, func(ins []*hlp.In) []*G.Node {
			return []*G.Node{hlp.Node(G.HadamardDiv(ins[0].N, ins[1].N)), hlp.Node(G.Exp(ins[1].N))}
		}},
		{mat, u(G.Inverse)}, {mat, u(G.Sqrt)}, {mat, u(G.Log)},
		{mat, u(func(n *G.Node) (*G.Node, error) { return G.Dropout(n, 0) })},
	}
	l := layers[vsym.Choice("layer", len(layers))]
	history(dt, lisp, false, way, 2, l.sh, l.p)
}

type layer struct {
	sh []shaped
	p  prog
}

// HBranching: the same for operations which compare elements.
//
//vsym:paths=9000
func HBranching() {
	vsym.Generic(true)
	lisp := vsym.Bool("lisp")
	dt := dts[vsym.Choice("dtype", 2)]
	way := vsym.Choice("way", 2)
	if way == 1 {
		way = runAgain
	}
	im := []shaped{{[]int{1, 1, 1, 2}, false}}
	mat := []shaped{{[]int{1, 2}, true}}
	vec := []shaped{{[]int{2}, true}}
	one := []int{1, 1}
	zero := []int{0, 0}
	layers := []layer{
		{im, u(func(n *G.Node) (*G.Node, error) { return G.MaxPool2D(n, tensor.Shape{1, 2}, zero, one) })},
		{mat, u(func(n *G.Node) (*G.Node, error) { return G.SoftMax(n, 1) })},
		{mat, u(func(n *G.Node) (*G.Node, error) { return G.LogSoftMax(n, 1) })},
		{vec, u(func(n *G.Node) (*G.Node, error) { return G.Rectify(n) })},
		{vec, u(func(n *G.Node) (*G.Node, error) { return G.LeakyRelu(n, 0.5) })},
		{vec, u(func(n *G.Node) (*G.Node, error) { return G.Max(n, 0) })},
		{mat, u(func(n *G.Node) (*G.Node, error) { return G.Norm(n, 1, 2) })},
		{[]shaped{{[]int{1}, false}}, u(G.Softplus)},
		{[]shaped{{[]int{1}, false}}, u(G.Sigmoid)},
		{[]shaped{{[]int{1}, false}, {[]int{1}, false}}, func(ins []*hlp.In) []*G.Node { return []*G.Node{hlp.Node(G.MaxBetween(ins[0].N, ins[1].N))} }},
	}
	l := layers[vsym.Choice("layer", len(layers))]
	history(dt, lisp, false, way, 2, l.sh, l.p)
}

// HNormalised: the same for batch normalisation.
func HNormalised() {
	vsym.Generic(true)
	lisp := vsym.Bool("lisp")
	dt := dts[vsym.Choice("dtype", 2)]
	way := vsym.Choice("way", 2)
	if way == 1 {
		way = runAgain
	}
	sh := []shaped{{[]int{2, 1, 1, 1}, true}, {[]int{2, 1, 1, 1}, true}, {[]int{2, 1, 1, 1}, true}}
	history(dt, lisp, false, way, 2, sh, func(ins []*hlp.In) []*G.Node {
		y, _, _, _, err := G.BatchNorm(ins[0].N, ins[1].N, ins[2].N, 0.5, 0.25)
		return []*G.Node{hlp.Node(y, err)}
	})
}

// HReuse: a machine is used again after its parameters were updated by a solver, and the gradients are then those of a
// fresh machine.
func HReuse() {
	vsym.Generic(true)
	lisp := vsym.Bool("lisp")
	dt := dts[vsym.Choice("dtype", 2)]
	sh := []shaped{{[]int{2, 2}, false}, {[]int{2}, false}}
	p := func(ins []*hlp.In) []*G.Node { return []*G.Node{hlp.Node(G.Mul(ins[0].N, ins[1].N))} }
	xs := draw(sh)
	s := build(dt, lisp, false, false, sh, xs, 1, p)
	solver := G.NewVanillaSolver(G.WithLearnRate(0.5))
	tol := hlp.Tol(dt) * 100
	for k := 0; k < 3; k++ {
		hlp.Ok(s.m.RunAll(), "run")
		f := build(dt, lisp, false, false, sh, xs, 1, p)
		hlp.Ok(f.m.RunAll(), "fresh run")
		d := f.gradients()
		for i, x := range s.gradients() {
			hlp.Same(x, d[i], tol, "gradient after an update")
		}
		var vg []G.ValueGrad
		for _, in := range s.ins {
			vg = append(vg, in.N)
		}
		hlp.Ok(solver.Step(vg), "step")
		for i := range xs {
			xs[i] = append([]float64{}, xs[i]...)
			for j := range xs[i] {
				xs[i][j] -= 0.5 * d[i][j]
			}
			hlp.Is(s.ins[i].N, xs[i], "updated input")
		}
		s.m.Reset()
		if k == 1 {
			xs = draw(sh)
			s.bind(xs)
		}
	}
	vsym.Cover("updated")
}

// HCatalog: two runs with gradients of every operation of the catalogue of operations together with the square of its first input, the inputs bound
// again on both machines, or, for operations of doubled inputs, the results unbound in between.
//
//vsym:paths=9000
func HCatalog() {
	vsym.Generic(true)
	es := hlp.Catalog()
	e := es[vsym.Choice("operation", len(es))]
	vsym.Assume(!e.Flat)
	mode := vsym.Choice("mode", 3)
	lisp := mode == 1
	vsym.Assume(!lisp || !e.NoLisp && e.Name != "group norm")
	dt := dts[0]
	way := resetThenBind
	if mode == 2 {
		dt, way = dts[1], unbindResults
	}
	var sh []shaped
	for _, s := range e.Shapes {
		sh = append(sh, shaped{s, e.Pos})
	}
	history(dt, lisp, false, way, 2, sh, func(ins []*hlp.In) []*G.Node {
		var of []*G.Node
		for _, in := range ins {
			n := in.N
			if mode == 2 {
				n = hlp.Node(G.Add(n, n))
			}
			of = append(of, n)
		}
		return []*G.Node{hlp.Node(e.F(of)), hlp.Node(G.Square(ins[0].N))}
	})
}
