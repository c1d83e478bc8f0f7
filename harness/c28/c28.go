// Package c28: a part of a graph computes what the whole does.
package c28

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{hlp.F64, hlp.F32}

// ways of taking a part
const (
	compiled = iota // a compiled function giving nodes
	compiledRead
	roots
	exactRoots
	listed
	lisp
	lispExact
	ways
)

// whole is a graph in which every node is known with its value and what it is computed from.
type whole struct {
	g    *G.ExprGraph
	dt   tensor.Dtype
	ins  []*hlp.In
	vs   []hlp.V
	kids [][]int
}

func (w *whole) input(name string, shape ...int) {
	in := &hlp.In{X: hlp.Syms(name, hlp.Prod(shape)), Shape: shape, DT: w.dt}
	if len(shape) == 0 {
		in.N = G.NewScalar(w.g, w.dt, G.WithName(name))
	} else {
		in.N = G.NewTensor(w.g, w.dt, len(shape), G.WithName(name), G.WithShape(shape...))
	}
	w.ins = append(w.ins, in)
	w.vs = append(w.vs, in.V())
	w.kids = append(w.kids, nil)
}

// step adds an operation out of ops; its operands are chosen among the last ones of what there is.
func (w *whole) step(ops []hlp.Op, last int) {
	op := ops[vsym.Choice("operation", len(ops))]
	n := len(w.vs)
	if last > n {
		last = n
	}
	i := n - 1 - vsym.Choice("operand", last)
	j := i
	if op.Arity == 2 {
		j = n - 1 - vsym.Choice("operand", last)
	}
	v, ok := op.Build(w.vs[i], w.vs[j])
	vsym.Assume(ok)
	for k := range w.vs {
		vsym.Assume(w.vs[k].N != v.N) // the same as one there is
	}
	w.vs = append(w.vs, v)
	w.kids = append(w.kids, []int{i, j})
}

// below gives the places of all nodes which are computed from.
func (w *whole) below(k int, m map[int]bool) {
	if m[k] {
		return
	}
	m[k] = true
	for _, c := range w.kids[k] {
		w.below(c, m)
	}
}

// used tells whether something of the part is computed from k.
func (w *whole) used(k int, part map[int]bool) bool {
	for p, kids := range w.kids {
		for _, c := range kids {
			if c == k && part[p] {
				return true
			}
		}
	}
	return false
}

// check takes the part for the outputs, with only those inputs bound that it needs, and compares.
func (w *whole) check(way int, outs []int) {
	part := map[int]bool{}
	var ons, needed, given G.Nodes
	vals := make([]G.Value, len(outs))
	for i, o := range outs {
		w.below(o, part)
		n := w.vs[o].N
		ons = append(ons, n)
		if way == compiledRead {
			ons[i] = G.Read(n, &vals[i])
		}
	}
	for i, in := range w.ins {
		if part[i] {
			given = append(given, in.N)
			in.Rebind(in.X)
		}
	}
	needed = append(needed, w.g.ExactSubgraphRoots(ons...).AllNodes()...) // with constants
	var m G.VM
	switch way {
	case compiled, compiledRead:
		prog, loc, err := G.CompileFunction(w.g, given, ons)
		hlp.Ok(err, "compiling a function")
		m = G.NewTapeMachine(w.g, G.WithPrecompiled(prog, loc))
	case roots:
		m = G.NewTapeMachine(w.g.SubgraphRoots(ons...))
	case exactRoots:
		m = G.NewTapeMachine(w.g.ExactSubgraphRoots(ons...))
	case listed:
		m = G.NewTapeMachine(w.g.Subgraph(needed...))
	case lisp:
		m = G.NewLispMachine(w.g.SubgraphRoots(ons...), G.ExecuteFwdOnly())
	case lispExact:
		m = G.NewLispMachine(w.g.ExactSubgraphRoots(ons...), G.ExecuteFwdOnly())
	}
	for run := 0; run < 1+len(outs)/2; run++ {
		hlp.Ok(m.RunAll(), "running a part")
		for i, o := range outs {
			v := vals[i]
			if way != compiledRead {
				v = w.vs[o].N.Value()
			}
			vsym.Assert(v != nil, "no value for an output", i)
			want := w.vs[o].A
			if way == listed && w.used(o, part) {
				continue // not a result of this part
			}
			hlp.ValIsArr(v, want, hlp.Tol(w.dt)*10, "output of a part")
		}
		for i, in := range w.ins {
			if part[i] {
				hlp.Is(in.N, in.X, "input of a part")
			}
		}
		for k := range w.vs {
			if !part[k] {
				vsym.Assert(w.vs[k].N.Value() == nil, "something outside the part has a value")
			}
		}
		m.Reset()
	}
	vsym.Cover("part")
}

func outputs(n, from int) []int {
	var r []int
	for k := from; k < n; k++ {
		if vsym.Choice("output", 2) == 1 {
			r = append(r, k)
		}
	}
	vsym.Assume(len(r) > 0)
	return r
}

// HParts: graphs of three operations on two matrices, every set of results as outputs, taken in 7 ways (run twice if there are several).
//
//vsym:paths=20000
func HParts() {
	w := &whole{g: G.NewGraph(), dt: hlp.F64}
	way := vsym.Choice("way", ways)
	w.input("x", 2, 2)
	w.input("y", 2, 2)
	w.step([]hlp.Op{hlp.OpMatMul, hlp.OpNeg}, 2)
	w.step([]hlp.Op{hlp.OpProd, hlp.OpNeg}, 2)
	w.step([]hlp.Op{hlp.OpSub}, 2)
	w.check(way, outputs(len(w.vs), 2))
}

// HKinds: graphs of two operations out of 20 on a matrix, both results or the first as outputs, both widths.
//
//vsym:paths=20000
func HKinds() {
	w := &whole{g: G.NewGraph(), dt: dts[vsym.Choice("dtype", 2)]}
	way := vsym.Choice("way", ways)
	w.input("y", 2, 2)
	w.input("x", 2, 2)
	ops := []hlp.Op{hlp.OpTrans, hlp.OpSum, hlp.OpSumRow, hlp.OpRow, hlp.OpReshape, hlp.OpConcat, hlp.OpAddC, hlp.OpRsubC, hlp.OpCube, hlp.OpMatMul}
	w.step(ops, 1)
	w.step(append(ops, hlp.OpAdd), 1)
	outs := []int{2}
	if vsym.Choice("both", 2) == 1 {
		outs = []int{2, 3}
	}
	w.check(way, outs)
}

// HRefused: inputs which the outputs do not depend on, and no inputs at all, are refused; fewer inputs than there are are
// taken from what is bound.
func HRefused() {
	w := &whole{g: G.NewGraph(), dt: dts[vsym.Choice("dtype", 2)]}
	w.input("x", 2)
	w.input("y", 2)
	w.input("z", 2)
	w.step([]hlp.Op{hlp.OpAdd, hlp.OpNeg}, 3)
	w.step([]hlp.Op{hlp.OpProd, hlp.OpSum}, 2)
	o := vsym.Choice("output", len(w.vs))
	part := map[int]bool{}
	w.below(o, part)
	var given G.Nodes
	unused := false
	for i, in := range w.ins {
		in.Rebind(in.X)
		if vsym.Choice("given", 2) == 1 {
			given = append(given, in.N)
			unused = unused || !part[i]
		}
	}
	prog, loc, err := G.CompileFunction(w.g, given, G.Nodes{w.vs[o].N})
	if unused || len(given) == 0 {
		vsym.Assert(err != nil, "inputs which are not used are not reported")
		vsym.Cover("refused")
		return
	}
	hlp.Ok(err, "compiling a function")
	m := G.NewTapeMachine(w.g, G.WithPrecompiled(prog, loc))
	hlp.Ok(m.RunAll(), "running a function")
	hlp.IsArr(w.vs[o].N, w.vs[o].A, "output of a function")
}

// HTwo: two functions compiled from one graph, with parts in common, run in turn on different inputs.
//
//vsym:paths=20000
func HTwo() {
	w := &whole{g: G.NewGraph(), dt: hlp.F64}
	w.input("x", 2, 2)
	w.input("y", 2, 2)
	w.step([]hlp.Op{hlp.OpMatMul, hlp.OpNeg}, 2)
	w.step([]hlp.Op{hlp.OpProd, hlp.OpNeg}, 2)
	w.step([]hlp.Op{hlp.OpProd}, 2)
	outs := []int{2 + vsym.Choice("output", 3), 2 + vsym.Choice("output", 3)}
	var ms []G.VM
	for _, o := range outs {
		part := map[int]bool{}
		w.below(o, part)
		var given G.Nodes
		for i, in := range w.ins {
			in.Rebind(in.X)
			if part[i] {
				given = append(given, in.N)
			}
		}
		prog, loc, err := G.CompileFunction(w.g, given, G.Nodes{w.vs[o].N})
		hlp.Ok(err, "compiling a function")
		ms = append(ms, G.NewTapeMachine(w.g, G.WithPrecompiled(prog, loc)))
	}
	for _, k := range []int{0, 1, 0} {
		hlp.Ok(ms[k].RunAll(), "running a function")
		hlp.IsArr(w.vs[outs[k]].N, w.vs[outs[k]].A, "output of a function")
		ms[k].Reset()
	}
}

// HGradients: in a graph with two costs and their gradients, a function for any cost, gradients of it, or both; or the
// part below a cost on either machine, with gradients attached.
//
//vsym:paths=20000
func HGradients() {
	vsym.Generic(true)
	dt := dts[vsym.Choice("dtype", 2)]
	g := G.NewGraph()
	x := hlp.Sym(g, dt, "x", 2)
	y := hlp.Sym(g, dt, "y", 2)
	z := hlp.Sym(g, dt, "z", 2)
	ins := []*hlp.In{x, y, z}
	shared := hlp.Node(G.HadamardProd(x.N, y.N))
	var costs G.Nodes
	var wrt []G.Nodes
	costs = append(costs, hlp.Node(G.Sum(hlp.Node(G.Square(shared)))))
	wrt = append(wrt, G.Nodes{x.N, y.N})
	costs = append(costs, hlp.Node(G.Sum(hlp.Node(G.HadamardProd(hlp.Node(G.Add(shared, z.N)), z.N)))))
	wrt = append(wrt, G.Nodes{x.N, y.N, z.N})
	k := vsym.Choice("cost", 2)
	way := vsym.Choice("way", 4)
	var gs G.Nodes
	if way < 3 {
		for i := range costs {
			d, err := G.Grad(costs[i], wrt[i]...)
			hlp.Ok(err, "symbolic differentiation")
			if i == k {
				gs = d
			}
		}
	}
	var m G.VM
	var cost float64
	switch way {
	case 0: // a function for gradients and the cost
		outs := append(G.Nodes{costs[k]}, gs...)
		prog, loc, err := G.CompileFunction(g, wrt[k], outs)
		hlp.Ok(err, "compiling a function")
		m = G.NewTapeMachine(g, G.WithPrecompiled(prog, loc))
	case 1: // one gradient
		j := vsym.Choice("gradient", len(gs))
		prog, loc, err := G.CompileFunction(g, wrt[k], G.Nodes{costs[k], gs[j]})
		hlp.Ok(err, "compiling a function")
		m = G.NewTapeMachine(g, G.WithPrecompiled(prog, loc))
		hlp.Ok(m.RunAll(), "running a function")
		cost = hlp.Nums(costs[k].Value())[0]
		hlp.Deriv(cost, ins[j], gs[j].Value(), "gradient given by a function", j)
		return
	case 2: // gradients attached
		outs := append(G.Nodes{costs[k]}, gs...)
		m = G.NewTapeMachine(g.SubgraphRoots(outs...), G.BindDualValues(wrt[k]...))
	case 3:
		m = G.NewLispMachine(g.SubgraphRoots(costs[k]))
	}
	hlp.Ok(m.RunAll(), "running a part")
	cost = hlp.Nums(costs[k].Value())[0]
	vsym.Assert(costs[1-k].Value() == nil, "a cost outside the part has a value")
	for j := range wrt[k] {
		if gs != nil {
			hlp.Deriv(cost, ins[j], gs[j].Value(), "gradient in a part", j)
		}
		if way >= 2 {
			d, err := ins[j].N.Grad()
			hlp.Ok(err, "gradient")
			hlp.Deriv(cost, ins[j], d, "gradient attached by a part", j)
		}
	}
	vsym.Cover("gradients")
}
