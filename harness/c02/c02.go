// Package c02: the compiled machine and the interpreting machine agree.
package c02

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{tensor.Float64, tensor.Float32}

// replay lets the same choices build the graph twice.
type replay struct {
	rec []int
	pos int
	on  bool
}

func (r *replay) choice(name string, n int) int {
	if r.on {
		k := r.rec[r.pos]
		r.pos++
		return k
	}
	k := vsym.Choice(name, n)
	r.rec = append(r.rec, k)
	return k
}

func extend(r *replay, pool []hlp.V, ops []hlp.Op, latest bool) []hlp.V {
	op := ops[r.choice("op", len(ops))]
	n := len(pool)
	var x, y hlp.V
	switch {
	case op.Arity == 1 && latest:
		x = pool[n-1]
	case op.Arity == 1:
		x = pool[r.choice("operand", n)]
	case latest:
		if k := r.choice("operands", 2*n-1); k < n {
			x, y = pool[n-1], pool[k]
		} else {
			x, y = pool[k-n], pool[n-1]
		}
	default:
		x, y = pool[r.choice("left", n)], pool[r.choice("right", n)]
	}
	v, ok := op.Build(x, y)
	vsym.Assume(ok)
	return append(pool, v)
}

// cost sums every member of the pool that nothing else uses, each element weighted.
func cost(g *G.ExprGraph, pool []hlp.V, w [][]float64) *G.Node {
	var c *G.Node
	for i, v := range pool {
		var leaf bool
		for _, r := range g.Roots() {
			leaf = leaf || r == v.N
		}
		if !leaf && i != len(pool)-1 {
			continue
		}
		var t *G.Node
		wn := "w" + string(rune('0'+i))
		if v.N.IsScalar() {
			t = hlp.Node(G.HadamardProd(v.N, hlp.Var(g, v.N.Dtype(), wn, w[i][:1]).N))
		} else {
			t = hlp.Node(G.Sum(hlp.Node(G.HadamardProd(v.N, hlp.Var(g, v.N.Dtype(), wn, w[i][:len(v.A.D)], v.A.Sh...).N))))
		}
		if c == nil {
			c = t
		} else {
			c = hlp.Node(G.Add(c, t))
		}
	}
	return c
}

// both builds the program twice and runs it once compiled with symbolic gradients and once interpreted.
func both(dt tensor.Dtype, a, b []float64, sa, sb []int, steps func(r *replay, pool []hlp.V) []hlp.V) {
	r := &replay{}
	w := make([][]float64, 8)
	for i := range w {
		w[i] = hlp.Syms("w", 4)
	}
	g1 := G.NewGraph()
	ins1 := []*hlp.In{hlp.Var(g1, dt, "a", a, sa...), hlp.Var(g1, dt, "b", b, sb...)}
	p1 := steps(r, []hlp.V{ins1[0].V(), ins1[1].V()})
	for _, v := range p1 {
		vsym.Assume(len(v.A.D) <= 4)
	}
	c1 := cost(g1, p1, w)
	r.on = true
	g2 := G.NewGraph()
	ins2 := []*hlp.In{hlp.Var(g2, dt, "a", a, sa...), hlp.Var(g2, dt, "b", b, sb...)}
	p2 := steps(r, []hlp.V{ins2[0].V(), ins2[1].V()})
	c2 := cost(g2, p2, w)

	var wrt G.Nodes
	var used []int
	for i, in := range ins1 {
		for _, r := range g1.Roots() {
			if r == in.N {
				in = nil
				break
			}
		}
		if in != nil {
			wrt = append(wrt, in.N)
			used = append(used, i)
		}
	}
	gs, err := G.Grad(c1, wrt...)
	hlp.Ok(err, "symbolic differentiation")
	m1 := G.NewTapeMachine(g1, G.TraceExec(), G.BindDualValues(wrt...))
	hlp.Ok(m1.RunAll(), "tape run")
	m2 := G.NewLispMachine(g2)
	hlp.Ok(m2.RunAll(), "lisp run")
	tol := hlp.Tol(dt)
	hlp.Same(hlp.Nums(c1.Value()), hlp.Nums(c2.Value()), tol, "cost")
	for i := range p1 {
		hlp.SameShape(p1[i].N.Value().Shape(), p2[i].N.Value().Shape(), "shape of node")
		hlp.Same(hlp.Nums(p1[i].N.Value()), hlp.Nums(p2[i].N.Value()), tol, "value of node")
		hlp.IsArr(p2[i].N, p2[i].A, "interpreted value")
	}
	for k, i := range used {
		d2, err := ins2[i].N.Grad()
		hlp.Ok(err, "interpreted gradient")
		d1, err := ins1[i].N.Grad()
		hlp.Ok(err, "bound gradient")
		hlp.Same(hlp.Nums(gs[k].Value()), hlp.Nums(d2), tol, "gradients of input differ")
		hlp.Same(hlp.Nums(d1), hlp.Nums(d2), tol, "bound gradients of input differ")
		hlp.Deriv(hlp.Nums(c2.Value())[0], ins2[i], d2, "gradient", i)
	}
	hlp.Ok(m1.Close(), "close")
	hlp.Ok(m2.Close(), "close")
	vsym.Cover("both machines")
}

// HTwo: all programs of two operations out of 14 over two 2x2 inputs.
//
//vsym:paths=9000
func HTwo() {
	vsym.Generic(true)
	ops := []hlp.Op{hlp.OpAdd, hlp.OpSub, hlp.OpProd, hlp.OpDiv, hlp.OpMatMul, hlp.OpNeg, hlp.OpSq, hlp.OpExp, hlp.OpTanh, hlp.OpTrans, hlp.OpSum, hlp.OpRow, hlp.OpReshape, hlp.OpAddC, hlp.OpRsubC}
	both(tensor.Float64, hlp.Syms("a", 4), hlp.SymsPos("b", 4, 0), []int{2, 2}, []int{2, 2}, func(r *replay, p []hlp.V) []hlp.V {
		return extend(r, extend(r, p, ops, false), ops, true)
	})
}

// HThree: all programs of three operations out of addition, matrix product and transpose over two 2x2 inputs, each
// using the previous result.
//
//vsym:paths=9000
func HThree() {
	vsym.Generic(true)
	ops := []hlp.Op{hlp.OpAdd, hlp.OpMatMul, hlp.OpTrans}
	both(tensor.Float64, hlp.Syms("a", 4), hlp.Syms("b", 4), []int{2, 2}, []int{2, 2}, func(r *replay, p []hlp.V) []hlp.V {
		return extend(r, extend(r, extend(r, p, ops, true), ops, true), ops, true)
	})
}

// HThreeMore: the same with elementwise product as a fourth operation and a freely chosen first step.
//
//vsym:thorough
//vsym:paths=9000
func HThreeMore() {
	vsym.Generic(true)
	ops := []hlp.Op{hlp.OpAdd, hlp.OpProd, hlp.OpMatMul, hlp.OpTrans}
	both(tensor.Float64, hlp.Syms("a", 4), hlp.Syms("b", 4), []int{2, 2}, []int{2, 2}, func(r *replay, p []hlp.V) []hlp.V {
		return extend(r, extend(r, extend(r, p, ops, false), ops, true), ops, true)
	})
}

// HScalar: all programs of two operations on a scalar and a scalar or vector, both widths.
//
//vsym:paths=9000
func HScalar() {
	vsym.Generic(true)
	ops := []hlp.Op{hlp.OpAdd, hlp.OpSub, hlp.OpProd, hlp.OpDiv, hlp.OpNeg, hlp.OpSq, hlp.OpTanh, hlp.OpSum, hlp.OpAddC, hlp.OpRsubC}
	dt := dts[vsym.Choice("width", 2)]
	var sb []int
	if vsym.Choice("second", 2) == 1 {
		sb = []int{2}
	}
	both(dt, hlp.SymsPos("a", 1, 0), hlp.SymsPos("b", hlp.Prod(sb), 0), nil, sb, func(r *replay, p []hlp.V) []hlp.V {
		return extend(r, extend(r, p, ops, false), ops, true)
	})
}

// HCatalog: every operation of the catalogue of operations, followed by another, with a product of its first input beside it.
//
//vsym:paths=9000
func HCatalog() {
	vsym.Generic(true)
	es := hlp.Catalog()
	e := es[vsym.Choice("operation", len(es))]
	vsym.Assume(!e.Flat && !e.NoLisp)
	mode := vsym.Choice("mode", 3)
	dt := dts[mode&1]
	xs := e.Draw()
	w := hlp.Syms("w", 1)
	build := func() (*G.ExprGraph, []*hlp.In, *G.Node, []*G.Value) {
		g := G.NewGraph()
		ins := e.Ins(g, dt, xs)
		wn := hlp.Var(g, dt, "weight", w).N
		y := e.Build(ins)
		z := hlp.Node(G.HadamardProd(y, wn))
		var s *G.Node
		if mode == 2 {
			s = hlp.Node(G.Sub(hlp.Node(G.Cube(y)), z))
		} else {
			s = hlp.Node(G.HadamardProd(z, y))
		}
		vs := []*G.Value{hlp.Watch(y), hlp.Watch(z), hlp.Watch(s)}
		if !s.IsScalar() {
			s = hlp.Node(G.Sum(s))
		}
		t := hlp.Node(G.Square(ins[0].N))
		if !t.IsScalar() {
			t = hlp.Node(G.Sum(t))
		}
		return g, ins, hlp.Node(G.Add(s, t)), vs
	}
	g, ins, cost, vs := build()
	var wrt G.Nodes
	for _, in := range ins {
		wrt = append(wrt, in.N)
	}
	_, err := G.Grad(cost, wrt...)
	hlp.Ok(err, "symbolic differentiation")
	m := G.NewTapeMachine(g, G.BindDualValues(wrt...))
	hlp.Ok(m.RunAll(), "tape run")
	gl, insl, costl, vsl := build()
	l := G.NewLispMachine(gl)
	hlp.Ok(l.RunAll(), "lisp run")
	tol := hlp.Tol(dt) * 10
	hlp.Same(hlp.Nums(cost.Value()), hlp.Nums(costl.Value()), tol, "cost")
	for i := range vs {
		hlp.SameShape((*vs[i]).Shape(), (*vsl[i]).Shape(), "shape")
		hlp.Same(hlp.Nums(*vs[i]), hlp.Nums(*vsl[i]), tol, "value")
	}
	for i := range ins {
		a, err := ins[i].N.Grad()
		hlp.Ok(err, "gradient")
		b, err := insl[i].N.Grad()
		hlp.Ok(err, "gradient")
		hlp.SameShape(a.Shape(), b.Shape(), "shape of a gradient")
		hlp.Same(hlp.Nums(a), hlp.Nums(b), tol, "gradient")
	}
	hlp.Ok(m.Close(), "close")
	hlp.Ok(l.Close(), "close")
	vsym.Cover("compared")
}
