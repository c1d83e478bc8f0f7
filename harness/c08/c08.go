// Package c08: broadcasting equals explicit replication.
package c08

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{tensor.Float64, tensor.Float32}

type bop struct {
	f   func(a, b *G.Node, l, r []byte) (*G.Node, error)
	ref func(x, y float64) float64
	div bool
}

func cmp(f func(a, b *G.Node, same bool, l, r []byte) (*G.Node, error)) func(a, b *G.Node, l, r []byte) (*G.Node, error) {
	return func(a, b *G.Node, l, r []byte) (*G.Node, error) { return f(a, b, true, l, r) }
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

var arith = []bop{
	{G.BroadcastAdd, func(x, y float64) float64 { return x + y }, false},
	{G.BroadcastSub, func(x, y float64) float64 { return x - y }, false},
	{G.BroadcastHadamardProd, func(x, y float64) float64 { return x * y }, false},
	{G.BroadcastHadamardDiv, func(x, y float64) float64 { return x / y }, true},
}

var compare = []bop{
	{cmp(G.BroadcastGt), func(x, y float64) float64 { return b2f(x > y) }, false},
	{cmp(G.BroadcastGte), func(x, y float64) float64 { return b2f(x >= y) }, false},
	{cmp(G.BroadcastLt), func(x, y float64) float64 { return b2f(x < y) }, false},
	{cmp(G.BroadcastLte), func(x, y float64) float64 { return b2f(x <= y) }, false},
	{cmp(G.BroadcastEq), func(x, y float64) float64 { return b2f(x == y) }, false},
	{cmp(G.BroadcastNe), func(x, y float64) float64 { return b2f(x != y) }, false},
}

func bytes(a []int) []byte {
	var r []byte
	for _, x := range a {
		r = append(r, byte(x))
	}
	return r
}

// operand makes the operand for full shape sh with the axes ax collapsed; dropped: the axes are left out.
func operand(sh, ax []int, dropped bool) []int {
	var r []int
	for i, d := range sh {
		if hlp.InList(ax, i) {
			if !dropped {
				r = append(r, 1)
			}
			continue
		}
		r = append(r, d)
	}
	return r
}

func expand(a hlp.Arr, sh, ax []int) hlp.Arr {
	full := append([]int{}, sh...)
	for _, x := range ax {
		full[x] = 1
	}
	r := a.Reshape(full...)
	for _, x := range ax {
		r = r.Repeat(x, sh[x])
	}
	return r
}

// pattern chooses which axes each operand is repeated along (disjoint) and whether one operand leaves them out.
func pattern(n int) (l, r []int, drop bool) {
	for i := 0; i < n; i++ {
		switch vsym.Choice("axis", 3) {
		case 1:
			l = append(l, i)
		case 2:
			r = append(r, i)
		}
	}
	vsym.Assume(len(l)+len(r) > 0)
	if (len(l) == 0 || len(r) == 0) && len(l)+len(r) < n {
		drop = vsym.Choice("dropped", 2) == 1
	}
	return
}

func check(shs [][]int, ops []bop, grads bool) {
	vsym.Generic(grads)
	sh := shs[vsym.Choice("shape", len(shs))]
	op := ops[vsym.Choice("op", len(ops))]
	l, r, drop := pattern(len(sh))
	mode := vsym.Choice("mode", 3) // float64 tape, float32 tape, float64 interpreted
	dt, lisp := dts[mode&1], mode == 2
	g := G.NewGraph()
	as, bs := operand(sh, l, drop), operand(sh, r, drop)
	ys := hlp.Syms("b", hlp.Prod(bs))
	if op.div {
		for _, y := range ys {
			vsym.Assume(y != 0)
		}
	}
	a, b := hlp.Sym(g, dt, "a", as...), hlp.Var(g, dt, "b", ys, bs...)
	z := hlp.Node(op.f(a.N, b.N, bytes(l), bytes(r)))
	want := hlp.Zip(expand(a.Arr(), sh, l), expand(b.Arr(), sh, r), op.ref)
	hlp.SameShape(z.Shape(), sh, "announced shape")
	if grads {
		cost := hlp.Weighted(g, z)
		if lisp {
			hlp.LispGrads(g, cost, a, b)
		} else {
			hlp.TapeGrads(g, cost, a, b)
		}
		return
	}
	if lisp {
		m := G.NewLispMachine(g, G.ExecuteFwdOnly())
		hlp.Ok(m.RunAll(), "lisp run")
		hlp.IsArr(z, want, "value")
		hlp.Ok(m.Close(), "close")
	} else {
		hlp.RunTape(g)
		hlp.IsArr(z, want, "value")
	}
	hlp.IsArr(a.N, a.Arr(), "left operand after the run")
	hlp.IsArr(b.N, b.Arr(), "right operand after the run")
}

var small = [][]int{{2}, {2, 3}, {2, 3, 2}}

// HArith: values of the broadcast arithmetic operations for every disjoint choice of repeated axes on result shapes
// (2), (2,3) and (2,3,2), operands with extent-1 axes or with the axes left out; every real content.
//
//vsym:paths=6000
func HArith() { check(small, arith, false) }

// HArith4: as HArith on rank 4, result shape (2,1,2,2).
//
//vsym:paths=6000
func HArith4() { check([][]int{{2, 3, 1, 2}}, arith[:3], false) }

// HCompare: comparisons, result shapes (2) and (2,2).
//
//vsym:paths=6000
func HCompare() { check([][]int{{2}, {2, 2}}, compare, false) }

// HGrad: gradients of the broadcast arithmetic operations on result shapes (2), (2,3), (2,2,2).
//
//vsym:paths=6000
func HGrad() { check([][]int{{2}, {2, 3}, {2, 2, 2}}, arith, true) }

// HAuto: the automatic pattern equals replication of every extent-1 axis of operands of equal rank up to 3.
func HAuto() {
	shs := [][]int{{3}, {2, 3}, {2, 3, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	op := arith[vsym.Choice("op", 3)]
	l, r, _ := pattern(len(sh))
	dt := dts[vsym.Choice("dtype", 2)]
	g := G.NewGraph()
	a, b := hlp.Sym(g, dt, "a", operand(sh, l, false)...), hlp.Sym(g, dt, "b", operand(sh, r, false)...)
	z := hlp.Node(G.Auto(op.f, a.N, b.N))
	want := hlp.Zip(expand(a.Arr(), sh, l), expand(b.Arr(), sh, r), op.ref)
	hlp.RunTape(g)
	hlp.IsArr(z, want, "value")
}

// HPattern: two operands repeated by a pattern are those given by replication, and can be used in several operations.
func HPattern() {
	sh := small[1+vsym.Choice("shape", 2)]
	l, r, drop := pattern(len(sh))
	dt := dts[vsym.Choice("dtype", 2)]
	g := G.NewGraph()
	a, b := hlp.Sym(g, dt, "a", operand(sh, l, drop)...), hlp.Sym(g, dt, "b", operand(sh, r, drop)...)
	x, y, err := G.Broadcast(a.N, b.N, G.NewBroadcastPattern(bytes(l), bytes(r)))
	hlp.Ok(err, "broadcast")
	hlp.SameShape(x.Shape(), sh, "shape of the left operand")
	hlp.SameShape(y.Shape(), sh, "shape of the right operand")
	s := hlp.Watch(hlp.Node(G.Sub(x, y)))
	p := hlp.Watch(hlp.Node(G.HadamardProd(y, x)))
	hlp.RunTape(g)
	xa, ya := expand(a.Arr(), sh, l), expand(b.Arr(), sh, r)
	hlp.ValIsArr(*s, hlp.Zip(xa, ya, func(x, y float64) float64 { return x - y }), hlp.Tol(dt), "difference")
	hlp.ValIsArr(*p, hlp.Zip(ya, xa, func(x, y float64) float64 { return x * y }), hlp.Tol(dt), "product")
	vsym.Cover("pattern")
}

// HPower: a broadcast power with whole exponents, result shapes (2) and (2,3).
func HPower() {
	sh := small[vsym.Choice("shape", 2)]
	l, r, drop := pattern(len(sh))
	mode := vsym.Choice("mode", 3)
	dt, lisp := dts[mode&1], mode == 2
	g := G.NewGraph()
	as, bs := operand(sh, l, drop), operand(sh, r, drop)
	e := make([]float64, hlp.Prod(bs))
	for i := range e {
		e[i] = float64(1 + i%3)
	}
	a, b := hlp.Sym(g, dt, "a", as...), hlp.Var(g, dt, "b", e, bs...)
	z := hlp.Watch(hlp.Node(G.BroadcastPow(a.N, b.N, bytes(l), bytes(r))))
	if lisp {
		hlp.Ok(G.NewLispMachine(g, G.ExecuteFwdOnly()).RunAll(), "lisp run")
	} else {
		hlp.RunTape(g)
	}
	hlp.ValIsArr(*z, hlp.Zip(expand(a.Arr(), sh, l), expand(b.Arr(), sh, r), func(x, y float64) float64 {
		p := 1.0
		for ; y > 0; y-- {
			p *= x
		}
		return p
	}), hlp.Tol(dt), "power")
	vsym.Cover("power")
}

// HReject: patterns naming an axis that does not exist, and operands whose other axes disagree, give an error when
// building or running, never a value.
func HReject() {
	type cfg struct {
		a, b []int
		l, r []byte
	}
	cs := []cfg{
		{[]int{2, 3}, []int{2}, nil, []byte{2}},
		{[]int{2}, []int{2, 3}, []byte{2}, nil},
		{[]int{2, 3}, []int{2}, nil, []byte{0}},
		{[]int{2, 3}, []int{2, 2}, nil, []byte{1}},
		{[]int{2, 3}, []int{3, 1}, nil, []byte{1}},
		{[]int{2, 3, 2}, []int{3, 3}, nil, []byte{1}},
		{[]int{3, 2}, []int{2, 3, 2}, []byte{1}, nil},
		{[]int{1, 2}, []int{2, 3}, []byte{0}, nil},
	}
	c := cs[vsym.Choice("config", len(cs))]
	dt := dts[vsym.Choice("dtype", 2)]
	g := G.NewGraph()
	a, b := hlp.Sym(g, dt, "a", c.a...), hlp.Sym(g, dt, "b", c.b...)
	z, err := G.BroadcastAdd(a.N, b.N, c.l, c.r)
	if err != nil {
		vsym.Cover("rejected when building")
		return
	}
	m := G.NewTapeMachine(g)
	err = m.RunAll()
	vsym.Assert(err != nil, "impossible pattern gave a value")
	_ = z
	vsym.Cover("rejected when running")
}

// HLarge: values for result shapes (17), (5,6), (4,3,5) and (3,2,4,2), subtraction.
//
//vsym:paths=6000
func HLarge() { check([][]int{{17}, {5, 6}, {4, 3, 5}, {3, 2, 4, 2}}, arith[1:2], false) }

// HLargeGrad: gradients for result shapes (9), (4,5) and (3,2,4), product.
//
//vsym:paths=6000
func HLargeGrad() { check([][]int{{9}, {4, 5}, {3, 2, 4}}, arith[2:3], true) }

// HUnit: results with axes of extent one, along which operands are repeated once; values, operands and gradients.
func HUnit() {
	check([][]int{{1}, {1, 3}, {2, 1}, {1, 1}, {2, 1, 2}, {1, 2, 1}}, arith[:3], vsym.Choice("gradients", 2) == 1)
}
