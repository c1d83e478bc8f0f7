// Package c13: normalising operations.
package c13

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{hlp.F64, hlp.F32}

func grads(lisp bool, g *G.ExprGraph, cost *G.Node, ins ...*hlp.In) {
	if lisp {
		hlp.LispGrads(g, cost, ins...)
	} else {
		hlp.TapeGrads(g, cost, ins...)
	}
}

func input(g *G.ExprGraph, dt tensor.Dtype, sh ...int) *hlp.In {
	x := hlp.Syms("x", hlp.Prod(sh))
	for _, v := range x {
		vsym.Assume(v > -20)
		vsym.Assume(v < 20)
	}
	return hlp.Var(g, dt, "x", x, sh...)
}

// shapes with an axis; the axis -1 stands for the default: the last one, or the long one of a vector.
type lane struct {
	sh   []int
	axis int
}

var lanes = []lane{
	{[]int{2}, 0}, {[]int{3}, -1}, {[]int{1, 3}, -1}, {[]int{3, 1}, -1}, {[]int{2, 2}, -1}, {[]int{2, 2}, 0}, {[]int{2, 2}, 1}, {[]int{2, 3}, 0},
	{[]int{2, 1, 2}, 0}, {[]int{2, 2, 2}, 1}, {[]int{1, 2, 2}, 2}, {[]int{2, 2, 1}, -1}, {[]int{1, 2, 2, 1}, 1},
}

func (l lane) ax() int {
	if l.axis >= 0 {
		return l.axis
	}
	if len(l.sh) == 2 && l.sh[1] == 1 {
		return 0
	}
	return len(l.sh) - 1
}

// along sums f over the lane of an index.
func (l lane) along(ix []int, f func(ix []int)) {
	a := l.ax()
	for j := 0; j < l.sh[a]; j++ {
		o := append([]int{}, ix...)
		o[a] = j
		f(o)
	}
}

func (l lane) softmax(x hlp.Arr, log bool) hlp.Arr {
	return hlp.Build(l.sh, func(ix []int) float64 {
		s := 0.0
		l.along(ix, func(o []int) { s += vsym.Exp(x.At(o...)) })
		if log {
			return x.At(ix...) - vsym.Log(s)
		}
		return vsym.Exp(x.At(ix...)) / s
	})
}

func apply(x *G.Node, l lane, log bool) *G.Node {
	f := G.SoftMax
	if log {
		f = G.LogSoftMax
	}
	if l.axis < 0 {
		return hlp.Node(f(x))
	}
	return hlp.Node(f(x, l.axis))
}

// HSoftmax: softmax and log-softmax along each axis of shapes of rank 1 to 4 (lanes of 1 to 3), values.
//
//vsym:paths=4000
func HSoftmax() {
	l := lanes[vsym.Choice("lane", len(lanes))]
	log := vsym.Choice("log", 2) == 1
	g := G.NewGraph()
	x := input(g, hlp.F64, l.sh...)
	y := apply(x.N, l, log)
	hlp.RunTape(g)
	hlp.IsArr(y, l.softmax(x.Arr(), log), "softmax")
	vsym.Cover("softmax")
}

func softmaxGrad(lisp bool) {
	l := lanes[vsym.Choice("lane", len(lanes))]
	log := vsym.Choice("log", 2) == 1
	g := G.NewGraph()
	x := input(g, hlp.F64, l.sh...)
	y := apply(x.N, l, log)
	cost := hlp.Weighted(g, y)
	grads(lisp, g, cost, x)
	vsym.Cover("softmax gradient")
}

// HSoftmaxGrad: gradients of softmax and log-softmax on the tape machine.
//
//vsym:paths=4000
func HSoftmaxGrad() { softmaxGrad(false) }

// HSoftmaxGradLisp: gradients of softmax and log-softmax on the LispMachine.
//
//vsym:paths=4000
func HSoftmaxGradLisp() { softmaxGrad(true) }

// HSoftmaxKinds: softmax of float32 values along each of the listed axes.
//
//vsym:paths=4000
func HSoftmaxKinds() {
	l := lanes[vsym.Choice("lane", 7)]
	log := vsym.Choice("log", 2) == 1
	g := G.NewGraph()
	x := input(g, hlp.F32, l.sh...)
	y := apply(x.N, l, log)
	w := hlp.Watch(y)
	want := l.softmax(x.Arr(), log)
	cost := hlp.Weighted(g, y)
	grads(vsym.Choice("lisp", 2) == 1, g, cost, x)
	hlp.ValIsArr(*w, want, hlp.Tol(hlp.F32), "softmax of float32")
	vsym.Cover("float32 softmax")
}

// HSoftmaxTwice: two softmaxes of one matrix that differ in axis or in being logarithmic, both values and the
// gradient of their weighted sum, on both machines.
//
//vsym:paths=4000
func HSoftmaxTwice() {
	ls := []lane{{[]int{2, 2}, 0}, {[]int{2, 2}, 1}}
	a, b := ls[vsym.Choice("axis1", 2)], ls[vsym.Choice("axis2", 2)]
	la, lb := vsym.Choice("log1", 2) == 1, vsym.Choice("log2", 2) == 1
	g := G.NewGraph()
	x := input(g, hlp.F64, 2, 2)
	y, z := apply(x.N, a, la), apply(x.N, b, lb)
	wy, wz := hlp.Watch(y), hlp.Watch(z)
	cost := hlp.Weighted(g, hlp.Node(G.Concat(0, y, z)))
	grads(vsym.Choice("lisp", 2) == 1, g, cost, x)
	hlp.ValIsArr(*wy, a.softmax(x.Arr(), la), hlp.Tol(hlp.F64), "first softmax")
	hlp.ValIsArr(*wz, b.softmax(x.Arr(), lb), hlp.Tol(hlp.F64), "second softmax")
	vsym.Cover("two softmaxes")
}

// HOfComputed: normalising a transposed or sliced matrix, values and gradients on both machines.
//
//vsym:paths=4000
func HOfComputed() {
	vsym.Generic(true)
	g := G.NewGraph()
	x := input(g, hlp.F64, 2, 3)
	var n *G.Node
	var a hlp.Arr
	switch vsym.Choice("computed", 3) {
	case 0:
		n, a = hlp.Node(G.Transpose(x.N, 1, 0)), x.Arr().Perm(1, 0)
	case 1:
		n, a = hlp.Node(G.Slice(x.N, nil, G.S(1, 3))), x.Arr().SliceAx(1, 1, 3, 1)
	case 2:
		n, a = hlp.Node(G.Transpose(hlp.Node(G.Slice(x.N, nil, G.S(0, 2))), 1, 0)), x.Arr().SliceAx(1, 0, 2, 1).Perm(1, 0)
	}
	l := lane{a.Sh, vsym.Choice("axis", 2)}
	var y *G.Node
	var want hlp.Arr
	kind := vsym.Choice("kind", 5)
	switch kind {
	case 0, 1:
		y, want = apply(n, l, kind == 1), l.softmax(a, kind == 1)
	case 2:
		vsym.Assume(l.axis == 0)
		s, b := affine(g, hlp.F64, a.Sh)
		z, _, _, _, err := G.BatchNorm(n, s.N, b.N, mom, eps)
		y, want = hlp.Node(z, err), scaled(trained(a, eps), s, b)
	case 3:
		vsym.Assume(l.axis == 0)
		s, b := affine(g, hlp.F64, a.Sh)
		y, want = hlp.Node(G.GroupNorm(n, s.N, b.N, 1, a.Sh[1], eps)), scaled(grouped(a, 1, eps), s, b)
	case 4:
		vsym.Assume(hlp.Prod(l.sh) == 4)
		y = sparse(n, l)
	}
	w := hlp.Watch(y)
	grads(vsym.Choice("lisp", 2) == 1, g, hlp.Weighted(g, y), x)
	if kind == 4 {
		isSparsemax(a, hlp.A(hlp.Nums(*w), a.Sh...), l, hlp.F64)
	} else {
		hlp.ValIsArr(*w, want, hlp.Tol(hlp.F64), "normalisation of a computed matrix")
	}
	vsym.Cover("of computed")
}
