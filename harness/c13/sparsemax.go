package c13

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var sparseLanes = []lane{
	{[]int{2}, 0}, {[]int{3}, -1}, {[]int{2, 2}, -1}, {[]int{2, 2}, 0}, {[]int{2, 1}, 0}, {[]int{2, 2}, 1}, {[]int{2, 1, 2}, 0}, {[]int{1, 2, 2}, 1}, {[]int{1, 2, 2}, 2},
	{[]int{3, 2}, 0}, {[]int{2, 2, 2}, 1},
}

// isSparsemax requires each lane of y to be the Euclidean projection of the lane of x to the simplex: elements are not
// negative, sum to one, and those that are positive all lie the same below x while the others lie at least as far below.
func isSparsemax(x, y hlp.Arr, l lane, dt tensor.Dtype) {
	a := l.ax()
	hlp.Each(l.sh, func(ix []int) {
		if ix[a] != 0 {
			return
		}
		var xs, ys []float64
		l.along(ix, func(o []int) { xs, ys = append(xs, x.At(o...)), append(ys, y.At(o...)) })
		sum := 0.0
		for _, v := range ys {
			vsym.Assert(v >= 0, "sparsemax is negative")
			sum += v
		}
		vsym.AssertNear(sum, 1, hlp.Tol(dt), "sum of a sparsemax lane")
		for i := range ys {
			if ys[i] <= 0 {
				continue
			}
			for j := range ys {
				vsym.Assert(xs[i]-ys[i] >= xs[j]-ys[j]-hlp.Tol(dt), "sparsemax is not the projection")
			}
		}
	})
}

func sparse(x *G.Node, l lane) *G.Node {
	if l.axis < 0 {
		return hlp.Node(G.Sparsemax(x))
	}
	return hlp.Node(G.Sparsemax(x, l.axis))
}

func sparsemax(dt tensor.Dtype, ls []lane, lisp, grad bool) {
	l := ls[vsym.Choice("lane", len(ls))]
	g := G.NewGraph()
	x := input(g, dt, l.sh...)
	y := sparse(x.N, l)
	w := hlp.Watch(y)
	if grad {
		grads(lisp, g, hlp.Weighted(g, y), x)
	} else if lisp {
		hlp.Ok(G.NewLispMachine(g, G.ExecuteFwdOnly()).RunAll(), "lisp run")
	} else {
		hlp.RunTape(g)
	}
	hlp.SameShape((*w).Shape(), l.sh, "sparsemax: shape")
	isSparsemax(x.Arr(), hlp.A(hlp.Nums(*w), l.sh...), l, dt)
	vsym.Cover("sparsemax")
}

// HSparsemax: sparsemax along each axis of shapes of rank 1 to 3, values.
//
//vsym:paths=6000
func HSparsemax() { sparsemax(hlp.F64, sparseLanes[:7], vsym.Choice("lisp", 2) == 1, false) }

// HSparsemaxKinds: sparsemax of float32 values.
//
//vsym:paths=6000
func HSparsemaxKinds() { sparsemax(hlp.F32, sparseLanes[:5], vsym.Choice("lisp", 2) == 1, true) }

// HSparsemaxGrad: gradients of sparsemax on the tape machine.
//
//vsym:paths=6000
func HSparsemaxGrad() {
	vsym.Generic(true)
	sparsemax(hlp.F64, sparseLanes[:9], false, true)
}

// HSparsemaxGradLisp: gradients of sparsemax on the LispMachine.
//
//vsym:paths=6000
func HSparsemaxGradLisp() {
	vsym.Generic(true)
	sparsemax(hlp.F64, sparseLanes[:7], true, true)
}

// HSparsemaxTwice: sparsemax of one matrix along both axes.
//
//vsym:paths=6000
func HSparsemaxTwice() {
	ls := []lane{{[]int{2, 2}, 0}, {[]int{2, 2}, 1}}
	g := G.NewGraph()
	x := input(g, hlp.F64, 2, 2)
	wy, wz := hlp.Watch(sparse(x.N, ls[0])), hlp.Watch(sparse(x.N, ls[1]))
	hlp.RunTape(g)
	isSparsemax(x.Arr(), hlp.A(hlp.Nums(*wy), 2, 2), ls[0], hlp.F64)
	isSparsemax(x.Arr(), hlp.A(hlp.Nums(*wz), 2, 2), ls[1], hlp.F64)
	vsym.Cover("two sparsemaxes")
}

// HSparsemaxDeep: sparsemax of a 3x2 matrix along its first and of a 2x2x2 tensor along its middle axis, with gradients.
//
//vsym:thorough
//vsym:paths=20000
func HSparsemaxDeep() {
	vsym.Generic(true)
	sparsemax(hlp.F64, sparseLanes[9:], vsym.Choice("lisp", 2) == 1, true)
}
