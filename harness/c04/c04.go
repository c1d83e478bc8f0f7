// Package c04: gradients of linear algebra, reductions and shape operations equal the derivatives of the computed cost.
package c04

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{tensor.Float64, tensor.Float32}

// grads weights the result and checks the gradients of all inputs on the chosen machine.
func grads(g *G.ExprGraph, lisp bool, z *G.Node, ins ...*hlp.In) {
	cost := hlp.Weighted(g, z)
	if lisp {
		hlp.LispGrads(g, cost, ins...)
	} else {
		hlp.TapeGrads(g, cost, ins...)
	}
}

func setup() (*G.ExprGraph, tensor.Dtype, bool) {
	vsym.Generic(true)
	return G.NewGraph(), dts[vsym.Choice("dtype", 2)], vsym.Choice("machine", 2) == 1
}

// HMatMul: products of matrices, every real content, shapes (2,3)x(3,2), (1,2)x(2,3), (3,1)x(1,2), (2,2)x(2,2),
// also with the operand transposed in the graph.
func HMatMul() {
	g, dt, lisp := setup()
	sh := [][3]int{{2, 3, 2}, {1, 2, 3}, {3, 1, 2}, {2, 2, 2}}[vsym.Choice("shape", 4)]
	tr := vsym.Choice("transposed", 4)
	as, bs := []int{sh[0], sh[1]}, []int{sh[1], sh[2]}
	if tr&1 != 0 {
		as = []int{sh[1], sh[0]}
	}
	if tr&2 != 0 {
		bs = []int{sh[2], sh[1]}
	}
	a, b := hlp.Sym(g, dt, "a", as...), hlp.Sym(g, dt, "b", bs...)
	x, y := a.N, b.N
	if tr&1 != 0 {
		x = hlp.Node(G.Transpose(x, 1, 0))
	}
	if tr&2 != 0 {
		y = hlp.Node(G.Transpose(y, 1, 0))
	}
	grads(g, lisp, hlp.Node(G.Mul(x, y)), a, b)
}

// HMatVec: matrix times vector (2,3)x(3), (3,2)x(2) and (2,2)x(2), and vector times matrix.
func HMatVec() {
	g, dt, lisp := setup()
	sh := [][2]int{{2, 3}, {3, 2}, {2, 2}}[vsym.Choice("shape", 3)]
	a := hlp.Sym(g, dt, "a", sh[0], sh[1])
	if vsym.Choice("left", 2) == 1 {
		v := hlp.Sym(g, dt, "v", sh[0])
		grads(g, lisp, hlp.Node(G.Mul(v.N, a.N)), a, v)
		return
	}
	v := hlp.Sym(g, dt, "v", sh[1])
	grads(g, lisp, hlp.Node(G.Mul(a.N, v.N)), a, v)
}

// HDot: inner product of vectors of length 2 and 3.
func HDot() {
	g, dt, lisp := setup()
	n := 2 + vsym.Choice("n", 2)
	a, b := hlp.Sym(g, dt, "a", n), hlp.Sym(g, dt, "b", n)
	grads(g, lisp, hlp.Node(G.Mul(a.N, b.N)), a, b)
}

// HOuter: outer product of vectors of lengths 2x3, 3x2 and 2x2.
func HOuter() {
	g, dt, lisp := setup()
	sh := [][2]int{{2, 3}, {3, 2}, {2, 2}}[vsym.Choice("shape", 3)]
	a, b := hlp.Sym(g, dt, "a", sh[0]), hlp.Sym(g, dt, "b", sh[1])
	grads(g, lisp, hlp.Node(G.OuterProd(a.N, b.N)), a, b)
}

// HBatched: batched matrix products, batch (2) and (2,2), inner (2,3)x(3,2) with every combination of transposes.
func HBatched() {
	g, dt, lisp := setup()
	batch := [][]int{{2}, {2, 2}}[vsym.Choice("batch", 2)]
	tr := vsym.Choice("trans", 4)
	m, k, n := 2, 3, 2
	if len(batch) == 2 {
		k = 1
	}
	as, bs := []int{m, k}, []int{k, n}
	if tr&1 != 0 {
		as = []int{k, m}
	}
	if tr&2 != 0 {
		bs = []int{n, k}
	}
	a := hlp.Sym(g, dt, "a", append(append([]int{}, batch...), as...)...)
	b := hlp.Sym(g, dt, "b", append(append([]int{}, batch...), bs...)...)
	grads(g, lisp, hlp.Node(G.BatchedMatMul(a.N, b.N, tr&1 != 0, tr&2 != 0)), a, b)
}

// HTensordot: contractions of (2,3)x(3,2), (2,3)x(2,3) over each single axis pair, (2,2,2)x(2,2) over two axes.
func HTensordot() {
	g, dt, lisp := setup()
	type cfg struct {
		a, b, ax, bx []int
	}
	c := []cfg{
		{[]int{2, 3}, []int{3, 2}, []int{1}, []int{0}},
		{[]int{2, 3}, []int{2, 2}, []int{0}, []int{1}},
		{[]int{2, 3}, []int{2, 2}, []int{0}, []int{0}},
		{[]int{2, 3}, []int{2, 3}, []int{1}, []int{1}},
		{[]int{2, 2, 3}, []int{3, 2, 2}, []int{1, 2}, []int{1, 0}},
		{[]int{2, 3}, []int{3}, []int{1}, []int{0}},
		{[]int{3}, []int{2, 3}, []int{0}, []int{1}},
	}[vsym.Choice("config", 7)]
	a, b := hlp.Sym(g, dt, "a", c.a...), hlp.Sym(g, dt, "b", c.b...)
	grads(g, lisp, hlp.Node(G.Tensordot(c.ax, c.bx, a.N, b.N)), a, b)
}

var redShapes = [][]int{{3}, {2, 3}, {3, 1}, {2, 2, 2}, {2, 1, 3}, {2, 1, 2, 2}}

func reduction(f func(a *G.Node, along ...int) (*G.Node, error), noLisp bool) {
	g, dt, lisp := setup()
	if noLisp {
		lisp = false
	}
	sh := redShapes[vsym.Choice("shape", len(redShapes))]
	subs := append(hlp.Subsets(len(sh)), nil)
	ax := subs[vsym.Choice("axes", len(subs))]
	a := hlp.Sym(g, dt, "a", sh...)
	grads(g, lisp, hlp.Node(f(a.N, ax...)), a)
}

// HSum: sums over every subset of axes of shapes of rank 1 to 4, and over all.
func HSum() { reduction(G.Sum, false) }

// HMean: means over every subset of axes of shapes of rank 1 to 4, and over all.
func HMean() { reduction(G.Mean, false) }

// HMax: maxima over every subset of axes of shapes of rank 1 to 3, and over all; inputs without ties.
//
//vsym:paths=4000
func HMax() {
	g, dt, lisp := setup()
	shs := [][]int{{3}, {2, 2}, {2, 3}, {2, 1, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	subs := append(hlp.Subsets(len(sh)), nil)
	ax := subs[vsym.Choice("axes", len(subs))]
	a := hlp.Sym(g, dt, "a", sh...)
	for i := range a.X {
		for j := 0; j < i; j++ {
			vsym.Assume(a.X[i] != a.X[j])
		}
	}
	grads(g, lisp, hlp.Node(G.Max(a.N, ax...)), a)
}

// HSlice: a slice along each axis of shapes (4), (3,3), (2,3,2): every start/end, single elements, and two axes at once.
func HSlice() {
	g, dt, lisp := setup()
	shs := [][]int{{4}, {3, 3}, {2, 3, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	a := hlp.Sym(g, dt, "a", sh...)
	sl := make([]tensor.Slice, len(sh))
	for i := range sl {
		k := vsym.Choice("slice", 4)
		switch k {
		case 0:
			sl[i] = nil
		case 1:
			sl[i] = G.S(sh[i] - 1)
		case 2:
			sl[i] = G.S(0, sh[i]-1)
		case 3:
			if sh[i] < 3 {
				sl[i] = G.S(0)
			} else {
				sl[i] = G.S(1, sh[i])
			}
		}
	}
	grads(g, lisp, hlp.Node(G.Slice(a.N, sl...)), a)
}

// HConcat: concatenation of two and three operands along each axis of rank 1 to 3 shapes.
func HConcat() {
	g, dt, lisp := setup()
	shs := [][]int{{2}, {2, 2}, {1, 2, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	ax := vsym.Choice("axis", len(sh))
	a := hlp.Sym(g, dt, "a", sh...)
	s2 := append([]int{}, sh...)
	s2[ax]++
	b := hlp.Sym(g, dt, "b", s2...)
	if vsym.Choice("three", 2) == 1 {
		s3 := append([]int{}, sh...)
		s3[ax] = 1
		c := hlp.Sym(g, dt, "c", s3...)
		grads(g, lisp, hlp.Node(G.Concat(ax, a.N, b.N, c.N)), a, b, c)
		return
	}
	grads(g, lisp, hlp.Node(G.Concat(ax, a.N, b.N)), a, b)
}

// HReshape: reshapes between shapes of 4 and 6 elements, rank 1 to 3.
func HReshape() {
	g, dt, lisp := setup()
	shs := [][]int{{6}, {2, 3}, {3, 2}, {1, 6}, {6, 1}, {1, 2, 3}, {3, 1, 2}}
	from := shs[vsym.Choice("from", len(shs))]
	to := shs[vsym.Choice("to", len(shs))]
	a := hlp.Sym(g, dt, "a", from...)
	grads(g, lisp, hlp.Node(G.Reshape(a.N, append(tensor.Shape{}, to...))), a)
}

// HTranspose: every permutation of the axes of (2,3) and (2,3,2).
func HTranspose() {
	g, dt, lisp := setup()
	shs := [][]int{{2, 3}, {2, 3, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	ps := hlp.Perms(len(sh))
	p := ps[vsym.Choice("perm", len(ps))]
	a := hlp.Sym(g, dt, "a", sh...)
	grads(g, lisp, hlp.Node(G.Transpose(a.N, p...)), a)
}

// HRepeat: replication of a vector or matrix along an axis by broadcasting.
func HRepeat() {
	g, dt, lisp := setup()
	switch vsym.Choice("config", 4) {
	case 0:
		a, b := hlp.Sym(g, dt, "a", 2, 3), hlp.Sym(g, dt, "b", 3)
		grads(g, lisp, hlp.Node(G.BroadcastHadamardProd(a.N, b.N, nil, []byte{0})), a, b)
	case 1:
		a, b := hlp.Sym(g, dt, "a", 2, 3), hlp.Sym(g, dt, "b", 2)
		grads(g, lisp, hlp.Node(G.BroadcastHadamardProd(a.N, b.N, nil, []byte{1})), a, b)
	case 2:
		a, b := hlp.Sym(g, dt, "a", 2, 1), hlp.Sym(g, dt, "b", 2, 3)
		grads(g, lisp, hlp.Node(G.BroadcastHadamardProd(a.N, b.N, []byte{1}, nil)), a, b)
	case 3:
		a, b := hlp.Sym(g, dt, "a", 1, 3), hlp.Sym(g, dt, "b", 2, 3)
		grads(g, lisp, hlp.Node(G.BroadcastHadamardProd(a.N, b.N, []byte{0}, nil)), a, b)
	}
}

// HNorm: the Euclidean norm of a vector and a matrix, every content with a positive sum of squares.
func HNorm() {
	g, dt, lisp := setup()
	shs := [][]int{{3}, {2, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	a := hlp.Var(g, dt, "a", hlp.SymsPos("a", hlp.Prod(sh), 0), sh...)
	ax := vsym.Choice("axis", len(sh))
	grads(g, lisp, hlp.Node(G.Norm(a.N, ax, 2)), a)
}

// HNormOrder: norms of order 1, 3 (in 64 bits) and 4 of vectors and matrices of nonzero elements along each axis.
//
//vsym:paths=3000
func HNormOrder() {
	g, dt, lisp := setup()
	shs := [][]int{{2}, {2, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	ax := vsym.Choice("axis", len(sh))
	a := hlp.Sym(g, dt, "a", sh...)
	for _, v := range a.X {
		vsym.Assume(v != 0)
	}
	p := []int{1, 4, 3}[vsym.Choice("order", 3)]
	vsym.Assume(p != 3 || dt == tensor.Float64) // a third is not exact
	grads(g, lisp, hlp.Node(G.Norm(a.N, ax, p)), a)
}

// HLogSumExp: logarithms of sums of exponentials of vectors and matrices without ties along each axis.
//
//vsym:paths=3000
func HLogSumExp() {
	g, dt, lisp := setup()
	shs := [][]int{{1}, {3}, {2, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	ax := vsym.Choice("axis", len(sh))
	a := hlp.Sym(g, dt, "a", sh...)
	grads(g, lisp, hlp.Node(G.LogSumExp(a.N, ax)), a)
}

// HSliceSteps: stepped slices along each axis of (5), (3,4) and (2,3,2), the step dividing the length or not.
func HSliceSteps() {
	g, dt, lisp := setup()
	shs := [][]int{{5}, {3, 4}, {2, 3, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	ax := vsym.Choice("axis", len(sh))
	a := hlp.Sym(g, dt, "a", sh...)
	sl := make([]tensor.Slice, ax+1)
	sl[ax] = G.S(vsym.Choice("start", 2), sh[ax], 2+vsym.Choice("step", 2))
	grads(g, lisp, hlp.Node(G.Slice(a.N, sl...)), a)
}

// HByIndices: selecting along each axis of (1), (3), (1,1), (2,3), (2,3,2) with every list of up to 2 indices, and some of 3.
func HByIndices() {
	g, dt, lisp := setup()
	shs := [][]int{{1}, {3}, {1, 1}, {2, 3}, {2, 3, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	ax := vsym.Choice("axis", len(sh))
	ix := make([]int, 1+vsym.Choice("indices", 3))
	for i := range ix {
		if i < 2 {
			ix[i] = vsym.Choice("index", sh[ax])
		}
	}
	a := hlp.Sym(g, dt, "a", sh...)
	in := G.NewVector(g, tensor.Int, G.WithName("ix"), G.WithShape(len(ix)), G.WithValue(tensor.New(tensor.WithShape(len(ix)), tensor.WithBacking(append([]int{}, ix...)))))
	grads(g, lisp, hlp.Node(G.ByIndices(a.N, in, ax)), a)
}

// HTensordotWhole: contraction of every axis of a matrix operand with two axes of a (2,2,3) operand.
func HTensordotWhole() {
	g, dt, lisp := setup()
	a, b := hlp.Sym(g, dt, "a", 2, 2, 3), hlp.Sym(g, dt, "b", 2, 2)
	grads(g, lisp, hlp.Node(G.Tensordot([]int{0, 1}, []int{1, 0}, a.N, b.N)), a, b)
}

// HTensordotVectors: contraction of two vectors to a scalar.
func HTensordotVectors() {
	g, dt, lisp := setup()
	a, b := hlp.Sym(g, dt, "a", 3), hlp.Sym(g, dt, "b", 3)
	grads(g, lisp, hlp.Node(G.Tensordot([]int{0}, []int{0}, a.N, b.N)), a, b)
}

// HLarge: larger operands: products of up to 5 by 6 matrices and vectors of 9, batches of 5, contractions over up to three axes,
// sums, slices, concatenations of six, permutations of four axes, selections of seven.
func HLarge() {
	g, dt, lisp := setup()
	in := func(name string, sh ...int) *hlp.In { return hlp.Sym(g, dt, name, sh...) }
	switch vsym.Choice("operation", 14) {
	case 0:
		a, b := in("a", 5, 6), in("b", 6, 4)
		grads(g, lisp, hlp.Node(G.Mul(a.N, b.N)), a, b)
	case 1:
		a, b := in("a", 7, 6), in("b", 6)
		grads(g, lisp, hlp.Node(G.Mul(a.N, b.N)), a, b)
	case 2:
		a, b := in("a", 9), in("b", 9)
		grads(g, lisp, hlp.Node(G.Mul(a.N, b.N)), a, b)
	case 3:
		a, b := in("a", 6), in("b", 5)
		grads(g, lisp, hlp.Node(G.OuterProd(a.N, b.N)), a, b)
	case 4:
		a, b := in("a", 5, 2, 3), in("b", 5, 3, 2)
		grads(g, lisp, hlp.Node(G.BatchedMatMul(a.N, b.N)), a, b)
	case 5:
		a, b := in("a", 2, 3, 2, 2), in("b", 3, 2, 2, 2)
		grads(g, lisp, hlp.Node(G.Tensordot([]int{1, 2, 3}, []int{0, 1, 2}, a.N, b.N)), a, b)
	case 6:
		a, b := in("a", 3, 2, 4), in("b", 4, 2, 2)
		grads(g, lisp, hlp.Node(G.Tensordot([]int{2}, []int{0}, a.N, b.N)), a, b)
	case 7:
		sh := [][]int{{17}, {5, 6}, {4, 3, 5}}[vsym.Choice("shape", 3)]
		a := in("a", sh...)
		subs := hlp.Subsets(len(sh))
		ax := subs[vsym.Choice("axes", len(subs))]
		f := G.Sum
		if vsym.Choice("mean", 2) == 1 {
			f = G.Mean
		}
		grads(g, lisp, hlp.Node(f(a.N, ax...)), a)
	case 8:
		a := in("a", 11)
		grads(g, lisp, hlp.Node(G.Slice(a.N, G.S(vsym.Choice("start", 4), 11-vsym.Choice("end", 3), 1+vsym.Choice("step", 4)))), a)
	case 9:
		a := in("a", 5, 6)
		grads(g, lisp, hlp.Node(G.Slice(a.N, G.S(1, 4), G.S(2, 6))), a)
	case 10:
		ax := vsym.Choice("axis", 2)
		var ins []*hlp.In
		var ns []*G.Node
		for i, n := range []int{2, 1, 3, 1, 2, 4} {
			sh := []int{2, 2}
			sh[ax] = n
			ins = append(ins, in("a"+string(rune('0'+i)), sh...))
			ns = append(ns, ins[i].N)
		}
		grads(g, lisp, hlp.Node(G.Concat(ax, ns...)), ins...)
	case 11:
		ps := hlp.Perms(4)
		a := in("a", 2, 3, 1, 2)
		grads(g, lisp, hlp.Node(G.Transpose(a.N, ps[vsym.Choice("perm", len(ps))]...)), a)
	case 12:
		a := in("a", 4, 3)
		ax := vsym.Choice("axis", 2)
		ix := []int{2, 0, 2, 1, 1, 2, 0}
		i := G.NewVector(g, tensor.Int, G.WithName("ix"), G.WithShape(len(ix)), G.WithValue(tensor.New(tensor.WithShape(len(ix)), tensor.WithBacking(ix))))
		grads(g, lisp, hlp.Node(G.ByIndices(a.N, i, ax)), a)
	case 13:
		a := in("a", 4, 3, 2)
		grads(g, lisp, hlp.Node(G.Reshape(a.N, tensor.Shape{2, 6, 2})), a)
	}
}

// axes chooses k distinct axes out of n in any order.
func axes(name string, n, k int) []int {
	var r []int
	for len(r) < k {
		a := vsym.Choice(name, n)
		vsym.Assume(!hlp.InList(r, a))
		r = append(r, a)
	}
	return r
}

// contract: gradients of contractions of operands of ranks na and nb over k axes, extents 1 to 3, on either machine.
func contract(na, nb, k int) {
	vsym.Generic(true)
	lisp := vsym.Choice("machine", 2) == 1
	ax, bx := axes("left axis", na, k), axes("right axis", nb, k)
	unit := vsym.Choice("unit", 2)
	as, bs := append([]int{}, []int{3, 2, 1, 2}[:na]...), append([]int{}, []int{2, 1, 2, 2}[:nb]...)
	for i := range ax {
		d := 2
		if i == 0 {
			d -= unit
		}
		as[ax[i]], bs[bx[i]] = d, d
	}
	g := G.NewGraph()
	a, b := hlp.Sym(g, hlp.F64, "a", as...), hlp.Sym(g, hlp.F64, "b", bs...)
	grads(g, lisp, hlp.Node(G.Tensordot(append([]int{}, ax...), append([]int{}, bx...), a.N, b.N)), a, b)
}

// HContractions: gradients of contractions of operands of rank 1 to 3 over one or two axes in every position and order.
//
//vsym:paths=9000
func HContractions() {
	na, nb := 1+vsym.Choice("left rank", 3), 1+vsym.Choice("right rank", 3)
	k := 1 + vsym.Choice("contracted", 2)
	vsym.Assume(k <= na && k <= nb && (k < na || k < nb))
	contract(na, nb, k)
}

// HContractions4: the same where one operand has rank 4 and one axis is contracted.
//
//vsym:paths=9000
func HContractions4() {
	na, nb := 4, 1+vsym.Choice("right rank", 4)
	if vsym.Choice("swap", 2) == 1 {
		na, nb = nb, na
	}
	contract(na, nb, 1)
}
