package c07

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// HForms: what a node says about its form agrees with its shape: scalars, vectors, rows, columns and matrices, inputs
// and results, extents of rank 0 to 3 arbitrary from 1 to 100, and its strides are those of elements in order.
func HForms() {
	rank := vsym.Choice("rank", 4)
	g := G.NewGraph()
	var sh []int
	for i := 0; i < rank; i++ {
		sh = append(sh, vsym.Int("extent", 1, 100))
	}
	var n *G.Node
	switch rank {
	case 0:
		n = G.NewScalar(g, tensor.Float64, G.WithName("n"))
	case 1:
		n = G.NewVector(g, tensor.Float64, G.WithShape(sh...), G.WithName("n"))
	case 2:
		n = G.NewMatrix(g, tensor.Float64, G.WithShape(sh...), G.WithName("n"))
	default:
		n = G.NewTensor(g, tensor.Float64, rank, G.WithShape(sh...), G.WithName("n"))
	}
	forms(n, sh)
	vsym.Assert(n.IsVar(), "an input is not a variable")
	r := hlp.Node(G.Neg(n))
	forms(r, sh)
	vsym.Assert(!r.IsVar(), "a result is a variable")
	if rank >= 2 {
		t := hlp.Node(G.Transpose(n))
		rev := make([]int, rank)
		for i := range rev {
			rev[i] = sh[rank-1-i]
		}
		forms(t, rev)
	}
	if rank > 0 {
		forms(hlp.Node(G.Sum(n)), nil)
		forms(hlp.Node(G.Reshape(n, tensor.Shape{hlp.Prod(sh)})), []int{hlp.Prod(sh)})
		forms(hlp.Node(G.Reshape(n, tensor.Shape{hlp.Prod(sh), 1})), []int{hlp.Prod(sh), 1})
	}
	vsym.Cover("forms")
}

func forms(n *G.Node, sh []int) {
	hlp.SameShape(n.Shape(), sh, "shape")
	vsym.Assert(n.Dims() == len(sh), "dimensions")
	vsym.Assert(n.IsScalar() == (len(sh) == 0), "scalar")
	vsym.Assert(n.IsVector() == (len(sh) == 1) && n.IsVec() == (len(sh) == 1), "vector")
	vsym.Assert(n.IsMatrix() == (len(sh) == 2), "matrix")
	row, col := len(sh) == 2 && sh[0] == 1 && sh[1] > 1, len(sh) == 2 && sh[1] == 1 && sh[0] > 1
	vsym.Assert(!row || n.IsRowVec() && !n.IsColVec(), "row")
	vsym.Assert(!col || n.IsColVec() && !n.IsRowVec(), "column")
	vsym.Assert(len(sh) == 2 || !n.IsRowVec() && !n.IsColVec(), "row or column of another rank")
	vsym.Assert(len(sh) != 2 || sh[0] == 1 || sh[1] == 1 || !n.IsRowVec() && !n.IsColVec(), "row or column of a matrix")
	st := n.Strides()
	vsym.Assert(len(st) == len(sh), "number of strides")
	k := 1
	for i := len(sh) - 1; i >= 0; i-- {
		vsym.Assert(st[i] == k, "stride", i)
		k *= sh[i]
	}
}
