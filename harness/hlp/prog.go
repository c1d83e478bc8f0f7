package hlp

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/tensor"
)

// V is a node together with the value it denotes.
type V struct {
	N *G.Node
	A Arr
}

// V gives an input as a value of a program.
func (in *In) V() V { return V{in.N, in.Arr()} }

// Op is an operation of the program family: it builds a node and computes its denotation. Build returns false where the
// operation does not apply to the operands.
type Op struct {
	Name  string
	Arity int
	Build func(x, y V) (V, bool)
}

func same(x, y V) bool {
	if len(x.A.Sh) != len(y.A.Sh) {
		return false
	}
	for i := range x.A.Sh {
		if x.A.Sh[i] != y.A.Sh[i] {
			return false
		}
	}
	return true
}

func elementwise(name string, mk func(a, b *G.Node) (*G.Node, error), f func(a, b float64) float64) Op {
	return Op{name, 2, func(x, y V) (V, bool) {
		var a Arr
		switch {
		case same(x, y):
			a = Zip(x.A, y.A, f)
		case len(x.A.Sh) == 0:
			a = y.A.Map(func(v float64) float64 { return f(x.A.D[0], v) })
		case len(y.A.Sh) == 0:
			a = x.A.Map(func(v float64) float64 { return f(v, y.A.D[0]) })
		default:
			return V{}, false
		}
		return V{Node(mk(x.N, y.N)), a}, true
	}}
}

func unary(name string, mk func(a *G.Node) (*G.Node, error), f func(a float64) float64) Op {
	return Op{name, 1, func(x, _ V) (V, bool) {
		return V{Node(mk(x.N)), x.A.Map(f)}, true
	}}
}

// The operations of the program family.
var (
	OpAdd  = elementwise("add", G.Add, func(a, b float64) float64 { return a + b })
	OpSub  = elementwise("sub", G.Sub, func(a, b float64) float64 { return a - b })
	OpProd = elementwise("prod", G.HadamardProd, func(a, b float64) float64 { return a * b })
	OpDiv  = elementwise("div", G.HadamardDiv, func(a, b float64) float64 {
		vsym.Assume(b != 0)
		return a / b
	})
	OpNeg  = unary("neg", G.Neg, func(a float64) float64 { return -a })
	OpSq   = unary("square", G.Square, func(a float64) float64 { return a * a })
	OpExp  = unary("exp", G.Exp, vsym.Exp)
	OpTanh = unary("tanh", G.Tanh, vsym.Tanh)
	OpCube = unary("cube", G.Cube, func(a float64) float64 { return a * a * a })

	OpMatMul = Op{"matmul", 2, func(x, y V) (V, bool) {
		if len(x.A.Sh) != 2 || len(y.A.Sh) != 2 || x.A.Sh[1] != y.A.Sh[0] {
			return V{}, false
		}
		return V{Node(G.Mul(x.N, y.N)), Dot(x.A, y.A, []int{1}, []int{0})}, true
	}}
	OpTrans = Op{"transpose", 1, func(x, _ V) (V, bool) {
		if len(x.A.Sh) != 2 {
			return V{}, false
		}
		return V{Node(G.Transpose(x.N, 1, 0)), x.A.Perm(1, 0)}, true
	}}
	OpSum = Op{"sum", 1, func(x, _ V) (V, bool) {
		if len(x.A.Sh) == 0 {
			return V{}, false
		}
		s := 0.0
		for _, d := range x.A.D {
			s += d
		}
		return V{Node(G.Sum(x.N)), A([]float64{s})}, true
	}}
	OpSumRow = Op{"sum0", 1, func(x, _ V) (V, bool) {
		if len(x.A.Sh) != 2 {
			return V{}, false
		}
		return V{Node(G.Sum(x.N, 0)), x.A.Sum(0)}, true
	}}
	OpRow = Op{"row", 1, func(x, _ V) (V, bool) {
		if len(x.A.Sh) != 2 {
			return V{}, false
		}
		return V{Node(G.Slice(x.N, G.S(1))), x.A.SliceAx(0, 1, 2, 1).Drop(0)}, true
	}}
	OpReshape = Op{"reshape", 1, func(x, _ V) (V, bool) {
		if len(x.A.Sh) != 2 {
			return V{}, false
		}
		n := Prod(x.A.Sh)
		return V{Node(G.Reshape(x.N, tensor.Shape{n})), x.A.Reshape(n)}, true
	}}
	OpConcat = Op{"concat", 2, func(x, y V) (V, bool) {
		if len(x.A.Sh) == 0 || !same(x, y) {
			return V{}, false
		}
		return V{Node(G.Concat(0, x.N, y.N)), Concat(0, x.A, y.A)}, true
	}}
	// OpAddC adds a constant shared by all uses.
	OpAddC = Op{"add constant", 1, func(x, _ V) (V, bool) {
		var c *G.Node
		if x.N.Dtype() == tensor.Float32 {
			c = G.NewConstant(float32(3))
		} else {
			c = G.NewConstant(3.0)
		}
		return V{Node(G.Add(x.N, c)), x.A.Map(func(v float64) float64 { return v + 3 })}, true
	}}
	OpRsubC = Op{"subtract from constant", 1, func(x, _ V) (V, bool) {
		var c *G.Node
		if x.N.Dtype() == tensor.Float32 {
			c = G.NewConstant(float32(2))
		} else {
			c = G.NewConstant(2.0)
		}
		return V{Node(G.Sub(c, x.N)), x.A.Map(func(v float64) float64 { return 2 - v })}, true
	}}
)

// Core is the small operation set used for longer programs, Wide the larger one.
var (
	Core = []Op{OpAdd, OpProd, OpMatMul, OpNeg, OpTrans}
	Wide = []Op{OpAdd, OpSub, OpProd, OpDiv, OpMatMul, OpConcat, OpNeg, OpSq, OpExp, OpTanh, OpTrans, OpSum, OpSumRow, OpRow, OpReshape, OpAddC, OpRsubC}
)

// Extend appends a freely chosen operation on freely chosen members of the pool. If latest is set one operand is the
// newest member.
func Extend(pool []V, ops []Op, latest bool) []V {
	op := ops[vsym.Choice("op", len(ops))]
	n := len(pool)
	var x, y V
	if op.Arity == 1 {
		if latest {
			x = pool[n-1]
		} else {
			x = pool[vsym.Choice("operand", n)]
		}
	} else if latest {
		k := vsym.Choice("operands", 2*n-1)
		if k < n {
			x, y = pool[n-1], pool[k]
		} else {
			x, y = pool[k-n], pool[n-1]
		}
	} else {
		x, y = pool[vsym.Choice("left", n)], pool[vsym.Choice("right", n)]
	}
	r, ok := op.Build(x, y)
	vsym.Assume(ok)
	return append(pool, r)
}
