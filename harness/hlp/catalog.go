package hlp

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

// Entry is an operation of the library on inputs of some shapes. Inputs are positive if Pos. It has gradients unless
// Flat, on the interpreting machine unless NoLisp.
type Entry struct {
	Name         string
	Shapes       [][]int
	Pos          bool
	F            func(x []*G.Node) (*G.Node, error)
	Flat, NoLisp bool
}

// Ins makes inputs for the operation holding xs.
func (e Entry) Ins(g *G.ExprGraph, dt tensor.Dtype, xs [][]float64) []*In {
	var r []*In
	for i, s := range e.Shapes {
		r = append(r, Var(g, dt, string(rune('a'+i)), xs[i], s...))
	}
	return r
}

// Draw makes contents for the inputs.
func (e Entry) Draw() [][]float64 {
	var r [][]float64
	for i, s := range e.Shapes {
		if e.Pos {
			r = append(r, SymsPos(string(rune('a'+i)), Prod(s), 0))
		} else {
			r = append(r, Syms(string(rune('a'+i)), Prod(s)))
		}
	}
	return r
}

// Build applies the operation.
func (e Entry) Build(ins []*In) *G.Node {
	var ns []*G.Node
	for _, in := range ins {
		ns = append(ns, in.N)
	}
	return Node(e.F(ns))
}

func un(f func(*G.Node) (*G.Node, error)) func(x []*G.Node) (*G.Node, error) {
	return func(x []*G.Node) (*G.Node, error) { return f(x[0]) }
}

func bin(f func(a, b *G.Node) (*G.Node, error)) func(x []*G.Node) (*G.Node, error) {
	return func(x []*G.Node) (*G.Node, error) { return f(x[0], x[1]) }
}

func sl(v ...int) tensor.Slice {
	switch len(v) {
	case 1:
		return G.S(v[0])
	case 2:
		return G.S(v[0], v[1])
	}
	return G.S(v[0], v[1], v[2])
}

// Catalog are the operations of the library: elementwise of one and two operands, with scalars, tensors of ranks up to
// three and extents of one; products, reductions, rearrangements and selections of ranks up to four; broadcasting; and
// the layers of neural networks that do not compare elements.
func Catalog() []Entry {
	var r []Entry
	type S = [][]int
	add := func(name string, sh S, pos bool, f func(x []*G.Node) (*G.Node, error)) {
		r = append(r, Entry{Name: name, Shapes: sh, Pos: pos, F: f})
	}
	flat := func(name string, sh S, pos bool, f func(x []*G.Node) (*G.Node, error)) {
		r = append(r, Entry{Name: name, Shapes: sh, Pos: pos, F: f, Flat: true})
	}
	// elementwise
	unary := []struct {
		n string
		f func(*G.Node) (*G.Node, error)
	}{{"abs", G.Abs}, {"neg", G.Neg}, {"sin", G.Sin}, {"cos", G.Cos}, {"exp", G.Exp}, {"log", G.Log}, {"log2", G.Log2}, {"square", G.Square},
		{"sqrt", G.Sqrt}, {"cube", G.Cube}, {"inverse", G.Inverse}, {"inverse square root", G.InverseSqrt}, {"tanh", G.Tanh}, {"log1p", G.Log1p}, {"expm1", G.Expm1}}
	ush := []S{{{2, 1, 2}}, {nil}, {{2}}, {{1, 2}}, {{1}}, {{2, 2}}, {{1, 1}}}
	for i, u := range unary {
		add(u.n, ush[i%len(ush)], true, un(u.f))
		add(u.n, ush[(i+3)%len(ush)], true, un(u.f))
	}
	bsh := []S{{{2, 2}, {2, 2}}, {nil, nil}, {{2, 1}, nil}, {nil, {2}}, {{2, 1, 2}, {2, 1, 2}}, {{1}, {1}}, {{1, 2}, {1, 2}}, {{1, 1}, nil}}
	for _, s := range bsh {
		add("add", s, true, bin(G.Add))
		add("sub", s, true, bin(G.Sub))
		add("product", s, true, bin(G.HadamardProd))
		add("quotient", s, true, bin(G.HadamardDiv))
	}
	add("power", S{{2}, {2}}, true, bin(G.Pow))
	add("power", S{nil, nil}, true, bin(G.Pow))
	for i, s := range []S{{{2}}, {nil}, {{2, 1, 2}}} {
		add("rectify", s, true, un(G.Rectify))
		add("leaky", s, true, un(func(n *G.Node) (*G.Node, error) { return G.LeakyRelu(n, 0.5) }))
		if i < 2 {
			add("double", s, false, un(func(n *G.Node) (*G.Node, error) { return G.Add(n, n) }))
			add("self product", s, false, un(func(n *G.Node) (*G.Node, error) { return G.HadamardProd(n, n) }))
		}
	}
	// products
	for _, s := range []S{{{2, 3}, {3, 2}}, {{1, 2}, {2, 1}}, {{2, 1}, {1, 2}}, {{2, 3}, {3}}, {{2}, {2, 3}}, {{3}, {3}}, {{1, 1}, {1, 1}}, {{1}, {1}}} {
		add("mul", s, false, bin(G.Mul))
	}
	add("outer", S{{2}, {3}}, false, bin(G.OuterProd))
	bmm := func(t ...bool) func(x []*G.Node) (*G.Node, error) {
		return func(x []*G.Node) (*G.Node, error) { return G.BatchedMatMul(x[0], x[1], t...) }
	}
	add("batched", S{{2, 1, 2}, {2, 2, 2}}, false, bmm())
	add("batched", S{{2, 2, 1}, {2, 2, 2}}, false, bmm(true, false))
	add("batched", S{{2, 1, 2}, {2, 2, 2}}, false, bmm(false, true))
	add("batched", S{{1, 2, 1, 2}, {1, 2, 2, 1}}, false, bmm())
	td := func(a, b []int) func(x []*G.Node) (*G.Node, error) {
		return func(x []*G.Node) (*G.Node, error) { return G.Tensordot(a, b, x[0], x[1]) }
	}
	add("contraction", S{{2, 3}, {2, 2}}, false, td([]int{0}, []int{1}))
	add("contraction", S{{2, 2, 1}, {2, 2}}, false, td([]int{1}, []int{0}))
	add("contraction", S{{2, 1, 2}, {2, 2, 2}}, false, td([]int{0, 2}, []int{1, 0}))
	// reductions
	red := func(f func(*G.Node, ...int) (*G.Node, error), ax ...int) func(x []*G.Node) (*G.Node, error) {
		return func(x []*G.Node) (*G.Node, error) { return f(x[0], ax...) }
	}
	for _, c := range []struct {
		s  []int
		ax []int
	}{{[]int{2, 2}, nil}, {[]int{2, 3}, []int{0}}, {[]int{2, 3}, []int{1}}, {[]int{3}, []int{0}}, {[]int{2, 1, 2}, []int{0, 2}}, {[]int{2, 2, 2}, []int{1}},
		{[]int{1, 2, 1, 2}, []int{0, 1, 3}}, {[]int{1, 3}, []int{0}}, {[]int{1}, nil}, {[]int{1, 1}, []int{1}}} {
		add("sum", S{c.s}, false, red(G.Sum, c.ax...))
		add("mean", S{c.s}, false, red(G.Mean, c.ax...))
	}
	add("norm", S{{3}}, true, un(func(n *G.Node) (*G.Node, error) { return G.Norm(n, 0, 2) }))
	add("norm", S{{2, 2}}, true, un(func(n *G.Node) (*G.Node, error) { return G.Norm(n, 1, 1) }))
	for _, left := range []bool{false, true} {
		left := left
		add("keep dims", S{{2, 3}}, false, un(func(n *G.Node) (*G.Node, error) {
			return G.KeepDims(n, left, func(a *G.Node) (*G.Node, error) { return G.Sum(a, 1) })
		}))
	}
	add("sum of several", S{{2}, {2}, {2}}, false, func(x []*G.Node) (*G.Node, error) { return G.ReduceAdd(append(G.Nodes{}, x...)) })
	add("product of several", S{{2}, {2}, {2}}, false, func(x []*G.Node) (*G.Node, error) { return G.ReduceMul(append(G.Nodes{}, x...)) })
	// rearrangements and selections
	slice := func(ss ...tensor.Slice) func(x []*G.Node) (*G.Node, error) {
		return func(x []*G.Node) (*G.Node, error) { return G.Slice(x[0], ss...) }
	}
	for _, c := range []struct {
		s  []int
		ss []tensor.Slice
	}{{[]int{2, 3}, []tensor.Slice{sl(1)}}, {[]int{2, 3}, []tensor.Slice{nil, sl(1, 3)}}, {[]int{3}, []tensor.Slice{sl(0, 2)}}, {[]int{3}, []tensor.Slice{sl(1)}},
		{[]int{2, 2, 2}, []tensor.Slice{sl(0)}}, {[]int{2, 2, 2}, []tensor.Slice{nil, sl(1)}}, {[]int{2, 3, 2}, []tensor.Slice{nil, sl(0, 2), sl(1)}},
		{[]int{2, 2, 2}, []tensor.Slice{sl(1), sl(0), sl(1)}}, {[]int{2, 2, 1, 2}, []tensor.Slice{sl(1), nil, nil, sl(0)}}, {[]int{5}, []tensor.Slice{sl(0, 5, 2)}},
		{[]int{5, 2}, []tensor.Slice{sl(1, 5, 2)}}, {[]int{1, 3}, []tensor.Slice{sl(0)}}, {[]int{2, 3}, []tensor.Slice{sl(0, 2)}}} {
		add("slice", S{c.s}, false, slice(c.ss...))
	}
	reshape := func(s ...int) func(x []*G.Node) (*G.Node, error) {
		return func(x []*G.Node) (*G.Node, error) { return G.Reshape(x[0], tensor.Shape(s).Clone()) }
	}
	add("reshape", S{{2, 3}}, false, reshape(3, 2))
	add("reshape", S{{2, 3}}, false, reshape(6))
	add("reshape", S{{4}}, false, reshape(2, 1, 2))
	add("reshape", S{{2, 1, 2}}, false, reshape(1, 4))
	add("reshape", S{{1, 1}}, false, reshape(1))
	add("ravel", S{{2, 1, 2}}, false, un(G.Ravel))
	perm := func(s ...int) func(x []*G.Node) (*G.Node, error) {
		return func(x []*G.Node) (*G.Node, error) { return G.Transpose(x[0], s...) }
	}
	add("transpose", S{{2, 3}}, false, perm())
	add("transpose", S{{2, 1, 3}}, false, perm(2, 0, 1))
	add("transpose", S{{2, 2, 2}}, false, perm(0, 2, 1))
	add("transpose", S{{1, 2, 2, 1}}, false, perm(2, 3, 0, 1))
	add("transpose", S{{1, 3}}, false, perm(1, 0))
	cat := func(ax int) func(x []*G.Node) (*G.Node, error) {
		return func(x []*G.Node) (*G.Node, error) { return G.Concat(ax, x...) }
	}
	add("concat", S{{2, 2}, {1, 2}}, false, cat(0))
	add("concat", S{{2, 1}, {2, 2}}, false, cat(1))
	add("concat", S{{2}, {1}, {3}}, false, cat(0))
	add("concat", S{{2, 1, 2}, {2, 2, 2}}, false, cat(1))
	add("concat", S{{1, 1, 2}, {1, 1, 1}}, false, cat(2))
	add("concat twice", S{{2, 2}}, false, func(x []*G.Node) (*G.Node, error) { return G.Concat(1, x[0], x[0]) })
	add("unconcat", S{{4, 1}}, false, func(x []*G.Node) (*G.Node, error) {
		p, err := G.Unconcat(x[0], 0, 2)
		if err != nil {
			return nil, err
		}
		return G.HadamardProd(p[0], p[1])
	})
	add("rows", S{{3, 2}}, false, un(func(n *G.Node) (*G.Node, error) {
		return G.ByIndices(n, G.NewConstant(tensor.New(tensor.WithBacking([]int{2, 0, 2}))), 0)
	}))
	add("columns", S{{2, 3}}, false, un(func(n *G.Node) (*G.Node, error) {
		return G.ByIndices(n, G.NewConstant(tensor.New(tensor.WithBacking([]int{1, 0}))), 1)
	}))
	// broadcasting
	for _, c := range []struct {
		s    S
		l, r []byte
	}{{S{{2, 3}, {1, 3}}, nil, []byte{0}}, {S{{2, 1}, {2, 3}}, []byte{1}, nil}, {S{{2, 3}, {3}}, nil, []byte{0}}, {S{{2}, {2, 3}}, []byte{1}, nil},
		{S{{1, 2}, {2, 1}}, []byte{0}, []byte{1}}, {S{{1, 2}, {1, 2}}, nil, []byte{0}}, {S{{2, 1}, {2, 1}}, []byte{1}, nil}, {S{{1}, {1}}, nil, []byte{0}},
		{S{{2, 1, 2}, {2, 1, 2}}, nil, []byte{1}}, {S{{2, 2, 2}, {2, 2}}, nil, []byte{1}}, {S{{2, 1, 1, 2}, {1, 1, 2, 1}}, []byte{2}, []byte{0, 3}}} {
		c := c
		add("broadcast add", c.s, true, func(x []*G.Node) (*G.Node, error) { return G.BroadcastAdd(x[0], x[1], c.l, c.r) })
		add("broadcast sub", c.s, true, func(x []*G.Node) (*G.Node, error) { return G.BroadcastSub(x[0], x[1], c.l, c.r) })
		add("broadcast product", c.s, true, func(x []*G.Node) (*G.Node, error) { return G.BroadcastHadamardProd(x[0], x[1], c.l, c.r) })
	}
	// layers
	zero, one := []int{0, 0}, []int{1, 1}
	add("average pool", S{{1, 2, 2, 1}}, false, un(func(n *G.Node) (*G.Node, error) { return G.AveragePool2D(n, tensor.Shape{2, 1}, one, one) }))
	add("average pool", S{{1, 1, 2, 2}}, false, un(func(n *G.Node) (*G.Node, error) { return G.AveragePool2D(n, tensor.Shape{1, 2}, zero, one) }))
	flat("global average pool", S{{1, 2, 1, 2}}, false, un(G.GlobalAveragePool2D))
	add("upsample", S{{1, 2, 1, 2}}, false, un(func(n *G.Node) (*G.Node, error) { return G.Upsample2D(n, 1) }))
	add("convolution", S{{1, 1, 2, 2}, {2, 1, 2, 1}}, false, bin(func(x, y *G.Node) (*G.Node, error) {
		return G.Conv2d(x, y, tensor.Shape{2, 1}, []int{1, 0}, one, one)
	}))
	add("convolution", S{{1, 1, 3, 3}, {1, 1, 2, 2}}, false, bin(func(x, y *G.Node) (*G.Node, error) {
		return G.Conv2d(x, y, tensor.Shape{2, 2}, zero, []int{2, 1}, one)
	}))
	add("convolution", S{{1, 1, 1, 2}, {1, 1, 1, 1}}, false, bin(func(x, y *G.Node) (*G.Node, error) {
		return G.Conv2d(x, y, tensor.Shape{1, 1}, zero, one, one)
	}))
	add("group norm", S{{1, 2, 1, 2}, {1, 2, 1, 1}, {1, 2, 1, 1}}, true, func(x []*G.Node) (*G.Node, error) { return G.GroupNorm(x[0], x[1], x[2], 1, 2, 0.25) })
	add("batch norm", S{{2, 1, 1, 1}, {2, 1, 1, 1}, {2, 1, 1, 1}}, true, func(x []*G.Node) (*G.Node, error) {
		y, _, _, _, err := G.BatchNorm(x[0], x[1], x[2], 0.5, 0.25)
		return y, err
	})
	flat("dropout of nothing", S{{2, 1}}, false, un(func(n *G.Node) (*G.Node, error) { return G.Dropout(n, 0) }))
	return r
}

// Forms are the ways Viewed provides inputs.
const Forms = 8

// Viewed makes nodes holding xs that are not inputs held contiguously: transposes of inputs, slices of larger inputs,
// slices of transposes; or inputs bound to a strided view or to a tensor that is transposed without being rearranged.
// What is held by the inputs is in the second result. It is false if no input can be provided so.
func (e Entry) Viewed(g *G.ExprGraph, dt tensor.Dtype, xs [][]float64, form int) (ns []*G.Node, ins []*In, any bool) {
	bound := func(nm string, v tensor.Tensor, s tensor.Shape, x []float64) {
		var n *G.Node
		switch form {
		case 3, 4:
			n = G.NewTensor(g, dt, len(s), G.WithName(nm), G.WithShape(s...))
			Ok(G.Let(n, v), "binding a view")
		case 5, 6:
			n = G.NewTensor(g, dt, len(s), G.WithName(nm), G.WithShape(s...), G.WithValue(v))
		case 7:
			n = G.NodeFromAny(g, v, G.WithName(nm))
		}
		ns, ins = append(ns, n), append(ins, &In{N: n, X: x, Shape: s, DT: dt})
	}
	for i, s := range e.Shapes {
		nm := string(rune('a' + i))
		k := -1 // an axis that can be sliced without being dropped
		for j, d := range s {
			if d > 1 {
				k = j
			}
		}
		rev := make([]int, len(s))
		for j := range rev {
			rev[j] = len(s) - 1 - j
		}
		flip := A(xs[i], s...).Perm(rev...)
		if len(s) < 2 && (form == 0 || form == 2 || form == 4 || form == 6) || k < 0 && form != 0 && form != 4 && form != 6 {
			in := Var(g, dt, nm, xs[i], s...)
			ns, ins = append(ns, in.N), append(ins, in)
			continue
		}
		any = true
		wide := func(a Arr, ax int) Arr {
			sh := append([]int{}, a.Sh...)
			sh[ax] += 2
			pad := SymsPos(nm+"pad", Prod(sh)/sh[ax]*2, 0)
			return Build(sh, func(ix []int) float64 {
				p := append([]int{}, ix...)
				p[ax]--
				if p[ax] < 0 || p[ax] >= a.Sh[ax] {
					p := pad[0]
					pad = pad[1:]
					return p
				}
				return a.At(p...)
			})
		}
		cut := func(ax, rank int) []tensor.Slice {
			r := make([]tensor.Slice, rank)
			r[ax] = G.S(1, 1+s[k])
			return r
		}
		switch form {
		case 0:
			in := Var(g, dt, nm, flip.D, flip.Sh...)
			ns, ins = append(ns, Node(G.Transpose(in.N, rev...))), append(ins, in)
		case 1:
			w := wide(A(xs[i], s...), k)
			in := Var(g, dt, nm, w.D, w.Sh...)
			ns, ins = append(ns, Node(G.Slice(in.N, cut(k, len(s))...))), append(ins, in)
		case 2:
			w := wide(flip, rev[k])
			in := Var(g, dt, nm, w.D, w.Sh...)
			ns, ins = append(ns, Node(G.Slice(Node(G.Transpose(in.N, rev...)), cut(k, len(s))...))), append(ins, in)
		case 3, 5, 7:
			w := wide(A(xs[i], s...), k)
			v, err := Dense(dt, w.D, w.Sh...).Slice(cut(k, len(s))...)
			Ok(err, "slice")
			bound(nm, v, s, xs[i])
		case 4, 6:
			t := Dense(dt, flip.D, flip.Sh...)
			Ok(t.T(rev...), "transpose")
			bound(nm, t, s, xs[i])
		}
	}
	return
}
