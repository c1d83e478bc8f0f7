// Package c07: announced shapes and element types are those computed.
package c07

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{hlp.F64, hlp.F32}

// numbers gives contents: positive, all different, below one.
func numbers(n int) []float64 {
	x := make([]float64, n)
	for i := range x {
		x[i] = float64((i*7)%16+1)/32 + float64(i)/1024
	}
	return x
}

// world is a graph whose inputs have symbolic extents until they are given values.
type world struct {
	g   *G.ExprGraph
	dt  tensor.Dtype
	ins []*G.Node
	ext [][]int
}

func newWorld() *world { return with(dts[vsym.Choice("dtype", len(dts))]) }

func with(dt tensor.Dtype) *world { return &world{g: G.NewGraph(), dt: dt} }

// in makes an input of the rank with extents up to max.
func (w *world) in(name string, rank, max int) *G.Node {
	sh := make([]int, rank)
	for i := range sh {
		sh[i] = vsym.Int("extent", 1, max)
	}
	var n *G.Node
	if rank == 0 {
		n = G.NewScalar(w.g, w.dt, G.WithName(name))
	} else {
		n = G.NewTensor(w.g, w.dt, rank, G.WithName(name), G.WithShape(sh...))
	}
	w.ins = append(w.ins, n)
	w.ext = append(w.ext, sh)
	return n
}

// fixed makes an input of the shape.
func (w *world) fixed(name string, sh ...int) *G.Node {
	n := G.NewTensor(w.g, w.dt, len(sh), G.WithName(name), G.WithShape(sh...))
	w.ins = append(w.ins, n)
	w.ext = append(w.ext, sh)
	return n
}

// bind fixes the extents and gives the inputs values.
func (w *world) bind() {
	for i, n := range w.ins {
		sh := make([]int, len(w.ext[i]))
		for j, e := range w.ext[i] {
			sh[j] = vsym.Concrete(e)
		}
		if len(sh) == 0 {
			hlp.Ok(G.Let(n, hlp.Scalar(w.dt, 0.25)), "let")
			continue
		}
		hlp.Ok(G.Let(n, hlp.Dense(w.dt, numbers(hlp.Prod(sh)), sh...)), "let")
	}
}

// same asserts that the value is of the shape and element type announced for the node.
func same(n *G.Node, v G.Value, what string) {
	if v == nil {
		vsym.Assert(false, "no value for "+what)
	}
	vsym.Assert(v.Dtype() == n.Dtype(), "element type of "+what)
	hlp.SameShape(v.Shape(), n.Shape(), "shape of "+what)
	_, scalar := v.(G.Scalar)
	vsym.Assert(scalar == n.IsScalar(), "scalar or not: "+what)
}

// try tells whether f does what it should: neither an error nor a panic.
func try(f func() error) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return f() == nil
}

// check builds, computes what has been built unless building was refused, and compares with what was announced.
func (w *world) check(what string, build func() (*G.Node, error)) {
	var n *G.Node
	if !try(func() (err error) { n, err = build(); return }) {
		return
	}
	sh := n.Shape().Clone()
	w.bind()
	var v *G.Value
	if !try(func() error {
		v = hlp.Watch(n)
		return G.NewTapeMachine(w.g).RunAll()
	}) {
		return
	}
	hlp.SameShape(n.Shape(), sh, "the announced shape after running, "+what)
	same(n, *v, what)
	vsym.Cover("computed " + what)
}

type un struct {
	name string
	f    func(*G.Node) (*G.Node, error)
}

var unaries = []un{
	{"neg", G.Neg}, {"sigmoid", G.Sigmoid}, {"rectify", G.Rectify}, {"mish", G.Mish}, {"ravel", G.Ravel}, {"diagflat", G.DiagFlat},
	{"leaky", func(n *G.Node) (*G.Node, error) { return G.LeakyRelu(n, 0.25) }},
	{"dropout", func(n *G.Node) (*G.Node, error) { return G.Dropout(n, 0.5) }},
	{"transpose", func(n *G.Node) (*G.Node, error) { return G.Transpose(n) }},
}

// top bounds the extents of inputs by rank.
func top(rank int) int {
	if rank < 3 {
		return 3
	}
	return 2
}

func (w *world) any(name string, ranks int) *G.Node {
	r := vsym.Choice("rank", ranks)
	return w.in(name, r, top(r))
}

// HUnary: functions of one operand of rank up to 4.
func HUnary() {
	w := newWorld()
	x := w.any("x", 5)
	u := unaries[vsym.Choice("function", len(unaries))]
	w.check(u.name, func() (*G.Node, error) { return u.f(x) })
}

type bin struct {
	name string
	f    func(a, b *G.Node) (*G.Node, error)
}

func ret(f func(a, b *G.Node, same bool) (*G.Node, error), same bool) func(a, b *G.Node) (*G.Node, error) {
	return func(a, b *G.Node) (*G.Node, error) { return f(a, b, same) }
}

var elementwise = []bin{{"add", G.Add}, {"lt", ret(G.Lt, true)}, {"gte bool", ret(G.Gte, false)}, {"max between", G.MaxBetween}}

// HElementwise: elementwise functions of two operands of rank up to 3, compatible or not.
func HElementwise() {
	w := newWorld()
	a, b := w.any("a", 4), w.any("b", 4)
	f := elementwise[vsym.Choice("function", len(elementwise))]
	w.check(f.name, func() (*G.Node, error) { return f.f(a, b) })
}

var products = []bin{
	{"div", G.Div}, {"mul", G.Mul}, {"outer", G.OuterProd}, {"xent", G.BinaryXent},
}

// HProducts: products and the like of two operands of rank up to 3, compatible or not.
func HProducts() {
	w := with(hlp.F64)
	a, b := w.any("a", 4), w.any("b", 4)
	f := products[vsym.Choice("function", len(products))]
	w.check(f.name, func() (*G.Node, error) { return f.f(a, b) })
}

// HBatched: batched products of operands of rank 2 or 3, with either transposed or not.
func HBatched() {
	w := with(hlp.F32)
	a := w.in("a", 2+vsym.Choice("rank", 2), 2)
	b := w.in("b", 2+vsym.Choice("rank", 2), 2)
	ta, tb := vsym.Choice("left", 2) == 1, vsym.Choice("right", 2) == 1
	w.check("batched", func() (*G.Node, error) { return G.BatchedMatMul(a, b, ta, tb) })
}

// HContraction: contractions of operands of rank 1 to 3 over one or two pairs of axes, in range or not, that leave an axis.
func HContraction() {
	w := with(hlp.F64)
	ra, rb := 1+vsym.Choice("rank", 3), 1+vsym.Choice("rank", 3)
	k := 1 + vsym.Choice("pairs", 2)
	vsym.Assume(ra != k || rb != k)
	w.contraction(ra, rb, k)
}

// HContractionWhole: contractions over all axes of both operands.
func HContractionWhole() {
	w := with(hlp.F64)
	k := 1 + vsym.Choice("pairs", 2)
	w.contraction(k, k, k)
}

func (w *world) contraction(ra, rb, k int) {
	a, b := w.in("a", ra, 2), w.in("b", rb, 2)
	ax, bx := make([]int, k), make([]int, k)
	for i := range ax {
		ax[i], bx[i] = vsym.Choice("axis", ra+1), vsym.Choice("axis", rb+1)
	}
	w.check("contraction", func() (*G.Node, error) { return G.Tensordot(ax, bx, a, b) })
}

// patterns of axes to broadcast along.
var patterns = [][]byte{nil, {0}, {1}, {0, 1}, {2}, {1, 2}}

// HBroadcast: broadcast operations on operands of rank up to 2 with all patterns of up to two axes.
func HBroadcast() { broadcasts(3, 4) }

// HBroadcastWide: the same for operands of rank up to 3.
//
//vsym:thorough
func HBroadcastWide() { broadcasts(4, len(patterns)) }

func broadcasts(ranks, n int) {
	w := with(hlp.F64)
	a, b := w.any("a", ranks), w.any("b", ranks)
	l, r := patterns[vsym.Choice("left", n)], patterns[vsym.Choice("right", n)]
	if vsym.Choice("function", 2) == 0 {
		w.check("broadcast add", func() (*G.Node, error) { return G.BroadcastAdd(a, b, l, r) })
	} else {
		w.check("broadcast gt", func() (*G.Node, error) { return G.BroadcastGt(a, b, false, l, r) })
	}
}

type red struct {
	name string
	f    func(n *G.Node, along ...int) (*G.Node, error)
}

var reductions = []red{{"sum", G.Sum}, {"max", G.Max}, {"mean", G.Mean}}

// HReductions: reductions of an operand of rank up to 3 along up to two axes, in range or not.
func HReductions() { reduce(hlp.F64, vsym.Choice("rank", 4), 2) }

// HReductionsWide: the same for rank 4 and for single precision.
//
//vsym:thorough
func HReductionsWide() {
	if vsym.Choice("wide", 2) == 0 {
		reduce(hlp.F32, vsym.Choice("rank", 4), 3)
	} else {
		reduce(hlp.F64, 4, 3)
	}
}

func reduce(dt tensor.Dtype, r, fs int) {
	w := with(dt)
	x := w.in("x", r, 2)
	along := make([]int, vsym.Choice("axes", 3))
	for i := range along {
		along[i] = vsym.Choice("axis", r+2) - 1
	}
	f := reductions[vsym.Choice("function", fs)]
	w.check(f.name, func() (*G.Node, error) { return f.f(x, along...) })
}

// HAxis: operations along an axis of an operand of rank up to 3, in range or not.
func HAxis() {
	w := newWorld()
	r := vsym.Choice("rank", 4)
	x := w.in("x", r, top(r))
	ax := vsym.Int("axis", -1, r)
	switch vsym.Choice("function", 7) {
	case 0:
		w.check("softmax", func() (*G.Node, error) { return G.SoftMax(x, ax) })
	case 1:
		w.check("logsoftmax", func() (*G.Node, error) { return G.LogSoftMax(x, ax) })
	case 2:
		w.check("sparsemax", func() (*G.Node, error) { return G.Sparsemax(x, ax) })
	case 3:
		w.check("logsumexp", func() (*G.Node, error) { return G.LogSumExp(x, ax) })
	case 4:
		w.check("norm 1", func() (*G.Node, error) { return G.Norm(x, ax, 1) })
	case 5:
		w.check("norm 2", func() (*G.Node, error) { return G.Norm(x, ax, 2) })
	case 6:
		w.check("size", func() (*G.Node, error) { return G.SizeOf(ax, x) })
	}
}

// HSlice: slices of a vector or matrix along its first axes, with any start and end, in range or not.
func HSlice() { slices(1 + vsym.Choice("rank", 2)) }

// HSliceWide: slices of an operand of rank 3.
//
//vsym:thorough
func HSliceWide() { slices(3) }

func slices(r int) {
	w := with(hlp.F64)
	x := w.in("x", r, 2)
	ss := make([]tensor.Slice, 1+vsym.Choice("slices", r))
	for i := range ss {
		switch vsym.Choice("kind", 3) {
		case 1:
			ss[i] = G.S(vsym.Choice("start", 4) - 1)
		case 2:
			s := vsym.Choice("start", 3)
			ss[i] = G.S(s, vsym.Choice("end", 4))
		}
	}
	w.check("slice", func() (*G.Node, error) { return G.Slice(x, ss...) })
}

// HSteps: slices with steps of vectors and matrices.
func HSteps() {
	w := with(hlp.F64)
	r := 1 + vsym.Choice("rank", 2)
	x := w.in("x", r, 6-2*r)
	ss := make([]tensor.Slice, r)
	k := vsym.Choice("axis", r)
	ss[k] = G.S(vsym.Choice("start", 3), vsym.Choice("end", 6), 1+vsym.Choice("step", 3))
	w.check("slice", func() (*G.Node, error) { return G.Slice(x, ss...) })
}

// HReshape: operands of rank up to 3 reshaped to any shape of rank up to 3, one extent of which may be left to be found.
func HReshape() {
	w := with(hlp.F64)
	r := vsym.Choice("rank", 4)
	x := w.in("x", r, 3-r/2)
	to := make(tensor.Shape, vsym.Choice("rank", 4))
	for i := range to {
		to[i] = vsym.Int("to", -1, 4)
	}
	w.check("reshape", func() (*G.Node, error) { return G.Reshape(x, to) })
}

// HTranspose: operands of rank up to 3 with their axes permuted, or not quite.
func HTranspose() {
	w := with(hlp.F64)
	r := vsym.Choice("rank", 4)
	x := w.in("x", r, top(r))
	axes := make([]int, vsym.Choice("axes", 4))
	for i := range axes {
		axes[i] = vsym.Choice("axis", 4)
	}
	w.check("transpose", func() (*G.Node, error) { return G.Transpose(x, axes...) })
}

// HConcat: two or three operands of rank up to 3 joined along an axis, in range or not.
func HConcat() {
	w := with(hlp.F64)
	r := vsym.Choice("rank", 4)
	xs := []*G.Node{w.in("a", r, 2), w.in("b", r, 2)}
	if r < 2 && vsym.Choice("three", 2) == 1 {
		xs = append(xs, w.in("c", vsym.Choice("rank", 3), 2))
	}
	ax := vsym.Choice("axis", 5) - 1
	w.check("concat", func() (*G.Node, error) { return G.Concat(ax, xs...) })
}

// HUnconcat: operands of rank up to 2 split into up to three parts.
func HUnconcat() {
	w := with(hlp.F64)
	r := vsym.Choice("rank", 3)
	x := w.in("x", r, 4-r/2)
	ax, n := vsym.Choice("axis", 4)-1, vsym.Choice("parts", 4)
	k := vsym.Choice("part", 3)
	w.check("part", func() (*G.Node, error) {
		parts, err := G.Unconcat(x, ax, n)
		if err != nil {
			return nil, err
		}
		vsym.Assert(len(parts) == n, "number of parts")
		return parts[k%n], nil
	})
}

// HAt: elements of operands of rank up to 3, in range or not.
func HAt() {
	w := newWorld()
	r := vsym.Choice("rank", 4)
	x := w.in("x", r, 2)
	at := make([]int, vsym.Choice("coordinates", 4))
	for i := range at {
		at[i] = vsym.Int("at", -1, 2)
	}
	w.check("element", func() (*G.Node, error) { return G.At(x, at...) })
}

// HByIndices: rows or columns of operands of rank up to 3 picked by index, in range or not.
func HByIndices() {
	w := with(hlp.F64)
	r := vsym.Choice("rank", 4)
	x := w.in("x", r, 2)
	n := 1 + vsym.Choice("indices", 2)
	ix := make([]int, n)
	for i := range ix {
		ix[i] = vsym.Choice("index", 4) - 1
	}
	ixs := G.NewTensor(w.g, tensor.Int, 1, G.WithName("ix"), G.WithShape(n), G.WithValue(tensor.New(tensor.WithShape(n), tensor.WithBacking(ix))))
	ax := vsym.Choice("axis", 4)
	w.check("by indices", func() (*G.Node, error) { return G.ByIndices(x, ixs, ax) })
}

// HIm2Col: columns of an image, any kernel, padding, stride and dilation along one axis.
func HIm2Col() {
	w := with(hlp.F64)
	sh := [4]int{1, 1 + vsym.Choice("channels", 2), vsym.Int("height", 1, 3), 2}
	x := w.fixed("x", sh[:]...)
	k, p, s, d := vsym.Choice("kernel", 4), vsym.Choice("padding", 3)-1, vsym.Choice("stride", 3), vsym.Choice("dilation", 3)
	w.check("columns", func() (*G.Node, error) {
		return G.Im2Col(x, tensor.Shape{k, 1}, tensor.Shape{p, 0}, tensor.Shape{s, 1}, tensor.Shape{d, 1})
	})
}

// HConv: convolutions, any kernel, padding, stride and dilation along one axis.
func HConv() {
	w := with(hlp.F64)
	h, k := vsym.Int("height", 1, 3), vsym.Int("kernel", 1, 3)
	c := vsym.Int("channels", 1, 2)
	x := w.fixed("x", 1, c, h, 2)
	f := w.fixed("f", 2, vsym.Int("filter channels", 1, 2), k, 1)
	p, s, d := vsym.Choice("padding", 2), 1+vsym.Choice("stride", 2), 1+vsym.Choice("dilation", 2)
	w.check("convolution", func() (*G.Node, error) {
		return G.Conv2d(x, f, tensor.Shape{k, 1}, []int{p, 0}, []int{s, 1}, []int{d, 1})
	})
}

// HPool: pooling, any kernel, padding and stride along one axis.
func HPool() {
	w := with(hlp.F64)
	x := w.fixed("x", 1, 1, vsym.Int("height", 1, 3), 2)
	k, s := vsym.Choice("kernel", 4), vsym.Choice("stride", 3)
	pad := []int{vsym.Choice("padding", 3) - 1, 0}
	if vsym.Choice("both sides", 2) == 1 {
		pad = []int{pad[0], vsym.Choice("padding", 2), 0, 0}
	}
	if vsym.Choice("function", 2) == 0 {
		w.check("maximum pooling", func() (*G.Node, error) { return G.MaxPool2D(x, tensor.Shape{k, 1}, pad, []int{s, 1}) })
	} else {
		w.check("average pooling", func() (*G.Node, error) { return G.AveragePool2D(x, tensor.Shape{k, 1}, pad, []int{s, 1}) })
	}
}

// scale makes an operand that has two channels and otherwise one element along each axis.
func (w *world) scale(name string, rank int) *G.Node {
	sh := make([]int, rank)
	for i := range sh {
		sh[i] = 1
	}
	if rank > 1 {
		sh[1] = 2
	}
	return w.fixed(name, sh...)
}

// HImages: functions of images, given operands of rank up to 4.
func HImages() {
	w := with(hlp.F64)
	r := vsym.Choice("rank", 5)
	x := w.in("x", r, 2)
	switch vsym.Choice("function", 5) {
	case 0:
		k := vsym.Choice("scale", 4)
		w.check("upsampling", func() (*G.Node, error) { return G.Upsample2D(x, k) })
	case 1:
		w.check("global average", func() (*G.Node, error) { return G.GlobalAveragePool2D(x) })
	case 2:
		sc, b := w.scale("scale", r), w.scale("bias", r)
		w.check("batch normalisation", func() (*G.Node, error) {
			n, _, _, _, err := G.BatchNorm(x, sc, b, 0.5, 0.125)
			return n, err
		})
	case 3:
		n, c := vsym.Choice("groups", 3), vsym.Choice("channels", 3)
		sc, b := w.fixed("scale", 1, 2, 1, 1), w.fixed("bias", 1, 2, 1, 1)
		w.check("group normalisation", func() (*G.Node, error) { return G.GroupNorm(x, sc, b, n, c, 0.125) })
	case 4:
		to := dts[vsym.Choice("to", len(dts))]
		w.check("conversion", func() (*G.Node, error) { return G.ConvType(x, w.dt, to) })
	}
}

// whole builds, differentiates with respect to all inputs, and compares what every node announces with what it computes.
func (w *world) whole(what string, build func() (*G.Node, error)) {
	var n *G.Node
	if !try(func() (err error) { n, err = build(); return }) {
		return
	}
	cost := n
	if !n.IsScalar() {
		cost = hlp.Node(G.Sum(n))
	}
	if !try(func() error { _, err := G.Grad(cost, w.ins...); return err }) {
		return
	}
	w.bind()
	var ns []*G.Node
	var vs []*G.Value
	for _, x := range w.g.AllNodes() {
		ns = append(ns, x)
	}
	for _, x := range ns {
		vs = append(vs, hlp.Watch(x))
	}
	if !try(func() error { return G.NewTapeMachine(w.g).RunAll() }) {
		return
	}
	for i, x := range ns {
		same(x, *vs[i], "a node of the gradient of "+what)
	}
	vsym.Cover("differentiated " + what)
}

// HGradElementwise: every node of the gradients of elementwise functions and products of operands of rank up to 2.
func HGradElementwise() {
	w := newWorld()
	a, b := w.any2("a"), w.any2("b")
	fs := []bin{{"mul elementwise", G.HadamardProd}, {"div elementwise", G.HadamardDiv}, {"sub", G.Sub}, {"mul", G.Mul}, {"outer", G.OuterProd}}
	f := fs[vsym.Choice("function", len(fs))]
	w.whole(f.name, func() (*G.Node, error) { return f.f(a, b) })
}

func (w *world) any2(name string) *G.Node { return w.in(name, vsym.Choice("rank", 3), 2) }

// HGradShapes: every node of the gradients of reductions and changes of shape of vectors and matrices.
func HGradShapes() { gradShapes(1 + vsym.Choice("rank", 2)) }

// HGradShapesWide: the same for operands of rank 3.
//
//vsym:thorough
func HGradShapesWide() { gradShapes(3) }

func gradShapes(r int) {
	w := with(hlp.F64)
	x := w.in("x", r, 2)
	ax := vsym.Choice("axis", r)
	switch vsym.Choice("function", 9) {
	case 0:
		w.whole("sum", func() (*G.Node, error) { return G.Sum(x, ax) })
	case 1:
		w.whole("mean", func() (*G.Node, error) { return G.Mean(x, ax) })
	case 2:
		w.whole("max", func() (*G.Node, error) { return G.Max(x, ax) })
	case 3:
		w.whole("transpose", func() (*G.Node, error) { return G.Transpose(x) })
	case 4:
		ss := make([]tensor.Slice, ax+1)
		ss[ax] = G.S(0, 1+vsym.Choice("end", 2))
		w.whole("slice", func() (*G.Node, error) { return G.Slice(x, ss...) })
	case 5:
		w.whole("ravel", func() (*G.Node, error) { return G.Ravel(x) })
	case 6:
		w.whole("softmax", func() (*G.Node, error) { return G.SoftMax(x, ax) })
	case 7:
		y := w.in("y", r, 2)
		w.whole("concat", func() (*G.Node, error) { return G.Concat(ax, x, y) })
	case 8:
		w.whole("sigmoid", func() (*G.Node, error) { return G.Sigmoid(x) })
	}
}

// HGradBroadcast: every node of the gradients of broadcast products of operands of rank up to 2.
func HGradBroadcast() {
	w := with(hlp.F64)
	a, b := w.any2("a"), w.any2("b")
	l, r := patterns[vsym.Choice("left", 4)], patterns[vsym.Choice("right", 4)]
	w.whole("broadcast", func() (*G.Node, error) { return G.BroadcastHadamardProd(a, b, l, r) })
}

// HGradImages: every node of the gradients of convolutions, pooling and normalisation.
func HGradImages() {
	w := newWorld()
	c := 1 + vsym.Choice("channels", 2)
	x := w.fixed("x", 1+vsym.Choice("batch", 2), c, 3, 2)
	s := 1 + vsym.Choice("stride", 2)
	switch vsym.Choice("function", 5) {
	case 0:
		f := w.fixed("f", 2, c, 2, 1)
		w.whole("convolution", func() (*G.Node, error) {
			return G.Conv2d(x, f, tensor.Shape{2, 1}, []int{1, 0}, []int{s, 1}, []int{1, 1})
		})
	case 1:
		w.whole("maximum pooling", func() (*G.Node, error) { return G.MaxPool2D(x, tensor.Shape{2, 1}, []int{0, 0}, []int{s, 1}) })
	case 2:
		w.whole("average pooling", func() (*G.Node, error) { return G.AveragePool2D(x, tensor.Shape{2, 1}, []int{0, 0}, []int{s, 1}) })
	case 3:
		w.whole("upsampling", func() (*G.Node, error) { return G.Upsample2D(x, s) })
	case 4:
		sc, b := w.fixed("scale", 1, c, 1, 1), w.fixed("bias", 1, c, 1, 1)
		w.whole("batch normalisation", func() (*G.Node, error) {
			n, _, _, _, err := G.BatchNorm(x, sc, b, 0.5, 0.125)
			return n, err
		})
	}
}
