// Package c34: graphs on whole numbers and booleans compute machine arithmetic exactly, or refuse.
package c34

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{tensor.Int, tensor.Int64, tensor.Int32, tensor.Byte}

// draws are numbers of the type.
func draws(dt tensor.Dtype, name string, n int) []int {
	r := make([]int, n)
	for i := range r {
		switch dt {
		case tensor.Int32:
			r[i] = vsym.Int(name, -1<<31, 1<<31-1)
		case tensor.Byte:
			r[i] = vsym.Int(name, 0, 255)
		default:
			r[i] = vsym.Int(name, -1<<63, 1<<63-1)
		}
	}
	return r
}

// value holds the numbers; a scalar if there is no shape.
func value(dt tensor.Dtype, x []int, sh ...int) interface{} {
	if len(sh) == 0 {
		switch dt {
		case tensor.Int64:
			return int64(x[0])
		case tensor.Int32:
			return int32(x[0])
		case tensor.Byte:
			return byte(x[0])
		}
		return x[0]
	}
	var b interface{}
	switch dt {
	case tensor.Int64:
		s := make([]int64, len(x))
		for i := range x {
			s[i] = int64(x[i])
		}
		b = s
	case tensor.Int32:
		s := make([]int32, len(x))
		for i := range x {
			s[i] = int32(x[i])
		}
		b = s
	case tensor.Byte:
		s := make([]byte, len(x))
		for i := range x {
			s[i] = byte(x[i])
		}
		b = s
	default:
		s := make([]int, len(x))
		copy(s, x)
		b = s
	}
	return tensor.New(tensor.WithShape(sh...), tensor.WithBacking(b))
}

func variable(g *G.ExprGraph, dt tensor.Dtype, name string, x []int, sh ...int) *G.Node {
	if len(sh) == 0 {
		return G.NewScalar(g, dt, G.WithName(name), G.WithValue(value(dt, x)))
	}
	return G.NewTensor(g, dt, len(sh), G.WithShape(sh...), G.WithName(name), G.WithValue(value(dt, x, sh...)))
}

func truth(b bool) int {
	if b {
		return 1
	}
	return 0
}

// at is an element of stored numbers.
func at(d interface{}, i int) int {
	switch s := d.(type) {
	case int:
		return s
	case int64:
		return int(s)
	case int32:
		return int(s)
	case byte:
		return int(s)
	case []int:
		return s[i]
	case []int64:
		return int(s[i])
	case []int32:
		return int(s[i])
	case []byte:
		return int(s[i])
	}
	vsym.Assert(false, "elements have another type")
	return 0
}

// is compares a value with the numbers.
func is(v G.Value, dt tensor.Dtype, want []int, sh []int, msg string) {
	vsym.Assert(v != nil, msg+": value is missing")
	vsym.Assert(v.Dtype() == dt, msg+": type")
	s := v.Shape()
	vsym.Assert(len(s) == len(sh), msg+": rank")
	for i := range sh {
		vsym.Assert(s[i] == sh[i], msg+": extent", i)
	}
	t, ok := v.(*tensor.Dense)
	if ok && !t.IsScalar() && t.RequiresIterator() {
		it := t.Iterator()
		k := 0
		for i, err := it.Next(); err == nil; i, err = it.Next() {
			vsym.Assert(at(t.Data(), i) == want[k], msg, k)
			k++
		}
		vsym.Assert(k == len(want), msg+": number of elements")
		return
	}
	for i := range want {
		vsym.Assert(at(v.Data(), i) == want[i], msg, i)
	}
}

// isBool compares a value with truths.
func isBool(v G.Value, want []bool, sh []int, msg string) {
	vsym.Assert(v != nil, msg+": value is missing")
	vsym.Assert(v.Dtype() == tensor.Bool, msg+": type")
	s := v.Shape()
	vsym.Assert(len(s) == len(sh), msg+": rank")
	for i := range sh {
		vsym.Assert(s[i] == sh[i], msg+": extent", i)
	}
	switch d := v.Data().(type) {
	case bool:
		vsym.Assert(d == want[0], msg, 0)
	case []bool:
		for i := range want {
			vsym.Assert(d[i] == want[i], msg, i)
		}
	default:
		vsym.Assert(false, msg+": elements have another type")
	}
}

// arith is arithmetic of the type.
func arith(dt tensor.Dtype, k, x, y int) int {
	switch dt {
	case tensor.Int32:
		a, b := int32(x), int32(y)
		switch k {
		case 0:
			return int(a + b)
		case 1:
			return int(a - b)
		case 2:
			return int(a * b)
		}
		return int(a / b)
	case tensor.Byte:
		a, b := byte(x), byte(y)
		switch k {
		case 0:
			return int(a + b)
		case 1:
			return int(a - b)
		case 2:
			return int(a * b)
		}
		return int(a / b)
	}
	switch k {
	case 0:
		return x + y
	case 1:
		return x - y
	case 2:
		return x * y
	}
	return x / y
}

func compare(k, x, y int) bool {
	switch k {
	case 0:
		return x < y
	case 1:
		return x > y
	case 2:
		return x <= y
	case 3:
		return x >= y
	case 4:
		return x == y
	}
	return x != y
}

var ariths = []func(a, b *G.Node) (*G.Node, error){G.Add, G.Sub, G.HadamardProd, G.HadamardDiv}
var compares = []func(a, b *G.Node, same bool) (*G.Node, error){G.Lt, G.Gt, G.Lte, G.Gte, G.Eq, G.Ne}

func run(g *G.ExprGraph) error {
	m := G.NewTapeMachine(g)
	defer m.Close()
	return m.RunAll()
}

var shapes = [][]int{nil, {2}, {2, 1}, {1, 2}}

// operands are two operands, either of which may be a scalar, and the numbers of each at the positions of the result.
func operands(g *G.ExprGraph, dt tensor.Dtype) (a, b *G.Node, x, y []int, sh []int, mixed bool) {
	f := vsym.Choice("form", len(shapes)+2)
	as, bs := []int(nil), []int(nil)
	switch {
	case f < len(shapes):
		as, bs, sh = shapes[f], shapes[f], shapes[f]
	case f == len(shapes):
		as, sh, mixed = []int{2}, []int{2}, true
	default:
		bs, sh, mixed = []int{2}, []int{2}, true
	}
	x, y = draws(dt, "a", hlp.Prod(as)), draws(dt, "b", hlp.Prod(bs))
	a, b = variable(g, dt, "a", x, as...), variable(g, dt, "b", y, bs...)
	for len(x) < hlp.Prod(sh) {
		x = append(x, x[0])
	}
	for len(y) < hlp.Prod(sh) {
		y = append(y, y[0])
	}
	return
}

// HArithmetic: sums, differences, products and quotients of scalars, vectors and matrices of every whole number type,
// for all numbers of the type, zero divisors included, which have to be reported. A tensor and a scalar may be refused.
//
//vsym:paths=2000
func HArithmetic() {
	dt := dts[vsym.Choice("type", len(dts))]
	g := G.NewGraph()
	a, b, x, y, sh, mixed := operands(g, dt)
	k := vsym.Choice("operation", 4)
	z, err := ariths[k](a, b)
	hlp.Ok(err, "building")
	vsym.Assert(z.Dtype() == dt, "announced type")
	err = run(g)
	if k == 3 {
		zero := false
		for _, d := range y {
			zero = zero || d == 0
		}
		if zero {
			vsym.Assert(err != nil, "division by zero is not reported")
			return
		}
	}
	if mixed && err != nil {
		return
	}
	hlp.Ok(err, "tape run")
	want := make([]int, len(x))
	for i := range want {
		want[i] = arith(dt, k, x[i], y[i])
	}
	is(z.Value(), dt, want, sh, "result")
	if !mixed {
		is(a.Value(), dt, x, sh, "left operand afterwards")
		is(b.Value(), dt, y, sh, "right operand afterwards")
	}
}

// HCompare: comparisons of numbers of every whole number type, as booleans or as numbers of the type.
//
//vsym:paths=4000
func HCompare() {
	dt := dts[vsym.Choice("type", len(dts))]
	g := G.NewGraph()
	a, b, x, y, sh, mixed := operands(g, dt)
	k := vsym.Choice("operation", 6)
	same := vsym.Choice("same", 2) == 1
	z, err := compares[k](a, b, same)
	hlp.Ok(err, "building")
	err = run(g)
	if mixed && err != nil {
		return
	}
	hlp.Ok(err, "tape run")
	if !same {
		want := make([]bool, len(x))
		for i := range want {
			want[i] = compare(k, x[i], y[i])
		}
		vsym.Assert(z.Dtype() == tensor.Bool, "announced type")
		isBool(z.Value(), want, sh, "result")
		return
	}
	want := make([]int, len(x))
	for i := range want {
		want[i] = truth(compare(k, x[i], y[i]))
	}
	vsym.Assert(z.Dtype() == dt, "announced type")
	is(z.Value(), dt, want, sh, "result")
}

// HBooleans: equality of booleans, scalars and vectors.
func HBooleans() {
	g := G.NewGraph()
	n := 1 + vsym.Choice("vector", 2)
	x, y := make([]bool, n), make([]bool, n)
	for i := range x {
		x[i], y[i] = vsym.Bool("a"), vsym.Bool("b")
	}
	var a, b *G.Node
	var sh []int
	if n == 1 {
		a = G.NewScalar(g, tensor.Bool, G.WithName("a"), G.WithValue(x[0]))
		b = G.NewScalar(g, tensor.Bool, G.WithName("b"), G.WithValue(y[0]))
	} else {
		sh = []int{n}
		a = G.NewVector(g, tensor.Bool, G.WithShape(n), G.WithName("a"), G.WithValue(tensor.New(tensor.WithShape(n), tensor.WithBacking(append([]bool{}, x...)))))
		b = G.NewVector(g, tensor.Bool, G.WithShape(n), G.WithName("b"), G.WithValue(tensor.New(tensor.WithShape(n), tensor.WithBacking(append([]bool{}, y...)))))
	}
	ne := vsym.Choice("operation", 2) == 1
	f := G.Eq
	if ne {
		f = G.Ne
	}
	z, err := f(a, b, vsym.Choice("same", 2) == 1)
	hlp.Ok(err, "building")
	hlp.Ok(run(g), "tape run")
	want := make([]bool, n)
	for i := range want {
		want[i] = (x[i] == y[i]) != ne
	}
	isBool(z.Value(), want, sh, "result")
}

// HSum: sums of all elements or along either axis.
func HSum() {
	dt := dts[vsym.Choice("type", len(dts))]
	g := G.NewGraph()
	x := draws(dt, "a", 6)
	a := variable(g, dt, "a", x, 2, 3)
	ax := vsym.Choice("axes", 3)
	sum := func(ix ...int) int {
		r := 0
		for _, i := range ix {
			r = arith(dt, 0, r, x[i])
		}
		return r
	}
	var z *G.Node
	var want, sh []int
	switch ax {
	case 0:
		z = hlp.Node(G.Sum(a))
		want = []int{sum(0, 1, 2, 3, 4, 5)}
	case 1:
		z = hlp.Node(G.Sum(a, 0))
		want, sh = []int{sum(0, 3), sum(1, 4), sum(2, 5)}, []int{3}
	case 2:
		z = hlp.Node(G.Sum(a, 1))
		want, sh = []int{sum(0, 1, 2), sum(3, 4, 5)}, []int{2}
	}
	hlp.Ok(run(g), "tape run")
	is(z.Value(), dt, want, sh, "sum")
	is(a.Value(), dt, x, []int{2, 3}, "operand afterwards")
}

// HMax: maxima of all elements or along either axis.
//
//vsym:paths=2000
func HMax() {
	dt := dts[vsym.Choice("type", len(dts))]
	g := G.NewGraph()
	x := draws(dt, "a", 4)
	a := variable(g, dt, "a", x, 2, 2)
	max := func(i, j int) int {
		if x[i] > x[j] {
			return x[i]
		}
		return x[j]
	}
	var z *G.Node
	var want, sh []int
	switch vsym.Choice("axes", 3) {
	case 0:
		z = hlp.Node(G.Max(a))
		want = []int{max(0, 1)}
		if l := max(2, 3); l > want[0] {
			want[0] = l
		}
	case 1:
		z = hlp.Node(G.Max(a, 0))
		want, sh = []int{max(0, 2), max(1, 3)}, []int{2}
	case 2:
		z = hlp.Node(G.Max(a, 1))
		want, sh = []int{max(0, 1), max(2, 3)}, []int{2}
	}
	hlp.Ok(run(g), "tape run")
	is(z.Value(), dt, want, sh, "maximum")
}

// HBetween: the elementwise minimum and maximum of vectors; of scalars they may be refused.
//
//vsym:paths=2000
func HBetween() {
	dt := dts[vsym.Choice("type", len(dts))]
	g := G.NewGraph()
	n := vsym.Choice("vector", 2) * 2
	var sh []int
	if n > 0 {
		sh = []int{n}
	}
	x, y := draws(dt, "a", hlp.Prod(sh)), draws(dt, "b", hlp.Prod(sh))
	a, b := variable(g, dt, "a", x, sh...), variable(g, dt, "b", y, sh...)
	f, most := G.MinBetween, vsym.Choice("operation", 2) == 1
	if most {
		f = G.MaxBetween
	}
	z, err := f(a, b)
	if err == nil {
		err = run(g)
	}
	if n == 0 && err != nil {
		return
	}
	hlp.Ok(err, "tape run")
	want := make([]int, len(x))
	for i := range want {
		if (x[i] > y[i]) == most {
			want[i] = x[i]
		} else {
			want[i] = y[i]
		}
	}
	is(z.Value(), dt, want, sh, "result")
	is(a.Value(), dt, x, sh, "left operand afterwards")
	is(b.Value(), dt, y, sh, "right operand afterwards")
}

// HShapes: slices, concatenations, transpositions, reshapes, selections and repetitions.
func HShapes() {
	dt := dts[vsym.Choice("type", len(dts))]
	g := G.NewGraph()
	x, y := draws(dt, "a", 6), draws(dt, "b", 3)
	a, b := variable(g, dt, "a", x, 2, 3), variable(g, dt, "b", y, 1, 3)
	pick := func(ix ...int) []int {
		r := make([]int, len(ix))
		for k, i := range ix {
			if i < 6 {
				r[k] = x[i]
			} else {
				r[k] = y[i-6]
			}
		}
		return r
	}
	var z *G.Node
	var err error
	var want, sh []int
	switch vsym.Choice("operation", 9) {
	case 0:
		z, err = G.Slice(a, G.S(1))
		want, sh = pick(3, 4, 5), []int{3}
	case 1:
		z, err = G.Slice(a, nil, G.S(1, 3))
		want, sh = pick(1, 2, 4, 5), []int{2, 2}
	case 2:
		z, err = G.Slice(a, G.S(1), G.S(2))
		want = pick(5)
	case 3:
		z, err = G.Concat(0, a, b)
		want, sh = pick(0, 1, 2, 3, 4, 5, 6, 7, 8), []int{3, 3}
	case 4:
		z, err = G.Concat(0, b, a, b)
		want, sh = pick(6, 7, 8, 0, 1, 2, 3, 4, 5, 6, 7, 8), []int{4, 3}
	case 5:
		z, err = G.Transpose(a, 1, 0)
		want, sh = pick(0, 3, 1, 4, 2, 5), []int{3, 2}
	case 6:
		z, err = G.Reshape(a, []int{3, 2})
		want, sh = pick(0, 1, 2, 3, 4, 5), []int{3, 2}
	case 7:
		ix := G.NewVector(g, tensor.Int, G.WithShape(3), G.WithName("ix"), G.WithValue(tensor.New(tensor.WithShape(3), tensor.WithBacking([]int{1, 1, 0}))))
		z, err = G.ByIndices(a, ix, 0)
		want, sh = pick(3, 4, 5, 3, 4, 5, 0, 1, 2), []int{3, 3}
	case 8:
		z, err = G.Ravel(a)
		want, sh = pick(0, 1, 2, 3, 4, 5), []int{6}
	}
	hlp.Ok(err, "building")
	z2 := hlp.Node(G.Add(z, z))
	hlp.Watch(z)
	hlp.Ok(run(g), "tape run")
	for i, w := range want {
		want[i] = arith(dt, 0, w, w)
	}
	is(z2.Value(), dt, want, sh, "double of the result")
	is(a.Value(), dt, x, []int{2, 3}, "operand afterwards")
	is(b.Value(), dt, y, []int{1, 3}, "operand afterwards")
}

// HBroadcast: sums and products of a column and a row.
func HBroadcast() {
	dt := dts[vsym.Choice("type", len(dts))]
	g := G.NewGraph()
	x, y := draws(dt, "a", 2), draws(dt, "b", 2)
	a, b := variable(g, dt, "a", x, 2, 1), variable(g, dt, "b", y, 1, 2)
	k := vsym.Choice("operation", 3)
	f := []func(a, b *G.Node, l, r []byte) (*G.Node, error){G.BroadcastAdd, G.BroadcastSub, G.BroadcastHadamardProd}[k]
	z, err := f(a, b, []byte{1}, []byte{0})
	if err == nil {
		err = run(g)
	}
	if err != nil {
		vsym.Assert(dt != tensor.Int, "refused")
		return
	}
	want := []int{arith(dt, k, x[0], y[0]), arith(dt, k, x[0], y[1]), arith(dt, k, x[1], y[0]), arith(dt, k, x[1], y[1])}
	is(z.Value(), dt, want, []int{2, 2}, "result")
}

// HPrograms: expressions of two or three operations, reusing memory, run twice with other numbers bound in between.
//
//vsym:paths=2000
func HPrograms() {
	dt := dts[vsym.Choice("type", len(dts))]
	sh := shapes[vsym.Choice("shape", 2)]
	n := hlp.Prod(sh)
	k, l := vsym.Choice("first", 3), vsym.Choice("second", 3)
	flip := vsym.Choice("flip", 2) == 1
	g := G.NewGraph()
	x, y := draws(dt, "a", n), draws(dt, "b", n)
	a, b := variable(g, dt, "a", x, sh...), variable(g, dt, "b", y, sh...)
	t := hlp.Node(ariths[k](a, b))
	var z *G.Node
	if flip {
		z = hlp.Node(ariths[l](a, t))
	} else {
		z = hlp.Node(ariths[l](t, a))
	}
	u := hlp.Node(G.Add(z, z))
	var got G.Value
	G.Read(z, &got)
	m := G.NewTapeMachine(g)
	for i := 0; i < 2; i++ {
		if i > 0 {
			x, y = draws(dt, "a", n), draws(dt, "b", n)
			hlp.Ok(G.Let(a, value(dt, x, sh...)), "binding")
			hlp.Ok(G.Let(b, value(dt, y, sh...)), "binding")
			m.Reset()
		}
		hlp.Ok(m.RunAll(), "tape run")
		want, twice := make([]int, n), make([]int, n)
		for j := range want {
			s := arith(dt, k, x[j], y[j])
			if flip {
				want[j] = arith(dt, l, x[j], s)
			} else {
				want[j] = arith(dt, l, s, x[j])
			}
			twice[j] = arith(dt, 0, want[j], want[j])
		}
		is(got, dt, want, sh, "value read out")
		is(u.Value(), dt, twice, sh, "result")
		is(a.Value(), dt, x, sh, "left operand afterwards")
		is(b.Value(), dt, y, sh, "right operand afterwards")
	}
}

// HConstants: a constant and a variable of the same whole number type.
func HConstants() {
	dt := dts[vsym.Choice("type", len(dts))]
	g := G.NewGraph()
	x, c := draws(dt, "a", 1), draws(dt, "c", 1)
	a := variable(g, dt, "a", x)
	k := vsym.Choice("operation", 3)
	n := G.NewConstant(value(dt, c))
	left := vsym.Choice("left", 2) == 1
	var z *G.Node
	want := 0
	if left {
		z = hlp.Node(ariths[k](n, a))
		want = arith(dt, k, c[0], x[0])
	} else {
		z = hlp.Node(ariths[k](a, n))
		want = arith(dt, k, x[0], c[0])
	}
	hlp.Ok(run(g), "tape run")
	is(z.Value(), dt, []int{want}, nil, "result")
}

// HUnsupported: functions and products that are defined on floats only are refused, not computed wrongly, and do not
// crash.
func HUnsupported() {
	dt := dts[vsym.Choice("type", len(dts))]
	g := G.NewGraph()
	shaped := vsym.Choice("vector", 2) == 1
	var sh []int
	if shaped {
		sh = []int{2}
	}
	x := draws(dt, "a", hlp.Prod(sh))
	a := variable(g, dt, "a", x, sh...)
	var z *G.Node
	var err error
	us := []func(*G.Node) (*G.Node, error){G.Exp, G.Log, G.Sqrt, G.Tanh, G.Sigmoid, G.Inverse, G.Sin, G.Softplus, G.Neg, G.Abs, G.Sign, G.Square, G.Cube, G.Rectify}
	k := vsym.Choice("function", len(us)+2)
	switch {
	case k < len(us):
		z, err = us[k](a)
	case k == len(us):
		z, err = G.Pow(a, a)
	default:
		z, err = G.Mul(a, a)
	}
	if err == nil {
		err = run(g)
	}
	if err != nil {
		return
	}
	// what is computed has to be right where it is exact
	want := make([]int, len(x))
	for i := range want {
		s := arith(dt, 2, x[i], x[i])
		switch {
		case k == 8:
			want[i] = arith(dt, 1, 0, x[i])
		case k == 11 || k == len(us)+1 && !shaped:
			want[i] = s
		case k == 12:
			want[i] = arith(dt, 2, s, x[i])
		case k == 9 || k == 10 || k == 13:
			vsym.Assert(false, "computed")
		default:
			vsym.Assert(k == len(us)+1, "computed though there is no such number")
		}
	}
	if k == len(us)+1 && shaped {
		is(z.Value(), dt, []int{arith(dt, 0, arith(dt, 2, x[0], x[0]), arith(dt, 2, x[1], x[1]))}, nil, "inner product")
		return
	}
	is(z.Value(), dt, want, sh, "result")
}
