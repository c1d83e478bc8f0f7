// Package c21: copies of values are independent and faithful; equality and closeness are exact.
package c21

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// The kinds of value: seven scalar types, tensors of four element types in two shapes, and strided views.
const (
	scalars = 7
	tensors = 8
	kinds   = scalars + tensors
)

var tshapes = [][]int{{3}, {2, 2}}

func symInts(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = vsym.Int("x", -100, 100)
	}
	return r
}

// build makes a value of the kind with symbolic contents.
func build(k int) G.Value {
	switch k {
	case 0:
		return G.NewF64(vsym.Float64("x"))
	case 1:
		return G.NewF32(float32(vsym.Float64("x")))
	case 2:
		return G.NewI(vsym.Int("x", -100, 100))
	case 3:
		return G.NewI64(int64(vsym.Int("x", -100, 100)))
	case 4:
		return G.NewI32(int32(vsym.Int("x", -100, 100)))
	case 5:
		return G.NewU8(byte(vsym.Int("x", 0, 200)))
	case 6:
		return G.NewB(vsym.Bool("x"))
	}
	k -= scalars
	sh := tshapes[k%2]
	n := hlp.Prod(sh)
	var b interface{}
	switch k / 2 {
	case 0:
		b = hlp.Syms("x", n)
	case 1:
		b = hlp.Backing(tensor.Float32, hlp.Syms("x", n))
	case 2:
		b = symInts(n)
	case 3:
		x := make([]bool, n)
		for i := range x {
			x[i] = vsym.Bool("x")
		}
		b = x
	}
	return tensor.New(tensor.WithShape(sh...), tensor.WithBacking(b))
}

// elems reads every element.
func elems(v G.Value) []interface{} {
	var r []interface{}
	switch d := v.Data().(type) {
	case []float64:
		for _, x := range d {
			r = append(r, x)
		}
	case []float32:
		for _, x := range d {
			r = append(r, x)
		}
	case []int:
		for _, x := range d {
			r = append(r, x)
		}
	case []bool:
		for _, x := range d {
			r = append(r, x)
		}
	default:
		r = append(r, d)
	}
	return r
}

// same decides equality of two elements of the same type.
func same(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		return x == b.(float64)
	case float32:
		return x == b.(float32)
	case int:
		return x == b.(int)
	case int64:
		return x == b.(int64)
	case int32:
		return x == b.(int32)
	case byte:
		return x == b.(byte)
	case bool:
		return x == b.(bool)
	}
	vsym.Assert(false, "unexpected element type")
	return false
}

func check(v G.Value, want []interface{}, msg string) {
	got := elems(v)
	vsym.Assert(len(got) == len(want), msg+": number of elements")
	for i := range got {
		vsym.Assert(same(got[i], want[i]), msg, i)
	}
}

func zeroOf(a interface{}) interface{} {
	switch a.(type) {
	case float64:
		return float64(0)
	case float32:
		return float32(0)
	case int:
		return 0
	case int64:
		return int64(0)
	case int32:
		return int32(0)
	case byte:
		return byte(0)
	}
	return false
}

// put writes other contents of the same kind into v, in place.
func put(v G.Value) {
	switch x := v.(type) {
	case *G.F64:
		*x = G.F64(vsym.Float64("y"))
	case *G.F32:
		*x = G.F32(float32(vsym.Float64("y")))
	case *G.I:
		*x = G.I(vsym.Int("y", -100, 100))
	case *G.I64:
		*x = G.I64(vsym.Int("y", -100, 100))
	case *G.I32:
		*x = G.I32(vsym.Int("y", -100, 100))
	case *G.U8:
		*x = G.U8(vsym.Int("y", 0, 200))
	case *G.B:
		*x = G.B(vsym.Bool("y"))
	case *tensor.Dense:
		switch d := x.Data().(type) {
		case []float64:
			for i := range d {
				d[i] = vsym.Float64("y")
			}
		case []float32:
			for i := range d {
				d[i] = float32(vsym.Float64("y"))
			}
		case []int:
			for i := range d {
				d[i] = vsym.Int("y", -100, 100)
			}
		case []bool:
			for i := range d {
				d[i] = vsym.Bool("y")
			}
		}
	}
}

func shapeOf(v G.Value) []int { return append([]int(nil), v.Shape()...) }

// HClone: a clone has the source's type, shape and elements; later writes to either do not show in the other. Every kind of value.
func HClone() {
	v := build(vsym.Choice("kind", kinds))
	x, sh := elems(v), shapeOf(v)
	c, err := G.CloneValue(v)
	hlp.Ok(err, "clone")
	vsym.Assert(c.Dtype() == v.Dtype(), "clone: element type")
	hlp.SameShape(c.Shape(), sh, "clone: shape")
	check(c, x, "clone")
	check(v, x, "source after cloning")
	put(v)
	check(c, x, "clone after a write to the source")
	y := elems(v)
	put(c)
	check(v, y, "source after a write to the clone")
	vsym.Cover("cloned")
}

// HCopy: copying replaces the destination's elements by the source's, returns the destination, and leaves the two independent.
func HCopy() {
	k := vsym.Choice("kind", kinds)
	src, dst := build(k), build(k)
	x := elems(src)
	r, err := G.Copy(dst, src)
	hlp.Ok(err, "copy")
	vsym.Assert(r == dst, "copy does not return its destination")
	check(dst, x, "destination")
	check(src, x, "source after copying")
	put(src)
	check(dst, x, "destination after a write to the source")
	y := elems(src)
	put(dst)
	check(src, y, "source after a write to the destination")
	vsym.Cover("copied")
}

// HCopyOther: copying into a scalar of another type, or between a scalar and a tensor, is refused and changes nothing.
func HCopyOther() {
	a := vsym.Choice("kind", scalars+2)
	b := vsym.Choice("other", scalars+2)
	vsym.Assume(a != b && (a < scalars || b < scalars))
	src, dst := build(a), build(b)
	x, y := elems(src), elems(dst)
	_, err := G.Copy(dst, src)
	vsym.Assert(err != nil, "copy between different kinds accepted")
	check(src, x, "source after a refused copy")
	check(dst, y, "destination after a refused copy")
	vsym.Cover("refused")
}

// HZero: zeroing sets every element to zero, in place.
func HZero() {
	v := build(vsym.Choice("kind", kinds))
	x, sh := elems(v), shapeOf(v)
	c, err := G.CloneValue(v)
	hlp.Ok(err, "clone")
	z := G.ZeroValue(v)
	zs := make([]interface{}, len(x))
	for i := range zs {
		zs[i] = zeroOf(x[i])
	}
	check(z, zs, "zeroed")
	hlp.SameShape(z.Shape(), sh, "zeroed: shape")
	vsym.Assert(z.Dtype() == c.Dtype(), "zeroed: element type")
	check(c, x, "clone of a value zeroed later")
	vsym.Cover("zeroed")
}

// HEq: two values of one kind are equal exactly when every element is.
func HEq() {
	k := vsym.Choice("kind", kinds)
	a, b := build(k), build(k)
	x, y := elems(a), elems(b)
	want := true
	for i := range x {
		if !same(x[i], y[i]) {
			want = false
			break
		}
	}
	vsym.Assert(G.ValueEq(a, b) == want, "equality")
	vsym.Assert(G.ValueEq(b, a) == want, "equality, swapped")
	vsym.Assert(G.ValueEq(a, a), "equality with itself")
	check(a, x, "left operand after comparing")
	check(b, y, "right operand after comparing")
	vsym.Cover("compared")
}

// HEqOther: values of different kinds (another element type, a scalar against a tensor, another shape) are neither equal nor close.
func HEqOther() {
	a := vsym.Choice("kind", kinds)
	b := vsym.Choice("other", kinds)
	vsym.Assume(a != b)
	v, w := build(a), build(b)
	vsym.Assert(!G.ValueEq(v, w), "values of different kinds are equal")
	vsym.Assert(!G.ValueClose(v, w), "values of different kinds are close")
	vsym.Cover("compared")
}

// HShape: tensors holding the same elements in different shapes are neither equal nor close (a vector counts as a row and as a column).
func HShape() {
	dt := []tensor.Dtype{tensor.Float64, tensor.Float32}[vsym.Choice("width", 2)]
	shs := [][]int{{4}, {2, 2}, {1, 4}, {4, 1}, {1, 2, 2}}
	// a vector is taken to have the shape of a row and of a column
	alike := func(i, j int) bool { return i == j || i == 0 && (j == 2 || j == 3) || j == 0 && (i == 2 || i == 3) }
	i, j := vsym.Choice("a", len(shs)), vsym.Choice("b", len(shs))
	x := hlp.SymsPos("x", 4, 0)
	a, b := hlp.Dense(dt, x, shs[i]...), hlp.Dense(dt, x, shs[j]...)
	vsym.Assert(G.ValueEq(a, b) == alike(i, j), "equality and shape")
	vsym.Assert(G.ValueClose(a, b) == alike(i, j), "closeness and shape")
	vsym.Cover("compared")
}

// HClose: closeness holds for equal elements, for elements within the relative tolerance (1e-14, or 1e-5 for width 32), and for nothing further apart.
func HClose() {
	var a, b G.Value
	switch k := vsym.Choice("kind", 4); k {
	case 0, 1:
		a, b = build(k), build(k)
	case 2, 3:
		dt := []tensor.Dtype{tensor.Float64, tensor.Float32}[k-2]
		a, b = hlp.Dense(dt, hlp.Syms("x", 2), 2), hlp.Dense(dt, hlp.Syms("x", 2), 2)
	}
	x, y := elems(a), elems(b)
	want := true
	for i := range x {
		if !within(x[i], y[i]) {
			want = false
			break
		}
	}
	vsym.Assert(G.ValueClose(a, b) == want, "closeness")
	vsym.Cover("compared")
}

func within(a, b interface{}) bool {
	if x, ok := a.(float32); ok {
		d, e, y := x-b.(float32), float32(1e-5), b.(float32)
		if d < 0 {
			d = -d
		}
		if y < 0 {
			e = e * -y
		} else if y > 0 {
			e = e * y
		}
		return d <= e
	}
	x, y := a.(float64), b.(float64)
	d, e := x-y, 1e-14
	if d < 0 {
		d = -d
	}
	if y < 0 {
		e = e * -y
	} else if y > 0 {
		e = e * y
	}
	return d <= e
}

// HScalarAsTensor: viewing a scalar as a tensor of one element keeps its value.
func HScalarAsTensor() {
	v := build(vsym.Choice("kind", 2))
	x := elems(v)
	d := vsym.Choice("dims", 3) + 1
	t := G.ScalarAsTensor(v, d, tensor.StdEng{})
	vsym.Assert(len(t.Shape()) == d, "number of dimensions")
	vsym.Assert(t.Dtype() == v.Dtype(), "element type")
	check(t, x, "scalar as tensor")
	vsym.Cover("converted")
}

// view makes a strided view (a column of a matrix) over fresh contents, and the backing tensor.
func view(dt tensor.Dtype) (*tensor.Dense, *tensor.Dense) {
	t := hlp.Dense(dt, hlp.Syms("x", 6), 3, 2)
	s, err := t.Slice(nil, G.S(1))
	hlp.Ok(err, "slice")
	return s.(*tensor.Dense), t
}

// HViewClone: a clone of a strided view holds the elements of the view and is independent of what it views; copying from and into a view moves exactly its elements.
func HViewClone() {
	dt := []tensor.Dtype{tensor.Float64, tensor.Float32}[vsym.Choice("width", 2)]
	v, t := view(dt)
	all := hlp.Nums(t)
	x := []float64{all[1], all[3], all[5]}
	switch vsym.Choice("operation", 3) {
	case 0:
		c, err := G.CloneValue(v)
		hlp.Ok(err, "clone")
		hlp.SameShape(c.Shape(), []int{3}, "clone: shape")
		hlp.Same(hlp.Nums(c), x, 1e-6, "clone of a view")
		put(t)
		hlp.Same(hlp.Nums(c), x, 1e-6, "clone of a view after a write to the source")
	case 1:
		d := hlp.Dense(dt, hlp.Syms("d", 3), 3)
		_, err := G.Copy(d, v)
		hlp.Ok(err, "copy")
		hlp.Same(hlp.Nums(d), x, 1e-6, "copied from a view")
		hlp.Same(hlp.Nums(t), all, 1e-6, "source after copying")
	case 2:
		y := hlp.Syms("d", 3)
		_, err := G.Copy(v, hlp.Dense(dt, y, 3))
		hlp.Ok(err, "copy")
		all[1], all[3], all[5] = y[0], y[1], y[2]
		hlp.Same(hlp.Nums(t), all, 1e-6, "tensor after copying into a view")
	}
	vsym.Cover("view")
}

// HViewZero: zeroing a strided view clears its elements and no others.
func HViewZero() {
	v, t := view(tensor.Float64)
	all := hlp.Nums(t)
	G.ZeroValue(v)
	all[1], all[3], all[5] = 0, 0, 0
	hlp.Same(hlp.Nums(t), all, 1e-6, "tensor after zeroing a view")
	vsym.Cover("view")
}

// HViewEq: a strided view equals, and is close to, exactly the tensors with its elements.
func HViewEq() {
	v, t := view(tensor.Float64)
	all := hlp.Nums(t)
	d := hlp.Dense(tensor.Float64, []float64{all[1], all[3], all[5]}, 3)
	if vsym.Choice("test", 2) == 0 {
		vsym.Assert(G.ValueEq(v, d), "a view and a tensor with its elements are not equal")
	} else {
		vsym.Assert(G.ValueClose(v, d), "a view and a tensor with its elements are not close")
	}
	vsym.Cover("view")
}
