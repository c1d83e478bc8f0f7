// Package c12: pooling and upsampling.
package c12

import (
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// ax configures one spatial axis: extent, kernel, padding before and after, stride. Windows always hold an element.
type ax struct{ size, k, before, after, stride int }

func (a ax) out() int { return (a.size+a.before+a.after-a.k)/a.stride + 1 }

// win lists the positions inside the image of window i.
func (a ax) win(i int) (r []int) {
	for j := 0; j < a.k; j++ {
		if p := i*a.stride - a.before + j; p >= 0 && p < a.size {
			r = append(r, p)
		}
	}
	return
}

var axes = []ax{
	{1, 1, 0, 0, 1}, {2, 2, 0, 0, 1}, {3, 2, 0, 0, 1}, {3, 1, 0, 0, 2}, {2, 2, 1, 1, 1}, {3, 2, 1, 1, 2}, {4, 2, 0, 0, 2},
	{3, 3, 1, 1, 2}, {4, 3, 1, 1, 1},
}

// asym are settings whose padding differs before and after.
var asym = []ax{{2, 2, 1, 0, 1}, {3, 2, 0, 1, 2}, {4, 3, 2, 0, 2}, {3, 3, 0, 2, 1}}

var dts = []tensor.Dtype{hlp.F64, hlp.F32}
var dims = [][2]int{{1, 1}, {2, 1}, {1, 2}, {2, 2}}

// input makes an image of moderate values.
func input(g *G.ExprGraph, dt tensor.Dtype, sh ...int) *hlp.In {
	x := hlp.Syms("x", hlp.Prod(sh))
	for _, v := range x {
		vsym.Assume(v > -1000)
		vsym.Assume(v < 1000)
	}
	return hlp.Var(g, dt, "x", x, sh...)
}

// pads gives the padding argument: with four numbers the second and fourth come before the image, the first and third
// after it; with two numbers both sides are padded alike.
func pads(h, w ax) []int {
	if h.before == h.after && w.before == w.after {
		return []int{h.before, w.before}
	}
	return []int{h.after, h.before, w.after, w.before}
}

func maxOf(x hlp.Arr, h, w ax) hlp.Arr {
	return hlp.Build([]int{x.Sh[0], x.Sh[1], h.out(), w.out()}, func(ix []int) float64 {
		m, first := 0.0, true
		for _, r := range h.win(ix[2]) {
			for _, c := range w.win(ix[3]) {
				if v := x.At(ix[0], ix[1], r, c); first || v > m {
					m, first = v, false
				}
			}
		}
		return m
	})
}

func avgOf(x hlp.Arr, h, w ax) hlp.Arr {
	return hlp.Build([]int{x.Sh[0], x.Sh[1], h.out(), w.out()}, func(ix []int) float64 {
		s := 0.0
		for _, r := range h.win(ix[2]) {
			for _, c := range w.win(ix[3]) {
				s += x.At(ix[0], ix[1], r, c)
			}
		}
		return s / float64(h.k*w.k)
	})
}

func grads(lisp bool, g *G.ExprGraph, cost *G.Node, ins ...*hlp.In) {
	if lisp {
		hlp.LispGrads(g, cost, ins...)
	} else {
		hlp.TapeGrads(g, cost, ins...)
	}
}

// check compares the value and the gradients of one use of a pooling function.
func check(dt tensor.Dtype, lisp bool, d [2]int, h, w ax, pool func(x *G.Node) (*G.Node, error), ref func(x hlp.Arr) hlp.Arr) {
	vsym.Generic(true)
	g := G.NewGraph()
	x := input(g, dt, d[0], d[1], h.size, w.size)
	y := hlp.Node(pool(x.N))
	hlp.SameShape(y.Shape(), []int{d[0], d[1], h.out(), w.out()}, "announced shape")
	v := hlp.Watch(y)
	grads(lisp, g, hlp.Weighted(g, y), x)
	hlp.ValIsArr(*v, ref(x.Arr()), hlp.Tol(dt), "pooled value")
	vsym.Cover("pooled")
}

func max2d(dt tensor.Dtype, lisp bool, d [2]int, h, w ax) {
	check(dt, lisp, d, h, w, func(x *G.Node) (*G.Node, error) {
		return G.MaxPool2D(x, tensor.Shape{h.k, w.k}, pads(h, w), []int{h.stride, w.stride})
	}, func(x hlp.Arr) hlp.Arr { return maxOf(x, h, w) })
}

func avg2d(dt tensor.Dtype, lisp bool, d [2]int, h, w ax) {
	check(dt, lisp, d, h, w, func(x *G.Node) (*G.Node, error) {
		return G.AveragePool2D(x, tensor.Shape{h.k, w.k}, pads(h, w), []int{h.stride, w.stride})
	}, func(x hlp.Arr) hlp.Arr { return avgOf(x, h, w) })
}

// HMaxAxis: max pooling along one axis, rows or columns, for 9 kernel/pad/stride settings, values and gradients on both
// machines.
//
//vsym:paths=4000
func HMaxAxis() {
	a := axes[vsym.Choice("axis", len(axes))]
	one := axes[0]
	lisp := vsym.Choice("machine", 2) == 1
	if vsym.Choice("rows", 2) == 1 {
		max2d(hlp.F64, lisp, [2]int{1, 1}, a, one)
	} else {
		max2d(hlp.F64, lisp, [2]int{1, 1}, one, a)
	}
}

// HMax2d: max pooling over both axes of small images.
//
//vsym:paths=4000
func HMax2d() {
	small := [][2]ax{{axes[1], axes[1]}, {axes[1], axes[2]}, {axes[4], axes[1]}, {axes[1], axes[6]}, {axes[4], axes[5]}, {axes[3], axes[1]}}
	p := small[vsym.Choice("axes", len(small))]
	lisp := vsym.Choice("machine", 2) == 1
	max2d(hlp.F64, lisp, [2]int{1, 1}, p[0], p[1])
}

// HMaxKinds: max pooling in both float widths with one and two images and channels.
//
//vsym:paths=4000
func HMaxKinds() {
	dt := dts[vsym.Choice("dtype", 2)]
	d := dims[vsym.Choice("dims", len(dims))]
	lisp := vsym.Choice("machine", 2) == 1
	max2d(dt, lisp, d, axes[0], axes[2])
}

// HMaxAsym: max pooling with different padding on the two sides.
//
//vsym:paths=4000
func HMaxAsym() {
	a := asym[vsym.Choice("axis", len(asym))]
	lisp := vsym.Choice("machine", 2) == 1
	b := axes[0]
	if vsym.Choice("rows", 2) == 1 {
		a, b = b, a
	}
	max2d(hlp.F64, lisp, [2]int{1, 1}, a, b)
}

// HAvg2d: average pooling, values and gradients for every pair of axis settings; padding counts as zeroes.
func HAvg2d() {
	h := axes[vsym.Choice("h", len(axes))]
	w := axes[vsym.Choice("w", len(axes))]
	avg2d(hlp.F64, vsym.Choice("machine", 2) == 1, [2]int{1, 1}, h, w)
}

// HAvgAsym: average pooling with different padding on the two sides of either axis.
func HAvgAsym() {
	h := asym[vsym.Choice("h", len(asym))]
	w := append(asym, axes[1])[vsym.Choice("w", len(asym)+1)]
	avg2d(hlp.F64, vsym.Choice("machine", 2) == 1, [2]int{1, 1}, h, w)
}

// HAvgKinds: average pooling in both float widths with one and two images and channels.
func HAvgKinds() {
	dt := dts[vsym.Choice("dtype", 2)]
	d := dims[vsym.Choice("dims", len(dims))]
	avg2d(dt, vsym.Choice("machine", 2) == 1, d, axes[2], axes[5])
}

// HPool1d: one-dimensional max and average pooling.
//
//vsym:paths=4000
func HPool1d() {
	a := axes[vsym.Choice("axis", 7)]
	d := dims[vsym.Choice("dims", 3)]
	lisp := vsym.Choice("machine", 2) == 1
	one := axes[0]
	if vsym.Choice("which", 2) == 0 {
		vsym.Assume(d[0]*d[1] == 1 || a.size < 3)
		check(hlp.F64, lisp, d, one, a, func(x *G.Node) (*G.Node, error) {
			return G.MaxPool1D(x, a.k, a.before, a.stride)
		}, func(x hlp.Arr) hlp.Arr { return maxOf(x, one, a) })
	} else {
		check(hlp.F64, lisp, d, one, a, func(x *G.Node) (*G.Node, error) {
			return G.AveragePool1D(x, a.k, a.before, a.stride)
		}, func(x hlp.Arr) hlp.Arr { return avgOf(x, one, a) })
	}
}

// HGlobal: global average pooling, value for images up to 3x3.
func HGlobal() {
	dt := dts[vsym.Choice("dtype", 2)]
	d := dims[vsym.Choice("dims", len(dims))]
	h, w := 1+vsym.Choice("h", 3), 1+vsym.Choice("w", 3)
	g := G.NewGraph()
	x := input(g, dt, d[0], d[1], h, w)
	y := hlp.Node(G.GlobalAveragePool2D(x.N))
	hlp.RunTape(g)
	hlp.IsArr(y, hlp.Build([]int{d[0], d[1], 1, 1}, func(ix []int) float64 {
		s := 0.0
		hlp.Each([]int{h, w}, func(p []int) { s += x.Arr().At(ix[0], ix[1], p[0], p[1]) })
		return s / float64(h*w)
	}), "global average")
	vsym.Cover("global")
}

// HGlobalGrad: the gradient of global average pooling is computed or refused, never wrong.
func HGlobalGrad() {
	vsym.Generic(true)
	g := G.NewGraph()
	x := input(g, hlp.F64, 1, 2, 2, 2)
	y := hlp.Node(G.GlobalAveragePool2D(x.N))
	cost := hlp.Weighted(g, y)
	var d G.Value
	if vsym.Choice("machine", 2) == 1 {
		if err := G.NewLispMachine(g).RunAll(); err != nil {
			vsym.Cover("refused by the interpreter")
			return
		}
		d, _ = x.N.Grad()
	} else {
		ds, err := G.Grad(cost, x.N)
		if err != nil {
			vsym.Cover("refused by differentiation")
			return
		}
		hlp.RunTape(g)
		d = ds[0].Value()
	}
	hlp.Deriv(hlp.Nums(cost.Value())[0], x, d, "gradient", 0)
}

// HUpsample: upsampling by factors 1 to 3, values and gradients.
func HUpsample() {
	vsym.Generic(true)
	dt := dts[vsym.Choice("dtype", 2)]
	d := dims[vsym.Choice("dims", len(dims))]
	k := 1 + vsym.Choice("scale", 3)
	hw := [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 2}}[vsym.Choice("size", 5)]
	lisp := vsym.Choice("machine", 2) == 1
	g := G.NewGraph()
	x := input(g, dt, d[0], d[1], hw[0], hw[1])
	y := hlp.Node(G.Upsample2D(x.N, k))
	v := hlp.Watch(y)
	grads(lisp, g, hlp.Weighted(g, y), x)
	hlp.ValIsArr(*v, x.Arr().Repeat(2, k).Repeat(3, k), hlp.Tol(dt), "upsampled")
	vsym.Cover("upsampled")
}

// HShared: the image feeds two poolings (max and average, or two averages with other settings) and itself; gradients
// add up and the two stay distinct.
//
//vsym:paths=4000
func HShared() {
	vsym.Generic(true)
	lisp := vsym.Choice("machine", 2) == 1
	g := G.NewGraph()
	x := input(g, hlp.F64, 1, 1, 1, 3)
	type use struct {
		a   ax
		max bool
	}
	pairs := [][2]use{
		{{ax{3, 2, 0, 0, 1}, false}, {ax{3, 2, 0, 0, 2}, false}},
		{{ax{3, 2, 1, 0, 1}, false}, {ax{3, 2, 0, 1, 1}, false}},
		{{ax{3, 2, 0, 0, 1}, true}, {ax{3, 2, 0, 0, 1}, false}},
		{{ax{3, 2, 1, 0, 1}, true}, {ax{3, 2, 0, 1, 1}, true}},
		{{ax{3, 2, 1, 1, 2}, true}, {ax{3, 2, 0, 1, 2}, true}},
	}
	p := pairs[vsym.Choice("pair", len(pairs))]
	cost := hlp.Node(G.Sum(hlp.Node(G.Square(x.N))))
	var vs [2]*G.Value
	var want [2]hlp.Arr
	one := axes[0]
	for i, u := range p {
		f := G.AveragePool2D
		if u.max {
			f = G.MaxPool2D
		}
		y := hlp.Node(f(x.N, tensor.Shape{1, u.a.k}, []int{0, 0, u.a.after, u.a.before}, []int{1, u.a.stride}))
		vs[i] = hlp.Watch(y)
		w := hlp.Var(g, hlp.F64, []string{"w0", "w1"}[i], hlp.Syms("w", hlp.Prod(y.Shape())), y.Shape().Clone()...)
		cost = hlp.Node(G.Add(cost, hlp.Node(G.Sum(hlp.Node(G.HadamardProd(y, w.N))))))
		if u.max {
			want[i] = maxOf(x.Arr(), one, u.a)
		} else {
			want[i] = avgOf(x.Arr(), one, u.a)
		}
	}
	grads(lisp, g, cost, x)
	for i := range p {
		hlp.ValIsArr(*vs[i], want[i], hlp.Tol(hlp.F64), "pooled value")
	}
	vsym.Cover("shared")
}

// HAgain: a second run of the same machine with a new image pools the new image.
//
//vsym:paths=4000
func HAgain() {
	which := vsym.Choice("which", 3)
	lisp := vsym.Choice("machine", 2) == 1
	a, one := axes[5], axes[0]
	g := G.NewGraph()
	x := input(g, hlp.F64, 1, 1, 1, 3)
	var y *G.Node
	switch which {
	case 0:
		y = hlp.Node(G.MaxPool2D(x.N, tensor.Shape{1, a.k}, []int{0, a.before}, []int{1, a.stride}))
	case 1:
		y = hlp.Node(G.AveragePool2D(x.N, tensor.Shape{1, a.k}, []int{0, a.before}, []int{1, a.stride}))
	case 2:
		y = hlp.Node(G.Upsample2D(x.N, 2))
	}
	ref := func(x hlp.Arr) hlp.Arr {
		switch which {
		case 0:
			return maxOf(x, one, a)
		case 1:
			return avgOf(x, one, a)
		}
		return x.Repeat(2, 2).Repeat(3, 2)
	}
	var m G.VM
	if lisp {
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	} else {
		m = G.NewTapeMachine(g)
	}
	for run := 0; run < 2; run++ {
		z := hlp.A(hlp.Syms("z", 3), 1, 1, 1, 3)
		for _, v := range z.D {
			vsym.Assume(v > -1000)
		}
		hlp.Ok(G.Let(x.N, hlp.Dense(hlp.F64, z.D, 1, 1, 1, 3)), "let")
		hlp.Ok(m.RunAll(), "run")
		hlp.IsArr(y, ref(z), "pooled value")
		m.Reset()
	}
	hlp.Ok(m.Close(), "close")
	vsym.Cover("again")
}

// HMaxLowest: a window of the lowest representable values, and of negative infinities, has a maximum and a gradient.
func HMaxLowest() {
	lisp := vsym.Bool("lisp")
	lows := []float64{-math.MaxFloat64, -math.MaxFloat32, math.Inf(-1)}
	low := lows[vsym.Choice("low", len(lows))]
	dt := dts[vsym.Choice("dtype", 2)]
	if dt == hlp.F32 && low == -math.MaxFloat64 {
		low = -math.MaxFloat32
	}
	g := G.NewGraph()
	x := hlp.Var(g, dt, "x", []float64{low, low, low, vsym.Float64In("x", -10, 10)}, 1, 1, 1, 4)
	y := hlp.Node(G.MaxPool2D(x.N, tensor.Shape{1, 2}, []int{0, 0}, []int{1, 2}))
	v := hlp.Watch(y)
	cost := hlp.Node(G.Sum(y))
	if lisp {
		m := G.NewLispMachine(g)
		hlp.Ok(m.RunAll(), "run")
	} else {
		_, err := G.Grad(cost, x.N)
		hlp.Ok(err, "grad")
		m := G.NewTapeMachine(g, G.BindDualValues(x.N))
		hlp.Ok(m.RunAll(), "run")
	}
	r := hlp.Nums(*v)
	vsym.Assert(r[0] == low, "maximum of the lowest values")
	vsym.AssertNear(r[1], x.X[3], 1e-5, "maximum of a window")
	dx, err := x.N.Grad()
	hlp.Ok(err, "gradient")
	d := hlp.Nums(dx)
	vsym.AssertNear(d[3], 1, 1e-5, "gradient of the maximum")
	vsym.AssertNear(d[2], 0, 1e-5, "gradient of another value")
	vsym.Cover("lowest")
}
