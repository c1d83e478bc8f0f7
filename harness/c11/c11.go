// Package c11: convolutions.
package c11

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// ax configures one spatial axis.
type ax struct{ size, k, pad, stride, dil int }

var axes = []ax{
	{1, 1, 0, 1, 1}, {2, 2, 0, 1, 1}, {3, 2, 0, 1, 1}, {3, 1, 0, 2, 1}, {2, 3, 1, 1, 1}, {3, 2, 1, 2, 1},
	{3, 2, 0, 1, 2}, {4, 2, 1, 2, 2}, {2, 2, 2, 1, 1}, {4, 2, 0, 3, 1},
}

// dims are batch, channels and filters.
var dims = [][3]int{{1, 1, 1}, {2, 1, 1}, {1, 2, 1}, {1, 1, 2}, {2, 2, 2}}

var dts = []tensor.Dtype{hlp.F64, hlp.F32}

func (a ax) out() int { return (a.size+2*a.pad-a.dil*(a.k-1)-1)/a.stride + 1 }

// conv is the defining sum.
func conv(im, f hlp.Arr, h, w ax) hlp.Arr {
	return hlp.Build([]int{im.Sh[0], f.Sh[0], h.out(), w.out()}, func(ix []int) float64 {
		s := 0.0
		for c := 0; c < im.Sh[1]; c++ {
			for i := 0; i < h.k; i++ {
				for j := 0; j < w.k; j++ {
					r, q := ix[2]*h.stride-h.pad+i*h.dil, ix[3]*w.stride-w.pad+j*w.dil
					if r >= 0 && r < h.size && q >= 0 && q < w.size {
						s += im.At(ix[0], c, r, q) * f.At(ix[1], c, i, j)
					}
				}
			}
		}
		return s
	})
}

func build(g *G.ExprGraph, dt tensor.Dtype, d [3]int, h, w ax) (im, f *hlp.In, y *G.Node) {
	im = hlp.Sym(g, dt, "im", d[0], d[1], h.size, w.size)
	f = hlp.Sym(g, dt, "f", d[2], d[1], h.k, w.k)
	y = hlp.Node(G.Conv2d(im.N, f.N, tensor.Shape{h.k, w.k}, []int{h.pad, w.pad}, []int{h.stride, w.stride}, []int{h.dil, w.dil}))
	hlp.SameShape(y.Shape(), []int{d[0], d[2], h.out(), w.out()}, "announced shape")
	return
}

// HConv2d: the value of a two-dimensional convolution for 10 kernel/pad/stride/dilation settings on each axis
// (extents 1 to 4) with one and two images, channels and filters.
func HConv2d() {
	h := axes[vsym.Choice("h", len(axes))]
	w := axes[vsym.Choice("w", len(axes))]
	d := [3]int{1, 1, 1}
	if vsym.Choice("many", 2) == 1 {
		d = [3]int{2, 2, 2}
	}
	g := G.NewGraph()
	im, f, y := build(g, hlp.F64, d, h, w)
	hlp.RunTape(g)
	hlp.IsArr(y, conv(im.Arr(), f.Arr(), h, w), "convolution")
	vsym.Cover("convolution")
}

// HConv2dKinds: the same in both float widths, on both machines, for each batch/channel/filter combination; a second
// run with new contents on the same machine gives the new result.
func HConv2dKinds() {
	k := vsym.Choice("axes", 4)
	h, w := axes[5+k], axes[8-k]
	d := dims[vsym.Choice("dims", len(dims))]
	dt := dts[vsym.Choice("dtype", 2)]
	g := G.NewGraph()
	im, f, y := build(g, dt, d, h, w)
	var m G.VM
	if vsym.Choice("machine", 2) == 1 {
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	} else {
		m = G.NewTapeMachine(g)
	}
	hlp.Ok(m.RunAll(), "run")
	hlp.IsArr(y, conv(im.Arr(), f.Arr(), h, w), "convolution")
	m.Reset()
	im2 := hlp.A(hlp.Syms("im2", len(im.X)), im.Shape...)
	hlp.Ok(G.Let(im.N, hlp.Dense(dt, im2.D, im.Shape...)), "let")
	hlp.Ok(m.RunAll(), "second run")
	hlp.IsArr(y, conv(im2, f.Arr(), h, w), "convolution of the second image")
	hlp.Ok(m.Close(), "close")
	vsym.Cover("kinds")
}

func grads(lisp bool, g *G.ExprGraph, cost *G.Node, ins ...*hlp.In) {
	if lisp {
		hlp.LispGrads(g, cost, ins...)
	} else {
		hlp.TapeGrads(g, cost, ins...)
	}
}

// HGrad: gradients with respect to image and filter for every pair of axis settings.
func HGrad() {
	vsym.Generic(true)
	h := axes[vsym.Choice("h", len(axes))]
	w := axes[vsym.Choice("w", len(axes))]
	lisp := vsym.Choice("machine", 2) == 1
	g := G.NewGraph()
	im, f, y := build(g, hlp.F64, [3]int{1, 1, 1}, h, w)
	grads(lisp, g, hlp.Weighted(g, y), im, f)
}

// HGradKinds: gradients for each batch/channel/filter combination and float width.
func HGradKinds() {
	vsym.Generic(true)
	k := vsym.Choice("axes", 4)
	h, w := axes[5+k], axes[8-k]
	d := dims[vsym.Choice("dims", len(dims))]
	dt := dts[vsym.Choice("dtype", 2)]
	lisp := vsym.Choice("machine", 2) == 1
	g := G.NewGraph()
	im, f, y := build(g, dt, d, h, w)
	grads(lisp, g, hlp.Weighted(g, y), im, f)
}

// HConv1d: value and gradients of one-dimensional convolution.
func HConv1d() {
	vsym.Generic(true)
	w := axes[vsym.Choice("w", len(axes))]
	h := ax{1, 1, 0, 1, 1}
	d := dims[vsym.Choice("dims", len(dims))]
	lisp := vsym.Choice("machine", 2) == 1
	g := G.NewGraph()
	im := hlp.Sym(g, hlp.F64, "im", d[0], d[1], 1, w.size)
	f := hlp.Sym(g, hlp.F64, "f", d[2], d[1], 1, w.k)
	y := hlp.Node(G.Conv1d(im.N, f.N, w.k, w.pad, w.stride, w.dil))
	v := hlp.Watch(y)
	grads(lisp, g, hlp.Weighted(g, y), im, f)
	hlp.ValIsArr(*v, conv(im.Arr(), f.Arr(), h, w), hlp.Tol(hlp.F64), "convolution")
}

// HTwoConvs: two convolutions of the same image in one graph that differ only in pad, stride or dilation of one axis
// (chosen so that output extents agree where possible), values and accumulated gradients.
func HTwoConvs() {
	vsym.Generic(true)
	pairs := [][2]ax{
		{{3, 2, 0, 3, 1}, {3, 2, 0, 3, 2}}, // same output extent, other dilation
		{{3, 2, 0, 1, 1}, {3, 2, 1, 1, 1}},
		{{3, 2, 0, 2, 1}, {3, 2, 0, 3, 1}},
		{{3, 2, 1, 1, 1}, {3, 2, 1, 1, 2}},
		{{3, 2, 0, 1, 1}, {3, 2, 0, 1, 1}},
	}
	p := pairs[vsym.Choice("pair", len(pairs))]
	rows := vsym.Choice("axis", 2) == 1
	lisp := vsym.Choice("machine", 2) == 1
	one := ax{2, 1, 0, 1, 1}
	g := G.NewGraph()
	var im, f *hlp.In
	var hs, ws [2]ax
	var ys [2]*G.Node
	var vs [2]*G.Value
	for i, a := range p {
		hs[i], ws[i] = one, a
		if rows {
			hs[i], ws[i] = a, one
		}
	}
	im = hlp.Sym(g, hlp.F64, "im", 1, 1, hs[0].size, ws[0].size)
	f = hlp.Sym(g, hlp.F64, "f", 1, 1, hs[0].k, ws[0].k)
	for i := range p {
		h, w := hs[i], ws[i]
		ys[i] = hlp.Node(G.Conv2d(im.N, f.N, tensor.Shape{h.k, w.k}, []int{h.pad, w.pad}, []int{h.stride, w.stride}, []int{h.dil, w.dil}))
		vs[i] = hlp.Watch(ys[i])
	}
	s0, s1 := hlp.Node(G.Sum(ys[0])), hlp.Node(G.Sum(hlp.Node(G.Square(ys[1]))))
	grads(lisp, g, hlp.Node(G.Add(s0, s1)), im, f)
	for i := range p {
		hlp.ValIsArr(*vs[i], conv(im.Arr(), f.Arr(), hs[i], ws[i]), hlp.Tol(hlp.F64), "convolution")
	}
	vsym.Cover("two convolutions")
}

// HOfComputed: the image is the result of a transposition, a slice, a reshape or an elementwise operation.
func HOfComputed() {
	vsym.Generic(true)
	h, w := ax{2, 2, 0, 1, 1}, ax{3, 2, 1, 2, 1}
	lisp := vsym.Choice("machine", 2) == 1
	g := G.NewGraph()
	var in *hlp.In
	var n *G.Node
	var im hlp.Arr
	switch vsym.Choice("of", 6) {
	case 0:
		in = hlp.Sym(g, hlp.F64, "im", 1, 2, 3, 2)
		n = hlp.Node(G.Transpose(in.N, 0, 1, 3, 2))
		im = in.Arr().Perm(0, 1, 3, 2)
	case 1:
		in = hlp.Sym(g, hlp.F64, "im", 2, 1, 2, 3)
		n = hlp.Node(G.Transpose(in.N, 1, 0, 2, 3))
		im = in.Arr().Perm(1, 0, 2, 3)
	case 2:
		in = hlp.Sym(g, hlp.F64, "im", 1, 2, 2, 5)
		n = hlp.Node(G.Slice(in.N, nil, nil, nil, G.S(1, 4)))
		im = in.Arr().SliceAx(3, 1, 4, 1)
	case 3:
		in = hlp.Sym(g, hlp.F64, "im", 1, 4, 2, 3)
		n = hlp.Node(G.Slice(in.N, nil, G.S(1, 3)))
		im = in.Arr().SliceAx(1, 1, 3, 1)
	case 4:
		in = hlp.Sym(g, hlp.F64, "im", 12)
		n = hlp.Node(G.Reshape(in.N, tensor.Shape{1, 2, 2, 3}))
		im = in.Arr().Reshape(1, 2, 2, 3)
	case 5:
		in = hlp.Sym(g, hlp.F64, "im", 1, 2, 2, 3)
		n = hlp.Node(G.Square(in.N))
		im = in.Arr().Map(func(x float64) float64 { return x * x })
	}
	if !im.IsShape(n.Shape()) {
		n = hlp.Node(G.Reshape(n, tensor.Shape(im.Sh)))
	}
	f := hlp.Sym(g, hlp.F64, "f", 1, 2, h.k, w.k)
	y := hlp.Node(G.Conv2d(n, f.N, tensor.Shape{h.k, w.k}, []int{h.pad, w.pad}, []int{h.stride, w.stride}, nil))
	v := hlp.Watch(y)
	grads(lisp, g, hlp.Weighted(g, y), in, f)
	hlp.ValIsArr(*v, conv(im, f.Arr(), h, w), hlp.Tol(hlp.F64), "convolution")
	vsym.Cover("computed image")
}

// HDeep: a convolution of a convolution.
func HDeep() {
	vsym.Generic(true)
	lisp := vsym.Choice("machine", 2) == 1
	a, b := ax{3, 2, 0, 1, 1}, ax{2, 2, 1, 2, 1}
	g := G.NewGraph()
	im := hlp.Sym(g, hlp.F64, "im", 1, 1, 3, 3)
	f1 := hlp.Sym(g, hlp.F64, "f1", 2, 1, 2, 2)
	f2 := hlp.Sym(g, hlp.F64, "f2", 1, 2, 2, 2)
	y1 := hlp.Node(G.Conv2d(im.N, f1.N, tensor.Shape{2, 2}, []int{0, 0}, []int{1, 1}, nil))
	y2 := hlp.Node(G.Conv2d(y1, f2.N, tensor.Shape{2, 2}, []int{1, 1}, []int{2, 2}, []int{1, 1}))
	v := hlp.Watch(y2)
	grads(lisp, g, hlp.Weighted(g, y2), im, f1, f2)
	r1 := conv(im.Arr(), f1.Arr(), a, a)
	hlp.ValIsArr(*v, conv(r1, f2.Arr(), b, b), hlp.Tol(hlp.F64), "convolution of a convolution")
	vsym.Cover("deep")
}
