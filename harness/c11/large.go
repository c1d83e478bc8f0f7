package c11

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// large are settings of rows and columns with batch, channels and filters.
var large = []struct {
	h, w ax
	d    [3]int
}{
	{ax{5, 3, 1, 1, 1}, ax{6, 3, 1, 2, 1}, [3]int{1, 1, 1}},
	{ax{6, 3, 2, 2, 2}, ax{5, 2, 0, 1, 3}, [3]int{1, 1, 2}},
	{ax{3, 2, 1, 1, 1}, ax{4, 3, 1, 1, 1}, [3]int{3, 1, 1}},
	{ax{2, 2, 0, 1, 1}, ax{3, 1, 0, 2, 1}, [3]int{2, 3, 4}},
	{ax{1, 1, 0, 1, 1}, ax{9, 5, 2, 1, 1}, [3]int{1, 2, 1}},
	{ax{8, 3, 1, 1, 1}, ax{11, 4, 2, 2, 2}, [3]int{2, 2, 3}},
	{ax{7, 2, 0, 5, 1}, ax{2, 2, 1, 3, 1}, [3]int{1, 1, 3}},
}

// HLarge: values and gradients for seven larger settings: extents up to 11, kernels up to 5, strides up to 5, dilations up
// to 3, up to three images and channels and four filters; both float widths.
func HLarge() {
	vsym.Generic(true)
	l := large[vsym.Choice("setting", len(large))]
	dt := dts[vsym.Choice("dtype", 2)]
	lisp := vsym.Choice("machine", 2) == 1
	g := G.NewGraph()
	im, f, y := build(g, dt, l.d, l.h, l.w)
	v := hlp.Watch(y)
	grads(lisp, g, hlp.Weighted(g, y), im, f)
	hlp.ValIsArr(*v, conv(im.Arr(), f.Arr(), l.h, l.w), hlp.Tol(dt), "convolution")
	vsym.Cover("large")
}

// HDefaults: without a padding or without a dilation given, there is none.
func HDefaults() {
	vsym.Generic(true)
	h, w := axes[vsym.Choice("h", len(axes))], axes[vsym.Choice("w", len(axes))]
	pad, dil := []int{h.pad, w.pad}, []int{h.dil, w.dil}
	k := vsym.Choice("left out", 3)
	if k != 1 {
		h.pad, w.pad, pad = 0, 0, nil
	}
	if k != 0 {
		h.dil, w.dil, dil = 1, 1, nil
	}
	if h.dil*(h.k-1)+1 > h.size+2*h.pad || w.dil*(w.k-1)+1 > w.size+2*w.pad {
		return // the kernel does not fit
	}
	g := G.NewGraph()
	im := hlp.Sym(g, hlp.F64, "im", 1, 1, h.size, w.size)
	f := hlp.Sym(g, hlp.F64, "f", 1, 1, h.k, w.k)
	y := hlp.Node(G.Conv2d(im.N, f.N, tensor.Shape{h.k, w.k}, pad, []int{h.stride, w.stride}, dil))
	v := hlp.Watch(y)
	grads(k == 2, g, hlp.Weighted(g, y), im, f)
	hlp.ValIsArr(*v, conv(im.Arr(), f.Arr(), h, w), hlp.Tol(hlp.F64), "convolution")
	vsym.Cover("defaults")
}
