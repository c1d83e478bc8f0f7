package c11

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	nnops "gorgonia.org/gorgonia/ops/nn"
	"gorgonia.org/tensor"
)

// HLayers: convolutions made by the package of layers, in one and two dimensions.
func HLayers() {
	vsym.Generic(true)
	one := vsym.Choice("dimensions", 2) == 0
	h, w := ax{1, 1, 0, 1, 1}, axes[vsym.Choice("w", len(axes))]
	if !one {
		h = axes[vsym.Choice("h", 4)+2]
	}
	dt := dts[vsym.Choice("width", 2)]
	g := G.NewGraph()
	im := hlp.Sym(g, dt, "im", 1, 2, h.size, w.size)
	f := hlp.Sym(g, dt, "f", 1, 2, h.k, w.k)
	var y *G.Node
	if one {
		y = hlp.Node(nnops.Conv1d(im.N, f.N, w.k, w.pad, w.stride, w.dil))
	} else {
		y = hlp.Node(nnops.Conv2d(im.N, f.N, tensor.Shape{h.k, w.k}, []int{h.pad, w.pad}, []int{h.stride, w.stride}, []int{h.dil, w.dil}))
	}
	v := hlp.Watch(y)
	grads(false, g, hlp.Weighted(g, y), im, f)
	hlp.ValIsArr(*v, conv(im.Arr(), f.Arr(), h, w), hlp.Tol(dt), "convolution")
	vsym.Cover("layers")
}
