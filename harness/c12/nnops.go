package c12

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	nnops "gorgonia.org/gorgonia/ops/nn"
	"gorgonia.org/tensor"
)

// HLayers: maximum pooling made by the package of layers, for settings that differ between the axes.
func HLayers() {
	s := [][2]ax{{axes[1], axes[5]}, {axes[5], axes[1]}, {axes[2], axes[3]}, {axes[3], axes[2]}, {asym[0], asym[1]}}[vsym.Choice("setting", 5)]
	h, w := s[0], s[1]
	check(dts[vsym.Choice("width", 2)], vsym.Choice("machine", 2) == 1, [2]int{1, 1}, h, w, func(x *G.Node) (*G.Node, error) {
		return nnops.MaxPool2D(x, tensor.Shape{h.k, w.k}, pads(h, w), []int{h.stride, w.stride})
	}, func(x hlp.Arr) hlp.Arr { return maxOf(x, h, w) })
}
