package c13

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	nnops "gorgonia.org/gorgonia/ops/nn"
)

// HLayers: batch normalisation made by the package of layers, training.
//
//vsym:paths=2000
func HLayers() {
	dt := dts[vsym.Choice("dt", 2)]
	g := G.NewGraph()
	x := hlp.Sym(g, dt, "x", 2, 1)
	s, b := affine(g, dt, []int{2, 1})
	y, scale, bias, op, err := nnops.BatchNorm(x.N, s.N, b.N, mom, eps)
	hlp.Ok(err, "batchnorm")
	vsym.Assert(scale == s.N && bias == b.N, "the scale and bias given are those returned")
	w := hlp.Watch(y)
	hlp.RunTape(g)
	hlp.ValIsArr(*w, scaled(trained(x.Arr(), eps), s, b), hlp.Tol(dt), "batch normalisation")
	r := &running{[]float64{0}, []float64{1}}
	r.see(x.Arr(), mom)
	r.is(op, dt, "after one run")
	vsym.Cover("layers")
}
