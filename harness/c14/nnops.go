package c14

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	nnops "gorgonia.org/gorgonia/ops/nn"
)

// HLayers: the rectifier and the dropout made by the package of layers.
//
//vsym:paths=4000
func HLayers() {
	dt := dts[vsym.Choice("dt", 2)]
	g := G.NewGraph()
	x := hlp.Sym(g, dt, "x", 2)
	if vsym.Choice("layer", 2) == 0 {
		check(g, hlp.Node(nnops.Rectify(x.N)), x.Arr().Map(func(v float64) float64 {
			if v >= 0 {
				return v
			}
			return 0
		}), x)
		vsym.Cover("rectifier")
		return
	}
	p := []float64{0.25, 0.5, 0.75}[vsym.Choice("p", 3)]
	ds := drawn()
	for _, v := range x.X {
		vsym.Assume(v != 0)
	}
	y := hlp.Node(nnops.Dropout(x.N, p))
	hlp.RunTape(g)
	isDropout(x.X, hlp.Nums(y.Value()), *ds, p, dt)
	vsym.Cover("dropout")
}
