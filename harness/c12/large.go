package c12

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// large are settings of rows and columns with images and channels.
var large = []struct {
	h, w ax
	d    [2]int
}{
	{ax{6, 3, 1, 1, 2}, ax{7, 2, 0, 0, 1}, [2]int{1, 1}},
	{ax{5, 2, 0, 0, 3}, ax{6, 4, 2, 2, 1}, [2]int{2, 3}},
	{ax{4, 2, 1, 1, 1}, ax{9, 5, 2, 2, 2}, [2]int{3, 1}},
	{ax{8, 2, 0, 0, 5}, ax{3, 3, 1, 1, 1}, [2]int{1, 2}},
	{ax{5, 3, 2, 0, 1}, ax{7, 3, 0, 2, 3}, [2]int{2, 2}},
}

// HMaxLarge: maximum pooling for five larger settings (extents up to 9, kernels up to 5, strides up to 5, up to three
// images and channels, each in both float widths, one on each machine) of images in which two elements are arbitrary and the others
// are given, all different: values, and gradients away from ties.
func HMaxLarge() {
	vsym.Generic(true)
	k := vsym.Choice("setting", len(large))
	l := large[k]
	dt := dts[vsym.Choice("dtype", 2)]
	lisp := (dt == hlp.F64) == (k%2 == 0)
	h, w := l.h, l.w
	sh := []int{l.d[0], l.d[1], h.size, w.size}
	n := hlp.Prod(sh)
	x := make([]float64, n)
	for i := range x {
		x[i] = float64((i*37+11)%n) - float64(n/2) + 0.25
	}
	p := vsym.Choice("place", 3)
	for _, i := range []int{(p * n / 3), n - 1 - p*2} {
		x[i] = vsym.Float64In("x", -200, 200)
	}
	g := G.NewGraph()
	in := hlp.Var(g, dt, "x", x, sh...)
	y := hlp.Node(G.MaxPool2D(in.N, tensor.Shape{h.k, w.k}, pads(h, w), []int{h.stride, w.stride}))
	v := hlp.Watch(y)
	osh := []int{sh[0], sh[1], h.out(), w.out()}
	hlp.SameShape(y.Shape(), osh, "announced shape")
	ws := hlp.Sym(g, dt, "w", osh...)
	cost := hlp.Node(G.Sum(hlp.Node(G.HadamardProd(y, ws.N))))
	var d G.Value
	if lisp {
		m := G.NewLispMachine(g)
		hlp.Ok(m.RunAll(), "run")
		var err error
		d, err = in.N.Grad()
		hlp.Ok(err, "gradient")
	} else {
		ds, err := G.Grad(cost, in.N)
		hlp.Ok(err, "differentiation")
		r := hlp.Watch(ds[0])
		hlp.RunTape(g)
		d = *r
	}
	a := in.Arr()
	hlp.ValIsArr(*v, maxOf(a, h, w), hlp.Tol(dt), "pooled value")
	want := hlp.Zero(sh...)
	wa := ws.Arr()
	for b := 0; b < osh[0]; b++ {
		for c := 0; c < osh[1]; c++ {
			for i := 0; i < osh[2]; i++ {
				for j := 0; j < osh[3]; j++ {
					at := -1
					for _, r := range h.win(i) {
						for _, q := range w.win(j) {
							if o := hlp.Off(sh, []int{b, c, r, q}); at < 0 || a.D[o] > a.D[at] {
								at = o
							}
						}
					}
					want.D[at] += wa.At(b, c, i, j)
				}
			}
		}
	}
	hlp.ValIsArr(d, want, hlp.Tol(dt), "gradient")
	vsym.Cover("large")
}

// HAvgLarge: average pooling for the same settings of arbitrary images; values and gradients.
func HAvgLarge() {
	k := vsym.Choice("setting", len(large))
	l := large[k]
	dt := dts[vsym.Choice("dtype", 2)]
	avg2d(dt, (dt == hlp.F64) == (k%2 == 0), l.d, l.h, l.w)
}
