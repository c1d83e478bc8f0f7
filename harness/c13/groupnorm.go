package c13

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
)

type gnCase struct {
	sh     []int
	groups int
}

var gnCases = []gnCase{
	{[]int{2, 2, 1, 1}, 1}, {[]int{1, 2, 1, 2}, 1}, {[]int{1, 2, 1, 2}, 2}, {[]int{2, 2, 2, 1}, 2}, {[]int{1, 4, 1, 1}, 2}, {[]int{2, 2}, 1}, {[]int{1, 4, 2, 1}, 1},
	{[]int{1, 4, 2, 2}, 2},
}

// grouped normalises x over each sample and group of channels.
func grouped(x hlp.Arr, groups int, e float64) hlp.Arr {
	per := hlp.Prod(x.Sh[1:]) / groups
	r := make([]float64, len(x.D))
	for o := 0; o < len(x.D); o += per {
		m, v := 0.0, 0.0
		for i := o; i < o+per; i++ {
			m += x.D[i]
		}
		m /= float64(per)
		for i := o; i < o+per; i++ {
			v += (x.D[i] - m) * (x.D[i] - m)
		}
		v /= float64(per)
		for i := o; i < o+per; i++ {
			r[i] = (x.D[i] - m) / vsym.Sqrt(v+e)
		}
	}
	return hlp.A(r, x.Sh...)
}

// HGroupNorm: group normalisation of small batches in groups of 1 to 8 elements, values, and gradients by value, scale
// and bias, on both machines.
//
//vsym:paths=2000
func HGroupNorm() {
	vsym.Generic(true)
	dt := dts[vsym.Choice("dt", 2)]
	c := gnCases[vsym.Choice("case", len(gnCases)-1)]
	g := G.NewGraph()
	x := hlp.Sym(g, dt, "x", c.sh...)
	s, b := affine(g, dt, c.sh)
	y := hlp.Node(G.GroupNorm(x.N, s.N, b.N, c.groups, c.sh[1], eps))
	w := hlp.Watch(y)
	cost := hlp.Weighted(g, y)
	grads(vsym.Choice("lisp", 2) == 1, g, cost, x, s, b)
	hlp.ValIsArr(*w, scaled(grouped(x.Arr(), c.groups, eps), s, b), hlp.Tol(dt), "group normalisation")
	vsym.Cover("groupnorm")
}

// HGroupNormLarge: groups of 8 to 400 elements, of which two are arbitrary, one at any of three offsets of a group, and the others zero.
//
//vsym:paths=2000
func HGroupNormLarge() {
	dt := dts[vsym.Choice("dt", 2)]
	n := []int{8, 19, 130, 258, 264, 400}[vsym.Choice("size", 6)]
	a, b := vsym.Float64("a"), vsym.Float64("b")
	ds := make([]float64, n)
	ds[0] = a
	ds[[]int{1, n / 2, n - 1}[vsym.Choice("at", 3)]] = b
	g := G.NewGraph()
	x := hlp.Var(g, dt, "x", ds, 1, 1, 1, n)
	s, o := hlp.Var(g, dt, "s", []float64{1}, 1, 1, 1, 1), hlp.Var(g, dt, "b", []float64{0}, 1, 1, 1, 1)
	y := hlp.Node(G.GroupNorm(x.N, s.N, o.N, 1, 1, eps))
	hlp.RunTape(g)
	mean := (a + b) / float64(n)
	v := ((a-mean)*(a-mean) + (b-mean)*(b-mean) + float64(n-2)*mean*mean) / float64(n)
	got := hlp.Nums(y.Value())
	vsym.AssertNear(got[0], (a-mean)/vsym.Sqrt(v+eps), hlp.Tol(dt), "first element of a large group", n)
	vsym.Cover("large groups")
}

// HGroupNormTwo: two group normalisations of one input that differ in epsilon or groups keep their own.
//
//vsym:paths=2000
func HGroupNormTwo() {
	vsym.Generic(true)
	e1, k1, e2, k2 := 0.125, 2, 0.125, 2
	switch vsym.Choice("second", 4) {
	case 1:
		e2 = 0.0625
	case 2:
		k2 = 1
	case 3:
		k1, e2 = 1, 0.0625
	}
	g := G.NewGraph()
	sh := []int{1, 2, 1, 2}
	x := hlp.Sym(g, hlp.F64, "x", sh...)
	s, b := affine(g, hlp.F64, sh)
	y := hlp.Node(G.GroupNorm(x.N, s.N, b.N, k1, 2, e1))
	z := hlp.Node(G.GroupNorm(x.N, s.N, b.N, k2, 2, e2))
	wy, wz := hlp.Watch(y), hlp.Watch(z)
	cost := hlp.Weighted(g, hlp.Node(G.Concat(0, y, z)))
	grads(vsym.Choice("lisp", 2) == 1, g, cost, x)
	hlp.ValIsArr(*wy, scaled(grouped(x.Arr(), k1, e1), s, b), hlp.Tol(hlp.F64), "first group normalisation")
	hlp.ValIsArr(*wz, scaled(grouped(x.Arr(), k2, e2), s, b), hlp.Tol(hlp.F64), "second group normalisation")
	vsym.Cover("two groupnorms")
}
