package c01

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// HRounding: rounding up and down, of an input between -1.5 and 1.5 and of a sum, used further, for scalars and vectors of
// both float widths.
func HRounding() {
	g := G.NewGraph()
	dt := []tensor.Dtype{hlp.F64, hlp.F32}[vsym.Choice("dtype", 2)]
	var sh []int
	if vsym.Bool("vector") {
		sh = []int{2}
	}
	xs := hlp.Syms("x", hlp.Prod(sh))
	for _, v := range xs {
		vsym.Assume(v > -1.5)
		vsym.Assume(v < 1.5)
	}
	x := hlp.Var(g, dt, "x", xs, sh...)
	up := vsym.Bool("up")
	op := G.Floor
	if up {
		op = G.Ceil
	}
	n := x.N
	form := 0
	if sh == nil {
		form = vsym.Choice("form", 2)
	}
	if form == 1 {
		n = hlp.Node(G.Add(n, n))
	}
	z := hlp.Node(op(n))
	r := hlp.Watch(z)
	w := hlp.Watch(hlp.Node(G.Sub(z, x.N)))
	hlp.RunTape(g)
	got, rest := hlp.Nums(*r), hlp.Nums(*w)
	for i, v := range xs {
		if form == 1 {
			v = v + v
		}
		k := got[i]
		whole := false
		for j := -3; j <= 3; j++ {
			if k == float64(j) {
				whole = true
			}
		}
		vsym.Assert(whole, "rounded to something that is not whole", i)
		if up {
			vsym.Assert(k >= v, "rounded up to less", i)
			vsym.Assert(k < v+1, "rounded up too far", i)
		} else {
			vsym.Assert(k <= v, "rounded down to more", i)
			vsym.Assert(k > v-1, "rounded down too far", i)
		}
		vsym.AssertNear(rest[i], k-xs[i], hlp.Tol(dt), "difference to the rounded number", i)
	}
	vsym.Cover("rounded")
}

// HOneHot: a vector with a single one, for every position and length up to four, used as an operand of a product with a
// matrix and of a sum.
func HOneHot() {
	g := G.NewGraph()
	dt := []tensor.Dtype{hlp.F64, hlp.F32}[vsym.Choice("dtype", 2)]
	n := 1 + vsym.Choice("length", 4)
	k := vsym.Choice("position", n)
	v := G.OneHotVector(k, n, dt, G.WithName("v"))
	a := hlp.Sym(g, dt, "a", 2, n)
	b := hlp.Sym(g, dt, "b", n)
	p := hlp.Watch(hlp.Node(G.Mul(a.N, v)))
	s := hlp.Watch(hlp.Node(G.Add(b.N, v)))
	hlp.RunTape(g)
	hlp.Same(hlp.Nums(*p), []float64{a.X[k], a.X[n+k]}, hlp.Tol(dt), "column")
	want := append([]float64{}, b.X...)
	want[k]++
	hlp.Same(hlp.Nums(*s), want, hlp.Tol(dt), "sum")
	vsym.Cover("one hot")
}
