package c13

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var longLanes = []lane{{[]int{9}, 0}, {[]int{17}, -1}, {[]int{2, 5}, 1}, {[]int{7, 3}, 0}, {[]int{2, 5, 3}, 1}, {[]int{4, 2, 2}, 0}, {[]int{1, 2, 1, 6}, -1}, {[]int{2, 4, 1, 3}, 1}, {[]int{65}, 0}}

// spots is an input of zeroes with two arbitrary elements.
func spots(g *G.ExprGraph, dt tensor.Dtype, p int, sh ...int) (in *hlp.In, at []int) {
	n := hlp.Prod(sh)
	x := make([]float64, n)
	at = []int{p * (n - 1) / 2, (p*(n-1)/2 + n/2) % n}
	if at[0] == at[1] {
		at = at[:1]
	}
	for _, i := range at {
		x[i] = vsym.Float64In("x", -20, 20)
	}
	return hlp.Var(g, dt, "x", x, sh...), at
}

// long checks the value of an operation on lanes of up to 65 elements and its gradient by the arbitrary elements.
func long(g *G.ExprGraph, dt tensor.Dtype, lisp bool, in *hlp.In, at []int, y *G.Node, want hlp.Arr) {
	v := hlp.Watch(y)
	w := hlp.Sym(g, dt, "w", want.Sh...)
	cost := hlp.Node(G.Sum(hlp.Node(G.HadamardProd(y, w.N))))
	cv := hlp.Watch(cost)
	var d G.Value
	if lisp {
		hlp.Ok(G.NewLispMachine(g).RunAll(), "run")
		var err error
		d, err = in.N.Grad()
		hlp.Ok(err, "gradient")
	} else {
		ds, err := G.Grad(cost, in.N)
		hlp.Ok(err, "differentiation")
		r := hlp.Watch(ds[0])
		hlp.RunTape(g)
		d = *r
	}
	hlp.ValIsArr(*v, want, hlp.Tol(dt), "value")
	hlp.SameShape(d.Shape(), in.Shape, "shape of the gradient")
	c, got := hlp.Nums(*cv)[0], hlp.Nums(d)
	for _, i := range at {
		vsym.AssertNear(got[i], vsym.Deriv(c, in.X[i]), hlp.Tol(dt), "gradient", i)
	}
}

// HSoftmaxLong: softmax and log-softmax along lanes of 4 to 65 elements, of which up to two of the whole input are
// arbitrary, at three places each, and the others zero: values, and gradients by the arbitrary elements.
//
//vsym:paths=4000
func HSoftmaxLong() {
	vsym.Generic(true)
	k := vsym.Choice("lane", len(longLanes))
	l := longLanes[k]
	log := vsym.Choice("log", 2) == 1
	dt := dts[vsym.Choice("dtype", 2)]
	g := G.NewGraph()
	x, at := spots(g, dt, vsym.Choice("place", 3), l.sh...)
	long(g, dt, (dt == hlp.F64) == (k%2 == 0), x, at, apply(x.N, l, log), l.softmax(x.Arr(), log))
	vsym.Cover("long")
}

// HSparsemaxLong: sparsemax along lanes of 5 to 9 elements, of which up to two of the whole input are arbitrary, at three places each:
// values.
//
//vsym:paths=6000
func HSparsemaxLong() {
	vsym.Generic(true)
	k := vsym.Choice("lane", 3)
	l := []lane{{[]int{9}, 0}, {[]int{6, 2}, 0}, {[]int{2, 5, 1}, 1}}[k]
	p := vsym.Choice("place", 3)
	dt := dts[(k+p)%2]
	g := G.NewGraph()
	x, _ := spots(g, dt, p, l.sh...)
	y := hlp.Watch(sparse(x.N, l))
	hlp.RunTape(g)
	hlp.SameShape((*y).Shape(), l.sh, "shape")
	isSparsemax(x.Arr(), hlp.A(hlp.Nums(*y), l.sh...), l, dt)
	vsym.Cover("long")
}

// HBatchNormOwn: batch normalisation that makes its own scale, bias or both: these are what it returns, and what it
// computes with.
//
//vsym:paths=2000
func HBatchNormOwn() {
	dt := dts[vsym.Choice("dt", 2)]
	sh := bnShapes[vsym.Choice("shape", len(bnShapes))]
	g := G.NewGraph()
	x := hlp.Sym(g, dt, "x", sh...)
	s, b := affine(g, dt, sh)
	sn, bn := s.N, b.N
	k := vsym.Choice("left out", 3)
	if k != 0 {
		sn = nil
	}
	if k != 1 {
		bn = nil
	}
	y, gs, gb, _, err := G.BatchNorm(x.N, sn, bn, mom, eps)
	hlp.Ok(err, "batchnorm")
	vsym.Assert(sn == nil || gs == sn, "scale returned")
	vsym.Assert(bn == nil || gb == bn, "bias returned")
	if sn == nil {
		hlp.SameShape(gs.Value().Shape(), sh, "shape of its scale")
		s.X = append([]float64{}, hlp.Nums(gs.Value())...)
	}
	if bn == nil {
		hlp.SameShape(gb.Value().Shape(), sh, "shape of its bias")
		b.X = append([]float64{}, hlp.Nums(gb.Value())...)
	}
	w := hlp.Watch(y)
	hlp.RunTape(g)
	hlp.ValIsArr(*w, scaled(trained(x.Arr(), eps), s, b), hlp.Tol(dt), "batch normalisation")
	vsym.Cover("own")
}
