// Package c10: reductions compute the aggregate of exactly the elements along the requested axes.
package c10

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{tensor.Float64, tensor.Float32}

// orders lists the subsets of n axes in every order.
func orders(n int) [][]int {
	var r [][]int
	for _, s := range hlp.Subsets(n) {
		for _, p := range hlp.Perms(len(s)) {
			o := make([]int, len(s))
			for i, k := range p {
				o[i] = s[k]
			}
			r = append(r, o)
		}
	}
	return append(r, nil)
}

func all(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func run(g *G.ExprGraph, lisp bool) {
	if lisp {
		m := G.NewLispMachine(g, G.ExecuteFwdOnly())
		hlp.Ok(m.RunAll(), "lisp run")
		hlp.Ok(m.Close(), "close")
		return
	}
	hlp.RunTape(g)
}

func setup(shs [][]int) (*G.ExprGraph, tensor.Dtype, bool, *hlp.In, []int) {
	g := G.NewGraph()
	sh := shs[vsym.Choice("shape", len(shs))]
	os := orders(len(sh))
	ax := os[vsym.Choice("axes", len(os))]
	dt := dts[vsym.Choice("dtype", 2)]
	lisp := vsym.Choice("machine", 2) == 1
	a := hlp.Sym(g, dt, "a", sh...)
	return g, dt, lisp, a, ax
}

var shapes = [][]int{{1}, {3}, {2, 3}, {3, 1}, {1, 2}, {2, 3, 2}, {2, 1, 3}, {1, 1, 2}}

func sumlike(f func(a *G.Node, along ...int) (*G.Node, error), mean bool, shs [][]int) {
	g, _, lisp, a, ax := setup(shs)
	z := hlp.Node(f(a.N, ax...))
	run(g, lisp)
	red := ax
	if len(ax) == 0 {
		red = all(len(a.Shape))
	}
	want := a.Arr().Sum(red...)
	if mean {
		n := 1.0
		for _, x := range red {
			n *= float64(a.Shape[x])
		}
		want = want.Map(func(x float64) float64 { return x / n })
	}
	hlp.IsArr(z, want, "value")
	hlp.SameShape(z.Shape(), want.Sh, "announced shape")
	hlp.Is(a.N, a.X, "operand changed")
	hlp.Same(hlp.Nums(a.T), a.X, hlp.Tol(a.DT), "operand changed")
}

// HSum: sums over every ordered subset of axes (and none listed, meaning all), shapes of rank 1 to 3 with extents 1 to 3.
func HSum() { sumlike(G.Sum, false, shapes) }

// HMean: means over the same axes and shapes.
func HMean() { sumlike(G.Mean, true, shapes) }

// HSum4: rank 4 sums over the first or last axis or several axes.
func HSum4() {
	g := G.NewGraph()
	sh := []int{2, 1, 3, 2}
	axs := [][]int{{0}, {3}, {0, 1, 2, 3}, {0, 3}, {3, 0}, {1, 2, 3}, {0, 2, 3}, {0, 1, 3}}
	ax := axs[vsym.Choice("axes", len(axs))]
	dt := dts[vsym.Choice("dtype", 2)]
	a := hlp.Sym(g, dt, "a", sh...)
	z := hlp.Node(G.Sum(a.N, ax...))
	run(g, false)
	hlp.IsArr(z, a.Arr().Sum(ax...), "value")
}

// HMiddle: rank 4 and 5 sums and maxima over any one or two axes.
func HMiddle() {
	g := G.NewGraph()
	shs := [][]int{{2, 2, 1, 2}, {2, 2, 3, 1}, {1, 2, 2, 2}, {2, 1, 2, 1, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	a := hlp.Sym(g, tensor.Float64, "a", sh...)
	ax := []int{vsym.Choice("axis", len(sh))}
	if x := vsym.Choice("second axis", len(sh)); x != ax[0] {
		ax = append(ax, x)
	}
	if vsym.Choice("function", 2) == 0 {
		z := hlp.Node(G.Sum(a.N, ax...))
		run(g, false)
		hlp.IsArr(z, a.Arr().Sum(ax...), "sum")
		return
	}
	for i := 1; i < len(a.X); i++ {
		vsym.Assume(a.X[i-1] < a.X[i])
	}
	z := hlp.Node(G.Max(a.N, ax...))
	run(g, false)
	hlp.IsArr(z, a.Arr().Fold(ax, max), "maximum")
}

func max(x, y float64) float64 {
	if y > x {
		return y
	}
	return x
}

// HMax: maxima over every ordered subset of axes of shapes (1), (3), (2,2), (2,3), (2,1,2); ties included.
//
//vsym:paths=8000
func HMax() {
	g, _, lisp, a, ax := setup([][]int{{1}, {3}, {2, 2}, {3, 2}, {2, 1, 2}})
	z := hlp.Node(G.Max(a.N, ax...))
	run(g, lisp)
	red := ax
	if len(ax) == 0 {
		red = all(len(a.Shape))
	}
	// every result element is one of its lane and no lane element exceeds it
	v := z.Value()
	vsym.Assert(v != nil, "value is missing")
	got := hlp.Nums(v)
	lanes := a.Arr().Sum(red...)
	hlp.SameShape(v.Shape(), lanes.Sh, "shape")
	vsym.Assert(len(got) == len(lanes.D), "number of elements")
	hlp.Each(a.Shape, func(ix []int) {
		var o []int
		for i := range ix {
			if !hlp.InList(red, i) {
				o = append(o, ix[i])
			}
		}
		vsym.Assert(a.Arr().At(ix...) <= got[hlp.Off(lanes.Sh, o)], "an element exceeds the maximum", ix...)
	})
	for k, m := range got {
		found := false
		hlp.Each(a.Shape, func(ix []int) {
			var o []int
			for i := range ix {
				if !hlp.InList(red, i) {
					o = append(o, ix[i])
				}
			}
			if hlp.Off(lanes.Sh, o) == k && !found && a.Arr().At(ix...) == m {
				found = true
			}
		})
		vsym.Assert(found, "maximum is not an element of its lane", k)
	}
	hlp.Is(a.N, a.X, "operand changed")
}

// HNorm: Euclidean norms along each axis of (3), (2,2), (2,1,2): the square is the sum of squares, and it is not negative.
func HNorm() {
	g := G.NewGraph()
	shs := [][]int{{3}, {2, 2}, {2, 1, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	ax := vsym.Choice("axis", len(sh))
	dt := dts[vsym.Choice("dtype", 2)]
	a := hlp.Sym(g, dt, "a", sh...)
	z := hlp.Node(G.Norm(a.N, ax, 2))
	run(g, vsym.Choice("machine", 2) == 1)
	want := a.Arr().Map(func(x float64) float64 { return x * x }).Sum(ax).Map(vsym.Sqrt)
	hlp.IsArr(z, want, "value")
}

// HNormOrder: norms of order 1, 3 (in 64 bits) and 4 of (2), (2,2), (1,2,1) along each axis; each element may be negative.
//
//vsym:paths=3000
func HNormOrder() {
	g := G.NewGraph()
	shs := [][]int{{2}, {2, 2}, {1, 2, 1}}
	sh := shs[vsym.Choice("shape", len(shs))]
	ax := vsym.Choice("axis", len(sh))
	dt := dts[vsym.Choice("dtype", 2)]
	p := []int{1, 4, 3}[vsym.Choice("order", 3)]
	vsym.Assume(p != 3 || dt == hlp.F64) // a third is not exact
	a := hlp.Sym(g, dt, "a", sh...)
	for _, v := range a.X {
		vsym.Assume(v != 0)
	}
	z := hlp.Node(G.Norm(a.N, ax, p))
	run(g, vsym.Choice("machine", 2) == 1)
	sum := a.Arr().Map(func(x float64) float64 {
		r := 1.0
		for i := 0; i < p; i++ {
			r *= vsym.Abs(x)
		}
		return r
	}).Sum(ax)
	want := sum.Map(func(x float64) float64 {
		if p == 1 {
			return x
		}
		return vsym.Pow(x, 1/float64(p))
	})
	hlp.IsArr(z, want, "value")
}

// HLogSumExp: logarithms of sums of exponentials of (1), (3), (2,2), (2,1,2) along each axis, on both machines.
//
//vsym:paths=3000
func HLogSumExp() {
	g := G.NewGraph()
	shs := [][]int{{1}, {3}, {2, 2}, {2, 1, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	ax := vsym.Choice("axis", len(sh))
	dt := dts[vsym.Choice("dtype", 2)]
	a := hlp.Sym(g, dt, "a", sh...)
	z := hlp.Node(G.LogSumExp(a.N, ax))
	run(g, vsym.Choice("machine", 2) == 1)
	want := a.Arr().Map(vsym.Exp).Sum(ax)
	n := hlp.Nums(z.Value())
	vsym.Assert(len(n) == len(want.D), "size")
	for i, v := range n {
		vsym.AssertNear(vsym.Exp(v), want.D[i], 1e-4, "exponential of the value", i)
	}
	hlp.Is(a.N, a.X, "operand changed")
}

// HReduceNodes: adding lists of one to four vectors and multiplying as many scalars.
func HReduceNodes() {
	g := G.NewGraph()
	dt := dts[vsym.Choice("dtype", 2)]
	n := 1 + vsym.Choice("n", 4)
	var ns G.Nodes
	sum, prod := hlp.Zero(2).D, 1.0
	var ss G.Nodes
	for i := 0; i < n; i++ {
		in := hlp.Sym(g, dt, string(rune('a'+i)), 2)
		ns = append(ns, in.N)
		for k := range sum {
			sum[k] += in.X[k]
		}
		sc := hlp.Sym(g, dt, "s"+string(rune('a'+i)))
		ss = append(ss, sc.N)
		prod *= sc.X[0]
	}
	s, p := hlp.Node(G.ReduceAdd(ns)), hlp.Node(G.ReduceMul(ss))
	run(g, false)
	hlp.Is(s, sum, "sum of nodes")
	hlp.Is(p, []float64{prod}, "product of nodes")
}

// HLarge: sums and means over every set of axes of (17), (9,5), (5,4,6) and (3,4,2,5).
func HLarge() {
	g := G.NewGraph()
	sh := [][]int{{17}, {9, 5}, {5, 4, 6}, {3, 4, 2, 5}}[vsym.Choice("shape", 4)]
	subs := append(hlp.Subsets(len(sh)), nil)
	ax := subs[vsym.Choice("axes", len(subs))]
	a := hlp.Sym(g, tensor.Float64, "a", sh...)
	mean := vsym.Choice("mean", 2) == 1
	f := G.Sum
	if mean {
		f = G.Mean
	}
	z := hlp.Node(f(a.N, append([]int{}, ax...)...))
	run(g, vsym.Choice("machine", 2) == 1)
	red := ax
	if len(ax) == 0 {
		red = all(len(sh))
	}
	want := a.Arr().Sum(red...)
	if mean {
		n := float64(len(a.X) / len(want.D))
		want = want.Map(func(x float64) float64 { return x / n })
	}
	hlp.IsArr(z, want, "value")
	hlp.Is(a.N, a.X, "operand changed")
}

// HLargeMax: maxima over every set of axes of (17), (9,5), (3,4,5), elements ascending, descending or ascending twice.
func HLargeMax() {
	g := G.NewGraph()
	sh := [][]int{{17}, {9, 5}, {3, 4, 5}}[vsym.Choice("shape", 3)]
	subs := append(hlp.Subsets(len(sh)), nil)
	ax := subs[vsym.Choice("axes", len(subs))]
	a := hlp.Sym(g, tensor.Float64, "a", sh...)
	order := vsym.Choice("order", 3)
	n := len(a.X)
	at := func(i int) float64 {
		switch order {
		case 0:
			return a.X[i]
		case 1:
			return a.X[n-1-i]
		}
		return a.X[(i+n/2)%n]
	}
	for i := 1; i < n; i++ {
		vsym.Assume(at(i-1) < at(i))
	}
	z := hlp.Node(G.Max(a.N, append([]int{}, ax...)...))
	run(g, false)
	if len(ax) == 0 {
		ax = all(len(sh))
	}
	hlp.IsArr(z, a.Arr().Fold(ax, max), "maximum")
}
