// Package c09: shape operations move every element to its specified place.
package c09

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{tensor.Float64, tensor.Float32}

func setup() (*G.ExprGraph, tensor.Dtype, bool) {
	mode := vsym.Choice("mode", 3) // float64 compiled, float32 compiled, float64 interpreted
	return G.NewGraph(), dts[mode&1], mode == 2
}

func run(g *G.ExprGraph, lisp bool) {
	if lisp {
		m := G.NewLispMachine(g, G.ExecuteFwdOnly())
		hlp.Ok(m.RunAll(), "lisp run")
		hlp.Ok(m.Close(), "close")
		return
	}
	hlp.RunTape(g)
}

func kept(a *hlp.In) {
	hlp.SameShape(a.N.Value().Shape(), a.Shape, "operand shape changed")
	hlp.Is(a.N, a.X, "operand changed")
}

// cut chooses a slice of an axis of extent n; whole reports an unsliced axis.
func cut(n int) (s tensor.Slice, start, end, step int, whole bool) {
	switch vsym.Choice("kind", 3) {
	case 0:
		return nil, 0, n, 1, true
	case 1:
		start = vsym.Choice("start", n)
		return G.S(start), start, start + 1, 1, false
	}
	start = vsym.Choice("start", n)
	end = start + 1 + vsym.Choice("len", n-start)
	step = 1
	return G.S(start, end), start, end, step, false
}

// HSlice: every start and end on every axis of shapes (4), (3,2), (2,3,2), single positions and unsliced axes mixed;
// axes cut to one position disappear.
//
//vsym:paths=9000
func HSlice() {
	g, dt, lisp := setup()
	shs := [][]int{{4}, {3, 2}, {2, 3, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	a := hlp.Sym(g, dt, "a", sh...)
	want := a.Arr()
	var sl []tensor.Slice
	var gone []int
	for i, n := range sh {
		if len(sh) == 3 && i == 0 {
			// keep the product small: the first axis of the rank 3 shape is whole or a single position
			if vsym.Choice("first", 2) == 0 {
				sl = append(sl, nil)
				continue
			}
			sl = append(sl, G.S(1))
			want = want.SliceAx(0, 1, 2, 1)
			gone = append(gone, 0)
			continue
		}
		s, start, end, step, whole := cut(n)
		sl = append(sl, s)
		if whole {
			continue
		}
		want = want.SliceAx(i, start, end, step)
		if end-start == 1 {
			gone = append(gone, i)
		}
	}
	for k := len(gone) - 1; k >= 0; k-- {
		want = want.Drop(gone[k])
	}
	z := hlp.Node(G.Slice(a.N, sl...))
	hlp.SameShape(z.Shape(), want.Sh, "announced shape")
	run(g, lisp)
	hlp.IsArr(z, want, "slice")
	kept(a)
}

// HSliceStep: slices with steps 2 and 3 that divide the sliced length, on each axis of (6), (6,2), (2,6).
func HSliceStep() {
	g, dt, lisp := setup()
	shs := [][]int{{6}, {6, 2}, {2, 6}}
	k := vsym.Choice("shape", 3)
	sh := shs[k]
	ax := 0
	if k == 2 {
		ax = 1
	}
	step := 2 + vsym.Choice("step", 2)
	start := vsym.Choice("start", 2)
	end := start + step*2
	if vsym.Choice("longer", 2) == 1 {
		end += step
	}
	vsym.Assume(end <= 6)
	a := hlp.Sym(g, dt, "a", sh...)
	sl := make([]tensor.Slice, ax+1)
	sl[ax] = G.S(start, end, step)
	z := hlp.Node(G.Slice(a.N, sl...))
	run(g, lisp)
	want := a.Arr().SliceAx(ax, start, end, step)
	hlp.IsArr(z, want, "stepped slice")
	kept(a)
}

// HSliceStepUneven: slices whose step does not divide the sliced length, or leaves one position, along each axis of (5), (4,2)
// and (2,4,2), with ends beyond the axis too.
func HSliceStepUneven() {
	g, dt, lisp := setup()
	shs := [][]int{{5}, {4, 2}, {2, 4, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	ax := vsym.Choice("axis", len(sh))
	step := 2 + vsym.Choice("step", 2)
	start := vsym.Choice("start", 2)
	end := sh[ax] + vsym.Choice("beyond", 2)
	a := hlp.Sym(g, dt, "a", sh...)
	ss := make([]tensor.Slice, ax+1)
	ss[ax] = G.S(start, end, step)
	z := hlp.Node(G.Slice(a.N, ss...))
	run(g, lisp)
	want := a.Arr().SliceAx(ax, start, sh[ax], step)
	if want.Sh[ax] == 1 {
		want = want.Drop(ax)
	}
	hlp.IsArr(z, want, "stepped slice")
	kept(a)
}

// HConcat: two and three operands with different extents along each axis of rank 1 to 3 shapes.
func HConcat() {
	g, dt, lisp := setup()
	shs := [][]int{{2}, {2, 3}, {2, 1, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	ax := vsym.Choice("axis", len(sh))
	a := hlp.Sym(g, dt, "a", sh...)
	s2 := append([]int{}, sh...)
	s2[ax] = 1 + vsym.Choice("extent", 3)
	b := hlp.Sym(g, dt, "b", s2...)
	ins := []*hlp.In{a, b}
	if vsym.Choice("three", 2) == 1 {
		ins = append(ins, hlp.Sym(g, dt, "c", sh...))
	}
	var ns []*G.Node
	var as []hlp.Arr
	for _, in := range ins {
		ns = append(ns, in.N)
		as = append(as, in.Arr())
	}
	z := hlp.Node(G.Concat(ax, ns...))
	want := hlp.Concat(ax, as...)
	hlp.SameShape(z.Shape(), want.Sh, "announced shape")
	run(g, lisp)
	hlp.IsArr(z, want, "concatenation")
	for _, in := range ins {
		kept(in)
	}
}

// HUnconcat: splitting (6), (4,2), (2,4,2) into 1 to 3 equal parts along each axis; joining the parts of extent
// above one again gives the original.
func HUnconcat() {
	g, dt, lisp := setup()
	shs := [][]int{{6}, {4, 2}, {2, 4, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	ax := vsym.Choice("axis", len(sh))
	n := 1 + vsym.Choice("parts", 3)
	a := hlp.Sym(g, dt, "a", sh...)
	parts, err := G.Unconcat(a.N, ax, n)
	if sh[ax]%n != 0 {
		vsym.Assert(err != nil, "uneven split accepted")
		return
	}
	hlp.Ok(err, "split")
	vsym.Assert(len(parts) == n, "number of parts")
	w := sh[ax] / n
	var back *G.Node
	if w > 1 {
		back = hlp.Node(G.Concat(ax, parts...))
	}
	run(g, lisp)
	for i, p := range parts {
		want := a.Arr().SliceAx(ax, i*w, i*w+w, 1)
		if w == 1 {
			want = want.Drop(ax)
		}
		hlp.IsArr(p, want, "part")
	}
	if back != nil {
		hlp.IsArr(back, a.Arr(), "joined again")
	}
	kept(a)
}

var six = [][]int{{6}, {2, 3}, {3, 2}, {1, 6}, {6, 1}, {1, 2, 3}, {3, 1, 2}, {2, 3, 1}, {1, 3, 1, 2}}

// HReshape: from every shape of six elements to every other and back, one extent possibly inferred.
func HReshape() {
	g, dt, lisp := setup()
	from := six[vsym.Choice("from", len(six))]
	to := six[vsym.Choice("to", len(six))]
	ask := append(tensor.Shape{}, to...)
	if vsym.Choice("infer", 2) == 1 {
		ask[len(ask)-1] = -1
	}
	a := hlp.Sym(g, dt, "a", from...)
	z := hlp.Node(G.Reshape(a.N, ask))
	hlp.SameShape(z.Shape(), to, "announced shape")
	back := hlp.Node(G.Reshape(z, append(tensor.Shape{}, from...)))
	run(g, lisp)
	hlp.IsArr(z, a.Arr().Reshape(to...), "reshaped")
	hlp.IsArr(back, a.Arr(), "reshaped back")
	kept(a)
}

// HReshapeTransposed: reshaping and flattening the result of a transpose or a slice follows the order of the result.
func HReshapeTransposed() {
	g, dt, lisp := setup()
	a := hlp.Sym(g, dt, "a", 2, 3)
	var x *G.Node
	var w hlp.Arr
	if vsym.Choice("source", 2) == 0 {
		x, w = hlp.Node(G.Transpose(a.N, 1, 0)), a.Arr().Perm(1, 0)
	} else {
		x, w = hlp.Node(G.Slice(a.N, nil, G.S(1, 3))), a.Arr().SliceAx(1, 1, 3, 1)
	}
	n := hlp.Prod(w.Sh)
	var z *G.Node
	switch vsym.Choice("op", 3) {
	case 0:
		z = hlp.Node(G.Reshape(x, tensor.Shape{n / 2, 2}))
		w = w.Reshape(n/2, 2)
	case 1:
		z = hlp.Node(G.Ravel(x))
		w = w.Reshape(n)
	case 2:
		z = hlp.Node(G.Reshape(x, tensor.Shape{1, n}))
		w = w.Reshape(1, n)
	}
	run(g, lisp)
	hlp.IsArr(z, w, "value")
	kept(a)
}

// HTranspose: every permutation of shapes of rank 2 to 4, and the default order; undone by the inverse permutation.
func HTranspose() {
	g, dt, lisp := setup()
	shs := [][]int{{2, 3}, {1, 3}, {2, 3, 2}, {1, 2, 3}, {2, 1, 3, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	ps := append(hlp.Perms(len(sh)), nil)
	p := ps[vsym.Choice("perm", len(ps))]
	a := hlp.Sym(g, dt, "a", sh...)
	z := hlp.Node(G.Transpose(a.N, append([]int{}, p...)...))
	if p == nil {
		for i := range sh {
			p = append(p, len(sh)-1-i)
		}
	}
	inv := make([]int, len(p))
	for i, x := range p {
		inv[x] = i
	}
	want := a.Arr().Perm(p...)
	hlp.SameShape(z.Shape(), want.Sh, "announced shape")
	back := hlp.Node(G.Transpose(z, inv...))
	run(g, lisp)
	hlp.IsArr(z, want, "transpose")
	hlp.IsArr(back, a.Arr(), "transposed back")
	kept(a)
}

// HAt: every coordinate of (3), (2,3) and (2,1,2).
func HAt() {
	g, dt, lisp := setup()
	shs := [][]int{{3}, {2, 3}, {2, 1, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	ix := make([]int, len(sh))
	for i := range ix {
		ix[i] = vsym.Choice("coord", sh[i])
	}
	a := hlp.Sym(g, dt, "a", sh...)
	z := hlp.Node(G.At(a.N, ix...))
	run(g, lisp)
	hlp.Same(hlp.Nums(z.Value()), []float64{a.Arr().At(ix...)}, hlp.Tol(dt), "element")
	kept(a)
}

// HByIndices: gathering along each axis of (1), (3), (1,1), (2,3), (2,3,1) and (2,2,2) with every index list of length 1 to 3 (symbolic choice).
func HByIndices() {
	g, dt, lisp := setup()
	shs := [][]int{{3}, {2, 3}, {2, 3, 1}, {2, 2, 2}, {1}, {1, 1}}
	sh := shs[vsym.Choice("shape", len(shs))]
	ax := vsym.Choice("axis", len(sh))
	n := 1 + vsym.Choice("n", 3)
	ix := make([]int, n)
	for i := range ix {
		ix[i] = vsym.Choice("index", sh[ax])
	}
	a := hlp.Sym(g, dt, "a", sh...)
	in := G.NewVector(g, tensor.Int, G.WithName("ix"), G.WithShape(n))
	hlp.Ok(G.Let(in, tensor.New(tensor.WithShape(n), tensor.WithBacking(append([]int{}, ix...)))), "let")
	z := hlp.Node(G.ByIndices(a.N, in, ax))
	run(g, lisp)
	var parts []hlp.Arr
	for _, k := range ix {
		parts = append(parts, a.Arr().SliceAx(ax, k, k+1, 1))
	}
	hlp.IsArr(z, hlp.Concat(ax, parts...), "gathered")
	kept(a)
}

// HDiagFlat: the diagonal matrix of the elements of (2), (3), (2,2).
func HDiagFlat() {
	g, dt, lisp := setup()
	shs := [][]int{{2}, {3}, {2, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	a := hlp.Sym(g, dt, "a", sh...)
	z := hlp.Node(G.DiagFlat(a.N))
	run(g, lisp)
	n := hlp.Prod(sh)
	hlp.IsArr(z, hlp.Build([]int{n, n}, func(ix []int) float64 {
		if ix[0] == ix[1] {
			return a.X[ix[0]]
		}
		return 0
	}), "diagonal")
	kept(a)
}

// HSizeOf: the extent of every axis of (3), (2,3), (2,1,4).
func HSizeOf() {
	g, dt, lisp := setup()
	shs := [][]int{{3}, {2, 3}, {2, 1, 4}}
	sh := shs[vsym.Choice("shape", len(shs))]
	ax := vsym.Choice("axis", len(sh))
	a := hlp.Sym(g, dt, "a", sh...)
	z := hlp.Node(G.SizeOf(ax, a.N))
	run(g, lisp)
	hlp.Same(hlp.Nums(z.Value()), []float64{float64(sh[ax])}, hlp.Tol(dt), "size")
}

// HKeepDims: reductions with their dimensions kept, expanding on the left and on the right.
func HKeepDims() {
	g, dt, lisp := setup()
	sh := []int{2, 3}
	ax := vsym.Choice("axis", 2)
	left := vsym.Choice("left", 2) == 1
	a := hlp.Sym(g, dt, "a", sh...)
	z := hlp.Node(G.KeepDims(a.N, left, func(x *G.Node) (*G.Node, error) { return G.Sum(x, ax) }))
	run(g, lisp)
	w := a.Arr().Sum(ax)
	if left {
		w = w.Reshape(1, w.Sh[0])
	} else {
		w = w.Reshape(w.Sh[0], 1)
	}
	hlp.IsArr(z, w, "kept dimensions")
}

// HLarge: concatenations of six operands, splits into six, slices of (11) and (7,6), reshapes of 24 elements, permutations of
// (3,4,5), selections of seven, single elements of (5,4,3).
func HLarge() {
	g, dt, lisp := setup()
	in := func(name string, sh ...int) *hlp.In { return hlp.Sym(g, dt, name, sh...) }
	var z *G.Node
	var want hlp.Arr
	var ins []*hlp.In
	switch vsym.Choice("operation", 7) {
	case 0:
		ax := vsym.Choice("axis", 3)
		var ns []*G.Node
		var as []hlp.Arr
		for i, n := range []int{2, 1, 3, 1, 2, 4} {
			sh := []int{2, 3, 2}
			sh[ax] = n
			ins = append(ins, in("a"+string(rune('0'+i)), sh...))
			ns = append(ns, ins[i].N)
			as = append(as, ins[i].Arr())
		}
		z, want = hlp.Node(G.Concat(ax, ns...)), hlp.Concat(ax, as...)
	case 1:
		ax := vsym.Choice("axis", 2)
		a := in("a", 12, 12)
		ins = []*hlp.In{a}
		parts, err := G.Unconcat(a.N, ax, 6)
		hlp.Ok(err, "split")
		run(g, lisp)
		for i, p := range parts {
			hlp.IsArr(p, a.Arr().SliceAx(ax, 2*i, 2*i+2, 1), "part")
		}
		kept(a)
		return
	case 2:
		a := in("a", 11)
		ins = []*hlp.In{a}
		lo, hi, step := vsym.Choice("start", 5), 11-vsym.Choice("end", 4), 1+vsym.Choice("step", 5)
		z, want = hlp.Node(G.Slice(a.N, G.S(lo, hi, step))), a.Arr().SliceAx(0, lo, hi, step)
		if len(want.D) == 1 {
			want = want.Reshape()
		}
	case 3:
		a := in("a", 7, 6)
		ins = []*hlp.In{a}
		r, c := vsym.Choice("row", 4), vsym.Choice("column", 3)
		z, want = hlp.Node(G.Slice(a.N, G.S(r, r+3), G.S(c, c+4))), a.Arr().SliceAx(0, r, r+3, 1).SliceAx(1, c, c+4, 1)
	case 4:
		shs := [][]int{{24}, {4, 6}, {2, 3, 4}, {2, 2, 3, 2}, {1, 8, 3}}
		a := in("a", shs[vsym.Choice("from", len(shs))]...)
		ins = []*hlp.In{a}
		to := shs[vsym.Choice("to", len(shs))]
		z, want = hlp.Node(G.Reshape(a.N, append(tensor.Shape{}, to...))), a.Arr().Reshape(to...)
	case 5:
		ps := hlp.Perms(3)
		p := ps[vsym.Choice("perm", len(ps))]
		a := in("a", 3, 4, 5)
		ins = []*hlp.In{a}
		z, want = hlp.Node(G.Transpose(a.N, p...)), a.Arr().Perm(p...)
	case 6:
		a := in("a", 5, 4)
		ins = []*hlp.In{a}
		ax := vsym.Choice("axis", 2)
		ix := []int{3, 0, 3, 2, 1, 3, 0}
		var parts []hlp.Arr
		for _, k := range ix {
			parts = append(parts, a.Arr().SliceAx(ax, k, k+1, 1))
		}
		i := G.NewVector(g, tensor.Int, G.WithName("ix"), G.WithShape(len(ix)), G.WithValue(tensor.New(tensor.WithShape(len(ix)), tensor.WithBacking(ix))))
		z, want = hlp.Node(G.ByIndices(a.N, i, ax)), hlp.Concat(ax, parts...)
	}
	hlp.SameShape(z.Shape(), want.Sh, "announced shape")
	run(g, lisp)
	hlp.IsArr(z, want, "value")
	for _, a := range ins {
		kept(a)
	}
}
