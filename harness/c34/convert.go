package c34

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// HConverted: numbers converted to whole numbers lose their fraction, towards zero, and nothing else; the whole
// numbers are used by arithmetic and converted back.
//
//vsym:paths=3000
func HConverted() {
	dt := []tensor.Dtype{hlp.F64, hlp.F32}[vsym.Choice("type", 2)]
	shs := [][]int{nil, {2}, {2, 1}, {1, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	g := G.NewGraph()
	x := hlp.Syms("x", hlp.Prod(sh))
	for _, v := range x {
		vsym.Assume(v > -2.5 && v < 2.5)
	}
	a := hlp.Var(g, dt, "x", x, sh...)
	k := draws(tensor.Int, "k", hlp.Prod(sh))
	for _, v := range k {
		vsym.Assume(v > -1000 && v < 1000)
	}
	w := variable(g, tensor.Int, "k", k, sh...)
	i := hlp.Node(G.ConvType(a.N, dt, tensor.Int))
	vsym.Assert(i.Dtype() == tensor.Int, "announced type")
	s := hlp.Node(G.Sub(w, i))
	b := hlp.Node(G.ConvType(s, tensor.Int, dt))
	vsym.Assert(b.Dtype() == dt, "announced type of what is converted back")
	iv, bv := hlp.Watch(i), hlp.Watch(b)
	hlp.Ok(run(g), "running")
	v := *iv
	vsym.Assert(v != nil && v.Dtype() == tensor.Int, "type of what was converted")
	hlp.SameShape((*bv).Shape(), sh, "shape of what was converted back")
	got := hlp.Nums(*bv)
	vsym.Assert(len(got) == len(x), "number of what was converted back")
	for j := range x {
		n := at(v.Data(), j)
		f := float64(n)
		vsym.Assert(x[j] < 0 || f >= 0 && f <= x[j] && x[j] < f+1, "fraction of a positive number", j)
		vsym.Assert(x[j] >= 0 || f <= 0 && f >= x[j] && x[j] > f-1, "fraction of a negative number", j)
		vsym.AssertNear(got[j], float64(k[j])-f, hlp.Tol(dt), "converted back", j)
	}
	vsym.Cover("converted")
}

// HMarks: a vector with one mark, of every type it can have.
func HMarks() {
	all := append([]tensor.Dtype{tensor.Float64, tensor.Float32}, dts[:3]...)
	dt := all[vsym.Choice("type", len(all))]
	n := 1 + vsym.Choice("length", 4)
	k := vsym.Choice("position", n)
	v := G.OneHotVector(k, n, dt, G.WithName("v"))
	vsym.Assert(v.Dtype() == dt, "announced type")
	vsym.Assert(v.IsVec() && v.Shape()[0] == n, "announced shape")
	want := make([]int, n)
	want[k] = 1
	if dt == tensor.Float64 || dt == tensor.Float32 {
		f := make([]float64, n)
		f[k] = 1
		hlp.Same(hlp.Nums(v.Value()), f, 0, "mark")
		return
	}
	is(v.Value(), dt, want, []int{n}, "mark")
	g := G.NewGraph()
	x := draws(dt, "x", n)
	s := hlp.Node(G.Add(variable(g, dt, "x", x, n), v))
	hlp.Ok(run(g), "running")
	for i := range x {
		x[i] = arith(dt, 0, x[i], want[i])
	}
	is(s.Value(), dt, x, []int{n}, "sum with a mark")
	vsym.Cover("mark")
}

// HFrom: nodes made from bare numbers and from tensors have their type, shape and value.
func HFrom() {
	dt := dts[vsym.Choice("type", len(dts))]
	sh := shapes[vsym.Choice("shape", len(shapes))]
	x, y := draws(dt, "x", hlp.Prod(sh)), draws(dt, "y", hlp.Prod(sh))
	g := G.NewGraph()
	n := G.NodeFromAny(g, value(dt, x, sh...), G.WithName("n"))
	vsym.Assert(n.Dtype() == dt && n.Name() == "n", "type and name")
	vsym.Assert(n.IsScalar() == (len(sh) == 0), "announced scalar")
	hlp.SameShape(n.Shape(), sh, "announced shape")
	is(n.Value(), dt, x, sh, "value of the node")
	m := G.NodeFromAny(g, value(dt, y, sh...), G.WithName("m"))
	d := hlp.Node(G.Sub(n, m))
	hlp.Ok(run(g), "running")
	for i := range x {
		x[i] = arith(dt, 1, x[i], y[i])
	}
	is(d.Value(), dt, x, sh, "difference")
	vsym.Cover("made")
}
