// Package c26: linear algebra products equal their definitions in every operand form.
package c26

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{tensor.Float64, tensor.Float32}

func setup() (*G.ExprGraph, tensor.Dtype, bool) {
	mode := vsym.Choice("mode", 3) // float64 compiled, float32 compiled, float64 interpreted
	return G.NewGraph(), dts[mode&1], mode == 2
}

func run(g *G.ExprGraph, lisp bool) {
	if lisp {
		m := G.NewLispMachine(g, G.ExecuteFwdOnly())
		hlp.Ok(m.RunAll(), "lisp run")
		hlp.Ok(m.Close(), "close")
		return
	}
	hlp.RunTape(g)
}

// operand makes a matrix operand (m,n): form 0 an input, 1 the transpose of an input, 2 columns of a wider input,
// 3 rows of a taller input, 4 a reshaped vector.
func operand(g *G.ExprGraph, dt tensor.Dtype, name string, form, m, n int) (*G.Node, hlp.Arr, *hlp.In) {
	switch form {
	case 1:
		a := hlp.Sym(g, dt, name, n, m)
		return hlp.Node(G.Transpose(a.N, 1, 0)), a.Arr().Perm(1, 0), a
	case 2:
		a := hlp.Sym(g, dt, name, m, n+1)
		if n == 1 {
			// a cut to one column drops the axis
			return hlp.Node(G.Reshape(hlp.Node(G.Slice(a.N, nil, G.S(1))), tensor.Shape{m, 1})), a.Arr().SliceAx(1, 1, 2, 1), a
		}
		return hlp.Node(G.Slice(a.N, nil, G.S(1, n+1))), a.Arr().SliceAx(1, 1, n+1, 1), a
	case 3:
		a := hlp.Sym(g, dt, name, m+1, n)
		if m == 1 {
			return hlp.Node(G.Reshape(hlp.Node(G.Slice(a.N, G.S(0))), tensor.Shape{1, n})), a.Arr().SliceAx(0, 0, 1, 1), a
		}
		return hlp.Node(G.Slice(a.N, G.S(0, m))), a.Arr().SliceAx(0, 0, m, 1), a
	case 4:
		a := hlp.Sym(g, dt, name, m*n)
		return hlp.Node(G.Reshape(a.N, tensor.Shape{m, n})), a.Arr().Reshape(m, n), a
	}
	a := hlp.Sym(g, dt, name, m, n)
	return a.N, a.Arr(), a
}

func kept(as ...*hlp.In) {
	for _, a := range as {
		hlp.SameShape(a.N.Value().Shape(), a.Shape, "operand shape changed")
		hlp.Is(a.N, a.X, "operand changed")
	}
}

var dims = [][3]int{{2, 3, 2}, {3, 2, 3}, {1, 3, 2}, {2, 1, 3}, {3, 2, 1}, {2, 2, 2}, {1, 1, 1}, {1, 2, 1}}

// HMatMul: matrix products of sizes up to 3, each operand given directly, as a transpose, as columns, as rows, or as
// a reshaped vector.
func HMatMul() {
	g, dt, lisp := setup()
	d := dims[vsym.Choice("dims", len(dims))]
	fa, fb := vsym.Choice("left form", 5), vsym.Choice("right form", 5)
	x, a, ai := operand(g, dt, "a", fa, d[0], d[1])
	y, b, bi := operand(g, dt, "b", fb, d[1], d[2])
	z := hlp.Node(G.Mul(x, y))
	run(g, lisp)
	hlp.IsArr(z, hlp.Dot(a, b, []int{1}, []int{0}), "product")
	kept(ai, bi)
}

// HMatVec: matrix times vector and vector times matrix, the matrix in every form.
func HMatVec() {
	g, dt, lisp := setup()
	ds := [][2]int{{2, 3}, {3, 2}, {2, 2}}
	d := ds[vsym.Choice("dims", len(ds))]
	x, a, ai := operand(g, dt, "a", vsym.Choice("form", 5), d[0], d[1])
	if vsym.Choice("left", 2) == 1 {
		v := hlp.Sym(g, dt, "v", d[0])
		z := hlp.Node(G.Mul(v.N, x))
		run(g, lisp)
		hlp.IsArr(z, hlp.Dot(v.Arr(), a, []int{0}, []int{0}), "product")
		kept(ai, v)
		return
	}
	v := hlp.Sym(g, dt, "v", d[1])
	z := hlp.Node(G.Mul(x, v.N))
	run(g, lisp)
	hlp.IsArr(z, hlp.Dot(a, v.Arr(), []int{1}, []int{0}), "product")
	kept(ai, v)
}

// HDot: inner products of vectors of 2 and 3 elements, given directly or as a column of a matrix.
func HDot() {
	g, dt, lisp := setup()
	n := 2 + vsym.Choice("n", 2)
	a := hlp.Sym(g, dt, "a", n)
	var y *G.Node
	var w hlp.Arr
	b := hlp.Sym(g, dt, "b", n, 2)
	switch vsym.Choice("form", 2) {
	case 0:
		c := hlp.Sym(g, dt, "c", n)
		y, w = c.N, c.Arr()
	case 1:
		y, w = hlp.Node(G.Slice(b.N, nil, G.S(1))), b.Arr().SliceAx(1, 1, 2, 1).Drop(1)
	}
	z := hlp.Node(G.Mul(a.N, y))
	run(g, lisp)
	hlp.Same(hlp.Nums(z.Value()), hlp.Dot(a.Arr(), w, []int{0}, []int{0}).D, hlp.Tol(dt), "inner product")
	kept(a)
}

// HOuter: outer products of vectors of 1 to 3 elements.
func HOuter() {
	g, dt, lisp := setup()
	m, n := 2+vsym.Choice("m", 2), 2+vsym.Choice("n", 2)
	a, b := hlp.Sym(g, dt, "a", m), hlp.Sym(g, dt, "b", n)
	z := hlp.Node(G.OuterProd(a.N, b.N))
	run(g, lisp)
	hlp.IsArr(z, hlp.Dot(a.Arr(), b.Arr(), nil, nil), "outer product")
	kept(a, b)
}

// HBatched: batched products with batch axes (1), (2), (2,2), every transpose combination, inner sizes up to 3.
func HBatched() {
	g, dt, lisp := setup()
	batches := [][]int{{1}, {2}, {3}, {2, 2}}
	batch := batches[vsym.Choice("batch", len(batches))]
	ds := [][3]int{{2, 3, 2}, {1, 2, 3}, {2, 1, 2}}
	d := ds[vsym.Choice("dims", len(ds))]
	tr := vsym.Choice("trans", 4)
	as, bs := []int{d[0], d[1]}, []int{d[1], d[2]}
	if tr&1 != 0 {
		as = []int{d[1], d[0]}
	}
	if tr&2 != 0 {
		bs = []int{d[2], d[1]}
	}
	a := hlp.Sym(g, dt, "a", append(append([]int{}, batch...), as...)...)
	b := hlp.Sym(g, dt, "b", append(append([]int{}, batch...), bs...)...)
	flags := []bool{tr&1 != 0, tr&2 != 0}
	if tr&2 == 0 && batch[0] > 1 {
		flags = flags[:tr] // flags that are left out are false
	}
	z := hlp.Node(G.BatchedMatMul(a.N, b.N, flags...))
	run(g, lisp)
	nb := len(batch)
	want := hlp.Build(append(append([]int{}, batch...), d[0], d[2]), func(ix []int) float64 {
		s := 0.0
		for k := 0; k < d[1]; k++ {
			ia := append(append([]int{}, ix[:nb]...), ix[nb], k)
			ib := append(append([]int{}, ix[:nb]...), k, ix[nb+1])
			if tr&1 != 0 {
				ia[nb], ia[nb+1] = ia[nb+1], ia[nb]
			}
			if tr&2 != 0 {
				ib[nb], ib[nb+1] = ib[nb+1], ib[nb]
			}
			s += a.Arr().At(ia...) * b.Arr().At(ib...)
		}
		return s
	})
	hlp.IsArr(z, want, "batched product")
	kept(a, b)
}

// HTensordot: contractions of operands of rank 1 to 3 over one and two axes, axes listed in different orders.
func HTensordot() {
	g, dt, lisp := setup()
	type cfg struct {
		a, b, ax, bx []int
	}
	cs := []cfg{
		{[]int{2, 3}, []int{3, 2}, []int{1}, []int{0}},
		{[]int{2, 3}, []int{2, 2}, []int{0}, []int{1}},
		{[]int{2, 3}, []int{2, 2}, []int{0}, []int{0}},
		{[]int{2, 3}, []int{2, 3}, []int{1}, []int{1}},
		{[]int{2, 3}, []int{3}, []int{1}, []int{0}},
		{[]int{3}, []int{2, 3}, []int{0}, []int{1}},
		{[]int{2, 2, 3}, []int{2, 2}, []int{0, 1}, []int{1, 0}},
		{[]int{2, 3, 2}, []int{2, 3}, []int{0, 1}, []int{0, 1}},
		{[]int{2, 2, 3}, []int{3, 2, 2}, []int{1, 2}, []int{1, 0}},
		{[]int{2, 2, 3}, []int{3, 2, 2}, []int{2, 1}, []int{0, 2}},
		{[]int{2, 2, 3}, []int{3, 2}, []int{2}, []int{0}},
		{[]int{2, 3, 2}, []int{2, 3, 2}, []int{0, 2}, []int{2, 0}},
	}
	c := cs[vsym.Choice("config", len(cs))]
	a, b := hlp.Sym(g, dt, "a", c.a...), hlp.Sym(g, dt, "b", c.b...)
	z := hlp.Node(G.Tensordot(c.ax, c.bx, a.N, b.N))
	want := hlp.Dot(a.Arr(), b.Arr(), c.ax, c.bx)
	hlp.SameShape(z.Shape(), want.Sh, "announced shape")
	run(g, lisp)
	hlp.IsArr(z, want, "contraction")
	kept(a, b)
}

// HScalarMul: products where one operand is a scalar are the elementwise multiple.
func HScalarMul() {
	g, dt, lisp := setup()
	a, s := hlp.Sym(g, dt, "a", 2, 3), hlp.Sym(g, dt, "s")
	var z *G.Node
	if vsym.Choice("left", 2) == 1 {
		z = hlp.Node(G.Mul(s.N, a.N))
	} else {
		z = hlp.Node(G.Mul(a.N, s.N))
	}
	run(g, lisp)
	hlp.IsArr(z, a.Arr().Map(func(x float64) float64 { return x * s.X[0] }), "multiple")
	kept(a, s)
}

// HChain: products of three matrices, associated either way, agree with the definition.
func HChain() {
	g, dt, lisp := setup()
	a, b, c := hlp.Sym(g, dt, "a", 2, 3), hlp.Sym(g, dt, "b", 3, 2), hlp.Sym(g, dt, "c", 2, 2)
	l := hlp.Node(G.Mul(hlp.Node(G.Mul(a.N, b.N)), c.N))
	r := hlp.Node(G.Mul(a.N, hlp.Node(G.Mul(b.N, c.N))))
	run(g, lisp)
	want := hlp.Dot(hlp.Dot(a.Arr(), b.Arr(), []int{1}, []int{0}), c.Arr(), []int{1}, []int{0})
	hlp.IsArr(l, want, "(ab)c")
	hlp.IsArr(r, want, "a(bc)")
	kept(a, b, c)
}

// HReject: operands whose sizes do not fit give an error, never a value.
func HReject() {
	g, dt, lisp := setup()
	type cfg struct{ a, b []int }
	cs := []cfg{{[]int{2, 3}, []int{2, 3}}, {[]int{2, 3}, []int{2}}, {[]int{2}, []int{3}}, {[]int{2}, []int{3, 2}}, {[]int{2, 2, 2}, []int{2, 2}}}
	c := cs[vsym.Choice("config", len(cs))]
	a, b := hlp.Sym(g, dt, "a", c.a...), hlp.Sym(g, dt, "b", c.b...)
	if _, err := G.Mul(a.N, b.N); err != nil {
		vsym.Cover("rejected when building")
		return
	}
	var err error
	if lisp {
		err = G.NewLispMachine(g, G.ExecuteFwdOnly()).RunAll()
	} else {
		err = G.NewTapeMachine(g).RunAll()
	}
	vsym.Assert(err != nil, "ill-sized product gave a value")
	vsym.Cover("rejected when running")
}

// HLarge: larger products: matrices up to 9 by 9, vectors of up to 19 elements, batches of up to 7, four matrices in a row.
func HLarge() {
	g, dt, lisp := setup()
	mat := func(name string, sh ...int) *hlp.In { return hlp.Sym(g, dt, name, sh...) }
	var z *G.Node
	var want hlp.Arr
	var ins []*hlp.In
	pair := func(a, b *hlp.In, ax, bx []int) {
		ins = []*hlp.In{a, b}
		want = hlp.Dot(a.Arr(), b.Arr(), ax, bx)
	}
	k := vsym.Choice("product", 11)
	switch k {
	case 0, 1, 2:
		d := [][3]int{{5, 7, 6}, {9, 1, 9}, {1, 9, 4}}[k]
		pair(mat("a", d[0], d[1]), mat("b", d[1], d[2]), []int{1}, []int{0})
		z = hlp.Node(G.Mul(ins[0].N, ins[1].N))
	case 3:
		pair(mat("a", 9, 8), mat("b", 8), []int{1}, []int{0})
		z = hlp.Node(G.Mul(ins[0].N, ins[1].N))
	case 4:
		pair(mat("a", 8), mat("b", 8, 9), []int{0}, []int{0})
		z = hlp.Node(G.Mul(ins[0].N, ins[1].N))
	case 5:
		pair(mat("a", 19), mat("b", 19), []int{0}, []int{0})
		z = hlp.Node(G.Mul(ins[0].N, ins[1].N))
	case 6:
		pair(mat("a", 9), mat("b", 7), nil, nil)
		z = hlp.Node(G.OuterProd(ins[0].N, ins[1].N))
	case 7:
		pair(mat("a", 4, 5, 3), mat("b", 5, 3, 2), []int{1, 2}, []int{0, 1})
		z = hlp.Node(G.Tensordot([]int{1, 2}, []int{0, 1}, ins[0].N, ins[1].N))
	case 8, 9:
		a, b := mat("a", 7, 2, 3), mat("b", 7, 3, 2)
		if k == 9 {
			a, b = mat("a2", 3, 5, 4), mat("b2", 3, 4, 6)
		}
		ins = []*hlp.In{a, b}
		z = hlp.Node(G.BatchedMatMul(a.N, b.N))
		want = hlp.Build([]int{a.Shape[0], a.Shape[1], b.Shape[2]}, func(ix []int) float64 {
			s := 0.0
			for j := 0; j < a.Shape[2]; j++ {
				s += a.Arr().At(ix[0], ix[1], j) * b.Arr().At(ix[0], j, ix[2])
			}
			return s
		})
	case 10:
		a, b, c, d := mat("a", 2, 3), mat("b", 3, 2), mat("c", 2, 3), mat("d", 3, 2)
		ins = []*hlp.In{a, b, c, d}
		z = hlp.Node(G.Mul(hlp.Node(G.Mul(hlp.Node(G.Mul(a.N, b.N)), c.N)), d.N))
		ab := hlp.Dot(a.Arr(), b.Arr(), []int{1}, []int{0})
		want = hlp.Dot(hlp.Dot(ab, c.Arr(), []int{1}, []int{0}), d.Arr(), []int{1}, []int{0})
	}
	run(g, lisp)
	if k == 5 {
		hlp.Same(hlp.Nums(z.Value()), want.D, hlp.Tol(dt), "product")
	} else {
		hlp.IsArr(z, want, "product")
	}
	kept(ins...)
}

// axes chooses k distinct axes out of n in any order.
func axes(name string, n, k int) []int {
	var r []int
	for len(r) < k {
		a := vsym.Choice(name, n)
		vsym.Assume(!hlp.InList(r, a))
		r = append(r, a)
	}
	return r
}

func contract(ranks, most int) {
	na, nb := 1+vsym.Choice("left rank", ranks), 1+vsym.Choice("right rank", ranks)
	k := 1 + vsym.Choice("contracted", most)
	vsym.Assume(k <= na && k <= nb && (k < na || k < nb))
	ax, bx := axes("left axis", na, k), axes("right axis", nb, k)
	free, unit := []int{3, 2, 1, 2}, vsym.Choice("unit", 2)
	as, bs := append([]int{}, free[:na]...), []int{2, 1, 2, 2}[:nb]
	for i := range ax {
		d := 2
		if i == 0 {
			d -= unit
		}
		as[ax[i]], bs[bx[i]] = d, d
	}
	g := G.NewGraph()
	a, b := hlp.Sym(g, hlp.F64, "a", as...), hlp.Sym(g, hlp.F64, "b", bs...)
	z := hlp.Node(G.Tensordot(append([]int{}, ax...), append([]int{}, bx...), a.N, b.N))
	want := hlp.Dot(a.Arr(), b.Arr(), ax, bx)
	hlp.SameShape(z.Shape(), want.Sh, "announced shape")
	run(g, false)
	hlp.IsArr(z, want, "contraction")
	kept(a, b)
}

// HContractions: contractions of operands of rank 1 to 4 over one or two axes in every position and order, extents 1 to 3.
//
//vsym:paths=9000
func HContractions() { contract(4, 2) }
