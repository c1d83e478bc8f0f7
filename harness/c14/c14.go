// Package c14: activations, losses, comparisons and dropout.
package c14

import (
	rng "github.com/leesper/go_rng"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{hlp.F64, hlp.F32}

var shapes = [][]int{{}, {2}, {2, 2}, {2, 1, 2}, {1, 3}}

func grads(lisp bool, g *G.ExprGraph, cost *G.Node, ins ...*hlp.In) {
	if lisp {
		hlp.LispGrads(g, cost, ins...)
	} else {
		hlp.TapeGrads(g, cost, ins...)
	}
}

// check runs the weighted node with gradients and compares the node's value with the formula at each element.
func check(g *G.ExprGraph, y *G.Node, want hlp.Arr, ins ...*hlp.In) {
	w := hlp.Watch(y)
	grads(vsym.Choice("lisp", 2) == 1, g, hlp.Weighted(g, y), ins...)
	hlp.ValIsArr(*w, want, hlp.Tol(y.Dtype()), "value")
}

// HRectify: plain and leaky rectifiers, values and gradients on both machines, all values including zero.
//
//vsym:paths=4000
func HRectify() {
	dt := dts[vsym.Choice("dt", 2)]
	sh := shapes[vsym.Choice("shape", 3)]
	k := vsym.Choice("alpha", 4)
	g := G.NewGraph()
	x := hlp.Sym(g, dt, "x", sh...)
	if k == 0 {
		y := hlp.Node(G.Rectify(x.N))
		check(g, y, x.Arr().Map(func(v float64) float64 {
			if v >= 0 {
				return v
			}
			return 0
		}), x)
		vsym.Cover("rectify")
		return
	}
	alpha := []float64{0.25, 2, -0.5}[k-1]
	y := hlp.Node(G.LeakyRelu(x.N, alpha))
	check(g, y, x.Arr().Map(func(v float64) float64 {
		if v >= 0 {
			return v
		}
		return alpha * v
	}), x)
	vsym.Cover("leaky")
}

// HLeakyTwo: two leaky rectifiers of one vector keep their own slopes.
//
//vsym:paths=4000
func HLeakyTwo() {
	as := []float64{0.5, 0.25, 1}
	a, b := as[vsym.Choice("a", 3)], as[vsym.Choice("b", 3)]
	g := G.NewGraph()
	x := hlp.Sym(g, hlp.F64, "x", 2)
	y, z := hlp.Node(G.LeakyRelu(x.N, a)), hlp.Node(G.LeakyRelu(x.N, b))
	leaky := func(s float64) hlp.Arr {
		return x.Arr().Map(func(v float64) float64 {
			if v >= 0 {
				return v
			}
			return s * v
		})
	}
	check(g, hlp.Node(G.Concat(0, y, z)), hlp.Concat(0, leaky(a), leaky(b)), x)
	vsym.Cover("two slopes")
}

// HMish: mish with values in (-14, 14) and gradients on both machines.
//
//vsym:paths=2000
func HMish() {
	vsym.Generic(true)
	dt := dts[vsym.Choice("dt", 2)]
	sh := shapes[vsym.Choice("shape", 3)]
	g := G.NewGraph()
	xs := hlp.Syms("x", hlp.Prod(sh))
	for _, v := range xs {
		vsym.Assume(v > -14)
		vsym.Assume(v < 14)
	}
	x := hlp.Var(g, dt, "x", xs, sh...)
	y := hlp.Node(G.Mish(x.N))
	check(g, y, x.Arr().Map(func(v float64) float64 { return v * vsym.Tanh(vsym.Log(1+vsym.Exp(v))) }), x)
	vsym.Cover("mish")
}

// HXent: binary cross entropy of probabilities in (0, 1) and any targets, gradients by both, on both machines.
//
//vsym:paths=2000
func HXent() {
	vsym.Generic(true)
	dt := dts[vsym.Choice("dt", 2)]
	sh := shapes[vsym.Choice("shape", 4)]
	g := G.NewGraph()
	ps := hlp.Syms("p", hlp.Prod(sh))
	for _, v := range ps {
		vsym.Assume(v > 0.01)
		vsym.Assume(v < 0.99)
	}
	p := hlp.Var(g, dt, "p", ps, sh...)
	t := hlp.Sym(g, dt, "t", sh...)
	y := hlp.Node(G.BinaryXent(p.N, t.N))
	check(g, y, hlp.Zip(p.Arr(), t.Arr(), func(p, t float64) float64 {
		return -(t*vsym.Log(p) + (1-t)*vsym.Log(1-p))
	}), p, t)
	vsym.Cover("xent")
}

func between(lisp bool) {
	dt := dts[vsym.Choice("dt", 2)]
	sh := [][]int{{2}, {2, 2}, {1, 1, 2}}[vsym.Choice("shape", 3)]
	max := vsym.Choice("max", 2) == 1
	g := G.NewGraph()
	a, b := hlp.Sym(g, dt, "a", sh...), hlp.Sym(g, dt, "b", sh...)
	for i := range a.X {
		vsym.Assume(a.X[i] != b.X[i])
	}
	var y *G.Node
	if max {
		y = hlp.Node(G.MaxBetween(a.N, b.N))
	} else {
		y = hlp.Node(G.MinBetween(a.N, b.N))
	}
	w := hlp.Watch(y)
	grads(lisp, g, hlp.Weighted(g, y), a, b)
	hlp.ValIsArr(*w, hlp.Zip(a.Arr(), b.Arr(), func(a, b float64) float64 {
		if (a > b) == max {
			return a
		}
		return b
	}), hlp.Tol(dt), "value")
	vsym.Cover("between")
}

// HBetween: minimum and maximum of two tensors, values, and gradients away from ties on the tape machine.
//
//vsym:paths=4000
func HBetween() { between(false) }

// HBetweenLisp: the same on the LispMachine.
//
//vsym:paths=4000
func HBetweenLisp() { between(true) }

// HBetweenTies: at ties the value is the common one, and the gradients of the two operands add up to that of the result.
func HBetweenTies() {
	lisp := vsym.Choice("lisp", 2) == 1
	g := G.NewGraph()
	xs := hlp.Syms("x", 2)
	a, b := hlp.Var(g, hlp.F64, "a", xs, 2), hlp.Var(g, hlp.F64, "b", xs, 2)
	w := hlp.Sym(g, hlp.F64, "w", 2)
	f := G.MinBetween
	if vsym.Choice("max", 2) == 1 {
		f = G.MaxBetween
	}
	y := hlp.Node(f(a.N, b.N))
	v := hlp.Watch(y)
	cost := hlp.Node(G.Sum(hlp.Node(G.HadamardProd(y, w.N))))
	var m G.VM
	if lisp {
		m = G.NewLispMachine(g)
	} else {
		_, err := G.Grad(cost, a.N, b.N)
		hlp.Ok(err, "grad")
		m = G.NewTapeMachine(g, G.BindDualValues(a.N, b.N))
	}
	hlp.Ok(m.RunAll(), "run")
	hlp.ValIsArr(*v, hlp.A(xs, 2), hlp.Tol(hlp.F64), "value")
	ga, err := a.N.Grad()
	hlp.Ok(err, "gradient")
	gb, err := b.N.Grad()
	hlp.Ok(err, "gradient")
	da, db := hlp.Nums(ga), hlp.Nums(gb)
	for i := range da {
		vsym.AssertEq(da[i]+db[i], w.X[i], "gradients at a tie", i)
	}
	vsym.Cover("ties")
}

// HBetweenItself: the minimum and maximum of a vector and itself.
func HBetweenItself() {
	g := G.NewGraph()
	a := hlp.Sym(g, hlp.F64, "a", 2)
	f := G.MinBetween
	if vsym.Choice("max", 2) == 1 {
		f = G.MaxBetween
	}
	check(g, hlp.Node(f(a.N, a.N)), a.Arr(), a)
	vsym.Cover("itself")
}

// HBetweenShared: operands that are used elsewhere in the cost as well.
//
//vsym:paths=4000
func HBetweenShared() {
	g := G.NewGraph()
	a, b := hlp.Sym(g, hlp.F64, "a", 2), hlp.Sym(g, hlp.F64, "b", 2)
	for i := range a.X {
		vsym.Assume(a.X[i] != b.X[i])
	}
	f := G.MinBetween
	if vsym.Choice("max", 2) == 1 {
		f = G.MaxBetween
	}
	y := hlp.Node(f(a.N, b.N))
	var z *G.Node
	if vsym.Choice("before", 2) == 1 {
		z = hlp.Node(G.HadamardProd(hlp.Node(G.HadamardProd(a.N, b.N)), y))
	} else {
		z = hlp.Node(G.Add(y, hlp.Node(G.HadamardProd(a.N, b.N))))
	}
	grads(vsym.Choice("lisp", 2) == 1, g, hlp.Weighted(g, z), a, b)
	vsym.Cover("shared operands")
}

type cmp struct {
	f func(a, b *G.Node, same bool) (*G.Node, error)
	h func(a, b float64) bool
}

var cmps = []cmp{
	{G.Lt, func(a, b float64) bool { return a < b }},
	{G.Gt, func(a, b float64) bool { return a > b }},
	{G.Lte, func(a, b float64) bool { return a <= b }},
	{G.Gte, func(a, b float64) bool { return a >= b }},
	{G.Eq, func(a, b float64) bool { return a == b }},
	{G.Ne, func(a, b float64) bool { return a != b }},
}

func bools(v G.Value) []bool {
	switch d := v.Data().(type) {
	case bool:
		return []bool{d}
	case []bool:
		return d
	}
	vsym.Assert(false, "result is not boolean")
	return nil
}

// HCompare: the six comparisons between tensors and scalars in each position, in the operands' type or as booleans.
//
//vsym:paths=8000
func HCompare() {
	dt := dts[vsym.Choice("dt", 2)]
	c := cmps[vsym.Choice("op", len(cmps))]
	form := [][2][]int{{{}, {}}, {{2}, {2}}, {{2}, {}}, {{}, {2}}, {{1, 2}, {1, 2}}}[vsym.Choice("form", 5)]
	same := vsym.Choice("same", 2) == 1
	g := G.NewGraph()
	a, b := hlp.Sym(g, dt, "a", form[0]...), hlp.Sym(g, dt, "b", form[1]...)
	y := hlp.Node(c.f(a.N, b.N, same))
	if vsym.Choice("lisp", 2) == 1 {
		hlp.Ok(G.NewLispMachine(g, G.ExecuteFwdOnly()).RunAll(), "lisp run")
	} else {
		hlp.RunTape(g)
	}
	n := len(a.X)
	if len(b.X) > n {
		n = len(b.X)
	}
	v := y.Value()
	at := func(in *hlp.In, i int) float64 {
		if len(in.X) == 1 {
			return in.X[0]
		}
		return in.X[i]
	}
	if same {
		vsym.Assert(y.Dtype() == dt, "result type")
		got := hlp.Nums(v)
		vsym.Assert(len(got) == n, "number of elements")
		for i := range got {
			want := 0.0
			if c.h(at(a, i), at(b, i)) {
				want = 1
			}
			vsym.AssertEq(got[i], want, "comparison", i)
		}
	} else {
		vsym.Assert(y.Dtype() == tensor.Bool, "result type")
		got := bools(v)
		vsym.Assert(len(got) == n, "number of elements")
		for i := range got {
			vsym.Assert(got[i] == c.h(at(a, i), at(b, i)), "comparison", i)
		}
	}
	vsym.Cover("comparison")
}

// HCompareTwo: one comparison of the same operands once in their own type and once as booleans.
//
//vsym:paths=2000
func HCompareTwo() {
	c := cmps[vsym.Choice("op", len(cmps))]
	first := vsym.Choice("first", 2) == 1
	g := G.NewGraph()
	a, b := hlp.Sym(g, hlp.F64, "a", 2), hlp.Sym(g, hlp.F64, "b", 2)
	y, z := hlp.Node(c.f(a.N, b.N, first)), hlp.Node(c.f(a.N, b.N, !first))
	hlp.RunTape(g)
	if !first {
		y, z = z, y
	}
	got, bs := hlp.Nums(y.Value()), bools(z.Value())
	for i := range got {
		h := c.h(a.X[i], b.X[i])
		vsym.Assert((got[i] == 1) == h && (got[i] == 0) == !h, "comparison in the operands' type", i)
		vsym.Assert(bs[i] == h, "comparison as booleans", i)
	}
	vsym.Cover("two comparisons")
}

// HMask: a comparison as a mask in a product: only the other operand has a gradient through it.
//
//vsym:paths=4000
func HMask() {
	c := cmps[vsym.Choice("op", len(cmps))]
	g := G.NewGraph()
	a, b := hlp.Sym(g, hlp.F64, "a", 2), hlp.Sym(g, hlp.F64, "b", 2)
	y := hlp.Node(G.HadamardProd(a.N, hlp.Node(c.f(a.N, b.N, true))))
	z := hlp.Node(G.Add(y, b.N))
	check(g, z, hlp.Zip(a.Arr(), b.Arr(), func(a, b float64) float64 {
		if c.h(a, b) {
			return a + b
		}
		return b
	}), a, b)
	vsym.Cover("mask")
}

// drawn decides the random draws and lists them.
func drawn() *[]float64 {
	var ds []float64
	rng.Draw = func() float64 {
		d := vsym.Float64In("draw", 0, 1)
		vsym.Assume(d < 1)
		ds = append(ds, d)
		return d
	}
	return &ds
}

// isDropout requires each element to be dropped or scaled by the inverse of the keeping probability, and as many to be
// kept as draws say so, whether an element is kept for small or for large draws.
func isDropout(x, y []float64, ds []float64, p float64, dt tensor.Dtype) {
	keep := 1 - p
	small, large, kept := 0, 0, 0
	for _, d := range ds {
		if d < keep {
			small++
		}
		if d >= p {
			large++
		}
	}
	vsym.Assert(len(ds) == len(x), "draws per element")
	for i := range x {
		if y[i] != 0 {
			kept++
			vsym.AssertNear(y[i]*keep, x[i], hlp.Tol(dt), "kept element", i)
		}
	}
	vsym.Assert(kept == small || kept == large, "number of elements kept")
}

// HDropout: dropout of nonzero vectors and matrices by arbitrary draws, values on both machines.
//
//vsym:paths=4000
func HDropout() {
	dt := dts[vsym.Choice("dt", 2)]
	sh := [][]int{{2}, {1, 2}, {2, 1, 1}}[vsym.Choice("shape", 3)]
	p := []float64{0.25, 0.5, 0.75}[vsym.Choice("p", 3)]
	ds := drawn()
	g := G.NewGraph()
	x := hlp.Sym(g, dt, "x", sh...)
	for _, v := range x.X {
		vsym.Assume(v != 0)
	}
	y := hlp.Node(G.Dropout(x.N, p))
	if vsym.Choice("lisp", 2) == 1 {
		hlp.Ok(G.NewLispMachine(g, G.ExecuteFwdOnly()).RunAll(), "lisp run")
	} else {
		hlp.RunTape(g)
	}
	hlp.SameShape(y.Value().Shape(), sh, "shape")
	isDropout(x.X, hlp.Nums(y.Value()), *ds, p, dt)
	vsym.Cover("dropout")
}

// HDropoutOff: dropout with probability zero or while evaluating is the identity and leaves its input alone.
//
//vsym:paths=4000
func HDropoutOff() {
	dt := dts[vsym.Choice("dt", 2)]
	p := []float64{0, 0.25, 0.5}[vsym.Choice("p", 3)]
	drawn()
	g := G.NewGraph()
	x := hlp.Sym(g, dt, "x", 2)
	y := hlp.Node(G.Dropout(x.N, p))
	z := hlp.Node(G.Neg(y))
	var u *G.Node
	if vsym.Choice("use", 2) == 1 {
		u = hlp.Node(G.Square(z))
	} else {
		u = hlp.Node(G.Add(z, z))
	}
	var opts []G.VMOpt
	if p != 0 {
		opts = append(opts, G.EvalMode())
	}
	v, o := hlp.Watch(z), hlp.Watch(u)
	var m G.VM
	if vsym.Choice("lisp", 2) == 1 {
		m = G.NewLispMachine(g, append(opts, G.ExecuteFwdOnly())...)
	} else {
		m = G.NewTapeMachine(g, opts...)
	}
	for i := 0; i < 2; i++ {
		hlp.Ok(m.RunAll(), "run")
		hlp.ValIsArr(*v, x.Arr().Map(func(v float64) float64 { return -v }), hlp.Tol(dt), "value")
		vsym.Assert((*o) != nil, "read value")
		hlp.IsArr(x.N, x.Arr(), "input after the run")
		m.Reset()
	}
	vsym.Cover("dropout off")
}

// HDropoutGrad: gradients of dropout with probability a half at nonzero elements, and of dropout while evaluating, on both machines.
//
//vsym:paths=4000
func HDropoutGrad() {
	vsym.Generic(true)
	dt := dts[vsym.Choice("dt", 2)]
	ds := drawn()
	g := G.NewGraph()
	x := hlp.Sym(g, dt, "x", 2)
	for _, v := range x.X {
		vsym.Assume(v != 0)
	}
	p := 0.5
	var opts []G.VMOpt
	eval := vsym.Choice("eval", 2) == 1
	if eval {
		p = 0.25
		opts = append(opts, G.EvalMode())
	}
	y := hlp.Node(G.Dropout(x.N, p))
	w := hlp.Watch(y)
	cost := hlp.Weighted(g, hlp.Node(G.HadamardProd(y, x.N)))
	if vsym.Choice("lisp", 2) == 1 {
		hlp.LispGradsWith(opts, g, cost, x)
	} else {
		hlp.TapeGradsWith(opts, g, cost, x)
	}
	if !eval {
		isDropout(x.X, hlp.Nums(*w), *ds, p, dt)
	}
	vsym.Cover("dropout gradient")
}

// HDropoutGradScale: gradients of dropout with other probabilities.
func HDropoutGradScale() {
	vsym.Generic(true)
	drawn()
	p := []float64{0, 0.25}[vsym.Choice("p", 2)]
	g := G.NewGraph()
	x := hlp.Sym(g, hlp.F64, "x", 2)
	for _, v := range x.X {
		vsym.Assume(v != 0)
	}
	cost := hlp.Weighted(g, hlp.Node(G.Dropout(x.N, p)))
	grads(vsym.Choice("lisp", 2) == 1, g, cost, x)
	vsym.Cover("dropout gradient scale")
}

// HDropoutTwo: two dropouts of one vector with different probabilities.
//
//vsym:paths=4000
func HDropoutTwo() {
	drawn()
	g := G.NewGraph()
	x := hlp.Sym(g, hlp.F64, "x", 2)
	for _, v := range x.X {
		vsym.Assume(v != 0)
	}
	p, q := 0.5, 0.75
	y, z := hlp.Node(G.Dropout(x.N, p)), hlp.Node(G.Dropout(x.N, q))
	v, w := hlp.Watch(y), hlp.Watch(z)
	hlp.RunTape(g)
	for i, u := range hlp.Nums(*v) {
		if u != 0 {
			vsym.AssertEq(u*(1-p), x.X[i], "first dropout", i)
		}
	}
	for i, u := range hlp.Nums(*w) {
		if u != 0 {
			vsym.AssertEq(u*(1-q), x.X[i], "second dropout", i)
		}
	}
	vsym.Cover("two dropouts")
}

// HDropoutAgain: a second run of one machine with fresh input and draws; elements dropped in the second run are zero.
//
//vsym:paths=4000
func HDropoutAgain() {
	ds := drawn()
	g := G.NewGraph()
	x := hlp.Sym(g, hlp.F64, "x", 2)
	y := hlp.Node(G.Dropout(x.N, 0.5))
	w := hlp.Watch(y)
	hlp.Weighted(g, y)
	var m G.VM
	switch vsym.Choice("machine", 3) {
	case 0:
		m = G.NewTapeMachine(g)
	case 1:
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	case 2:
		m = G.NewLispMachine(g)
	}
	xs := x.X
	for _, v := range xs {
		vsym.Assume(v != 0)
	}
	for i := 0; i < 2; i++ {
		*ds = nil
		hlp.Ok(m.RunAll(), "run")
		isDropout(xs, hlp.Nums(*w), *ds, 0.5, hlp.F64)
		m.Reset()
		if i == 0 {
			xs = hlp.Syms("again", 2)
			for _, v := range xs {
				vsym.Assume(v != 0)
			}
			hlp.Ok(G.Let(x.N, hlp.Dense(hlp.F64, xs, 2)), "let")
		}
	}
	vsym.Cover("dropout again")
}
