// Package c20: binding a value enforces the declared type and shape.
package c20

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{tensor.Float64, tensor.Float32, tensor.Int, tensor.Int64, tensor.Int32, tensor.Byte, tensor.Bool}

// plain gives x as a plain Go number, value as a scalar value of the library.
func plain(k int, x float64, i int, b bool) interface{} {
	switch k {
	case 0:
		return x
	case 1:
		return float32(x)
	case 2:
		return i
	case 3:
		return int64(i)
	case 4:
		return int32(i)
	case 5:
		return byte(i)
	}
	return b
}

func value(k int, x float64, i int, b bool) G.Value {
	switch k {
	case 0:
		return G.NewF64(x)
	case 1:
		return G.NewF32(float32(x))
	case 2:
		return G.NewI(i)
	case 3:
		return G.NewI64(int64(i))
	case 4:
		return G.NewI32(int32(i))
	case 5:
		return G.NewU8(byte(i))
	}
	return G.NewB(b)
}

// unboxed gives x as a scalar of the library that is not a pointer.
func unboxed(k int, x float64, i int, b bool) interface{} {
	switch k {
	case 0:
		return G.F64(x)
	case 1:
		return G.F32(float32(x))
	case 2:
		return G.I(i)
	case 3:
		return G.I64(int64(i))
	case 4:
		return G.I32(int32(i))
	case 5:
		return G.U8(byte(i))
	}
	return G.B(b)
}

func form(f, k int, x float64, i int, b bool) interface{} {
	switch f {
	case 0:
		return plain(k, x, i, b)
	case 1:
		return value(k, x, i, b)
	case 2:
		return unboxed(k, x, i, b)
	}
	t := tensor.New(tensor.WithShape(1), tensor.Of(dts[k]))
	vsym.Assert(t.SetAt(plain(k, x, i, b), 0) == nil, "set")
	return t
}

func holds(v G.Value, k int, x float64, i int, b bool, msg string) {
	vsym.Assert(v != nil, msg+": no value")
	switch d := v.Data().(type) {
	case float64:
		vsym.Assert(k == 0, msg+": element type")
		vsym.AssertNear(d, x, 1e-9, msg)
	case float32:
		vsym.Assert(k == 1, msg+": element type")
		vsym.AssertNear(float64(d), x, 1e-3, msg)
	case int:
		vsym.Assert(k == 2 && d == i, msg)
	case int64:
		vsym.Assert(k == 3 && d == int64(i), msg)
	case int32:
		vsym.Assert(k == 4 && d == int32(i), msg)
	case byte:
		vsym.Assert(k == 5 && d == byte(i), msg)
	case bool:
		vsym.Assert(k == 6 && d == b, msg)
	default:
		vsym.Assert(false, msg+": element type")
	}
}

// HScalar: a scalar input of each of the seven element types is offered a scalar of each element type, as a plain Go
// number, as a boxed and as an unboxed library scalar, with and without an earlier binding; symbolic contents.
//
//vsym:paths=600
func HScalar() {
	d, s, f := vsym.Choice("declared", len(dts)), vsym.Choice("supplied", len(dts)), vsym.Choice("form", 3)
	before := vsym.Choice("bound before", 2) == 1
	x, i, b := vsym.Float64("x"), vsym.Int("i", 0, 100), vsym.Bool("b")
	x2, i2, b2 := vsym.Float64("x2"), vsym.Int("i2", 0, 100), vsym.Bool("b2")
	g := G.NewGraph()
	n := G.NewScalar(g, dts[d], G.WithName("n"))
	if before {
		hlp.Ok(G.Let(n, form(f, d, x, i, b)), "first binding")
		holds(n.Value(), d, x, i, b, "first binding")
	}
	err := G.Let(n, form(f, s, x2, i2, b2))
	vsym.Assert((err == nil) == (d == s), "a binding is accepted exactly when the element types agree")
	switch {
	case err == nil:
		holds(n.Value(), s, x2, i2, b2, "accepted binding is in effect")
		vsym.Cover("accepted")
	case before:
		holds(n.Value(), d, x, i, b, "rejected binding leaves the earlier value")
		vsym.Cover("rejected")
	default:
		vsym.Assert(n.Value() == nil, "rejected binding leaves the input unbound")
		vsym.Cover("rejected, unbound")
	}
}

var shapes = [][]int{{}, {2}, {3}, {2, 2}, {2, 3}, {3, 2}, {1, 2, 3}, {2, 3, 1}}

func total(s []int) int { return hlp.Prod(s) }

func give(dt tensor.Dtype, x []float64, sh []int) interface{} {
	if len(sh) == 0 {
		return hlp.Scalar(dt, x[0])
	}
	return hlp.Dense(dt, x, sh...)
}

// HShape: an input of each of eight shapes (ranks 0 to 3) and two float types is offered a value of each of those shapes
// and types, with and without an earlier binding, and the doubled input is then computed on each machine: the accepted
// value is what is computed with, a rejected one leaves the earlier in effect or the run reports the missing value.
//
//vsym:paths=2500
func HShape() {
	d, s := vsym.Choice("declared", len(shapes)), vsym.Choice("supplied", len(shapes))
	types := vsym.Choice("types", 3)
	ddt, sdt := tensor.Float64, tensor.Float64
	if types == 1 {
		sdt = tensor.Float32
	} else if types == 2 {
		ddt, sdt = tensor.Float32, tensor.Float32
	}
	before := vsym.Choice("bound before", 2) == 1
	lisp := vsym.Choice("machine", 2) == 1
	g := G.NewGraph()
	var n *G.Node
	if len(shapes[d]) == 0 {
		n = G.NewScalar(g, ddt, G.WithName("n"))
	} else {
		n = G.NewTensor(g, ddt, len(shapes[d]), G.WithName("n"), G.WithShape(shapes[d]...))
	}
	out := hlp.Node(G.Add(n, n))
	var want []float64
	if before {
		want = hlp.Syms("x", total(shapes[d]))
		hlp.Ok(G.Let(n, give(ddt, want, shapes[d])), "first binding")
	}
	x2 := hlp.Syms("y", total(shapes[s]))
	err := G.Let(n, give(sdt, x2, shapes[s]))
	vsym.Assert((err == nil) == (d == s && ddt == sdt), "a binding is accepted exactly when type and shape agree")
	if err == nil {
		want = x2
	}
	var m G.VM
	if lisp {
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	} else {
		m = G.NewTapeMachine(g)
	}
	err = m.RunAll()
	if want == nil {
		vsym.Assert(err != nil, "a run with an unbound input reports an error")
		vsym.Cover("unbound")
		return
	}
	hlp.Ok(err, "run")
	got := hlp.Nums(out.Value())
	vsym.Assert(len(got) == len(want), "number of elements computed")
	for i := range got {
		vsym.AssertNear(got[i], 2*want[i], hlp.Tol(ddt), "what is computed with", i)
	}
	vsym.Cover("computed")
}

// HRebind: three bindings in a row, the second of which may be refused, with a run after each; whole-program view on
// both machines, with gradients requested on the compiled one.
//
//vsym:paths=200
func HRebind() {
	lisp := vsym.Choice("machine", 2) == 1
	g := G.NewGraph()
	x := G.NewVector(g, tensor.Float64, G.WithName("x"), G.WithShape(2))
	w := hlp.Sym(g, tensor.Float64, "w", 2)
	cost := hlp.Node(G.Sum(hlp.Node(G.HadamardProd(hlp.Node(G.Square(x)), w.N))))
	if !lisp {
		_, err := G.Grad(cost, x)
		hlp.Ok(err, "grad")
	}
	var m G.VM
	if lisp {
		m = G.NewLispMachine(g)
	} else {
		m = G.NewTapeMachine(g, G.BindDualValues(x))
	}
	cur := hlp.Syms("x", 2)
	for step := 0; step < 3; step++ {
		switch vsym.Choice("kind", 3) {
		case 0:
			cur = hlp.Syms("x", 2)
			hlp.Ok(G.Let(x, hlp.Dense(tensor.Float64, cur, 2)), "binding")
		case 1:
			if step == 0 {
				hlp.Ok(G.Let(x, hlp.Dense(tensor.Float64, cur, 2)), "binding")
			}
			vsym.Assert(G.Let(x, hlp.Dense(tensor.Float32, hlp.Syms("bad", 2), 2)) != nil, "wrong element type is refused")
			vsym.Cover("refused")
		case 2:
			if step == 0 {
				hlp.Ok(G.Let(x, hlp.Dense(tensor.Float64, cur, 2)), "binding")
			}
			vsym.Assert(G.Let(x, vsym.Float64("bad")) != nil, "a scalar for a vector is refused")
		}
		hlp.Ok(m.RunAll(), "run")
		c := hlp.Nums(cost.Value())
		vsym.AssertNear(c[0], cur[0]*cur[0]*w.X[0]+cur[1]*cur[1]*w.X[1], 1e-6, "cost after binding", step)
		d, err := x.Grad()
		hlp.Ok(err, "gradient")
		dx := hlp.Nums(d)
		for i := range dx {
			vsym.AssertNear(dx[i], 2*cur[i]*w.X[i], 1e-6, "gradient after binding", step, i)
		}
		G.ZeroValue(d)
		m.Reset()
	}
	vsym.Cover("rebound")
}

// HNonInput: computed nodes and constants cannot be bound, and keep computing what they denote.
func HNonInput() {
	g := G.NewGraph()
	x := hlp.Sym(g, tensor.Float64, "x", 2)
	c := G.NewConstant(3.0)
	y := hlp.Node(G.Mul(x.N, c))
	z := hlp.Node(G.Add(y, x.N))
	bad := hlp.Dense(tensor.Float64, hlp.Syms("bad", 2), 2)
	if vsym.Choice("which", 2) == 0 {
		vsym.Assert(G.Let(y, bad) != nil, "binding a computed node is refused")
	} else {
		vsym.Assert(G.Let(c, vsym.Float64("k")) != nil, "binding a constant is refused")
	}
	hlp.RunTape(g)
	hlp.Is(z, []float64{4 * x.X[0], 4 * x.X[1]}, "value after a refused binding")
	vsym.Cover("refused")
}

// HView: a strided view of a larger tensor bound to an input is computed with by its elements, on both machines.
func HView() {
	g := G.NewGraph()
	x := hlp.Syms("x", 6)
	base := hlp.Dense(tensor.Float64, x, 2, 3)
	col := vsym.Choice("column", 3)
	v, err := base.Slice(nil, G.S(col))
	hlp.Ok(err, "slice")
	n := G.NewVector(g, tensor.Float64, G.WithName("n"), G.WithShape(2))
	y := hlp.Sym(g, tensor.Float64, "y", 2)
	hlp.Ok(G.Let(n, v), "binding a view")
	out := hlp.Node(G.HadamardProd(n, y.N))
	if vsym.Choice("machine", 2) == 0 {
		hlp.RunTape(g)
	} else {
		m := G.NewLispMachine(g, G.ExecuteFwdOnly())
		hlp.Ok(m.RunAll(), "run")
	}
	hlp.Is(out, []float64{x[col] * y.X[0], x[3+col] * y.X[1]}, "product with a view")
	hlp.Same(hlp.Nums(base), x, 1e-9, "viewed tensor")
	vsym.Cover("view")
}

// HPartUnbound: of three inputs any subset is bound; the run succeeds exactly when all are, names no value otherwise, and
// succeeds after the missing ones are bound.
func HPartUnbound() {
	g := G.NewGraph()
	var ns []*G.Node
	for _, nm := range []string{"a", "b", "c"} {
		ns = append(ns, G.NewVector(g, tensor.Float64, G.WithName(nm), G.WithShape(2)))
	}
	out := hlp.Node(G.Add(hlp.Node(G.HadamardProd(ns[0], ns[1])), ns[2]))
	var xs [3][]float64
	all := true
	for i := range ns {
		xs[i] = hlp.Syms("x", 2)
		if vsym.Choice("bound", 2) == 1 {
			hlp.Ok(G.Let(ns[i], hlp.Dense(tensor.Float64, xs[i], 2)), "binding")
		} else {
			all = false
		}
	}
	var m G.VM
	if vsym.Choice("machine", 2) == 0 {
		m = G.NewTapeMachine(g)
	} else {
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	}
	err := m.RunAll()
	vsym.Assert((err == nil) == all, "a run succeeds exactly when every input is bound")
	if err != nil {
		vsym.Cover("missing input")
		m.Reset()
		for i := range ns {
			hlp.Ok(G.Let(ns[i], hlp.Dense(tensor.Float64, xs[i], 2)), "binding")
		}
		hlp.Ok(m.RunAll(), "run after binding everything")
	}
	hlp.Is(out, []float64{xs[0][0]*xs[1][0] + xs[2][0], xs[0][1]*xs[1][1] + xs[2][1]}, "value")
	vsym.Cover("computed")
}

// HGrad: a value and a gradient given with an input are its value and its gradient, the value is what a run computes with,
// and a gradient of another type or without a value is refused.
func HGrad() {
	k := vsym.Choice("width", 2)
	dt := dts[k]
	sh := [][]int{nil, {2}, {2, 2}}[vsym.Choice("shape", 3)]
	xs, ds := hlp.Syms("x", total(sh)), hlp.Syms("d", total(sh))
	g := G.NewGraph()
	opts := []G.NodeConsOpt{G.WithName("x"), G.WithShape(sh...), G.WithValue(give(dt, xs, sh))}
	switch vsym.Choice("gradient", 4) {
	case 0:
		opts = append(opts, G.WithGrad(give(dt, ds, sh)))
	case 1: // the second replaces the first
		opts = append(opts, G.WithGrad(give(dt, xs, sh)), G.WithGrad(give(dt, ds, sh)))
	case 2:
		opts = append(opts, G.WithGrad(give(dts[1-k], ds, sh)))
		vsym.Assert(panics(func() { G.NewTensor(g, dt, len(sh), opts...) }), "a gradient of another type is accepted")
		return
	case 3:
		opts = []G.NodeConsOpt{G.WithName("x"), G.WithShape(sh...), G.WithGrad(give(dt, ds, sh))}
		vsym.Assert(panics(func() { G.NewTensor(g, dt, len(sh), opts...) }), "a gradient without a value is accepted")
		return
	}
	n := G.NewTensor(g, dt, len(sh), opts...)
	is := func(when string) {
		hlp.Same(hlp.Nums(n.Value()), xs, hlp.Tol(dt), "value "+when)
		d, err := n.Grad()
		hlp.Ok(err, "gradient")
		hlp.Same(hlp.Nums(d), ds, hlp.Tol(dt), "gradient "+when)
	}
	is("given")
	z := hlp.Node(G.Neg(n))
	hlp.RunTape(g)
	is("after a run")
	var neg []float64
	for _, x := range xs {
		neg = append(neg, -x)
	}
	hlp.Same(hlp.Nums(z.Value()), neg, hlp.Tol(dt), "result")
	vsym.Cover("gradient")
}

func panics(f func()) (r bool) {
	defer func() { r = recover() != nil }()
	f()
	return
}
