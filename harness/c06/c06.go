// Package c06: execution never corrupts a value that is still needed.
package c06

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{tensor.Float64, tensor.Float32}

// intact asserts that an input and the tensor the caller bound to it hold what the caller supplied.
func intact(ins ...*hlp.In) {
	for _, in := range ins {
		tol := hlp.Tol(in.DT)
		hlp.SameShape(in.N.Value().Shape(), in.Shape, "shape of the input changed")
		hlp.Same(hlp.Nums(in.N.Value()), in.X, tol, "input changed")
		if in.T != nil {
			hlp.SameShape(in.T.Shape(), in.Shape, "shape of the caller's tensor changed")
			hlp.Same(hlp.Nums(in.T), in.X, tol, "caller's tensor changed")
		}
	}
}

func outputs(g *G.ExprGraph, pool []hlp.V) {
	for _, r := range g.Roots() {
		for _, v := range pool {
			if v.N == r {
				hlp.IsArr(v.N, v.A, "output")
			}
		}
	}
}

// HTwo: all programs of two operations out of 17 over two 2x2 inputs; the inputs stay as supplied over two runs, and so does the
// output of the first run that the caller kept.
//
//vsym:paths=9000
func HTwo() {
	g := G.NewGraph()
	a, b := hlp.Sym(g, hlp.F64, "a", 2, 2), hlp.SymPos(g, hlp.F64, "b", 2, 2)
	pool := []hlp.V{a.V(), b.V()}
	pool = hlp.Extend(pool, hlp.Wide, false)
	pool = hlp.Extend(pool, hlp.Wide, true)
	last := pool[len(pool)-1]
	m := G.NewTapeMachine(g)
	hlp.Ok(m.RunAll(), "tape run")
	intact(a, b)
	outputs(g, pool)
	kept := last.N.Value()
	m.Reset()
	hlp.Ok(m.RunAll(), "second tape run")
	intact(a, b)
	outputs(g, pool)
	hlp.ValIsArr(kept, last.A, 1e-6, "output of the first run kept by the caller")
	hlp.Ok(m.Close(), "close")
	vsym.Cover("two runs")
}

// HThree: three operations, the last freely chosen operands, one read-out of a freely chosen intermediate.
//
//vsym:paths=9000
func HThree() {
	ops := []hlp.Op{hlp.OpAdd, hlp.OpSub, hlp.OpReshape, hlp.OpTrans, hlp.OpRow}
	g := G.NewGraph()
	a, b := hlp.Sym(g, hlp.F64, "a", 2, 2), hlp.Sym(g, hlp.F64, "b", 2, 2)
	pool := []hlp.V{a.V(), b.V()}
	pool = hlp.Extend(pool, ops, true)
	pool = hlp.Extend(pool, ops, true)
	pool = hlp.Extend(pool, ops, true)
	k := vsym.Choice("read", 3)
	var out G.Value
	G.Read(pool[2+k].N, &out)
	hlp.RunTape(g)
	intact(a, b)
	hlp.ValIsArr(out, pool[2+k].A, 1e-6, "value read out")
	outputs(g, pool)
}

// HChain: chains of up to six in-place capable operations from one input, the input used again at the end.
func HChain() {
	g := G.NewGraph()
	dt := dts[vsym.Choice("width", 2)]
	a := hlp.Sym(g, dt, "a", 3)
	pool := []hlp.V{a.V()}
	n := 2 + vsym.Choice("length", 3)
	ops := []hlp.Op{hlp.OpNeg, hlp.OpSq, hlp.OpAddC}
	for i := 0; i < n; i++ {
		op := ops[vsym.Choice("op", len(ops))]
		v, _ := op.Build(pool[i], hlp.V{})
		pool = append(pool, v)
	}
	z, _ := hlp.OpSub.Build(pool[n], pool[0])
	var mid G.Value
	G.Read(pool[1].N, &mid)
	hlp.RunTape(g)
	intact(a)
	hlp.IsArr(z.N, z.A, "output")
	hlp.ValIsArr(mid, pool[1].A, hlp.Tol(dt), "value read out")
}

// HViews: an input bound to part of the caller's larger array: neither the part nor its neighbours are written.
func HViews() {
	g := G.NewGraph()
	x := hlp.Syms("x", 12)
	big := tensor.New(tensor.WithShape(4, 3), tensor.WithBacking(append([]float64{}, x...)))
	view, err := big.Slice(tensor.S(1, 3))
	hlp.Ok(err, "slice")
	a := G.NewMatrix(g, hlp.F64, G.WithShape(2, 3), G.WithName("a"))
	hlp.Ok(G.Let(a, view), "let")
	b := hlp.Sym(g, hlp.F64, "b", 2, 3)
	pa := hlp.V{N: a, A: hlp.A(x[3:9], 2, 3)}
	ops := []hlp.Op{hlp.OpAdd, hlp.OpNeg, hlp.OpSq, hlp.OpTrans, hlp.OpReshape, hlp.OpSum, hlp.OpRow, hlp.OpProd}
	op := ops[vsym.Choice("op", len(ops))]
	v, ok := op.Build(pa, b.V())
	vsym.Assume(ok)
	op2 := []hlp.Op{hlp.OpNeg, hlp.OpAddC, hlp.OpAdd}[vsym.Choice("second", 3)]
	z, ok := op2.Build(v, v)
	vsym.Assume(ok)
	hlp.RunTape(g)
	hlp.IsArr(z.N, z.A, "output")
	hlp.Same(hlp.Nums(big), x, 1e-6, "caller's array changed")
	hlp.SameShape(big.Shape(), []int{4, 3}, "caller's array")
}

// HGradients: running with gradients leaves inputs, weights and constants alone, on both machines, over two runs; gradients share
// no memory with values.
func HGradients() {
	vsym.Generic(true)
	g := G.NewGraph()
	dt := dts[vsym.Choice("width", 2)]
	a, b := hlp.Sym(g, dt, "a", 2, 2), hlp.Sym(g, dt, "b", 2, 2)
	N := hlp.Node
	var z *G.Node
	switch vsym.Choice("graph", 7) {
	case 0:
		z = N(G.Sum(N(G.Add(a.N, b.N))))
	case 1:
		z = N(G.Sum(N(G.Mul(a.N, b.N))))
	case 2:
		z = N(G.Sum(N(G.HadamardProd(N(G.Add(a.N, a.N)), b.N))))
	case 3:
		z = N(G.Sum(N(G.Sub(N(G.Transpose(a.N, 1, 0)), N(G.Reshape(b.N, tensor.Shape{2, 2}))))))
	case 4:
		z = N(G.Mean(N(G.Concat(1, a.N, b.N))))
	case 5:
		z = N(G.Sum(N(G.HadamardDiv(N(G.Slice(a.N, G.S(0))), N(G.Slice(b.N, nil, G.S(1)))))))
	case 6:
		z = N(G.Sum(N(G.BroadcastAdd(a.N, N(G.Slice(b.N, G.S(1))), nil, []byte{0}))))
	}
	var m G.VM
	if vsym.Choice("machine", 2) == 0 {
		_, err := G.Grad(z, a.N, b.N)
		hlp.Ok(err, "symbolic differentiation")
		m = G.NewTapeMachine(g, G.BindDualValues(a.N, b.N))
	} else {
		m = G.NewLispMachine(g)
	}
	hlp.Ok(m.RunAll(), "run")
	intact(a, b)
	c := hlp.Nums(z.Value())[0]
	da, err := a.N.Grad()
	hlp.Ok(err, "gradient")
	db, err := b.N.Grad()
	hlp.Ok(err, "gradient")
	hlp.Deriv(c, a, da, "gradient", 0)
	hlp.Deriv(c, b, db, "gradient", 1)
	// overwriting a gradient shows in no value and in no other gradient
	da.(tensor.Tensor).Zero()
	hlp.Deriv(c, b, db, "gradient after clearing the other", 1)
	intact(a, b)
	m.Reset()
	hlp.Ok(m.RunAll(), "second run")
	intact(a, b)
	hlp.Same(hlp.Nums(z.Value()), []float64{c}, hlp.Tol(dt), "cost of the second run")
	hlp.Ok(m.Close(), "close")
}

// HConstants: constants keep their value over runs in which they are operands of in-place capable operations.
func HConstants() {
	g := G.NewGraph()
	cv := hlp.Syms("c", 2)
	ct := tensor.New(tensor.WithShape(2), tensor.WithBacking(append([]float64{}, cv...)))
	c := G.NewConstant(ct)
	a := hlp.Sym(g, hlp.F64, "a", 2)
	pc := hlp.V{N: c, A: hlp.A(cv, 2)}
	ops := []hlp.Op{hlp.OpAdd, hlp.OpSub, hlp.OpProd}
	op := ops[vsym.Choice("op", len(ops))]
	x, y := pc, a.V()
	if vsym.Choice("swap", 2) == 1 {
		x, y = y, x
	}
	v, _ := op.Build(x, y)
	op2 := []hlp.Op{hlp.OpNeg, hlp.OpSq, hlp.OpAddC}[vsym.Choice("second", 3)]
	z, _ := op2.Build(v, v)
	m := G.NewTapeMachine(g)
	for i := 0; i < 2; i++ {
		hlp.Ok(m.RunAll(), "run")
		hlp.IsArr(z.N, z.A, "output")
		hlp.Same(hlp.Nums(ct), cv, 1e-6, "constant changed")
		intact(a)
		m.Reset()
	}
	hlp.Ok(m.Close(), "close")
}

// HBinds: the values bound to one input and to another are not exchanged or shared when both hold the same tensor.
func HBinds() {
	g := G.NewGraph()
	x := hlp.Syms("x", 2)
	t := hlp.Dense(hlp.F64, x, 2)
	a, b := G.NewVector(g, hlp.F64, G.WithShape(2), G.WithName("a")), G.NewVector(g, hlp.F64, G.WithShape(2), G.WithName("b"))
	hlp.Ok(G.Let(a, t), "let")
	hlp.Ok(G.Let(b, t), "let")
	s := hlp.Node(G.Add(hlp.Node(G.Neg(a)), hlp.Node(G.Square(b))))
	u := hlp.Node(G.Sub(hlp.Node(G.HadamardProd(a, b)), a))
	hlp.RunTape(g)
	hlp.Is(s, []float64{-x[0] + x[0]*x[0], -x[1] + x[1]*x[1]}, "output")
	hlp.Is(u, []float64{x[0]*x[0] - x[0], x[1]*x[1] - x[1]}, "output")
	hlp.Same(hlp.Nums(t), x, 1e-6, "caller's tensor changed")
}

// HCatalog: every operation of the catalogue of operations, its result used by an operation that can work in place and its inputs by
// others: inputs, results and other results are those of the operation alone and stay so over two runs, on both machines.
//
//vsym:paths=9000
func HCatalog() {
	vsym.Generic(true)
	es := hlp.Catalog()
	e := es[vsym.Choice("operation", len(es))]
	mode := vsym.Choice("mode", 3)
	dt, lisp := dts[mode&1], mode == 2
	xs := e.Draw()

	alone := G.NewGraph()
	want := e.Build(e.Ins(alone, dt, xs))
	hlp.RunTape(alone)
	y0 := append([]float64{}, hlp.Nums(want.Value())...)

	g := G.NewGraph()
	ins := e.Ins(g, dt, xs)
	y := e.Build(ins)
	var z *G.Node
	z0 := make([]float64, len(y0))
	switch vsym.Choice("next", 3) {
	case 0:
		z = hlp.Node(G.Neg(y))
		for i, v := range y0 {
			z0[i] = -v
		}
	case 1:
		z = hlp.Node(G.Add(y, y))
		for i, v := range y0 {
			z0[i] = 2 * v
		}
	case 2: // the first input again, with the result if the shapes allow
		z = hlp.Node(G.Square(y))
		for i, v := range y0 {
			z0[i] = v * v
		}
		z = hlp.Node(G.Sub(z, G.NewConstant(hlp.Value(dt, []float64{1}, nil))))
		for i := range z0 {
			z0[i]--
		}
	}
	var others []*G.Node
	for _, in := range ins {
		others = append(others, hlp.Node(G.Sub(hlp.Node(G.Cube(in.N)), G.NewConstant(hlp.Value(dt, []float64{1}, nil)))))
	}
	var m G.VM
	if lisp {
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	} else {
		m = G.NewTapeMachine(g)
	}
	for k := 0; k < 2; k++ {
		hlp.Ok(m.RunAll(), "run")
		intact(ins...)
		hlp.Is(z, z0, "result")
		for i, o := range others {
			var c []float64
			for _, v := range xs[i] {
				c = append(c, v*v*v-1)
			}
			hlp.Is(o, c, "other result")
		}
		m.Reset()
	}
	hlp.Ok(m.Close(), "close")
}

// HCatalogGrads: the same operations with gradients: the inputs and the result stay what they are.
//
//vsym:paths=9000
func HCatalogGrads() {
	vsym.Generic(true)
	es := hlp.Catalog()
	e := es[vsym.Choice("operation", len(es))]
	vsym.Assume(!e.Flat)
	mode := vsym.Choice("mode", 3)
	dt, lisp := dts[mode&1], mode == 2
	vsym.Assume(!lisp || !e.NoLisp)
	xs := e.Draw()

	alone := G.NewGraph()
	want := e.Build(e.Ins(alone, dt, xs))
	hlp.RunTape(alone)
	y0 := append([]float64{}, hlp.Nums(want.Value())...)

	g := G.NewGraph()
	ins := e.Ins(g, dt, xs)
	y := e.Build(ins)
	var read G.Value
	G.Read(y, &read)
	cost := hlp.Node(G.Square(y))
	if !cost.IsScalar() {
		cost = hlp.Node(G.Sum(cost))
	}
	var m G.VM
	if lisp {
		m = G.NewLispMachine(g)
	} else {
		var wrt G.Nodes
		for _, in := range ins {
			wrt = append(wrt, in.N)
		}
		_, err := G.Grad(cost, wrt...)
		hlp.Ok(err, "symbolic differentiation")
		m = G.NewTapeMachine(g, G.BindDualValues(wrt...))
	}
	for k := 0; k < 2; k++ {
		hlp.Ok(m.RunAll(), "run")
		intact(ins...)
		hlp.Same(hlp.Nums(read), y0, hlp.Tol(dt), "result read out")
		var c float64
		for _, v := range y0 {
			c += v * v
		}
		hlp.Same(hlp.Nums(cost.Value()), []float64{c}, hlp.Tol(dt), "cost")
		m.Reset()
	}
	hlp.Ok(m.Close(), "close")
}

// HRepeats: an input repeated once along axes of extent one, in two different ways, by operations that can work in place.
func HRepeats() {
	sh := [][]int{{1, 1}, {1, 2, 1}}[vsym.Choice("shape", 2)]
	mode := vsym.Choice("mode", 3)
	dt, lisp := dts[mode&1], mode == 2
	var unit []byte
	for i, d := range sh {
		if d == 1 {
			unit = append(unit, byte(i))
		}
	}
	axes := [][]byte{{unit[0]}, {unit[1]}, unit}
	p, q := axes[vsym.Choice("first", 3)], axes[vsym.Choice("second", 3)]
	g := G.NewGraph()
	a, b := hlp.Sym(g, dt, "a", sh...), hlp.Sym(g, dt, "b", sh...)
	y := hlp.Node(G.BroadcastAdd(a.N, b.N, p, nil))
	var z *G.Node
	right := vsym.Choice("right", 2) == 1
	if right {
		z = hlp.Node(G.BroadcastSub(b.N, a.N, nil, q))
	} else {
		z = hlp.Node(G.BroadcastSub(a.N, b.N, q, nil))
	}
	var m G.VM
	if lisp {
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	} else {
		m = G.NewTapeMachine(g)
	}
	for k := 0; k < 2; k++ {
		hlp.Ok(m.RunAll(), "run")
		intact(a, b)
		hlp.IsArr(y, hlp.Zip(a.Arr(), b.Arr(), func(u, v float64) float64 { return u + v }), "sum")
		hlp.IsArr(z, hlp.Zip(a.Arr(), b.Arr(), func(u, v float64) float64 {
			if right {
				return v - u
			}
			return u - v
		}), "difference")
		m.Reset()
	}
	hlp.Ok(m.Close(), "close")
	vsym.Cover("repeated")
}

// HCallers: every operation of the catalogue of operations with other values bound to its inputs for a second run, with and without gradients: the values bound for the first run stay what
// they were.
//
//vsym:paths=9000
func HCallers() {
	vsym.Generic(true)
	es := hlp.Catalog()
	e := es[vsym.Choice("operation", len(es))]
	mode := vsym.Choice("mode", 4)
	dt, lisp, grads := dts[mode&1], mode >= 2, mode == 3
	if grads {
		vsym.Assume(!e.Flat && !e.NoLisp)
		dt = hlp.F64
	}
	xs := e.Draw()
	g := G.NewGraph()
	ins := e.Ins(g, dt, xs)
	y := hlp.Node(G.Neg(e.Build(ins)))
	if grads && !y.IsScalar() {
		y = hlp.Node(G.Sum(y))
	}
	var m G.VM
	switch {
	case grads:
		m = G.NewLispMachine(g)
	case lisp:
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	default:
		m = G.NewTapeMachine(g)
	}
	var first []G.Value
	for _, in := range ins {
		first = append(first, in.N.Value())
	}
	hlp.Ok(m.RunAll(), "run")
	m.Reset()
	for i, v := range e.Draw() {
		ins[i].Rebind(v)
	}
	hlp.Ok(m.RunAll(), "second run")
	for i, v := range first {
		hlp.Same(hlp.Nums(v), xs[i], hlp.Tol(dt), "value bound for an earlier run")
	}
	hlp.Ok(m.Close(), "close")
	vsym.Cover("bound again")
}
