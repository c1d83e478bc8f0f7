// Package c05: gradients accumulate over every use of a node.
package c05

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{tensor.Float64, tensor.Float32}

func grads(g *G.ExprGraph, cost *G.Node, ins ...*hlp.In) {
	if vsym.Choice("machine", 2) == 0 {
		hlp.TapeGrads(g, cost, ins...)
	} else {
		hlp.LispGrads(g, cost, ins...)
	}
}

// pattern builds a node from a and b in which a is used several times.
func pattern(k int, a, b *G.Node) *G.Node {
	N := hlp.Node
	switch k {
	case 0: // twice by the same operation
		return N(G.Add(a, a))
	case 1:
		return N(G.HadamardProd(a, a))
	case 2: // used by two operations that meet
		return N(G.HadamardProd(N(G.Tanh(a)), N(G.Square(a))))
	case 3: // a diamond with a direct edge
		return N(G.Sub(N(G.HadamardProd(N(G.Add(a, b)), a)), b))
	case 4: // diamond over diamond
		x := N(G.Add(N(G.Square(a)), N(G.HadamardProd(a, b))))
		return N(G.HadamardProd(N(G.Neg(x)), N(G.Add(x, a))))
	case 5: // three uses in a chain
		x := N(G.HadamardProd(a, b))
		y := N(G.HadamardProd(x, a))
		return N(G.HadamardProd(y, a))
	case 6: // uses at different depths
		return N(G.Add(N(G.Add(N(G.Add(a, b)), N(G.Square(a)))), a))
	case 7: // a fan of four
		x := N(G.Add(N(G.Neg(a)), N(G.Square(a))))
		y := N(G.Sub(N(G.Cube(a)), N(G.HadamardProd(a, b))))
		return N(G.HadamardProd(x, y))
	case 8: // the same node subtracted from itself after scaling
		return N(G.Sub(N(G.HadamardProd(a, b)), a))
	case 9: // divided by itself plus the other
		return N(G.HadamardDiv(a, N(G.Add(a, b))))
	}
	// a node and its negation multiplied, twice
	x := N(G.HadamardProd(a, N(G.Neg(a))))
	return N(G.HadamardProd(x, x))
}

func usesOnlyA(k int) bool { return k < 3 || k == 10 }

// HScalarShared: the patterns with a scalar shared among tensor operations, and a tensor among operations with a scalar.
func HScalarShared() {
	vsym.Generic(true)
	g := G.NewGraph()
	dt := dts[vsym.Choice("width", 2)]
	ks := []int{3, 4, 5, 6, 7, 8, 9}
	k := ks[vsym.Choice("pattern", len(ks))]
	var a, b *hlp.In
	if vsym.Choice("which", 2) == 0 {
		a, b = hlp.Sym(g, dt, "a"), hlp.Sym(g, dt, "b", 3)
	} else {
		a, b = hlp.Sym(g, dt, "a", 3), hlp.Sym(g, dt, "b")
	}
	grads(g, hlp.Weighted(g, pattern(k, a.N, b.N)), a, b)
}

// HElementwise: eleven sharing patterns over scalars and vectors, both widths.
func HElementwise() {
	vsym.Generic(true)
	g := G.NewGraph()
	dt := dts[vsym.Choice("width", 2)]
	shs := [][]int{nil, {2}, {2, 2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	k := vsym.Choice("pattern", 11)
	a := hlp.Sym(g, dt, "a", sh...)
	if usesOnlyA(k) {
		grads(g, hlp.Weighted(g, pattern(k, a.N, nil)), a)
		return
	}
	b := hlp.Sym(g, dt, "b", sh...)
	grads(g, hlp.Weighted(g, pattern(k, a.N, b.N)), a, b)
}

func mpattern(k int, a, b, v *G.Node) *G.Node {
	N := hlp.Node
	switch k {
	case 0:
		return N(G.Mul(a, a))
	case 1:
		return N(G.Mul(a, N(G.Transpose(a, 1, 0))))
	case 2:
		return N(G.Mul(N(G.Mul(a, b)), a))
	case 3:
		return N(G.Add(N(G.Mul(a, b)), N(G.Mul(b, a))))
	case 4:
		return N(G.Mul(a, N(G.Mul(a, v))))
	case 5:
		return N(G.OuterProd(v, v))
	case 6:
		return N(G.Mul(N(G.Slice(a, G.S(0))), N(G.Slice(a, G.S(1)))))
	case 7:
		return N(G.Concat(0, a, a))
	case 8:
		return N(G.HadamardProd(N(G.Sum(a)), a))
	case 9:
		return N(G.HadamardProd(N(G.Slice(a, G.S(0))), N(G.Sum(a, 0))))
	case 10:
		return N(G.Mul(v, v))
	case 11:
		x := N(G.Mul(a, b))
		return N(G.Mul(N(G.Add(x, a)), N(G.Sub(x, b))))
	case 12:
		r := N(G.Reshape(a, tensor.Shape{4}))
		return N(G.HadamardProd(r, N(G.Reshape(N(G.Square(a)), tensor.Shape{4}))))
	case 13:
		return N(G.Add(a, N(G.Transpose(a, 1, 0))))
	}
	return N(G.BroadcastHadamardProd(a, N(G.Sum(a, 1)), nil, []byte{1}))
}

// HMatrix: fifteen sharing patterns through matrix, slicing, joining, reduction and broadcasting operations.
func HMatrix() {
	vsym.Generic(true)
	g := G.NewGraph()
	dt := dts[vsym.Choice("width", 2)]
	k := vsym.Choice("pattern", 15)
	var a, b, v *hlp.In
	ins := []*hlp.In{}
	need := []string{"a", "a", "ab", "ab", "av", "v", "a", "a", "a", "a", "v", "ab", "a", "a", "a"}[k]
	var na, nb, nv *G.Node
	for _, c := range need {
		switch c {
		case 'a':
			a = hlp.Sym(g, dt, "a", 2, 2)
			na, ins = a.N, append(ins, a)
		case 'b':
			b = hlp.Sym(g, dt, "b", 2, 2)
			nb, ins = b.N, append(ins, b)
		case 'v':
			v = hlp.Sym(g, dt, "v", 2)
			nv, ins = v.N, append(ins, v)
		}
	}
	grads(g, hlp.Weighted(g, mpattern(k, na, nb, nv)), ins...)
}

// HIntermediate: the gradient the interpreting machine leaves on an intermediate node used several times. The node
// is x = f(a)+p where p is used nowhere else, so its gradient is the derivative with respect to p.
func HIntermediate() {
	vsym.Generic(true)
	g := G.NewGraph()
	dt := dts[vsym.Choice("width", 2)]
	shs := [][]int{nil, {2}}
	sh := shs[vsym.Choice("shape", len(shs))]
	k := vsym.Choice("pattern", 11)
	a, p := hlp.Sym(g, dt, "a", sh...), hlp.Sym(g, dt, "p", sh...)
	ins := []*hlp.In{a, p}
	var nb *G.Node
	if !usesOnlyA(k) {
		b := hlp.Sym(g, dt, "b", sh...)
		nb, ins = b.N, append(ins, b)
	}
	x := hlp.Node(G.Add(hlp.Node(G.Square(a.N)), p.N))
	cost := hlp.Weighted(g, pattern(k, x, nb))
	hlp.LispGrads(g, cost, ins...)
	d, err := x.Grad()
	hlp.Ok(err, "gradient")
	hlp.Deriv(hlp.Nums(cost.Value())[0], p, d, "gradient of the intermediate node", 0)
}

// HRequests: every subset and order of gradient requests over three inputs gives the derivatives. Requests made in
// several calls may be refused, but not answered wrongly.
func HRequests() {
	vsym.Generic(true)
	g := G.NewGraph()
	a, b, c := hlp.Sym(g, hlp.F64, "a", 2), hlp.Sym(g, hlp.F64, "b", 2), hlp.Sym(g, hlp.F64, "c", 2)
	N := hlp.Node
	x := N(G.HadamardProd(N(G.Add(a.N, b.N)), N(G.Sub(a.N, c.N))))
	cost := hlp.Weighted(g, N(G.HadamardProd(x, N(G.Tanh(N(G.HadamardProd(x, b.N)))))))
	ins := []*hlp.In{a, b, c}
	perms := hlp.Perms(3)
	p := perms[vsym.Choice("order", len(perms))]
	n := 1 + vsym.Choice("requests", 3)
	split := vsym.Choice("calls", 2) == 1
	p = p[:n]
	var gs G.Nodes
	if split {
		for _, i := range p {
			d, err := G.Grad(cost, ins[i].N)
			if err != nil {
				vsym.Assert(len(gs) > 0, "first request refused")
				break
			}
			gs = append(gs, d[0])
		}
	} else {
		var wrt G.Nodes
		for _, i := range p {
			wrt = append(wrt, ins[i].N)
		}
		var err error
		gs, err = G.Grad(cost, wrt...)
		hlp.Ok(err, "symbolic differentiation")
	}
	hlp.RunTape(g)
	for k, i := range p[:len(gs)] {
		hlp.Deriv(hlp.Nums(cost.Value())[0], ins[i], gs[k].Value(), "gradient", i)
		d, err := ins[i].N.Grad()
		hlp.Ok(err, "gradient of the input")
		hlp.Deriv(hlp.Nums(cost.Value())[0], ins[i], d, "gradient of the input", i)
	}
}

// HOutputToo: a node that is an output and also an intermediate of the cost, and an input used outside the cost as well.
func HOutputToo() {
	vsym.Generic(true)
	g := G.NewGraph()
	a, b := hlp.Sym(g, hlp.F64, "a", 2), hlp.Sym(g, hlp.F64, "b", 2)
	N := hlp.Node
	x := N(G.HadamardProd(a.N, b.N))
	cost := hlp.Weighted(g, N(G.Square(x)))
	other := N(G.Add(N(G.Neg(x)), a.N)) // not part of the cost
	var read G.Value
	if vsym.Choice("read", 2) == 1 {
		G.Read(x, &read)
	}
	hlp.TapeGrads(g, cost, a, b)
	hlp.Is(other, []float64{-a.X[0]*b.X[0] + a.X[0], -a.X[1]*b.X[1] + a.X[1]}, "the other output")
	if read != nil {
		hlp.Same(hlp.Nums(read), []float64{a.X[0] * b.X[0], a.X[1] * b.X[1]}, 1e-6, "value read out")
	}
}

// HRecurrent: the same weights applied at each of up to four steps (backpropagation through time).
func HRecurrent() {
	vsym.Generic(true)
	g := G.NewGraph()
	dt := dts[vsym.Choice("width", 2)]
	steps := 2 + vsym.Choice("steps", 2)
	w, h0 := hlp.Sym(g, dt, "w", 2, 2), hlp.Sym(g, dt, "h", 2)
	h := h0.N
	for i := 0; i < steps; i++ {
		h = hlp.Node(G.Tanh(hlp.Node(G.Mul(w.N, h))))
	}
	grads(g, hlp.Weighted(g, h), w, h0)
}

// HCosts: two or three costs over common nodes differentiated one after the other, in every order: each request is
// answered for its cost. Differentiating a cost again gives the same; the attached gradients are the sums.
func HCosts() {
	vsym.Generic(true)
	dt := dts[vsym.Choice("width", 2)]
	g := G.NewGraph()
	a, b, c := hlp.Sym(g, dt, "a", 2), hlp.Sym(g, dt, "b", 2), hlp.Sym(g, dt, "c", 2)
	N := hlp.Node
	x := N(G.HadamardProd(a.N, b.N))
	y := N(G.Sub(x, c.N))
	costs := []*G.Node{N(G.Sum(N(G.Square(x)))), N(G.Sum(N(G.HadamardProd(y, c.N)))), N(G.Sum(N(G.HadamardProd(y, x))))}
	ins := [][]*hlp.In{{a, b}, {a, b, c}, {c, a, b}}
	p := hlp.Perms(3)[vsym.Choice("order", 6)]
	if vsym.Choice("again", 2) == 1 {
		p = append(p[:2], p[0])
	}
	var gs []G.Nodes
	for _, k := range p {
		var wrt G.Nodes
		for _, in := range ins[k] {
			wrt = append(wrt, in.N)
		}
		d, err := G.Grad(costs[k], wrt...)
		hlp.Ok(err, "differentiating another cost")
		gs = append(gs, d)
	}
	hlp.RunTape(g)
	for i, k := range p {
		for j, in := range ins[k] {
			hlp.Deriv(hlp.Nums(costs[k].Value())[0], in, gs[i][j].Value(), "gradient of one of several costs", j)
		}
	}
}

// HSecond: gradients of gradients: the squared gradients of a cost are a cost again.
func HSecond() {
	vsym.Generic(true)
	dt := dts[vsym.Choice("width", 2)]
	g := G.NewGraph()
	N := hlp.Node
	a, b := hlp.Sym(g, dt, "a", 2), hlp.Sym(g, dt, "b", 2)
	w := hlp.Sym(g, dt, "w", 2, 2)
	var t *G.Node
	ins := []*hlp.In{a, b}
	switch vsym.Choice("function", 10) {
	case 0:
		t = N(G.HadamardProd(N(G.Square(a.N)), b.N))
	case 1:
		t = N(G.HadamardProd(N(G.Cube(a.N)), N(G.Add(a.N, b.N))))
	case 2:
		t = N(G.Tanh(N(G.HadamardProd(a.N, b.N))))
	case 3:
		t = N(G.Exp(N(G.HadamardProd(a.N, b.N))))
	case 4:
		t = N(G.Mul(w.N, N(G.Square(a.N))))
		ins = []*hlp.In{a, w}
	case 5:
		t = N(G.HadamardDiv(a.N, N(G.Exp(b.N))))
	case 6:
		t = N(G.Square(N(G.Mul(a.N, b.N))))
	case 7:
		t = N(G.Square(N(G.Sum(N(G.HadamardProd(a.N, b.N))))))
	case 8:
		t = N(G.Square(N(G.Concat(0, a.N, N(G.HadamardProd(a.N, b.N))))))
	case 9:
		t = N(G.Sin(N(G.Sub(a.N, N(G.Square(b.N))))))
	}
	cost := t
	if !t.IsScalar() {
		cost = N(G.Sum(t))
	}
	wrt := G.Nodes{ins[0].N, ins[1].N}
	gs, err := G.Grad(cost, wrt...)
	hlp.Ok(err, "symbolic differentiation")
	second := N(G.Add(N(G.Sum(N(G.Square(gs[0])))), N(G.Sum(N(G.Square(gs[1]))))))
	hs, err := G.Grad(second, wrt...)
	hlp.Ok(err, "differentiating gradients")
	hlp.RunTape(g)
	for k, in := range ins {
		hlp.Deriv(hlp.Nums(cost.Value())[0], in, gs[k].Value(), "gradient", k)
		hlp.Deriv(hlp.Nums(second.Value())[0], in, hs[k].Value(), "gradient of gradients", k)
	}
}

// HCatalog: every operation of the catalogue of operations, its inputs used by another operation before or after it.
//
//vsym:paths=9000
func HCatalog() {
	vsym.Generic(true)
	es := hlp.Catalog()
	e := es[vsym.Choice("operation", len(es))]
	vsym.Assume(!e.Flat)
	mode := vsym.Choice("mode", 3)
	dt, first := dts[mode&1], mode != 2
	lisp := vsym.Choice("machine", 2) == 1
	vsym.Assume(!lisp || !e.NoLisp)
	g := G.NewGraph()
	ins := e.Ins(g, dt, e.Draw())
	N := hlp.Node
	var z *G.Node
	if first {
		z = e.Build(ins)
	}
	var other *G.Node
	for _, in := range ins {
		t := N(G.Cube(in.N))
		if !t.IsScalar() {
			t = N(G.Sum(t))
		}
		if other == nil {
			other = t
		} else {
			other = N(G.Add(other, t))
		}
	}
	if !first {
		z = e.Build(ins)
	}
	z = hlp.Weighted(g, z)
	if first {
		z = N(G.Add(z, other))
	} else {
		z = N(G.Add(other, z))
	}
	if lisp {
		hlp.LispGrads(g, z, ins...)
	} else {
		hlp.TapeGrads(g, z, ins...)
	}
}

// HBound: gradients attached for every choice of the inputs when several inputs have the same gradient.
func HBound() {
	vsym.Generic(true)
	dt := dts[vsym.Choice("width", 2)]
	sh := [][]int{{2}, nil}[vsym.Choice("shape", 2)]
	g := G.NewGraph()
	N := hlp.Node
	a, b, c := hlp.Sym(g, dt, "a", sh...), hlp.Sym(g, dt, "b", sh...), hlp.Sym(g, dt, "c", sh...)
	ins := []*hlp.In{a, b, c}
	var z *G.Node
	switch vsym.Choice("cost", 4) {
	case 0:
		z = N(G.Add(N(G.Add(a.N, b.N)), c.N))
	case 1:
		z = N(G.Sub(N(G.Add(a.N, c.N)), b.N))
	case 2:
		z = N(G.HadamardProd(N(G.Add(a.N, b.N)), c.N))
	case 3:
		z = N(G.Add(N(G.Square(N(G.Add(b.N, c.N)))), N(G.Neg(a.N))))
	}
	cost := hlp.Weighted(g, z)
	p := hlp.Perms(3)[vsym.Choice("order", 6)]
	gs, err := G.Grad(cost, ins[p[0]].N, ins[p[1]].N, ins[p[2]].N)
	hlp.Ok(err, "symbolic differentiation")
	var bound G.Nodes
	n := 1 + vsym.Choice("bound", 3)
	for _, i := range p[:n] {
		bound = append(bound, ins[i].N)
	}
	m := G.NewTapeMachine(g, G.BindDualValues(bound...))
	hlp.Ok(m.RunAll(), "run")
	var attached [][]float64
	for k, i := range p {
		hlp.Deriv(hlp.Nums(cost.Value())[0], ins[i], gs[k].Value(), "gradient", i)
		if k < n {
			d, err := ins[i].N.Grad()
			hlp.Ok(err, "attached gradient")
			hlp.Deriv(hlp.Nums(cost.Value())[0], ins[i], d, "attached gradient", i)
			attached = append(attached, append([]float64{}, hlp.Nums(d)...))
		}
	}
	// a second run adds to what is attached
	m.Reset()
	hlp.Ok(m.RunAll(), "second run")
	for k, i := range p[:n] {
		d, err := ins[i].N.Grad()
		hlp.Ok(err, "attached gradient")
		for j := range attached[k] {
			attached[k][j] *= 2
		}
		hlp.Same(hlp.Nums(d), attached[k], hlp.Tol(dt), "attached gradient after two runs")
	}
	hlp.Ok(m.Close(), "close")
}

// HRoots: results that are no scalars, of which the interpreting machine takes the gradients of the sums of elements, in one run or in the second
// of two runs, alone or with a scalar result.
func HRoots() {
	vsym.Generic(true)
	dt := dts[vsym.Choice("width", 2)]
	sh := [][]int{{2}, {2, 2}, nil, {1}}[vsym.Choice("shape", 4)]
	g := G.NewGraph()
	N := hlp.Node
	a, b := hlp.Sym(g, dt, "a", sh...), hlp.Sym(g, dt, "b", sh...)
	roots := []*G.Node{N(G.HadamardProd(N(G.Square(a.N)), b.N))}
	if vsym.Choice("roots", 2) == 1 {
		roots = append(roots, N(G.Sub(N(G.Cube(b.N)), a.N)))
		if len(sh) > 0 {
			roots = append(roots, N(G.Sum(N(G.HadamardProd(a.N, b.N)))))
		}
	}
	m := G.NewLispMachine(g, G.WithManualGradient())
	runs := 1 + vsym.Choice("runs", 2)
	for i := 0; i < runs; i++ {
		for _, in := range []*hlp.In{a, b} {
			if i > 0 {
				d, err := in.N.Grad()
				hlp.Ok(err, "gradient")
				G.ZeroValue(d)
			}
		}
		for _, r := range roots {
			if i > 0 {
				d, err := r.Grad()
				hlp.Ok(err, "gradient of a result")
				G.ZeroValue(d)
			}
		}
		hlp.Ok(m.RunAll(), "run")
		var cost float64
		for _, r := range roots {
			for _, x := range hlp.Nums(r.Value()) {
				cost += x
			}
		}
		for k, in := range []*hlp.In{a, b} {
			d, err := in.N.Grad()
			hlp.Ok(err, "gradient")
			hlp.Deriv(cost, in, d, "gradient of the sum of the results", k)
		}
		m.Reset()
	}
	hlp.Ok(m.Close(), "close")
}

// HViews: every operation of the catalogue of operations on operands that are transposes or slices, and on inputs bound to strided views
// and transposed tensors: gradients reach the elements that the views show and no others.
//
//vsym:paths=9000
func HViews() {
	vsym.Generic(true)
	es := hlp.Catalog()
	e := es[vsym.Choice("operation", len(es))]
	vsym.Assume(!e.Flat)
	form := vsym.Choice("form", 5)
	lisp := vsym.Choice("machine", 2) == 1
	vsym.Assume(!lisp || !e.NoLisp)
	g := G.NewGraph()
	ns, ins, any := e.Viewed(g, dts[form&1], e.Draw(), form)
	vsym.Assume(any)
	z := hlp.Weighted(g, hlp.Node(e.F(ns)))
	if lisp {
		hlp.LispGrads(g, z, ins...)
	} else {
		hlp.TapeGrads(g, z, ins...)
	}
}
