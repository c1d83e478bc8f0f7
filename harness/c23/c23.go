// Package c23: failures while running are reported and leave nothing behind.
package c23

import (
	"math"
	"sync"

	"gonum.org/v1/gonum/blas"
	"gonum.org/v1/gonum/blas/gonum"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{hlp.F64, hlp.F32}

// kinds of machine
const (
	tape = iota
	tapeGrad
	tapeTrace
	lispFwd
	lisp
	machines
)

func isLisp(kind int) bool { return kind == lispFwd || kind == lisp }

// net is a small network with an operation that can fail between any two of its others, evaluated and differentiated.
type net struct {
	kind   int
	g      *G.ExprGraph
	ins    []*hlp.In
	faults []*hlp.Fault
	points G.Nodes
	watch  []*G.Value
	grads  G.Nodes
	cost   *G.Node
	m      G.VM
}

const points = 4 // that can fail in evaluating, and as many in differentiating

func build(kind int, dt tensor.Dtype, prog int, xs [][]float64, opts ...G.VMOpt) *net {
	s := &net{kind: kind, g: G.NewGraph()}
	x := hlp.Var(s.g, dt, "x", xs[0], 2, 2)
	y := hlp.Var(s.g, dt, "y", xs[1], 2, 2)
	s.ins = []*hlp.In{x, y}
	maybe := func(n *G.Node) *G.Node {
		f := &hlp.Fault{Diff: new(hlp.Fault)}
		s.faults = append(s.faults, f)
		n = hlp.Faulty(n, string(rune('a'+len(s.points))), f)
		s.points = append(s.points, n)
		s.watch = append(s.watch, hlp.Watch(n))
		return n
	}
	var last *G.Node
	switch prog {
	case 0: // a chain
		a := maybe(hlp.Node(G.Add(x.N, y.N)))
		b := maybe(hlp.Node(G.HadamardProd(a, x.N)))
		c := maybe(hlp.Node(G.Square(b)))
		last = maybe(hlp.Node(G.Sub(c, y.N)))
	case 1: // a product, and two ways from one point
		a := maybe(x.N)
		b := maybe(hlp.Node(G.Mul(a, y.N)))
		c := maybe(hlp.Node(G.Neg(y.N)))
		d := hlp.Node(G.Add(b, a))
		last = maybe(hlp.Node(G.HadamardProd(d, c)))
	case 2: // all at the leaves
		a := maybe(x.N)
		b := maybe(y.N)
		c := maybe(hlp.Node(G.Transpose(a)))
		d := maybe(hlp.Node(G.Reshape(hlp.Node(G.Concat(0, b, c)), tensor.Shape{2, 4})))
		last = d
	}
	s.cost = hlp.Node(G.Sum(hlp.Node(G.Square(last))))
	s.watch = append(s.watch, hlp.Watch(s.cost))
	wrt := G.Nodes{x.N, y.N}
	switch kind {
	case tape:
		s.m = G.NewTapeMachine(s.g, opts...)
	case tapeTrace:
		s.m = G.NewTapeMachine(s.g, append(opts, G.TraceExec())...)
	case tapeGrad:
		var err error
		s.grads, err = G.Grad(s.cost, wrt...)
		hlp.Ok(err, "symbolic differentiation")
		for _, n := range s.grads {
			s.watch = append(s.watch, hlp.Watch(n))
		}
		s.m = G.NewTapeMachine(s.g, append(opts, G.BindDualValues(wrt...))...)
	case lispFwd:
		s.m = G.NewLispMachine(s.g, append(opts, G.ExecuteFwdOnly())...)
	case lisp:
		s.m = G.NewLispMachine(s.g, opts...)
	}
	return s
}

// clear sets the attached gradients to zero.
func (s *net) clear() {
	for _, in := range s.ins {
		clear(in.N)
	}
}

func clear(n *G.Node) {
	d, err := n.Grad()
	if err != nil || d == nil {
		return
	}
	switch x := d.(type) {
	case *G.F64:
		*x = 0
	case *G.F32:
		*x = 0
	case *tensor.Dense:
		x.Zero()
	}
}

// agrees compares everything computed with that of another network.
func (s *net) agrees(f *net) {
	tol := hlp.Tol(s.ins[0].DT) * 100
	for i := range s.watch {
		hlp.SameShape((*s.watch[i]).Shape(), (*f.watch[i]).Shape(), "shape")
		hlp.Same(hlp.Nums(*s.watch[i]), hlp.Nums(*f.watch[i]), tol, "value after a failure")
	}
	if s.kind != lisp && s.kind != tapeGrad {
		return
	}
	for i := range s.ins {
		d, err := s.ins[i].N.Grad()
		hlp.Ok(err, "gradient")
		e, err := f.ins[i].N.Grad()
		hlp.Ok(err, "gradient")
		hlp.Same(hlp.Nums(d), hlp.Nums(e), tol, "gradient after a failure")
	}
}

func draw() [][]float64 { return [][]float64{hlp.Syms("x", 4), hlp.Syms("y", 4)} }

// located checks that an error which names a node names this one.
func located(err error, n *G.Node) {
	if e, ok := err.(interface{ Node() *G.Node }); ok {
		vsym.Assert(e.Node() != nil, "the error is for no node")
		vsym.Assert(e.Node() == n, "the error is for another node")
		vsym.Cover("located")
	}
}

// pick is a position at which this kind of machine can fail.
func (s *net) pick() (*hlp.Fault, *G.Node) {
	n := points
	if s.kind == lisp || s.kind == tapeGrad {
		n = 2 * points
	}
	at := vsym.Choice("position", n)
	if at < points {
		return s.faults[at], s.points[at]
	}
	return s.faults[at-points].Diff, nil
}

// HFault: a failure at any of 4 positions of evaluating or 4 of differentiating in 3 programs, in the first or second run,
// on 5 kinds of machine, then a good run.
//
//vsym:paths=20000
func HFault() {
	vsym.Generic(true)
	kind := vsym.Choice("machine", machines)
	prog := vsym.Choice("program", 3)
	xs := draw()
	s := build(kind, hlp.F64, prog, xs)
	if vsym.Bool("second run") {
		hlp.Ok(s.m.RunAll(), "run")
		s.m.Reset()
		s.clear()
	}
	f, n := s.pick()
	f.On = true
	err := s.m.RunAll()
	vsym.Assert(err != nil, "a failing operation is not reported")
	if n != nil {
		located(err, n)
	}
	f.On = false
	s.m.Reset()
	s.clear()
	if vsym.Bool("bind") {
		xs = draw()
		for i, in := range s.ins {
			in.Rebind(xs[i])
		}
	}
	hlp.Ok(s.m.RunAll(), "run after a failure")
	fresh := build(kind, hlp.F64, prog, xs)
	hlp.Ok(fresh.m.RunAll(), "fresh run")
	s.agrees(fresh)
	hlp.Ok(s.m.Close(), "close")
}

// HSchedules: no failure, or one at any of 4 positions of evaluating or differentiating, on 5 kinds of machine and in any
// order of their goroutines with up to 2 preemptions, then a good run.
//
//vsym:paths=20000
func HSchedules() {
	vsym.Schedules(2)
	vsym.Generic(true)
	kind := vsym.Choice("machine", machines)
	xs := draw()
	s := build(kind, hlp.F64, 1, xs)
	fail := vsym.Bool("fail")
	if fail {
		f, n := s.pick()
		f.On = true
		err := s.m.RunAll()
		vsym.Assert(err != nil, "a failing operation is not reported")
		if n != nil {
			located(err, n)
		}
		f.On = false
		s.m.Reset()
		s.clear()
	}
	hlp.Ok(s.m.RunAll(), "run")
	vsym.Schedules(-1)
	fresh := build(kind, hlp.F64, 1, xs)
	hlp.Ok(fresh.m.RunAll(), "fresh run")
	s.agrees(fresh)
	hlp.Ok(s.m.Close(), "close")
}

// HTwice: two failures one after the other, at any two positions, each reported for its node; with or without resetting
// after the first (when it is the same operation that goes on failing), then a good run.
//
//vsym:paths=20000
func HTwice() {
	vsym.Generic(true)
	kind := vsym.Choice("machine", machines)
	dt := dts[vsym.Choice("dtype", 2)]
	prog := vsym.Choice("program", 3)
	xs := draw()
	s := build(kind, dt, prog, xs)
	f, n := s.pick()
	f.On = true
	err := s.m.RunAll()
	vsym.Assert(err != nil, "a failing operation is not reported")
	if n != nil {
		located(err, n)
	}
	if n == nil || vsym.Bool("reset") {
		f.On = false
		s.m.Reset()
		f, n = s.pick()
		f.On = true
	}
	err = s.m.RunAll()
	vsym.Assert(err != nil, "a second failure is not reported")
	if n != nil {
		located(err, n)
	}
	f.On = false
	s.m.Reset()
	s.clear()
	hlp.Ok(s.m.RunAll(), "run after two failures")
	fresh := build(kind, dt, prog, xs)
	hlp.Ok(fresh.m.RunAll(), "fresh run")
	s.agrees(fresh)
}

// HUnbound: an input that has no value is reported, for a scalar, a vector and a matrix, used first or last; once it has
// one, the machine runs.
func HUnbound() {
	vsym.Schedules(2)
	kind := vsym.Choice("machine", machines)
	dt := dts[vsym.Choice("dtype", 2)]
	g := G.NewGraph()
	shapes := [][]int{{}, {2}, {2, 2}}
	var ns G.Nodes
	for i, sh := range shapes {
		name := string(rune('a' + i))
		if len(sh) == 0 {
			ns = append(ns, G.NewScalar(g, dt, G.WithName(name)))
		} else {
			ns = append(ns, G.NewTensor(g, dt, len(sh), G.WithName(name), G.WithShape(sh...)))
		}
	}
	t := hlp.Node(G.HadamardProd(hlp.Node(G.Mul(ns[2], ns[1])), ns[0]))
	cost := hlp.Node(G.Sum(t))
	v := hlp.Watch(cost)
	var m G.VM
	switch kind {
	case tape:
		m = G.NewTapeMachine(g)
	case tapeTrace:
		m = G.NewTapeMachine(g, G.TraceExec())
	case tapeGrad:
		_, err := G.Grad(cost, ns...)
		hlp.Ok(err, "symbolic differentiation")
		m = G.NewTapeMachine(g, G.BindDualValues(ns...))
	case lispFwd:
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	case lisp:
		m = G.NewLispMachine(g)
	}
	xs := [][]float64{hlp.Syms("a", 1), hlp.Syms("b", 2), hlp.Syms("c", 4)}
	bind := func(i int) {
		if i == 0 {
			hlp.Ok(G.Let(ns[0], hlp.Scalar(dt, xs[0][0])), "binding")
			return
		}
		hlp.Ok(G.Let(ns[i], hlp.Dense(dt, xs[i], shapes[i]...)), "binding")
	}
	k := vsym.Choice("unbound", 3)
	for i := range ns {
		if i != k {
			bind(i)
		}
	}
	err := m.RunAll()
	vsym.Assert(err != nil, "an input without a value is not reported")
	located(err, ns[k])
	m.Reset()
	bind(k)
	hlp.Ok(m.RunAll(), "run once all are bound")
	x, w, b := xs[0][0], xs[2], xs[1]
	hlp.Same(hlp.Nums(*v), []float64{x * (w[0]*b[0] + w[1]*b[1] + w[2]*b[0] + w[3]*b[1])}, hlp.Tol(dt)*10, "value")
}

// what can be watched for
const (
	watchNaN = 1 << iota
	watchInf
)

func watching(w int) []G.VMOpt {
	var opts []G.VMOpt
	if w&watchNaN != 0 {
		opts = append(opts, G.WithNaNWatch())
	}
	if w&watchInf != 0 {
		opts = append(opts, G.WithInfWatch())
	}
	return opts
}

var nums = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}

func caught(w, num int) bool {
	if num == 0 {
		return w&watchNaN != 0
	}
	return w&watchInf != 0
}

// HWatch: a number that is watched for, put at the first or last element of the result of any of 4 positions of evaluating or 4 of
// differentiating in 3 programs, is reported by 5 kinds of machine; then a good run.
//
//vsym:paths=20000
func HWatch() {
	kind := vsym.Choice("machine", machines)
	dt := dts[vsym.Choice("dtype", 2)]
	prog := vsym.Choice("program", 3)
	w := 1 + vsym.Choice("watch", 3)
	num := vsym.Choice("number", len(nums))
	vsym.Assume(caught(w, num))
	xs := [][]float64{{1, 2, 3, 4}, {2, 1, 1, 3}}
	s := build(kind, dt, prog, xs, watching(w)...)
	f, n := s.pick()
	f.Bad = true
	f.Num = nums[num]
	f.At = 3 * vsym.Choice("element", 2)
	err := s.m.RunAll()
	vsym.Assert(err != nil, "a number that is watched for is not reported")
	if n != nil {
		located(err, n)
	}
	f.Bad = false
	if f.At != 0 {
		return
	}
	s.m.Reset()
	s.clear()
	xs = draw()
	for i, in := range s.ins {
		in.Rebind(xs[i])
	}
	hlp.Ok(s.m.RunAll(), "run after a number that is watched for")
	fresh := build(kind, dt, prog, xs)
	hlp.Ok(fresh.m.RunAll(), "fresh run")
	s.agrees(fresh)
}

// bad are operations which give a number that is watched for from ordinary ones.
type bad struct {
	num   int
	shape []int
	f     func(x *G.Node) (*G.Node, error)
	grad  bool // only the gradient has it
}

var bads = []bad{
	{0, nil, func(x *G.Node) (*G.Node, error) { return G.Sqrt(x) }, false},
	{0, []int{2}, func(x *G.Node) (*G.Node, error) { return G.Sqrt(x) }, false},
	{2, nil, func(x *G.Node) (*G.Node, error) { return G.Log(x) }, false},
	{2, []int{2}, func(x *G.Node) (*G.Node, error) { return G.Log(x) }, false},
	{1, nil, func(x *G.Node) (*G.Node, error) { return G.Inverse(x) }, false},
	{1, []int{2}, func(x *G.Node) (*G.Node, error) { return G.Inverse(x) }, false},
	{1, []int{2}, func(x *G.Node) (*G.Node, error) { return G.Sqrt(x) }, true},
	{1, nil, func(x *G.Node) (*G.Node, error) { return G.Sqrt(x) }, true},
}

// HComputed: 8 operations which give a number that is watched for, or have it as gradient, from a zero or negative number at any place, in
// scalars and vectors.
//
//vsym:paths=20000
func HComputed() {
	kind := vsym.Choice("machine", machines)
	dt := dts[vsym.Choice("dtype", 2)]
	w := 1 + vsym.Choice("watch", 3)
	b := bads[vsym.Choice("operation", len(bads))]
	vsym.Assume(caught(w, b.num))
	vsym.Assume(!b.grad || kind == tapeGrad || kind == lisp)
	g := G.NewGraph()
	x := []float64{1}
	if b.shape != nil {
		x = []float64{1, 1}
	}
	at := vsym.Choice("element", len(x))
	x[at] = 0
	if b.num == 0 {
		x[at] = -1
	}
	in := hlp.Var(g, dt, "x", x, b.shape...)
	cost := hlp.Node(b.f(in.N))
	if b.shape != nil {
		cost = hlp.Node(G.Sum(cost))
	}
	var m G.VM
	switch kind {
	case tape:
		m = G.NewTapeMachine(g, watching(w)...)
	case tapeTrace:
		m = G.NewTapeMachine(g, append(watching(w), G.TraceExec())...)
	case tapeGrad:
		_, err := G.Grad(cost, in.N)
		hlp.Ok(err, "symbolic differentiation")
		m = G.NewTapeMachine(g, append(watching(w), G.BindDualValues(in.N))...)
	case lispFwd:
		m = G.NewLispMachine(g, append(watching(w), G.ExecuteFwdOnly())...)
	case lisp:
		m = G.NewLispMachine(g, watching(w)...)
	}
	err := m.RunAll()
	vsym.Assert(err != nil, "a number that is watched for is not reported")
	x[at] = 4
	x[0]++
	m.Reset()
	clear(in.N)
	in.Rebind(x)
	hlp.Ok(m.RunAll(), "run after a number that is watched for")
}

// HQuiet: nothing is reported where there is no number that is watched for: for all contents, with scalars, vectors,
// numbers of other types, comparisons and reading.
//
//vsym:paths=20000
func HQuiet() {
	kind := vsym.Choice("machine", machines)
	dt := dts[vsym.Choice("dtype", 2)]
	w := 1 + vsym.Choice("watch", 3)
	g := G.NewGraph()
	a := hlp.Sym(g, dt, "a")
	b := hlp.Sym(g, dt, "b")
	x := hlp.Sym(g, dt, "x", 2)
	y := hlp.Sym(g, dt, "y", 2)
	var n *G.Node
	prog := vsym.Choice("program", 6)
	vsym.Assume(prog < 4 || kind != lisp && kind != tapeGrad)
	switch prog {
	case 0:
		n = hlp.Node(G.Add(hlp.Node(G.Mul(a.N, b.N)), hlp.Node(G.Mul(x.N, y.N))))
	case 1:
		n = hlp.Node(G.Mul(hlp.Node(G.Gt(a.N, b.N, true)), hlp.Node(G.Sum(hlp.Node(G.Lt(x.N, y.N, true))))))
	case 2:
		n = hlp.Node(G.Sum(hlp.Node(G.HadamardProd(x.N, a.N))))
		n = hlp.Node(G.Sub(n, hlp.Node(G.At(y.N, 1))))
		n = hlp.Node(G.Sub(n, b.N))
	case 3:
		n = hlp.Node(G.Sum(hlp.Node(G.Concat(0, x.N, y.N))))
		n = hlp.Node(G.Sub(n, hlp.Node(G.Neg(a.N))))
		n = hlp.Node(G.Sub(n, b.N))
	case 4:
		n = hlp.Node(G.Gt(a.N, b.N, false))
	case 5:
		n = hlp.Node(G.Lt(x.N, y.N, false))
	}
	v := hlp.Watch(n)
	var m G.VM
	switch kind {
	case tape:
		m = G.NewTapeMachine(g, watching(w)...)
	case tapeTrace:
		m = G.NewTapeMachine(g, append(watching(w), G.TraceExec())...)
	case tapeGrad:
		if prog == 1 || prog == 2 {
			vsym.Assume(false) // not differentiable
		}
		wrt := G.Nodes{a.N, b.N, x.N, y.N}
		_, err := G.Grad(n, wrt...)
		hlp.Ok(err, "symbolic differentiation")
		m = G.NewTapeMachine(g, append(watching(w), G.BindDualValues(wrt...))...)
	case lispFwd:
		m = G.NewLispMachine(g, append(watching(w), G.ExecuteFwdOnly())...)
	case lisp:
		if prog == 1 || prog == 2 {
			vsym.Assume(false)
		}
		m = G.NewLispMachine(g, watching(w)...)
	}
	hlp.Ok(m.RunAll(), "watched run")
	m.Reset()
	hlp.Ok(m.RunAll(), "watched run again")
	vsym.Assert(*v != nil, "nothing read")
	vsym.Cover("quiet")
}

// batched is an implementation of linear algebra which collects matrix products and works on them when asked to.
type batched struct {
	gonum.Implementation
	avail chan struct{}
	mu    sync.Mutex
	todo  []func()
	done  int
}

func (b *batched) WorkAvailable() <-chan struct{} { return b.avail }
func (b *batched) Close() error                   { return nil }

func (b *batched) DoWork() {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, f := range b.todo {
		f()
		b.done++
	}
	b.todo = nil
}

func (b *batched) add(f func()) {
	b.mu.Lock()
	b.todo = append(b.todo, f)
	b.mu.Unlock()
	select {
	case b.avail <- struct{}{}:
	default:
	}
}

func (b *batched) Dgemm(tA, tB blas.Transpose, m, n, k int, alpha float64, x []float64, lda int, y []float64, ldb int, beta float64, c []float64, ldc int) {
	b.add(func() { b.Implementation.Dgemm(tA, tB, m, n, k, alpha, x, lda, y, ldb, beta, c, ldc) })
}

// HBatched: products done by an implementation which works on them later, in 4 programs with or without gradients and
// tracing, at any time with up to 1 preemption, or with a failure at any of 3 positions and then a good run.
//
//vsym:paths=20000
func HBatched() {
	vsym.Generic(true)
	b := &batched{avail: make(chan struct{}, 1)}
	G.Use(b)
	defer G.Use(gonum.Implementation{})
	g := G.NewGraph()
	x := hlp.Sym(g, hlp.F64, "x", 2, 2)
	y := hlp.Sym(g, hlp.F64, "y", 2, 2)
	X, Y := hlp.A(x.X, 2, 2), hlp.A(y.X, 2, 2)
	f := make([]hlp.Fault, 3)
	p := hlp.Node(G.Mul(x.N, y.N))
	P := mul(X, Y)
	var n *G.Node
	var want hlp.Arr
	prog := vsym.Choice("program", 4)
	switch prog {
	case 0:
		n, want = hlp.Faulty(p, "a", &f[0]), P
	case 1:
		n, want = hlp.Node(G.Mul(p, x.N)), mul(P, X)
	case 2:
		q := hlp.Node(G.Mul(hlp.Faulty(p, "a", &f[0]), p))
		n = hlp.Node(G.Add(hlp.Faulty(q, "b", &f[1]), p))
		want = hlp.Zip(mul(P, P), P, func(a, b float64) float64 { return a + b })
	case 3:
		q := hlp.Node(G.Mul(y.N, p))
		n = hlp.Node(G.HadamardProd(q, hlp.Faulty(p, "b", &f[1])))
		want = hlp.Zip(mul(Y, P), P, func(a, b float64) float64 { return a * b })
	}
	v := hlp.Watch(n)
	cost := hlp.Node(G.Sum(hlp.Faulty(n, "c", &f[2])))
	c := hlp.Watch(cost)
	grad := vsym.Bool("gradients")
	var opts []G.VMOpt
	at := vsym.Choice("position", 4)
	if at == 3 {
		if vsym.Bool("any order") {
			vsym.Schedules(1)
		} else if vsym.Bool("trace") {
			opts = append(opts, G.TraceExec())
		}
	}
	if grad {
		_, err := G.Grad(cost, x.N, y.N)
		hlp.Ok(err, "symbolic differentiation")
		opts = append(opts, G.BindDualValues(x.N, y.N))
	}
	m := G.NewTapeMachine(g, opts...)
	if at < 3 {
		f[at].On = true
		err := m.RunAll()
		if err == nil {
			vsym.Assume(false) // not in this program
		}
		f[at].On = false
		m.Reset()
		clear(x.N)
		clear(y.N)
	}
	hlp.Ok(m.RunAll(), "run")
	vsym.Assert(b.done > 0 && len(b.todo) == 0, "work is left over")
	if len(opts) == 1 && !grad {
		hlp.IsArr(p, P, "value of a product in a trace")
	}
	hlp.ValIsArr(*v, want, 1e-9, "value of a batched product")
	hlp.Same(hlp.Nums(*c), []float64{want.Sum(0, 1).D[0]}, 1e-9, "cost")
	if grad {
		for k, in := range []*hlp.In{x, y} {
			d, err := in.N.Grad()
			hlp.Ok(err, "gradient")
			hlp.Deriv(hlp.Nums(*c)[0], in, d, "gradient of input", k)
		}
	}
}

func mul(a, b hlp.Arr) hlp.Arr { return hlp.Dot(a, b, []int{1}, []int{0}) }
