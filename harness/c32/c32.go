// Package c32 checks functions lifted to results.
package c32

import (
	"errors"

	perrors "github.com/pkg/errors"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var (
	errGiven  = errors.New("given")
	errOther  = errors.New("other")
	errInside = errors.New("inside")
	dts       = []tensor.Dtype{hlp.F64, hlp.F32}
)

// plain is an Input that is not a Result.
type plain struct{ n *G.Node }

func (p plain) Node() *G.Node  { return p.n }
func (p plain) Nodes() G.Nodes { return G.Nodes{p.n} }

// step is a result made: by whom and of what.
type step struct {
	tag      int
	of, gave G.Input
}

// made is an Input which makes results of its own kind.
type made struct {
	plain
	tag int
	log *[]step
}

func (m made) Mk(xs ...G.Input) G.Input {
	vsym.Assert(len(xs) == 1, "a maker is given one input")
	r := made{plain{xs[0].Node()}, m.tag, m.log}
	*m.log = append(*m.log, step{m.tag, xs[0], r})
	return r
}

// kind is a Result which makes results of its own kind.
type kind struct{ made }

func (k kind) Err() error { return nil }
func (k kind) Mk(xs ...G.Input) G.Input {
	r := kind{made{plain{xs[0].Node()}, k.tag, k.log}}
	*k.log = append(*k.log, step{k.tag, xs[0], r})
	return r
}

// failing is an Input that may hold an error.
type failing struct {
	plain
	err error
}

func (f failing) Err() error { return f.err }

const forms = 8

// operand wraps n; the error it carries is the second result.
func operand(n *G.Node, form, tag int, log *[]step) (G.Input, error) {
	switch form {
	case 0:
		return n, nil
	case 1:
		return plain{n}, nil
	case 2:
		return made{plain{n}, tag, log}, nil
	case 3:
		return failing{plain{n}, nil}, nil
	case 4:
		return failing{plain{n}, errGiven}, errGiven
	case 5:
		return G.Err(errOther), errOther
	case 6:
		return kind{made{plain{n}, tag, log}}, nil
	}
	return G.LiftResult(plain{n}, nil), nil
}

func isErr(r G.Result, want error, msg string) {
	vsym.Assert(r.Err() != nil && perrors.Cause(r.Err()) == want, msg+": not the error of the operand")
	vsym.Assert(r.Node() == nil, msg+": an error holds a node")
	vsym.Assert(len(r.Nodes()) == 0, msg+": an error holds nodes")
	vsym.Assert(perrors.Cause(G.CheckOne(r)) == want, msg+": the check of an error")
}

func holds(r G.Result, want *G.Node, msg string) {
	vsym.Assert(r.Err() == nil, msg+": an error although no operand is one")
	vsym.Assert(G.CheckOne(r) == nil, msg+": the check of a result")
	vsym.Assert(r.Node() == want, msg+": another node than the plain function gives")
	vsym.Assert(len(r.Nodes()) == 1 && r.Nodes()[0] == want, msg+": nodes")
}

// HLift: every lifting applied to operands that are nodes, other inputs, makers of their own kind, results and errors, of
// functions that succeed and that fail: which function is applied to what, which result or error comes of it.
//
//vsym:paths=3000
func HLift() {
	dt := dts[vsym.Choice("width", 2)]
	g := G.NewGraph()
	a, b := hlp.Sym(g, dt, "a", 2, 2), hlp.Sym(g, dt, "b", 2, 2)
	fails := vsym.Choice("fails", 2) == 1
	var log []step
	fs := []int{vsym.Choice("left", forms)}
	x, ex := operand(a.N, fs[0], 1, &log)
	var y G.Input
	calls := 0
	call := func(n *G.Node, err error) (*G.Node, error) {
		calls++
		if fails {
			return nil, errInside
		}
		return n, err
	}
	which := vsym.Choice("lifting", 4)
	if which >= 2 {
		var ey error
		fs = append(fs, vsym.Choice("right", forms))
		y, ey = operand(b.N, fs[1], 2, &log)
		if ex == nil {
			ex = ey
		}
	}
	before := len(g.AllNodes())
	var r G.Result
	axis := which & vsym.Choice("axis", 2)
	var ref hlp.Arr
	var plainly func() (*G.Node, error)
	switch which {
	case 0:
		r = G.Lift1(func(n *G.Node) (*G.Node, error) {
			vsym.Assert(n == a.N, "operand")
			return call(G.Cube(n))
		})(x)
		plainly = func() (*G.Node, error) { return G.Cube(a.N) }
		ref = a.Arr().Map(func(v float64) float64 { return v * v * v })
	case 1:
		r = G.Lift1Axial(func(n *G.Node, axes ...int) (*G.Node, error) {
			vsym.Assert(n == a.N && len(axes) == 2 && axes[0] == axis && axes[1] == 1-axis, "operand and axes")
			return call(G.Sum(n, axes[0]))
		})(x, axis, 1-axis)
		plainly = func() (*G.Node, error) { return G.Sum(a.N, axis) }
		ref = a.Arr().Sum(axis)
	case 2:
		r = G.Lift2(func(n, m *G.Node) (*G.Node, error) {
			vsym.Assert(n == a.N && m == b.N, "operands")
			return call(G.Sub(n, m))
		})(x, y)
		plainly = func() (*G.Node, error) { return G.Sub(a.N, b.N) }
		ref = hlp.Zip(a.Arr(), b.Arr(), func(v, w float64) float64 { return v - w })
	case 3:
		r = G.Lift2Broadcast(func(n, m *G.Node, p, q []byte) (*G.Node, error) {
			vsym.Assert(n == a.N && m == b.N && len(p) == 1 && p[0] == 0 && len(q) == 2 && q[0] == 1, "operands and patterns")
			return call(G.HadamardProd(n, m))
		})(x, y, []byte{0}, []byte{1, 2})
		plainly = func() (*G.Node, error) { return G.HadamardProd(a.N, b.N) }
		ref = hlp.Zip(a.Arr(), b.Arr(), func(v, w float64) float64 { return v * w })
	}
	if ex != nil {
		isErr(r, ex, "an operand that is an error")
		vsym.Assert(calls == 0, "the function is applied although an operand is an error")
		vsym.Assert(len(log) == 0, "something is made although an operand is an error")
		vsym.Assert(len(g.AllNodes()) == before, "a node is made although an operand is an error")
		vsym.Cover("errors")
		return
	}
	vsym.Assert(calls == 1, "the function is applied once")
	if fails {
		isErr(r, errInside, "a function that fails")
		vsym.Assert(len(log) == 0, "something is made of an error")
		vsym.Cover("failures")
		return
	}
	want := hlp.Node(plainly())
	holds(r, want, "a lifted function")
	var last G.Input = want
	k := 0
	for i, f := range fs {
		if f != 2 && f != 6 {
			continue
		}
		vsym.Assert(k < len(log), "a maker is not asked", i)
		vsym.Assert(log[k].tag == i+1 && log[k].of == last, "makers are asked in order, each of what the one before made", i)
		last = log[k].gave
		k++
	}
	vsym.Assert(k == len(log), "makers are asked more than once")
	if res, ok := last.(G.Result); ok {
		vsym.Assert(G.Input(r) == G.Input(res), "a result is what the last maker made")
	}
	hlp.RunTape(g)
	hlp.ValIsArr(r.Node().Value(), ref, hlp.Tol(dt), "value of a lifted function")
	vsym.Cover("results")
}

// HChain: a chain of four lifted functions with a failure in none or in any of them, values and gradients of the whole.
//
//vsym:paths=2000
func HChain() {
	vsym.Generic(true)
	dt := dts[vsym.Choice("width", 2)]
	at := vsym.Choice("failure at", 6) - 1
	g := G.NewGraph()
	a, b := hlp.Sym(g, dt, "a", 2, 3), hlp.Sym(g, dt, "b", 3)
	var calls [5]int
	one := func(i int, f func(*G.Node) (*G.Node, error)) func(G.Input) G.Result {
		return G.Lift1(func(n *G.Node) (*G.Node, error) {
			calls[i]++
			if i == at {
				return nil, errInside
			}
			return f(n)
		})
	}
	two := func(i int, f func(x, y *G.Node) (*G.Node, error)) func(x, y G.Input) G.Result {
		return G.Lift2(func(n, m *G.Node) (*G.Node, error) {
			calls[i]++
			if i == at {
				return nil, errInside
			}
			return f(n, m)
		})
	}
	p := one(0, G.Tanh)(a.N)
	q := one(1, G.Square)(b.N)
	r := two(2, func(x, y *G.Node) (*G.Node, error) { return G.Mul(x, y) })(p, q)
	s := two(3, G.HadamardProd)(r, G.Lift1Axial(G.Sum)(p, 1))
	t := G.Lift1Axial(func(n *G.Node, axes ...int) (*G.Node, error) {
		calls[4]++
		if at == 4 {
			return nil, errInside
		}
		return G.Sum(n, axes...)
	})(s)
	if at >= 0 {
		isErr(t, errInside, "a chain in which a function fails")
		uses := [5][]int{{}, {}, {0, 1}, {0, 1, 2}, {0, 1, 2, 3}}
		for i, c := range calls {
			dead := false
			for _, u := range uses[i] {
				if u == at {
					dead = true
				}
			}
			if dead {
				vsym.Assert(c == 0, "a function is applied after a failure", i)
			} else {
				vsym.Assert(c == 1, "a function is applied once", i)
			}
		}
		vsym.Cover("failed chain")
		return
	}
	vsym.Assert(t.Err() == nil, "a chain without failures fails")
	if vsym.Choice("machine", 2) == 1 {
		hlp.LispGrads(g, t.Node(), a, b)
	} else {
		hlp.TapeGrads(g, t.Node(), a, b)
	}
	th := a.Arr().Map(vsym.Tanh)
	sq := b.Arr().Map(func(v float64) float64 { return v * v })
	sum := 0.0
	for i := 0; i < 2; i++ {
		d, e := 0.0, 0.0
		for j := 0; j < 3; j++ {
			d += th.At(i, j) * sq.At(j)
			e += th.At(i, j)
		}
		sum += d * e
	}
	hlp.Is(t.Node(), []float64{sum}, "value of a chain")
	vsym.Cover("chain")
}

// HCollect: collecting the nodes of up to three inputs of any form, of which two may be the same, and making results of nodes, of lists and of errors.
//
//vsym:paths=4000
func HCollect() {
	g := G.NewGraph()
	names := []string{"a", "b", "c"}
	var log []step
	var ns G.Nodes
	var xs []G.Input
	var first error
	bad := false
	n := vsym.Choice("inputs", 4)
	for i := 0; i < n; i++ {
		node := G.NewScalar(g, hlp.F64, G.WithName(names[i]))
		if i == n-1 && i > 0 && vsym.Choice("again", 2) == 1 {
			node = ns[0]
		}
		f := vsym.Choice("form", forms+1)
		var x G.Input
		var err error
		if f == forms {
			x = G.Nodes{node, node} // not one node
			bad = bad || first == nil
			if first == nil {
				first = errInside
			}
		} else {
			x, err = operand(node, f, 1, &log)
		}
		if first == nil && err != nil {
			first = err
		}
		ns, xs = append(ns, node), append(xs, x)
	}
	got, err := G.NodesFromInputs(xs...)
	switch {
	case bad:
		vsym.Assert(err != nil && got == nil, "several nodes are taken as one")
	case first != nil:
		vsym.Assert(err != nil && perrors.Cause(err) == first && got == nil, "collecting an error")
	default:
		vsym.Assert(err == nil && len(got) == n, "collecting nodes")
		for i := range got {
			vsym.Assert(got[i] == ns[i], "a collected node", i)
		}
	}
	r := G.LiftResult(ns, nil)
	vsym.Assert(r.Err() == nil && len(r.Nodes()) == n, "a result of a list")
	isErr(G.LiftResult(ns, errGiven), errGiven, "a result of an error")
	isErr(G.TransformResult(xs...)(ns, errGiven), errGiven, "a transformed error")
	vsym.Assert(len(log) == 0, "something is made of an error")
	if n > 0 {
		holds(G.LiftResult(plain{ns[0]}, nil), ns[0], "a result of an input")
		holds(G.LiftResult(ns[0], nil), ns[0], "a result of a node")
	}
	vsym.Cover("collected")
}
