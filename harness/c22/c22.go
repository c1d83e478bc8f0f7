// Package c22: weight initialisers and random draws.
package c22

import (
	rng "github.com/leesper/go_rng"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// draws records the symbolic draws made.
type draws struct{ uni, norm []float64 }

func watch() *draws {
	d := new(draws)
	rng.Draw = func() float64 {
		v := vsym.Float64In("draw", 0, 1)
		vsym.Assume(v < 1)
		d.uni = append(d.uni, v)
		return v
	}
	rng.DrawNormal = func() float64 {
		v := vsym.Float64In("normal", -10, 10)
		d.norm = append(d.norm, v)
		return v
	}
	return d
}

func near(a, b float64) bool { return a-b < 1e-5 && b-a < 1e-5 }

// values are the elements of a backing of the expected type.
func values(b interface{}, dt tensor.Dtype, n int) []float64 {
	var r []float64
	switch x := b.(type) {
	case []float64:
		vsym.Assert(dt == hlp.F64, "type of the backing")
		r = x
	case []float32:
		vsym.Assert(dt == hlp.F32, "type of the backing")
		for _, v := range x {
			r = append(r, float64(v))
		}
	case []int:
		vsym.Assert(dt == tensor.Int, "type of the backing")
		for _, v := range x {
			r = append(r, float64(v))
		}
	case []int64:
		vsym.Assert(dt == tensor.Int64, "type of the backing")
		for _, v := range x {
			r = append(r, float64(v))
		}
	case []int32:
		vsym.Assert(dt == tensor.Int32, "type of the backing")
		for _, v := range x {
			r = append(r, float64(v))
		}
	default:
		vsym.Assert(false, "kind of the backing")
	}
	vsym.Assert(len(r) == n, "number of elements")
	return r
}

// follows holds if every element is the law of a draw of its own.
func follows(x, d []float64, law func(float64) float64, what string) {
	vsym.Assert(len(d) == len(x), what+": number of draws")
	inOrder := true
	for i := range x {
		inOrder = inOrder && near(x[i], law(d[i]))
	}
	if inOrder {
		vsym.Assert(inOrder, what)
		return
	}
	used := make([]bool, len(d))
	for i := range x {
		found := false
		for k := range d {
			if !used[k] && near(x[i], law(d[k])) {
				used[k], found = true, true
				break
			}
		}
		vsym.Assert(found, what, i)
	}
}

var shapes = [][]int{{1}, {3}, {1, 1}, {2, 3}, {3, 2}, {1, 4}, {4, 1}, {2, 3, 2}, {3, 1, 2, 2}, {2, 1, 3, 1}}

func pick() (tensor.Dtype, []int) {
	dt := []tensor.Dtype{hlp.F64, hlp.F32}[vsym.Choice("dtype", 2)]
	return dt, shapes[vsym.Choice("shape", len(shapes))]
}

// HPlain: uniform and normal draws with symbolic parameters, as initialisers and by width.
//
//vsym:paths=4000
func HPlain() {
	dt, sh := pick()
	d := watch()
	n := hlp.Prod(sh)
	kind := vsym.Choice("kind", 4)
	a, b := vsym.Float64In("a", -10, 10), vsym.Float64In("b", -10, 10)
	if kind%2 == 0 {
		vsym.Assume(b-a > 0.001)
	} else {
		vsym.Assume(b > 0)
	}
	var got interface{}
	switch kind {
	case 0:
		got = G.Uniform(a, b)(dt, sh...)
	case 1:
		got = G.Gaussian(a, b)(dt, sh...)
	case 2:
		if dt == hlp.F64 {
			got = G.Uniform64(a, b, sh...)
		} else {
			got = G.Uniform32(a, b, sh...)
		}
	case 3:
		if dt == hlp.F64 {
			got = G.Gaussian64(a, b, sh...)
		} else {
			got = G.Gaussian32(a, b, sh...)
		}
	}
	x := values(got, dt, n)
	if kind%2 == 0 {
		for i := range x {
			vsym.Assert(x[i] >= a-1e-6 && x[i] <= b+1e-6, "range of uniform draws", i)
		}
		follows(x, d.uni, func(u float64) float64 { return a + u*(b-a) }, "uniform")
	} else {
		follows(x, d.norm, func(u float64) float64 { return a + u*b }, "normal")
	}
	vsym.Cover("drawn")
}

// HScaled: initialisers scaled by the number of connections, with a symbolic gain.
//
//vsym:paths=4000
func HScaled() {
	dt, sh := pick()
	d := watch()
	n := hlp.Prod(sh)
	kind := vsym.Choice("kind", 4)
	gain := vsym.Float64In("gain", 0.125, 8)
	if kind >= 2 {
		vsym.Assume(dt == hlp.F64 && len(sh) >= 2)
	}
	field := 1
	for i := 2; i < len(sh); i++ {
		field *= sh[i]
	}
	fan := 1 + sh[0]
	if len(sh) > 1 {
		fan = (sh[0] + sh[1]) * field
	}
	v := 2 / float64(fan) // Glorot et al.: variance of gain² 2/(in+out)
	if kind >= 2 {
		// He et al.: variance of gain²/in
		switch {
		case len(sh) == 2:
			v = 1 / float64(sh[0])
		default:
			v = 1 / float64(sh[1]*field)
		}
	}
	s := vsym.Sqrt(v)
	var x []float64
	switch kind {
	case 0:
		x = values(G.GlorotN(gain)(dt, sh...), dt, n)
	case 1:
		x = values(G.GlorotU(gain)(dt, sh...), dt, n)
	case 2:
		x = values(G.HeN(gain)(dt, sh...), dt, n)
	case 3:
		x = values(G.HeU(gain)(dt, sh...), dt, n)
	}
	if kind%2 == 0 {
		follows(x, d.norm, func(u float64) float64 { return u * gain * s }, "scaled normal")
	} else {
		h := gain * s * vsym.Sqrt(3) // a uniform law of this half width has that variance
		for i := range x {
			vsym.Assert(x[i] >= -h-1e-6 && x[i] <= h+1e-6, "range of scaled uniform draws", i)
		}
		follows(x, d.uni, func(u float64) float64 { return -h + u*2*h }, "scaled uniform")
	}
	vsym.Cover("scaled")
}

// HConstant: zeroes, ones, given values and ranges.
func HConstant() {
	dts := []tensor.Dtype{hlp.F64, hlp.F32, tensor.Int, tensor.Int64, tensor.Int32}
	dt := dts[vsym.Choice("dtype", len(dts))]
	sh := shapes[vsym.Choice("shape", len(shapes))]
	n := hlp.Prod(sh)
	for i, v := range values(G.Zeroes()(dt, sh...), dt, n) {
		vsym.AssertNear(v, 0, 1e-9, "zeroes", i)
	}
	for i, v := range values(G.Ones()(dt, sh...), dt, n) {
		vsym.AssertNear(v, 1, 1e-9, "ones", i)
	}
	start := vsym.Concrete(vsym.Int("start", -2, 3))
	for i, v := range values(G.RangedFrom(start)(dt, sh...), dt, n) {
		vsym.AssertNear(v, float64(start+i), 1e-9, "range", i)
	}
	if dt == tensor.Int64 || dt == tensor.Int32 {
		return
	}
	k := vsym.Int("k", -5, 5)
	st, in := vsym.Float64In("st", -10, 10), vsym.Float64In("in", -10, 10)
	var c interface{} = k
	cv := float64(k)
	pairs := [][2]interface{}{{k, k}}
	want := [][2]float64{{cv, cv}}
	switch dt {
	case hlp.F64:
		c, cv = st, st
		pairs = append(pairs, [2]interface{}{st, in}, [2]interface{}{k, in}, [2]interface{}{st, k})
		want = append(want, [2]float64{st, in}, [2]float64{float64(k), in}, [2]float64{st, float64(k)})
	case hlp.F32:
		c, cv = float32(st), st
		pairs = append(pairs, [2]interface{}{st, in}, [2]interface{}{float32(st), float32(in)}, [2]interface{}{k, float32(in)}, [2]interface{}{st, k})
		want = append(want, [2]float64{st, in}, [2]float64{st, in}, [2]float64{float64(k), in}, [2]float64{st, float64(k)})
	}
	for i, v := range values(G.ValuesOf(c)(dt, sh...), dt, n) {
		vsym.AssertNear(v, cv, 1e-5, "given value", i)
	}
	for j, p := range pairs {
		for i, v := range values(G.RangedFromWithStep(p[0], p[1])(dt, sh...), dt, n) {
			vsym.AssertNear(v, want[j][0]+float64(i)*want[j][1], 1e-4, "range with a step", i)
		}
	}
	vsym.Cover("constant")
}

// HWithInit: nodes made with an initialiser hold exactly what it drew, whatever the order of the options.
func HWithInit() {
	dt, sh := pick()
	first := vsym.Bool("first")
	d := watch()
	g := G.NewGraph()
	opts := []G.NodeConsOpt{G.WithName("w"), G.WithShape(sh...)}
	init := G.WithInit(G.Uniform(-2, 2))
	if first {
		opts = []G.NodeConsOpt{G.WithShape(sh...), init, G.WithName("w")}
	} else {
		opts = append(opts, init)
	}
	var n *G.Node
	switch len(sh) {
	case 1:
		n = G.NewVector(g, dt, opts...)
	case 2:
		n = G.NewMatrix(g, dt, opts...)
	default:
		n = G.NewTensor(g, dt, len(sh), opts...)
	}
	vsym.Assert(n.Dtype() == dt, "type of the node")
	hlp.SameShape(n.Value().Shape(), sh, "shape of the value")
	vsym.Assert(n.Value().Dtype() == dt, "type of the value")
	follows(hlp.Nums(n.Value()), d.uni, func(u float64) float64 { return -2 + 4*u }, "initialised value")
	vsym.Cover("initialised")
}

// HNodes: random nodes give a fresh draw of the right type and shape in every run, on both machines.
//
//vsym:paths=4000
func HNodes() {
	dt := []tensor.Dtype{hlp.F64, hlp.F32}[vsym.Choice("dtype", 2)]
	shs := [][]int{nil, {1}, {2}, {2, 1}, {1, 2}, {2, 2}, {1, 2, 1}}
	sh := shs[vsym.Choice("shape", len(shs))]
	lisp := vsym.Bool("lisp")
	kind := vsym.Choice("kind", 3)
	d := watch()
	g := G.NewGraph()
	a, b := vsym.Float64In("a", -10, 10), vsym.Float64In("b", -10, 10)
	trials, prob := 2, vsym.Float64In("prob", 0, 1)
	var n *G.Node
	switch kind {
	case 0:
		vsym.Assume(b-a > 0.001)
		n = G.UniformRandomNode(g, dt, a, b, sh...)
	case 1:
		vsym.Assume(b > 0)
		n = G.GaussianRandomNode(g, dt, a, b, sh...)
	case 2:
		vsym.Assume(hlp.Prod(sh) <= 2)
		n = G.BinomialRandomNode(g, dt, float64(trials), prob, sh...)
	}
	vsym.Assert(n.Dtype() == dt, "type of the node")
	hlp.SameShape(n.Shape(), sh, "shape of the node")
	y := hlp.Node(G.Neg(n))
	v := hlp.Watch(y)
	var m G.VM
	if lisp {
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	} else {
		m = G.NewTapeMachine(g)
	}
	for run := 0; run < 2 && (run == 0 || kind < 2); run++ {
		d.uni, d.norm = nil, nil
		hlp.Ok(m.RunAll(), "run")
		vsym.Assert((*v).Dtype() == dt, "type of the value")
		hlp.SameShape((*v).Shape(), sh, "shape of the value")
		x := hlp.Nums(*v)
		vsym.Assert(len(x) == hlp.Prod(sh), "number of elements")
		for i := range x {
			x[i] = -x[i]
		}
		switch kind {
		case 0:
			follows(x, d.uni, func(u float64) float64 { return a + u*(b-a) }, "uniform node")
		case 1:
			follows(x, d.norm, func(u float64) float64 { return a + u*b }, "normal node")
		case 2:
			vsym.Assert(len(d.uni) == trials*len(x), "number of trials")
			for i := range x {
				k := 0.0
				for _, u := range d.uni[i*trials : (i+1)*trials] {
					if u < prob {
						k++
					}
				}
				vsym.AssertNear(x[i], k, 1e-6, "binomial node", i)
			}
		}
		m.Reset()
	}
	vsym.Cover("drawn")
}

// HBinomial: binomial draws count the successes among the trials.
//
//vsym:paths=4000
func HBinomial() {
	dt := []tensor.Dtype{hlp.F64, hlp.F32}[vsym.Choice("dtype", 2)]
	n := 1 + vsym.Choice("n", 2)
	trials := 1 + vsym.Choice("trials", 3)
	prob := vsym.Float64In("prob", 0, 1)
	d := watch()
	var x []float64
	if dt == hlp.F64 {
		x = values(G.Binomial64(float64(trials), prob, n), dt, n)
	} else {
		x = values(G.Binomial32(float64(trials), prob, n), dt, n)
	}
	vsym.Assert(len(d.uni) == trials*n, "number of trials")
	total, want := 0.0, 0.0
	for i := range x {
		vsym.Assert(x[i] >= 0 && x[i] <= float64(trials), "range of binomial draws", i)
		total += x[i]
	}
	for _, u := range d.uni {
		if u < prob {
			want++
		}
	}
	vsym.AssertNear(total, want, 1e-6, "successes")
	vsym.Cover("drawn")
}
