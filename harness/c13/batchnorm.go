package c13

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// momentum and epsilon that are exact in both float kinds.
const mom, eps = 0.25, 0.125

var bnShapes = [][]int{{2, 2}, {3, 1}, {2, 1, 1, 2}, {1, 2, 2, 1}, {2, 2, 1, 1}, {2, 1, 2, 2}}

// chStats folds mean and the sum of squared deviations of each channel.
func chStats(x hlp.Arr) (mean, ss []float64, n int) {
	sh := x.Sh
	c := sh[1]
	n = hlp.Prod(sh) / c
	mean, ss = make([]float64, c), make([]float64, c)
	hlp.Each(sh, func(ix []int) { mean[ix[1]] += x.At(ix...) })
	for i := range mean {
		mean[i] /= float64(n)
	}
	hlp.Each(sh, func(ix []int) {
		d := x.At(ix...) - mean[ix[1]]
		ss[ix[1]] += d * d
	})
	return
}

// normed is the normalisation of x by the given statistics.
func normed(x hlp.Arr, mean, variance []float64, e float64) hlp.Arr {
	return hlp.Build(x.Sh, func(ix []int) float64 {
		return (x.At(ix...) - mean[ix[1]]) / vsym.Sqrt(variance[ix[1]]+e)
	})
}

func trained(x hlp.Arr, e float64) hlp.Arr {
	mean, ss, n := chStats(x)
	for i := range ss {
		ss[i] /= float64(n)
	}
	return normed(x, mean, ss, e)
}

type running struct{ mean, variance []float64 }

func (r *running) see(x hlp.Arr, m float64) {
	mean, ss, n := chStats(x)
	for i := range mean {
		r.mean[i] = m*mean[i] + (1-m)*r.mean[i]
		r.variance[i] = m*(ss[i]/float64(n-1)) + (1-m)*r.variance[i]
	}
}

func (r *running) is(op *G.BatchNormOp, dt tensor.Dtype, msg string) {
	m, v := op.Stats()
	hlp.ValIsArr(m, hlp.A(r.mean, len(r.mean)), hlp.Tol(dt), msg+": running mean")
	hlp.ValIsArr(v, hlp.A(r.variance, len(r.variance)), hlp.Tol(dt), msg+": running variance")
}

// affine makes a scale and a bias of the shape of x.
func affine(g *G.ExprGraph, dt tensor.Dtype, sh []int) (s, b *hlp.In) {
	return hlp.Sym(g, dt, "s", sh...), hlp.Sym(g, dt, "b", sh...)
}

func scaled(y hlp.Arr, s, b *hlp.In) hlp.Arr {
	y = hlp.Zip(y, s.Arr(), func(a, b float64) float64 { return a * b })
	return hlp.Zip(y, b.Arr(), func(a, b float64) float64 { return a + b })
}

// HBatchNormTrain: batch normalisation in training mode, values and running statistics after one run.
//
//vsym:paths=2000
func HBatchNormTrain() {
	dt := dts[vsym.Choice("dt", 2)]
	sh := bnShapes[vsym.Choice("shape", len(bnShapes))]
	g := G.NewGraph()
	x := hlp.Sym(g, dt, "x", sh...)
	s, b := affine(g, dt, sh)
	y, _, _, op, err := G.BatchNorm(x.N, s.N, b.N, mom, eps)
	hlp.Ok(err, "batchnorm")
	hlp.Ok(op.SetTraining(true), "batchnorm")
	w := hlp.Watch(y)
	if vsym.Choice("lisp", 2) == 1 {
		hlp.Ok(G.NewLispMachine(g, G.ExecuteFwdOnly()).RunAll(), "batchnorm")
	} else {
		hlp.RunTape(g)
	}
	hlp.ValIsArr(*w, scaled(trained(x.Arr(), eps), s, b), hlp.Tol(dt), "batch normalisation")
	c := sh[1]
	r := &running{make([]float64, c), make([]float64, c)}
	for i := range r.variance {
		r.variance[i] = 1
	}
	r.see(x.Arr(), mom)
	r.is(op, dt, "after one run")
	vsym.Cover("batchnorm training")
}

// HBatchNormEval: batch normalisation by given statistics, values; the statistics stay.
//
//vsym:paths=2000
func HBatchNormEval() {
	dt := dts[vsym.Choice("dt", 2)]
	sh := bnShapes[vsym.Choice("shape", len(bnShapes))]
	g := G.NewGraph()
	x := hlp.Sym(g, dt, "x", sh...)
	s, b := affine(g, dt, sh)
	y, _, _, op, err := G.BatchNorm(x.N, s.N, b.N, mom, eps)
	hlp.Ok(err, "batchnorm")
	c := sh[1]
	r := &running{hlp.Syms("mean", c), hlp.SymsPos("var", c, 20)}
	hlp.Ok(op.SetStats(hlp.Dense(dt, r.mean, c), hlp.Dense(dt, r.variance, c)), "batchnorm")
	w := hlp.Watch(y)
	var m G.VM
	switch vsym.Choice("how", 4) {
	case 0:
		m = G.NewTapeMachine(g, G.EvalMode())
	case 1:
		m = G.NewLispMachine(g, G.ExecuteFwdOnly(), G.EvalMode())
	case 2:
		hlp.Ok(op.SetTraining(false), "batchnorm")
		m = G.NewTapeMachine(g, G.EvalMode())
	case 3:
		m = G.NewTapeMachine(g)
		hlp.Ok(op.SetTraining(false), "batchnorm")
		hlp.Ok(op.SetStats(hlp.Dense(dt, r.mean, c), hlp.Dense(dt, r.variance, c)), "batchnorm")
	}
	hlp.Ok(m.RunAll(), "batchnorm")
	m.Close()
	hlp.ValIsArr(*w, scaled(normed(x.Arr(), r.mean, r.variance, eps), s, b), hlp.Tol(dt), "batch normalisation")
	r.is(op, dt, "after evaluating")
	vsym.Cover("batchnorm evaluating")
}

// HBatchNormGrad: gradients of batch normalisation by value, scale and bias, training or evaluating, both machines.
//
//vsym:paths=2000
func HBatchNormGrad() {
	vsym.Generic(true)
	dt := dts[vsym.Choice("dt", 2)]
	sh := bnShapes[vsym.Choice("shape", len(bnShapes)-1)]
	g := G.NewGraph()
	x := hlp.Sym(g, dt, "x", sh...)
	s, b := affine(g, dt, sh)
	y, _, _, op, err := G.BatchNorm(x.N, s.N, b.N, mom, eps)
	hlp.Ok(err, "batchnorm")
	var opts []G.VMOpt
	if vsym.Choice("eval", 2) == 1 {
		c := sh[1]
		hlp.Ok(op.SetStats(hlp.Dense(dt, hlp.Syms("mean", c), c), hlp.Dense(dt, hlp.SymsPos("var", c, 20), c)), "batchnorm")
		opts = append(opts, G.EvalMode())
	}
	cost := hlp.Weighted(g, y)
	if vsym.Choice("lisp", 2) == 1 {
		hlp.LispGradsWith(opts, g, cost, x, s, b)
	} else {
		hlp.TapeGradsWith(opts, g, cost, x, s, b)
	}
	vsym.Cover("batchnorm gradient")
}

// HBatchNormHistory: two training runs and an evaluation on one machine with fresh inputs each, on both machines; each
// run's value, and the statistics at the end.
//
//vsym:paths=2000
func HBatchNormHistory() {
	dt := hlp.F64
	sh := [][]int{{2, 1}, {1, 1, 1, 2}, {2, 2}}[vsym.Choice("shape", 3)]
	g := G.NewGraph()
	x := G.NewTensor(g, dt, len(sh), G.WithShape(sh...), G.WithName("x"))
	s, b := affine(g, dt, sh)
	y, _, _, op, err := G.BatchNorm(x, s.N, b.N, mom, eps)
	hlp.Ok(err, "batchnorm")
	hlp.Ok(op.SetTraining(true), "batchnorm")
	w := hlp.Watch(y)
	var m G.VM
	switch vsym.Choice("machine", 3) {
	case 0:
		m = G.NewTapeMachine(g)
	case 1:
		m = G.NewLispMachine(g, G.ExecuteFwdOnly())
	case 2:
		hlp.Weighted(g, y)
		m = G.NewLispMachine(g)
	}
	c := sh[1]
	r := &running{make([]float64, c), make([]float64, c)}
	for i := range r.variance {
		r.variance[i] = 1
	}
	for i, name := range []string{"p", "q", "r"} {
		xs := hlp.Syms(name, hlp.Prod(sh))
		a := hlp.A(xs, sh...)
		hlp.Ok(G.Let(x, hlp.Dense(dt, xs, sh...)), "batchnorm")
		if i == 2 {
			hlp.Ok(op.SetTraining(false), "batchnorm")
		}
		hlp.Ok(m.RunAll(), "batchnorm")
		if i == 2 {
			hlp.ValIsArr(*w, scaled(normed(a, r.mean, r.variance, eps), s, b), hlp.Tol(dt), "evaluation")
		} else {
			hlp.ValIsArr(*w, scaled(trained(a, eps), s, b), hlp.Tol(dt), "training run")
			r.see(a, mom)
		}
		m.Reset()
	}
	r.is(op, dt, "at the end")
	hlp.Ok(op.Reset(), "batchnorm")
	for i := range r.mean {
		r.mean[i], r.variance[i] = 0, 1
	}
	r.is(op, dt, "after resetting")
	m.Close()
	vsym.Cover("batchnorm history")
}

// HBatchNormTwo: two batch normalisations of one matrix that differ in their epsilon keep their own.
//
//vsym:paths=2000
func HBatchNormTwo() {
	vsym.Generic(true)
	es := []float64{0.125, 0.0625, 0.25}
	e1, e2 := es[vsym.Choice("e1", 3)], es[vsym.Choice("e2", 3)]
	g := G.NewGraph()
	x := hlp.Sym(g, hlp.F64, "x", 2, 1)
	s, b := affine(g, hlp.F64, []int{2, 1})
	y, _, _, _, err := G.BatchNorm(x.N, s.N, b.N, mom, e1)
	hlp.Ok(err, "batchnorm")
	z, _, _, _, err := G.BatchNorm(x.N, s.N, b.N, mom, e2)
	hlp.Ok(err, "batchnorm")
	wy, wz := hlp.Watch(y), hlp.Watch(z)
	cost := hlp.Weighted(g, hlp.Node(G.Concat(0, y, z)))
	grads(vsym.Choice("lisp", 2) == 1, g, cost, x)
	hlp.ValIsArr(*wy, scaled(trained(x.Arr(), e1), s, b), hlp.Tol(hlp.F64), "first batch normalisation")
	hlp.ValIsArr(*wz, scaled(trained(x.Arr(), e2), s, b), hlp.Tol(hlp.F64), "second batch normalisation")
	vsym.Cover("two batchnorms")
}

// HBatchNormAgain: a batch normalisation built twice with the same parameters; the statistics given to what the later call
// returns are what it evaluates by, and training updates the statistics that it reports.
//
//vsym:paths=2000
func HBatchNormAgain() {
	vsym.Generic(true)
	dt := dts[vsym.Choice("dt", 2)]
	g := G.NewGraph()
	x := hlp.Sym(g, dt, "x", 2, 1)
	s, b := affine(g, dt, []int{2, 1})
	_, _, _, _, err := G.BatchNorm(x.N, s.N, b.N, mom, eps)
	hlp.Ok(err, "batchnorm")
	y, _, _, op, err := G.BatchNorm(x.N, s.N, b.N, mom, eps)
	hlp.Ok(err, "batchnorm")
	w := hlp.Watch(y)
	r := &running{hlp.Syms("mean", 1), hlp.SymsPos("var", 1, 20)}
	hlp.Ok(op.SetStats(hlp.Dense(dt, r.mean, 1), hlp.Dense(dt, r.variance, 1)), "batchnorm")
	m := G.NewTapeMachine(g)
	train := vsym.Choice("training", 2) == 1
	if !train {
		hlp.Ok(op.SetTraining(false), "batchnorm")
		hlp.Ok(op.SetStats(hlp.Dense(dt, r.mean, 1), hlp.Dense(dt, r.variance, 1)), "batchnorm")
	}
	before := &running{nums(op, 0), nums(op, 1)}
	hlp.Ok(m.RunAll(), "batchnorm")
	if train {
		hlp.ValIsArr(*w, scaled(trained(x.Arr(), eps), s, b), hlp.Tol(dt), "batch normalisation")
		before.see(x.Arr(), mom)
		before.is(op, dt, "after training")
	} else {
		hlp.ValIsArr(*w, scaled(normed(x.Arr(), r.mean, r.variance, eps), s, b), hlp.Tol(dt), "batch normalisation")
		r.is(op, dt, "after evaluating")
	}
	m.Close()
	vsym.Cover("batchnorm built again")
}

// nums is the running mean or variance.
func nums(op *G.BatchNormOp, i int) []float64 {
	m, v := op.Stats()
	return hlp.Nums([]tensor.Tensor{m, v}[i])
}
