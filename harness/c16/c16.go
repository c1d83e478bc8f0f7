// Package c16: regularisation, clipping and batch size modify the gradient as documented.
package c16

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

type rule func(w, g float64, st []float64, t int) float64

func width() tensor.Dtype {
	return []tensor.Dtype{tensor.Float64, tensor.Float32}[vsym.Choice("width", 2)]
}

func pos(name string) float64 {
	x := vsym.Float64(name)
	vsym.Assume(x > 0)
	return x
}

func frac(name string) float64 {
	x := vsym.Float64(name)
	vsym.Assume(x > 0 && x < 1)
	return x
}

func sign(w float64) float64 {
	if w < 0 {
		return -1
	}
	return 1
}

func clamp(g, c float64) float64 {
	if g > c {
		return c
	}
	if g < -c {
		return -c
	}
	return g
}

// opts is a symbolic combination of options.
type opts struct {
	l1, l2, clip, batch bool
	vl1, vl2, vc, vb    float64
	o                   []G.SolverOpt
}

func options(l1, batch bool) *opts {
	o := &opts{}
	if l1 {
		o.l1 = vsym.Choice("l1", 2) == 1
	}
	o.l2 = vsym.Choice("l2", 2) == 1
	o.clip = vsym.Choice("clip", 2) == 1
	if batch {
		o.batch = vsym.Choice("batch", 2) == 1
	}
	if o.l1 {
		o.vl1 = pos("l1reg")
		o.o = append(o.o, G.WithL1Reg(o.vl1))
	}
	if o.l2 {
		o.vl2 = pos("l2reg")
		o.o = append(o.o, G.WithL2Reg(o.vl2))
	}
	if o.clip {
		o.vc = pos("clipat")
		o.o = append(o.o, G.WithClip(o.vc))
	}
	if o.batch {
		o.vb = vsym.Float64("batchsize")
		vsym.Assume(o.vb >= 1)
		o.o = append(o.o, G.WithBatchSize(o.vb))
	}
	return o
}

// grad is the gradient after regularisation, division by the batch size and clipping.
func (o *opts) grad(w, g float64) float64 {
	if o.l1 {
		g += o.vl1 * sign(w)
	}
	if o.l2 {
		g += o.vl2 * w
	}
	if o.batch {
		g /= o.vb
	}
	if o.clip {
		g = clamp(g, o.vc)
	}
	return g
}

// clipped is the gradient after clipping alone.
func (o *opts) clipped(g float64) float64 {
	if o.clip {
		return clamp(g, o.vc)
	}
	return g
}

var forms = [][]int{nil, {1}, {2}}

func step(dt tensor.Dtype, s G.Solver, o *opts, r rule, n int) {
	sh := forms[vsym.Choice("form", len(forms))]
	p := hlp.NewParam(dt, "w", sh...)
	st := make([][]float64, len(p.X))
	for i := range st {
		st[i] = make([]float64, 2)
	}
	for t := 1; t <= n; t++ {
		g := hlp.Syms("g", len(p.X))
		p.SetGrad(g)
		for i := range g {
			if o.l1 {
				vsym.Assume(p.X[i] != 0)
			}
			p.X[i] = r(p.X[i], g[i], st[i], t)
		}
		hlp.Ok(s.Step([]G.ValueGrad{p}), "step")
		p.Check(hlp.Tol(dt), 0, t)
	}
	vsym.Cover("stepped")
}

// HVanilla: every combination of L1, L2, clip and batch size, a scalar or a vector of one or two elements, both widths; one step.
func HVanilla() {
	o := options(true, true)
	eta := pos("eta")
	step(width(), G.NewVanillaSolver(append(o.o, G.WithLearnRate(eta))...), o, func(w, g float64, st []float64, t int) float64 {
		return w - eta*o.grad(w, g)
	}, 1)
}

// HMomentum: as HVanilla, with the velocity recurrence.
func HMomentum() {
	o := options(true, true)
	eta, mu := pos("eta"), frac("mu")
	step(width(), G.NewMomentum(append(o.o, G.WithLearnRate(eta), G.WithMomentum(mu))...), o, func(w, g float64, st []float64, t int) float64 {
		st[0] = mu*st[0] - eta*o.grad(w, g)
		return w + st[0]
	}, 1)
}

// HMomentumTwice: two steps, so that the regularisation is seen with a velocity that is not zero; scalars and vectors of one element.
func HMomentumTwice() {
	o := options(true, true)
	eta, mu := pos("eta"), frac("mu")
	dt := width()
	one(dt, G.NewMomentum(append(o.o, G.WithLearnRate(eta), G.WithMomentum(mu))...), o, func(w, g float64, st []float64, t int) float64 {
		st[0] = mu*st[0] - eta*o.grad(w, g)
		return w + st[0]
	}, 2)
}

func one(dt tensor.Dtype, s G.Solver, o *opts, r rule, n int) {
	old := forms
	forms = forms[:2]
	step(dt, s, o, r, n)
	forms = old
}

// HAdam: one step; the moments are taken of the modified gradient.
func HAdam() {
	o := options(true, true)
	eta, b1, b2, eps := pos("eta"), frac("b1"), frac("b2"), pos("eps")
	one(width(), G.NewAdamSolver(append(o.o, G.WithLearnRate(eta), G.WithBeta1(b1), G.WithBeta2(b2), G.WithEps(eps))...), o, func(w, g float64, st []float64, t int) float64 {
		g = o.grad(w, g)
		st[0] = b1*st[0] + (1-b1)*g
		st[1] = b2*st[1] + (1-b2)*g*g
		return w - eta*(st[0]/(1-vsym.Pow(b1, float64(t))))/(vsym.Sqrt(st[1]/(1-vsym.Pow(b2, float64(t))))+eps)
	}, 1)
}

// HRMSProp: L2 regularisation decays the parameter, the cache sees the raw gradient, the step the clipped one; two steps.
func HRMSProp() {
	o := options(false, false)
	eta, rho, eps := pos("eta"), frac("rho"), pos("eps")
	one(width(), G.NewRMSPropSolver(append(o.o, G.WithLearnRate(eta), G.WithRho(rho), G.WithEps(eps))...), o, func(w, g float64, st []float64, t int) float64 {
		st[0] = rho*st[0] + (1-rho)*g*g
		return w - eta*o.clipped(g)/vsym.Sqrt(st[0]+eps) - o.vl2*w
	}, 2)
}

// HAdaGrad: as HRMSProp.
func HAdaGrad() {
	o := options(false, false)
	eta, eps := pos("eta"), pos("eps")
	one(width(), G.NewAdaGradSolver(append(o.o, G.WithLearnRate(eta), G.WithEps(eps))...), o, func(w, g float64, st []float64, t int) float64 {
		st[0] += g * g
		return w - eta*o.clipped(g)/vsym.Sqrt(st[0]+eps) - o.vl2*w
	}, 2)
}

// HAdamW: one step on a node holding a vector; the gradient modified as for Adam, the parameter decayed by (1-ηλ).
func HAdamW() {
	o := options(true, true)
	eta, b1, b2, eps, rho := pos("eta"), frac("b1"), frac("b2"), pos("eps"), frac("rho")
	dt := width()
	s := G.NewAdamW(append(o.o, G.WithLearnRate(eta), G.WithBeta1(b1), G.WithBeta2(b2), G.WithEps(eps), G.WithRho(rho))...)
	g := G.NewGraph()
	w, c := hlp.Sym(g, dt, "w", 1), hlp.Sym(g, dt, "c", 1)
	if o.l1 {
		vsym.Assume(w.X[0] != 0)
	}
	cost := hlp.Node(G.Sum(hlp.Node(G.HadamardProd(w.N, c.N))))
	_, err := G.Grad(cost, w.N)
	hlp.Ok(err, "gradients")
	m := G.NewTapeMachine(g, G.BindDualValues(w.N))
	hlp.Ok(m.RunAll(), "run")
	hlp.Ok(s.Step(G.NodesToValueGrads(G.Nodes{w.N})), "step")
	for i, x := range w.X {
		gr := o.grad(x, c.X[i])
		w.X[i] = x*(1-eta*rho) - eta*gr/(vsym.Sqrt(gr*gr)+eps)
	}
	hlp.Is(w.N, w.X, "parameter after the step")
	vsym.Cover("stepped")
}

// HBarzilaiClip: clipping bounds the magnitude of the rate after the first step.
func HBarzilaiClip() {
	eta, clip := pos("eta"), pos("clipat")
	s := G.NewBarzilaiBorweinSolver(G.WithLearnRate(eta), G.WithClip(clip))
	p := hlp.NewParam(tensor.Float64, "w", 2)
	g0, g1 := hlp.Syms("g", 2), hlp.Syms("g", 2)
	num, den := 0.0, 0.0
	for i := range g0 {
		num -= eta * g0[i] * (g1[i] - g0[i])
		den += (g1[i] - g0[i]) * (g1[i] - g0[i])
	}
	vsym.Assume(den > 0)
	rate := clamp(num/den, clip)
	for i := range g0 {
		p.X[i] -= eta * g0[i]
	}
	p.SetGrad(g0)
	hlp.Ok(s.Step([]G.ValueGrad{p}), "step")
	p.Check(hlp.Tol(p.DT), 0, 1)
	for i := range g0 {
		p.X[i] -= rate * g1[i]
	}
	p.SetGrad(g1)
	hlp.Ok(s.Step([]G.ValueGrad{p}), "step")
	p.Check(hlp.Tol(p.DT), 0, 2)
	vsym.Cover("stepped")
}

// HIgnored: an option set to a value without effect (clip above every gradient, batch size one) leaves the step as without it.
func HIgnored() {
	eta, clip := pos("eta"), pos("clipat")
	dt := width()
	var a, b G.Solver
	lr := G.WithLearnRate(eta)
	os := []G.SolverOpt{lr, G.WithClip(clip), G.WithBatchSize(1)}
	switch vsym.Choice("solver", 5) {
	case 0:
		a, b = G.NewVanillaSolver(os...), G.NewVanillaSolver(lr)
	case 1:
		a, b = G.NewMomentum(os...), G.NewMomentum(lr)
	case 2:
		a, b = G.NewRMSPropSolver(os...), G.NewRMSPropSolver(lr)
	case 3:
		a, b = G.NewAdamSolver(os...), G.NewAdamSolver(lr)
	case 4:
		a, b = G.NewAdaGradSolver(os...), G.NewAdaGradSolver(lr)
	}
	sh := forms[vsym.Choice("form", len(forms))]
	x, g := hlp.Syms("w", hlp.Prod(sh)), hlp.Syms("g", hlp.Prod(sh))
	for _, d := range g {
		vsym.Assume(d <= clip && d >= -clip)
	}
	p, q := hlp.ParamOf(dt, x, sh...), hlp.ParamOf(dt, x, sh...)
	p.SetGrad(g)
	q.SetGrad(g)
	hlp.Ok(a.Step([]G.ValueGrad{p}), "step")
	hlp.Ok(b.Step([]G.ValueGrad{q}), "step")
	p.X = hlp.Nums(q.V)
	p.Check(hlp.Tol(dt), 0, 1)
	vsym.Cover("compared")
}
