// Package c15: solvers apply their update rule.
package c15

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// rule updates one element: st is the per-element state (two numbers), t the step number from 1.
type rule func(w, g float64, st []float64, t int) float64

const steps = 4

// run steps a solver over a model of two or four parameters of different shapes, with fresh symbolic gradients every time, and
// compares every element of every parameter with the rule.
func run(dt tensor.Dtype, s G.Solver, r rule, n int) {
	forms := [][][]int{{{2}, {1, 2}}, {nil, {2}}, {{2, 1}, nil}, {{2, 3}, {1, 2, 2}, nil, {7}}}
	follow(dt, s, r, n, forms[vsym.Choice("forms", len(forms))])
}

func follow(dt tensor.Dtype, s G.Solver, r rule, n int, f [][]int) {
	var ps []*hlp.Param
	var st [][][]float64
	var model []G.ValueGrad
	for _, sh := range f {
		p := hlp.NewParam(dt, "w", sh...)
		ps, model = append(ps, p), append(model, p)
		q := make([][]float64, len(p.X))
		for i := range q {
			q[i] = make([]float64, 2)
		}
		st = append(st, q)
	}
	for t := 1; t <= n; t++ {
		for k, p := range ps {
			g := hlp.Syms("g", len(p.X))
			p.SetGrad(g)
			for i := range p.X {
				p.X[i] = r(p.X[i], g[i], st[k][i], t)
			}
		}
		hlp.Ok(s.Step(model), "step")
		for k, p := range ps {
			p.Check(hlp.Tol(dt), k, t)
		}
	}
	vsym.Cover("stepped")
}

func width() tensor.Dtype {
	return []tensor.Dtype{tensor.Float64, tensor.Float32}[vsym.Choice("width", 2)]
}

func pos(name string) float64 {
	x := vsym.Float64(name)
	vsym.Assume(x > 0)
	return x
}

func frac(name string) float64 {
	x := vsym.Float64(name)
	vsym.Assume(x > 0 && x < 1)
	return x
}

// HVanilla: w - ηg; four steps, every η, two or four parameters (scalar, vector, matrix, rank three), both widths.
func HVanilla() {
	eta := pos("eta")
	run(width(), G.NewVanillaSolver(G.WithLearnRate(eta)), func(w, g float64, st []float64, t int) float64 {
		return w - eta*g
	}, steps)
}

// HMomentum: v = μv - ηg, w + v.
func HMomentum() {
	eta, mu := pos("eta"), frac("mu")
	run(width(), G.NewMomentum(G.WithLearnRate(eta), G.WithMomentum(mu)), func(w, g float64, st []float64, t int) float64 {
		st[0] = mu*st[0] - eta*g
		return w + st[0]
	}, steps)
}

// HRMSProp: c = ρc + (1-ρ)g², w - ηg/√(c+ε); four steps.
func HRMSProp() {
	eta, rho, eps := pos("eta"), frac("rho"), pos("eps")
	run(width(), G.NewRMSPropSolver(G.WithLearnRate(eta), G.WithRho(rho), G.WithEps(eps)), func(w, g float64, st []float64, t int) float64 {
		st[0] = rho*st[0] + (1-rho)*g*g
		return w - eta*g/vsym.Sqrt(st[0]+eps)
	}, steps)
}

// HAdaGrad: c = c + g², w - ηg/√(c+ε).
func HAdaGrad() {
	eta, eps := pos("eta"), pos("eps")
	run(width(), G.NewAdaGradSolver(G.WithLearnRate(eta), G.WithEps(eps)), func(w, g float64, st []float64, t int) float64 {
		st[0] += g * g
		return w - eta*g/vsym.Sqrt(st[0]+eps)
	}, steps)
}

// HAdaGradDefaults: AdaGrad with its default learning rate 0.001 and smoothing 1e-8.
func HAdaGradDefaults() {
	run(width(), G.NewAdaGradSolver(), func(w, g float64, st []float64, t int) float64 {
		st[0] += g * g
		return w - 0.001*g/vsym.Sqrt(st[0]+1e-8)
	}, 2)
}

// HMany: nine steps (six of those that divide by a root) of a scalar or a vector by the solvers without or with a memory, with a symbolic learning rate and
// coefficients of a half.
//
//vsym:paths=100
func HMany() {
	eta := pos("eta")
	dt := width()
	f := [][][]int{{nil}, {{1}}}[vsym.Choice("form", 2)]
	switch vsym.Choice("solver", 4) {
	case 0:
		follow(dt, G.NewVanillaSolver(G.WithLearnRate(eta)), func(w, g float64, st []float64, t int) float64 { return w - eta*g }, 9, f)
	case 1:
		follow(dt, G.NewMomentum(G.WithLearnRate(eta), G.WithMomentum(0.5)), func(w, g float64, st []float64, t int) float64 {
			st[0] = 0.5*st[0] - eta*g
			return w + st[0]
		}, 9, f)
	case 2:
		follow(dt, G.NewRMSPropSolver(G.WithLearnRate(eta), G.WithRho(0.5), G.WithEps(0.25)), func(w, g float64, st []float64, t int) float64 {
			st[0] = 0.5*st[0] + 0.5*g*g
			return w - eta*g/vsym.Sqrt(st[0]+0.25)
		}, 6, f)
	case 3:
		follow(dt, G.NewAdaGradSolver(G.WithLearnRate(eta), G.WithEps(0.25)), func(w, g float64, st []float64, t int) float64 {
			st[0] += g * g
			return w - eta*g/vsym.Sqrt(st[0]+0.25)
		}, 6, f)
	}
}

func adam(eta, b1, b2, eps, decay float64) rule {
	p1, p2 := 1.0, 1.0
	last := 0
	return func(w, g float64, st []float64, t int) float64 {
		if t != last {
			p1, p2, last = p1*b1, p2*b2, t
		}
		st[0] = b1*st[0] + (1-b1)*g
		st[1] = b2*st[1] + (1-b2)*g*g
		return w*decay - eta*(st[0]/(1-p1))/(vsym.Sqrt(st[1]/(1-p2))+eps)
	}
}

// HAdam: bias-corrected first and second moments; four steps with symbolic coefficients.
func HAdam() {
	eta, b1, b2, eps := pos("eta"), frac("b1"), frac("b2"), pos("eps")
	run(width(), G.NewAdamSolver(G.WithLearnRate(eta), G.WithBeta1(b1), G.WithBeta2(b2), G.WithEps(eps)), adam(eta, b1, b2, eps, 1), steps)
}

// HAdamW: Adam with the weight decayed by (1-ηλ) first, on graph nodes holding vectors and matrices of both widths; two steps.
func HAdamW() {
	eta, b1, b2, eps, rho := pos("eta"), frac("b1"), frac("b2"), pos("eps"), frac("rho")
	dt := width()
	r := adam(eta, b1, b2, eps, 1-eta*rho)
	s := G.NewAdamW(G.WithLearnRate(eta), G.WithBeta1(b1), G.WithBeta2(b2), G.WithEps(eps), G.WithRho(rho))
	g := G.NewGraph()
	shs := [][]int{{2}, {1, 2}}
	var ws, cs []*hlp.In
	var costs G.Nodes
	names := []string{"p", "q"}
	for i, sh := range shs {
		w := hlp.Sym(g, dt, names[i], sh...)
		c := hlp.Sym(g, dt, "c"+names[i], sh...)
		ws, cs = append(ws, w), append(cs, c)
		costs = append(costs, hlp.Node(G.Sum(hlp.Node(G.HadamardProd(w.N, c.N)))))
	}
	cost := hlp.Node(G.Add(costs[0], costs[1]))
	_, err := G.Grad(cost, ws[0].N, ws[1].N)
	hlp.Ok(err, "gradients")
	m := G.NewTapeMachine(g, G.BindDualValues(ws[0].N, ws[1].N))
	st := [2][][]float64{{{0, 0}, {0, 0}}, {{0, 0}, {0, 0}}}
	for t := 1; t <= 2; t++ {
		if t > 1 {
			for k, c := range cs {
				c.X = hlp.Syms("c", 2)
				hlp.Ok(G.Let(c.N, hlp.Dense(dt, c.X, shs[k]...)), "let")
			}
		}
		hlp.Ok(m.RunAll(), "run")
		hlp.Ok(s.Step(G.NodesToValueGrads(G.Nodes{ws[0].N, ws[1].N})), "step")
		for k, w := range ws {
			for i := range w.X {
				w.X[i] = r(w.X[i], cs[k].X[i], st[k][i], t)
			}
			hlp.Is(w.N, w.X, "parameter after the step")
			d, err := w.N.Grad()
			hlp.Ok(err, "gradient")
			for _, x := range hlp.Nums(d) {
				vsym.Assert(x == 0, "gradient is not cleared", k, t)
			}
		}
		m.Reset()
	}
	vsym.Cover("stepped")
}

// HDefaults: a solver made without options steps like one given the documented default coefficients.
func HDefaults() {
	lr := G.WithLearnRate(0.001)
	var a, b G.Solver
	switch vsym.Choice("solver", 6) {
	case 0:
		a, b = G.NewVanillaSolver(), G.NewVanillaSolver(lr, G.WithBatchSize(1))
	case 1:
		a, b = G.NewMomentum(), G.NewMomentum(lr, G.WithMomentum(0.9), G.WithBatchSize(1))
	case 2:
		a, b = G.NewRMSPropSolver(), G.NewRMSPropSolver(lr, G.WithEps(1e-8), G.WithRho(0.999))
	case 3:
		a, b = G.NewAdamSolver(), G.NewAdamSolver(lr, G.WithEps(1e-8), G.WithBeta1(0.9), G.WithBeta2(0.999), G.WithBatchSize(1))
	case 4:
		a, b = G.NewAdaGradSolver(), G.NewAdaGradSolver(lr, G.WithEps(1e-8))
	case 5:
		a, b = G.NewBarzilaiBorweinSolver(), G.NewBarzilaiBorweinSolver(lr)
	}
	dt := tensor.Float64
	x := hlp.Syms("w", 2)
	p, q := hlp.ParamOf(dt, x, 2), hlp.ParamOf(dt, x, 2)
	for t := 1; t <= 2; t++ {
		g := hlp.Syms("g", 2)
		p.SetGrad(g)
		q.SetGrad(g)
		hlp.Ok(a.Step([]G.ValueGrad{p}), "step")
		hlp.Ok(b.Step([]G.ValueGrad{q}), "step")
		p.X = hlp.Nums(q.V)
		p.Check(hlp.Tol(dt), 0, t)
	}
	vsym.Cover("compared")
}

// HBarzilai: the first step uses the given rate; later the rate is <Δx,Δg>/<Δg,Δg> over all parameters. Tensors of
// width 64 (the solver reports other parameters as unsupported).
func HBarzilai() {
	eta := pos("eta")
	dt := tensor.Float64
	ps := []*hlp.Param{hlp.NewParam(dt, "w", 2), hlp.NewParam(dt, "w", 1, 2)}
	model := []G.ValueGrad{ps[0], ps[1]}
	s := G.NewBarzilaiBorweinSolver(G.WithLearnRate(eta))
	var oldX, oldG [2][]float64
	for t := 1; t <= 3; t++ {
		num, den := 0.0, 0.0
		var gs [2][]float64
		for k, p := range ps {
			g := hlp.Syms("g", len(p.X))
			p.SetGrad(g)
			gs[k] = g
			if t > 1 {
				for i := range g {
					num += (p.X[i] - oldX[k][i]) * (g[i] - oldG[k][i])
					den += (g[i] - oldG[k][i]) * (g[i] - oldG[k][i])
				}
			}
		}
		rate := eta
		if t > 1 {
			vsym.Assume(den > 0)
			rate = num / den
		}
		for k, p := range ps {
			oldX[k] = append([]float64(nil), p.X...)
			oldG[k] = gs[k]
			for i := range p.X {
				p.X[i] -= rate * gs[k][i]
			}
		}
		hlp.Ok(s.Step(model), "step")
		for k, p := range ps {
			p.Check(hlp.Tol(dt), k, t)
		}
	}
	vsym.Cover("stepped")
}

// HUnsupported: a parameter kind that a solver does not support (scalars for AdamW, scalars and width 32 for
// Barzilai-Borwein) is refused with an error and keeps its value.
func HUnsupported() {
	k := vsym.Choice("kind", 3)
	var s G.Solver = G.NewBarzilaiBorweinSolver()
	dt := tensor.Float64
	var sh []int
	if k == 1 {
		dt, sh = tensor.Float32, []int{2}
	}
	if k == 2 {
		g := G.NewGraph()
		w, c := hlp.Sym(g, dt, "w"), hlp.Sym(g, dt, "c")
		cost := hlp.Node(G.Mul(w.N, c.N))
		_, err := G.Grad(cost, w.N)
		hlp.Ok(err, "gradients")
		m := G.NewTapeMachine(g, G.BindDualValues(w.N))
		hlp.Ok(m.RunAll(), "run")
		vsym.Assert(G.NewAdamW().Step(G.NodesToValueGrads(G.Nodes{w.N})) != nil, "unsupported parameter accepted")
		hlp.Is(w.N, w.X, "parameter after the refused step")
		vsym.Cover("refused")
		return
	}
	p := hlp.NewParam(dt, "w", sh...)
	p.SetGrad(hlp.Syms("g", len(p.X)))
	vsym.Assert(s.Step([]G.ValueGrad{p}) != nil, "unsupported parameter accepted")
	hlp.Same(hlp.Nums(p.V), p.X, hlp.Tol(dt), "parameter after the refused step")
	vsym.Cover("refused")
}
