package c16

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// HModel: two steps of five solvers with every combination of given options over a model of a matrix, a scalar and a
// vector of 11 elements in all, of which one has an arbitrary value and arbitrary gradients and the others given ones on
// both sides of zero and of the clip; both widths.
func HModel() {
	o := &opts{l2: vsym.Choice("l2", 2) == 1, clip: vsym.Choice("clip", 2) == 1, vc: 1.5}
	k := vsym.Choice("solver", 5)
	if k < 3 {
		o.l1, o.batch = vsym.Choice("l1", 2) == 1, vsym.Choice("batch", 2) == 1
	}
	os := []G.SolverOpt{G.WithLearnRate(0.5)}
	if o.l1 {
		o.vl1 = 0.25
		os = append(os, G.WithL1Reg(o.vl1))
	}
	if o.l2 {
		o.vl2 = 0.125
		os = append(os, G.WithL2Reg(o.vl2))
	}
	if o.clip {
		os = append(os, G.WithClip(o.vc))
	}
	if o.batch {
		o.vb = 4
		os = append(os, G.WithBatchSize(o.vb))
	}
	var s G.Solver
	var r rule
	switch k {
	case 0:
		s = G.NewVanillaSolver(os...)
		r = func(w, g float64, st []float64, t int) float64 { return w - 0.5*o.grad(w, g) }
	case 1:
		s = G.NewMomentum(append(os, G.WithMomentum(0.75))...)
		r = func(w, g float64, st []float64, t int) float64 {
			st[0] = 0.75*st[0] - 0.5*o.grad(w, g)
			return w + st[0]
		}
	case 2:
		s = G.NewAdamSolver(append(os, G.WithBeta1(0.5), G.WithBeta2(0.75), G.WithEps(0.25))...)
		r = func(w, g float64, st []float64, t int) float64 {
			g = o.grad(w, g)
			st[0] = 0.5*st[0] + 0.5*g
			st[1] = 0.75*st[1] + 0.25*g*g
			return w - 0.5*(st[0]/(1-vsym.Pow(0.5, float64(t))))/(vsym.Sqrt(st[1]/(1-vsym.Pow(0.75, float64(t))))+0.25)
		}
	case 3:
		s = G.NewRMSPropSolver(append(os, G.WithRho(0.75), G.WithEps(0.25))...)
		r = func(w, g float64, st []float64, t int) float64 {
			st[0] = 0.75*st[0] + 0.25*g*g
			return w - 0.5*o.clipped(g)/vsym.Sqrt(st[0]+0.25) - o.vl2*w
		}
	case 4:
		s = G.NewAdaGradSolver(append(os, G.WithEps(0.25))...)
		r = func(w, g float64, st []float64, t int) float64 {
			st[0] += g * g
			return w - 0.5*o.clipped(g)/vsym.Sqrt(st[0]+0.25) - o.vl2*w
		}
	}
	q := vsym.Choice("place", 3)
	place := []int{4, 6, 10}[q]
	dt := []tensor.Dtype{tensor.Float64, tensor.Float32}[(q+k)%2]
	var ps []*hlp.Param
	var model []G.ValueGrad
	var st [11][2]float64
	n := 0
	for _, sh := range [][]int{{2, 3}, nil, {4}} {
		x := make([]float64, hlp.Prod(sh))
		for i := range x {
			x[i] = float64((n*5+3)%11)/2 - 2.25
			if n == place {
				x[i] = vsym.Float64("w")
			}
			n++
		}
		p := hlp.ParamOf(dt, x, sh...)
		ps, model = append(ps, p), append(model, p)
	}
	for t := 1; t <= 2; t++ {
		n = 0
		for _, p := range ps {
			g := make([]float64, len(p.X))
			for i := range g {
				g[i] = float64((n*7+t*4)%11) - 5
				if n == place {
					g[i] = vsym.Float64("g")
					if o.l1 {
						vsym.Assume(p.X[i] != 0)
					}
				}
				p.X[i] = r(p.X[i], g[i], st[n][:], t)
				n++
			}
			p.SetGrad(g)
		}
		hlp.Ok(s.Step(model), "step")
		for k, p := range ps {
			p.Check(hlp.Tol(dt), k, t)
		}
	}
	vsym.Cover("model")
}
