// Package c30: the connectionist temporal classification loss sums over all alignments.
package c30

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// collapse removes repetitions, then blanks (label 0).
func collapse(path []int) []int {
	var out []int
	for i, c := range path {
		if c != 0 && (i == 0 || path[i-1] != c) {
			out = append(out, c)
		}
	}
	return out
}

func equal(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// likelihood sums the probabilities of all labellings of the steps which collapse to the target. It reports how many there are.
func likelihood(lp func(t, c int) float64, steps, labels int, target []int) (p float64, n int) {
	path := make([]int, steps)
	for {
		if equal(collapse(path), target) {
			s := 0.0
			for t, c := range path {
				s += lp(t, c)
			}
			p += vsym.Exp(s)
			n++
		}
		i := 0
		for ; i < steps; i++ {
			if path[i]++; path[i] < labels {
				break
			}
			path[i] = 0
		}
		if i == steps {
			return p, n
		}
	}
}

type problem struct {
	g       *G.ExprGraph
	lp      *hlp.In
	loss    *G.Node
	steps   []int
	targets [][]int
	want    []float64
	mean    bool
}

func ints(g *G.ExprGraph, name string, x []int, shape ...int) *G.Node {
	return G.NewTensor(g, tensor.Int, len(shape), G.WithShape(shape...), G.WithName(name), G.WithValue(tensor.New(tensor.WithShape(shape...), tensor.WithBacking(x))))
}

// build makes the loss of a batch. Targets are rows of a matrix (flat == false) or follow each other in a vector.
func build(dt tensor.Dtype, T, labels int, steps []int, targets [][]int, flat bool, mean bool) *problem {
	p := &problem{g: G.NewGraph(), steps: steps, targets: targets, mean: mean}
	B := len(steps)
	p.lp = hlp.Sym(p.g, dt, "lp", T, B, labels)
	width, lens := 0, make([]int, B)
	for i, t := range targets {
		lens[i] = len(t)
		if len(t) > width {
			width = len(t)
		}
	}
	var tn *G.Node
	if flat {
		var all []int
		for _, t := range targets {
			all = append(all, t...)
		}
		tn = ints(p.g, "targets", all, len(all))
	} else {
		if width == 0 {
			width = 1
		}
		all := make([]int, 0, B*width)
		for _, t := range targets {
			all = append(all, t...)
			for j := len(t); j < width; j++ {
				all = append(all, 1)
			}
		}
		tn = ints(p.g, "targets", all, B, width)
	}
	red := G.ReductionSum
	if mean {
		red = G.ReductionMean
	}
	p.loss = hlp.Node(G.CTCLoss(p.lp.N, tn, ints(p.g, "steps", steps, B), ints(p.g, "lengths", lens, B), red))
	for b := range steps {
		l, n := likelihood(func(t, c int) float64 { return p.lp.Arr().At(t, b, c) }, steps[b], labels, targets[b])
		vsym.Assume(n > 0)
		p.want = append(p.want, -vsym.Log(l))
	}
	return p
}

func (p *problem) total() float64 {
	w := 0.0
	for b, x := range p.want {
		if l := len(p.targets[b]); p.mean && l > 1 {
			x /= float64(l)
		}
		w += x
	}
	if p.mean {
		w /= float64(len(p.want))
	}
	return w
}

var targets = [][]int{{}, {1}, {2}, {1, 2}, {1, 1}, {2, 1}}

// HOne: a single sequence of 1 to 3 steps over 3 labels, six targets with up to two labels, values of both reductions.
//
//vsym:paths=20000
func HOne() {
	T := 1 + vsym.Choice("T", 3)
	steps := T - vsym.Choice("padding", 2)
	vsym.Assume(steps > 0)
	target := targets[vsym.Choice("target", len(targets))]
	p := build(tensor.Float64, T, 3, []int{steps}, [][]int{target}, false, vsym.Choice("mean", 2) == 1)
	hlp.RunTape(p.g)
	hlp.IsArr(p.loss, hlp.A([]float64{p.total()}), "loss")
	hlp.IsArr(p.lp.N, p.lp.Arr(), "log-probabilities")
}

// HBatch: two sequences of up to two steps, which may end earlier, with targets of different lengths given as rows of a
// matrix or one after the other, values in both widths.
//
//vsym:paths=40000
func HBatch() {
	dt := []tensor.Dtype{tensor.Float64, tensor.Float32}[vsym.Choice("width", 2)]
	T := 2
	steps := []int{T - vsym.Choice("padding", 2), T - vsym.Choice("padding2", 2)}
	ts := [][]int{targets[vsym.Choice("target", 4)], targets[vsym.Choice("target2", 4)]}
	flat := vsym.Choice("flat", 2) == 1
	vsym.Assume(!flat || len(ts[0])+len(ts[1]) > 0)
	p := build(dt, T, 3, steps, ts, flat, vsym.Choice("mean", 2) == 1)
	hlp.RunTape(p.g)
	hlp.IsArr(p.loss, hlp.A([]float64{p.total()}), "loss")
	hlp.IsArr(p.lp.N, p.lp.Arr(), "log-probabilities")
}

// HGrad: the gradient of the sum by the log-probabilities: for sequences of 1 or 2 steps (3 for a repeated label), which may end
// earlier, and targets of up to two labels. It is the derivative plus the probability, which is the gradient by the input of a
// log-softmax, and zero for steps after the end.
//
//vsym:paths=20000
func HGrad() {
	dt := []tensor.Dtype{tensor.Float64, tensor.Float32}[vsym.Choice("width", 2)]
	target := targets[vsym.Choice("target", len(targets))]
	T := 1 + vsym.Choice("T", 2)
	if len(target) == 2 && target[0] == target[1] {
		T = 3
	}
	steps := T - vsym.Choice("padding", 2)
	vsym.Assume(steps > 0)
	p := build(dt, T, 3, []int{steps}, [][]int{target}, false, false)
	p.grad(false)
}

// HGrad3: the gradient for sequences of 3 steps.
//
//vsym:thorough
//vsym:paths=20000
func HGrad3() {
	target := targets[vsym.Choice("target", len(targets))]
	p := build(tensor.Float64, 3, 3, []int{3}, [][]int{target}, false, false)
	p.grad(false)
}

// HFour: the value for sequences of 4 steps and targets of up to three labels.
//
//vsym:thorough
//vsym:paths=40000
func HFour() {
	target := [][]int{{1}, {1, 1}, {1, 2}, {1, 2, 1}}[vsym.Choice("target", 4)]
	p := build(tensor.Float64, 4, 3, []int{4}, [][]int{target}, false, false)
	hlp.RunTape(p.g)
	hlp.IsArr(p.loss, hlp.A([]float64{p.total()}), "loss")
}

// HGradDirect: the gradient when the loss itself is the cost, in a second run with other log-probabilities.
//
//vsym:paths=20000
func HGradDirect() {
	p := build(tensor.Float64, 2, 2, []int{2}, [][]int{targets[vsym.Choice("target", 2)]}, false, false)
	p.grad(true)
}

// HGradBatch: the gradient for two sequences.
//
//vsym:paths=20000
func HGradBatch() {
	dt := tensor.Float64
	T := 2
	steps := []int{T - vsym.Choice("padding", 2), T - vsym.Choice("padding2", 2)}
	ts := [][]int{targets[vsym.Choice("target", 3)], targets[vsym.Choice("target2", 4)]}
	flat := vsym.Choice("flat", 2) == 1
	vsym.Assume(!flat || len(ts[0])+len(ts[1]) > 0)
	p := build(dt, T, 3, steps, ts, flat, false)
	p.grad(false)
}

func (p *problem) grad(direct bool) {
	cost, w := p.loss, 1.0
	if !direct {
		in := hlp.Sym(p.g, p.lp.DT, "w")
		cost, w = hlp.Node(G.Mul(p.loss, in.N)), in.X[0]
	}
	_, err := G.Grad(cost, p.lp.N)
	hlp.Ok(err, "grad")
	m := G.NewTapeMachine(p.g, G.BindDualValues(p.lp.N))
	if direct {
		keep := p.lp.X
		p.lp.Rebind(hlp.Syms("first", len(keep)))
		hlp.Ok(m.RunAll(), "run")
		p.lp.Rebind(keep)
		m.Reset()
		d, err := p.lp.N.Grad()
		hlp.Ok(err, "gradient")
		d.(*tensor.Dense).Zero()
	}
	hlp.Ok(m.RunAll(), "run")
	total := p.total()
	hlp.IsArr(cost, hlp.A([]float64{total * w}), "loss")
	d, err := p.lp.N.Grad()
	hlp.Ok(err, "gradient")
	want := hlp.Build(p.lp.Shape, func(ix []int) float64 {
		if ix[0] >= p.steps[ix[1]] {
			return 0
		}
		x := p.lp.Arr().At(ix...)
		return w * (vsym.Exp(x) + vsym.Deriv(total, x))
	})
	hlp.ValIsArr(d, want, hlp.Tol(p.lp.DT), "gradient")
	hlp.Ok(m.Close(), "close")
}
