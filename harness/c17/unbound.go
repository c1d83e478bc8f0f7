package c17

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
)

// HUnbound: every value of a graph with constants is taken away after a run, or a machine takes away what it computed;
// with inputs given again the next run is that of a fresh graph, attached gradients included, and an input that is
// still missing is reported.
func HUnbound() {
	vsym.Generic(true)
	lisp := vsym.Bool("lisp")
	fwd := vsym.Bool("forward only")
	dt := dts[vsym.Choice("dtype", 2)]
	way := vsym.Choice("way", 5)
	same := vsym.Bool("same machine")
	sh := []shaped{{[]int{2}, false}, {[]int{2, 2}, false}}
	p := func(ins []*hlp.In) []*G.Node {
		h := hlp.Node(G.Mul(ins[1].N, ins[0].N))
		k := G.NewConstant(hlp.Dense(dt, []float64{2, -3}, 2), G.WithName("k"))
		c := G.NewConstant(hlp.Value(dt, []float64{5}, nil))
		return []*G.Node{hlp.Node(G.HadamardProd(hlp.Node(G.Sub(h, c)), k))}
	}
	xs := draw(sh)
	s := build(dt, lisp, fwd, false, sh, xs, 1, p)
	hlp.Ok(s.m.RunAll(), "run")
	again := func() {
		if same {
			s.m.Reset()
			return
		}
		hlp.Ok(s.m.Close(), "close")
		s.machine(lisp, fwd)
	}
	give := func(from int) {
		xs = draw(sh)
		for i := from; i < len(sh); i++ {
			hlp.Ok(G.Let(s.ins[i].N, hlp.Value(dt, xs[i], sh[i].shape)), "let")
		}
	}
	missing := false
	sum := false
	switch way {
	case 0:
		s.g.UnbindAll()
		give(0)
		again()
	case 1:
		again()
		s.g.UnbindAll()
		give(0)
	case 2:
		again()
		s.g.UnbindAll()
		give(1)
		missing = true
	case 3:
		m, ok := s.m.(interface{ UnbindAll() })
		vsym.Assume(ok)
		m.UnbindAll()
		again()
		sum = true
	case 4:
		m, ok := s.m.(interface{ UnbindAll() })
		vsym.Assume(ok)
		again()
		m.UnbindAll()
		give(0)
		sum = true
	}
	var before [][]float64
	if sum && !fwd {
		before = s.gradients()
	}
	err := s.m.RunAll()
	if missing {
		vsym.Assert(err != nil, "a missing input is not reported")
		vsym.Cover("missing")
		return
	}
	hlp.Ok(err, "run again")
	f := build(dt, lisp, fwd, false, sh, xs, 1, p)
	hlp.Ok(f.m.RunAll(), "fresh run")
	tol := hlp.Tol(dt) * 10
	for i := range s.vals {
		hlp.Same(hlp.Nums(*s.vals[i]), hlp.Nums(*f.vals[i]), tol, "value after unbinding")
	}
	if !fwd {
		want := f.gradients()
		for i, d := range s.gradients() {
			if sum {
				for j := range d {
					want[i][j] += before[i][j]
				}
			}
			hlp.Same(d, want[i], tol, "attached gradient after unbinding")
		}
	}
	vsym.Cover("unbound")
}
