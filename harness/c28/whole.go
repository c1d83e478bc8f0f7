package c28

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
)

// HPrecompiled: a graph of three operations on two matrices compiled once as a whole; two machines run the program in turn.
//
//vsym:paths=4000
func HPrecompiled() {
	w := &whole{g: G.NewGraph(), dt: dts[vsym.Choice("dtype", 2)]}
	w.input("x", 2, 2)
	w.input("y", 2, 2)
	w.step([]hlp.Op{hlp.OpMatMul, hlp.OpNeg}, 2)
	w.step([]hlp.Op{hlp.OpProd, hlp.OpNeg, hlp.OpTrans}, 2)
	w.step([]hlp.Op{hlp.OpSub, hlp.OpSumRow, hlp.OpConcat}, 2)
	for _, in := range w.ins {
		in.Rebind(in.X)
	}
	prog, loc, err := G.Compile(w.g)
	hlp.Ok(err, "compiling")
	ms := []G.VM{G.NewTapeMachine(w.g, G.WithPrecompiled(prog, loc)), G.NewTapeMachine(w.g, G.WithPrecompiled(prog, loc))}
	last := w.vs[len(w.vs)-1]
	var first hlp.Arr
	for run := 0; run < 3; run++ {
		m := ms[run%2]
		hlp.Ok(m.RunAll(), "running")
		hlp.ValIsArr(last.N.Value(), last.A, hlp.Tol(w.dt)*10, "result")
		for _, in := range w.ins {
			hlp.Is(in.N, in.X, "input")
		}
		if run == 0 {
			first = hlp.Arr{Sh: last.A.Sh, D: append([]float64{}, hlp.Nums(last.N.Value())...)}
		}
		m.Reset()
	}
	hlp.ValIsArr(last.N.Value(), first, hlp.Tol(w.dt)*10, "result of the first run")
	for _, m := range ms {
		hlp.Ok(m.Close(), "close")
	}
	vsym.Cover("precompiled")
}
