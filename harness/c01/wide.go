package c01

import (
	"fmt"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
)

// HWide: sixteen inputs, products or differences of neighbours which all stay in use until they are combined, first with last,
// next to each other or in turn with the inputs: more values at a time than small programs have. Vectors of both widths.
//
//vsym:paths=200
func HWide() {
	g := G.NewGraph()
	dt := dts[vsym.Choice("width", 2)]
	const n = 16
	var ins, pool []hlp.V
	for i := 0; i < n; i++ {
		ins = append(ins, hlp.Sym(g, dt, fmt.Sprintf("x%d", i), 2).V())
	}
	op := []hlp.Op{hlp.OpProd, hlp.OpSub}[vsym.Choice("operation", 2)]
	pool = append(pool, ins...)
	for i := range ins {
		pool = append(pool, build(op, ins[i], ins[(i+1)%n]))
	}
	mids := pool[n:]
	order := vsym.Choice("order", 4)
	for i := 0; i < n/2; i++ {
		a, b := mids[i], mids[n-1-i]
		switch order {
		case 1:
			a, b = mids[2*i], mids[2*i+1]
		case 2:
			a, b = mids[i], ins[n-1-i]
		case 3:
			a, b = mids[n-1-i], mids[i]
		}
		pool = append(pool, build(hlp.OpAdd, a, b))
	}
	acc := pool[2*n]
	for _, v := range pool[2*n+1:] {
		acc = build(hlp.OpSub, v, acc)
		pool = append(pool, acc)
	}
	check(g, pool, vsym.Choice("way", 3))
}

func build(op hlp.Op, a, b hlp.V) hlp.V {
	v, ok := op.Build(a, b)
	vsym.Assert(ok, "building a node")
	return v
}

// HLong: a chain of 60 additions, subtractions and negations which uses a value of up to thirty steps before at every third.
//
//vsym:paths=200
func HLong() {
	g := G.NewGraph()
	dt := dts[vsym.Choice("width", 2)]
	a, b := hlp.Sym(g, dt, "a", 2), hlp.Sym(g, dt, "b", 2)
	pool := []hlp.V{a.V(), b.V()}
	back := []int{1, 7, 30}[vsym.Choice("distance", 3)]
	ops := []hlp.Op{hlp.OpAdd, hlp.OpNeg, hlp.OpSub}
	turn := vsym.Choice("first", 3)
	for i := 0; i < 60; i++ {
		j := len(pool) - 1 - back
		if j < 0 {
			j = 0
		}
		pool = append(pool, build(ops[(i+turn)%3], pool[len(pool)-1], pool[j]))
	}
	check(g, pool, vsym.Choice("way", 3))
}
