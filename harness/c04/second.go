package c04

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
)

// HSecond: the squares of symbolic gradients of a cost made of products, reductions and operations of shape are a cost
// again, of which symbolic gradients are taken.
//
//vsym:paths=2000
func HSecond() {
	vsym.Generic(true)
	g, dt := G.NewGraph(), dts[vsym.Choice("dtype", 2)]
	N := hlp.Node
	var a, b *hlp.In
	two := func(as, bs []int) { a, b = hlp.Sym(g, dt, "a", as...), hlp.Sym(g, dt, "b", bs...) }
	sh := func(xs ...int) []int { return xs }
	var z *G.Node
	switch vsym.Choice("function", 21) {
	case 0:
		two(sh(2, 3), sh(3, 2))
		z = N(G.Mul(a.N, b.N))
	case 1:
		two(sh(2, 2), sh(2, 2))
		z = N(G.Mul(a.N, b.N))
	case 2:
		two(sh(3, 2), sh(3, 2))
		z = N(G.Mul(N(G.Transpose(a.N, 1, 0)), b.N))
	case 3:
		two(sh(2, 3), sh(3))
		z = N(G.Mul(a.N, b.N))
	case 4:
		two(sh(2, 2), sh(2))
		z = N(G.Mul(a.N, b.N))
	case 5:
		two(sh(2), sh(2, 3))
		z = N(G.Mul(a.N, b.N))
	case 6:
		two(sh(2), sh(2, 2))
		z = N(G.Mul(a.N, b.N))
	case 7:
		two(sh(2), sh(3))
		z = N(G.OuterProd(a.N, b.N))
	case 8:
		two(sh(2), sh(2))
		z = N(G.OuterProd(a.N, b.N))
	case 9:
		two(sh(3), sh(3))
		z = N(G.Mul(a.N, b.N))
	case 10:
		two(sh(2, 1, 2), sh(2, 2, 1))
		z = N(G.BatchedMatMul(a.N, b.N))
	case 11:
		two(sh(2, 2, 2), sh(2, 2, 2))
		z = N(G.BatchedMatMul(a.N, b.N, true, false))
	case 12:
		two(sh(2, 2, 2), sh(2, 2, 2))
		z = N(G.BatchedMatMul(a.N, b.N, false, true))
	case 13:
		two(sh(2, 3), sh(3, 2))
		z = N(G.HadamardProd(N(G.Sum(N(G.Square(a.N)), 1)), N(G.Sum(N(G.Square(b.N)), 0))))
	case 14:
		two(sh(2, 2), sh(2))
		z = N(G.HadamardProd(N(G.Mean(N(G.Square(a.N)), 0)), b.N))
	case 15:
		two(sh(3, 2), sh(2))
		z = N(G.HadamardProd(N(G.Slice(a.N, G.S(1))), b.N))
	case 16:
		two(sh(2, 2), sh(1, 2))
		z = N(G.Square(N(G.Concat(0, a.N, N(G.HadamardProd(b.N, b.N))))))
	case 17:
		two(sh(2, 3), sh(6))
		z = N(G.HadamardProd(N(G.Reshape(a.N, []int{6})), b.N))
	case 18:
		two(sh(2, 3), sh(3, 2))
		z = N(G.HadamardProd(N(G.Transpose(a.N, 1, 0)), b.N))
	case 19:
		two(sh(2, 3), sh(1, 3))
		z = N(G.BroadcastHadamardProd(a.N, b.N, nil, []byte{0}))
	case 20:
		two(sh(2, 2), sh(2))
		z = N(G.BroadcastHadamardProd(a.N, b.N, nil, []byte{1}))
	}
	cost := hlp.Weighted(g, N(G.Square(z)))
	gs, err := G.Grad(cost, a.N, b.N)
	hlp.Ok(err, "symbolic differentiation")
	sq := N(G.Add(N(G.Sum(N(G.Square(gs[0])))), N(G.Sum(N(G.Square(gs[1]))))))
	hs, err := G.Grad(sq, a.N, b.N)
	hlp.Ok(err, "differentiating gradients")
	hlp.RunTape(g)
	for k, in := range []*hlp.In{a, b} {
		hlp.Deriv(hlp.Nums(sq.Value())[0], in, hs[k].Value(), "gradient of gradients", k)
	}
}
