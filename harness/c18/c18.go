// Package c18: which expressions share a node.
package c18

import (
	rng "github.com/leesper/go_rng"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

type mk func() (*G.Node, error)

type shaped struct {
	name  string
	shape []int
	pos   bool
}

func inputs(g *G.ExprGraph, sh []shaped, xs [][]float64) []*hlp.In {
	var r []*hlp.In
	for i, s := range sh {
		r = append(r, hlp.Var(g, hlp.F64, s.name, xs[i], s.shape...))
	}
	return r
}

func draw(sh []shaped) [][]float64 {
	var r [][]float64
	for _, s := range sh {
		if s.pos {
			r = append(r, hlp.SymsPos(s.name, hlp.Prod(s.shape), 0))
		} else {
			r = append(r, hlp.Syms(s.name, hlp.Prod(s.shape)))
		}
	}
	return r
}

// check builds all the expressions in one graph and compares the value of each with that of the same expression alone
// in a graph. Building an expression again gives the same node.
func check(sh []shaped, exprs func(in []*hlp.In) []mk) {
	xs := draw(sh)
	g := G.NewGraph()
	es := exprs(inputs(g, sh, xs))
	order := vsym.Choice("order", 2)
	ns := make([]*G.Node, len(es))
	vs := make([]*G.Value, len(es))
	for i := range es {
		k := i
		if order == 1 {
			k = len(es) - 1 - i
		}
		ns[k] = hlp.Node(es[k]())
		vs[k] = hlp.Watch(ns[k])
	}
	for i := range es {
		vsym.Assert(hlp.Node(es[i]()) == ns[i], "building the same expression again gives another node", i)
		for j := 0; j < i; j++ {
			vsym.Assert(ns[i] != ns[j], "different expressions share a node", i, j)
		}
	}
	hlp.RunTape(g)
	for i := range es {
		alone := G.NewGraph()
		n := hlp.Node(exprs(inputs(alone, sh, xs))[i]())
		v := hlp.Watch(n)
		hlp.RunTape(alone)
		vsym.Assert((*vs[i]).Shape().Eq((*v).Shape()), "shape", i)
		hlp.Same(hlp.Nums(*vs[i]), hlp.Nums(*v), 1e-6, "value of an expression among others")
	}
	vsym.Cover("compared")
}

func u(f func(*G.Node) (*G.Node, error), x *hlp.In) mk {
	return func() (*G.Node, error) { return f(x.N) }
}

func b(f func(a, b *G.Node) (*G.Node, error), x, y *hlp.In) mk {
	return func() (*G.Node, error) { return f(x.N, y.N) }
}

func same(f func(a, b *G.Node, same bool) (*G.Node, error), x, y *hlp.In) mk {
	return func() (*G.Node, error) { return f(x.N, y.N, true) }
}

// HElementwise: all elementwise operations on two vectors and a scalar, operands in either order and repeated.
//
//vsym:paths=3000
func HElementwise() {
	vsym.Generic(true)
	check([]shaped{{"x", []int{1}, true}, {"y", []int{1}, true}}, func(in []*hlp.In) []mk {
		x, y := in[0], in[1]
		var r []mk
		for _, f := range []func(*G.Node) (*G.Node, error){G.Abs, G.Sign, G.Sin, G.Cos, G.Exp, G.Log, G.Neg, G.Square,
			G.Sqrt, G.Inverse, G.InverseSqrt, G.Cube, G.Tanh, G.Log1p, G.Expm1, G.Log2} {
			r = append(r, u(f, x), u(f, y))
		}
		for _, f := range []func(a, b *G.Node) (*G.Node, error){G.Add, G.Sub, G.HadamardProd, G.HadamardDiv, G.Pow, G.MinBetween, G.MaxBetween} {
			r = append(r, b(f, x, y), b(f, y, x), b(f, x, x))
		}
		for _, f := range []func(a, b *G.Node, same bool) (*G.Node, error){G.Lt, G.Gt, G.Lte, G.Gte, G.Eq, G.Ne} {
			r = append(r, same(f, x, y), same(f, y, x))
		}
		return r
	})
}

func sl(s, e, st int) tensor.Slice { return G.S(s, e, st) }

// HShaping: reductions, slices, transpositions, reshapes, concatenations and selections of a matrix, a square matrix
// and a tensor with every parameter.
func HShaping() {
	check([]shaped{{"x", []int{2, 3}, false}, {"s", []int{2, 2}, false}, {"t", []int{2, 2, 2}, false}}, func(in []*hlp.In) []mk {
		x, s, t := in[0], in[1], in[2]
		var r []mk
		add := func(f func() (*G.Node, error)) { r = append(r, f) }
		for _, n := range []*hlp.In{x, s} {
			n := n.N
			add(func() (*G.Node, error) { return G.Sum(n) })
			add(func() (*G.Node, error) { return G.Sum(n, 0) })
			add(func() (*G.Node, error) { return G.Sum(n, 1) })
			add(func() (*G.Node, error) { return G.Mean(n, 0) })
			add(func() (*G.Node, error) { return G.Mean(n, 1) })
			add(func() (*G.Node, error) { return G.Transpose(n) })
			add(func() (*G.Node, error) { return G.Norm(n, 0, 2) })
			add(func() (*G.Node, error) { return G.Norm(n, 1, 2) })
			add(func() (*G.Node, error) { return G.At(n, 0, 0) })
			add(func() (*G.Node, error) { return G.At(n, 0, 1) })
			add(func() (*G.Node, error) { return G.At(n, 1, 0) })
			add(func() (*G.Node, error) { return G.At(n, 1, 1) })
			add(func() (*G.Node, error) { return G.Slice(n, sl(0, 1, 1)) })
			add(func() (*G.Node, error) { return G.Slice(n, sl(1, 2, 1)) })
			add(func() (*G.Node, error) { return G.Slice(n, nil, sl(0, 1, 1)) })
			add(func() (*G.Node, error) { return G.Slice(n, nil, sl(1, 2, 1)) })
			add(func() (*G.Node, error) { return G.Slice(n, nil, sl(0, 2, 1)) })
			add(func() (*G.Node, error) { return G.Ravel(n) })
		}
		add(func() (*G.Node, error) { return G.Slice(x.N, nil, sl(1, 3, 1)) })
		add(func() (*G.Node, error) { return G.Reshape(x.N, tensor.Shape{3, 2}) })
		add(func() (*G.Node, error) { return G.Reshape(x.N, tensor.Shape{6, 1}) })
		add(func() (*G.Node, error) { return G.Reshape(x.N, tensor.Shape{1, 6}) })
		add(func() (*G.Node, error) { return G.Reshape(x.N, tensor.Shape{1, 2, 3}) })
		add(func() (*G.Node, error) { return G.Concat(0, s.N, s.N) })
		add(func() (*G.Node, error) { return G.Concat(1, s.N, s.N) })
		add(func() (*G.Node, error) { return G.Concat(1, s.N, x.N) })
		add(func() (*G.Node, error) { return G.Concat(1, x.N, s.N) })
		add(func() (*G.Node, error) { return G.Concat(1, s.N, s.N, s.N) })
		for _, p := range hlp.Perms(3) {
			p := p
			if p[0] == 0 && p[1] == 1 {
				continue
			}
			add(func() (*G.Node, error) { return G.Transpose(t.N, p...) })
		}
		for _, ax := range [][]int{{0}, {1}, {2}, {0, 1}, {0, 2}, {1, 2}} {
			ax := ax
			add(func() (*G.Node, error) { return G.Sum(t.N, ax...) })
		}
		for k := 0; k < 3; k++ {
			k := k
			add(func() (*G.Node, error) { return G.Concat(k, t.N, t.N) })
		}
		return r
	})
}

// HRanks: transpositions, reductions, selections, slices, concatenations, reshapes and normalisations of a tensor of
// rank 4 with every axis, permutation and position, and slices of a vector with every stride.
//
//vsym:paths=3000
func HRanks() {
	vsym.Generic(true)
	kind := vsym.Choice("kind", 6)
	if kind == 5 {
		t := hlp.Sym(G.NewGraph(), hlp.F64, "t", 2, 2, 2, 2).N
		var r []mk
		for k := 0; k < 4; k++ {
			k := k
			r = append(r, func() (*G.Node, error) { return G.SoftMax(t, k) })
			r = append(r, func() (*G.Node, error) { return G.LogSoftMax(t, k) })
			r = append(r, func() (*G.Node, error) { return G.Norm(t, k, 2) })
			r = append(r, func() (*G.Node, error) { return G.Max(t, k) })
		}
		distinct(r)
		return
	}
	check([]shaped{{"t", []int{2, 2, 2, 2}, false}, {"v", []int{7}, false}}, func(in []*hlp.In) []mk {
		t, v := in[0].N, in[1].N
		var r []mk
		add := func(f func() (*G.Node, error)) { r = append(r, f) }
		switch kind {
		case 0:
			for _, p := range hlp.Perms(4)[1:] {
				p := p
				add(func() (*G.Node, error) { return G.Transpose(t, p...) })
			}
		case 1:
			for _, ax := range hlp.Subsets(4) {
				ax := ax
				if len(ax) == 0 {
					continue
				}
				add(func() (*G.Node, error) { return G.Sum(t, ax...) })
				add(func() (*G.Node, error) { return G.Mean(t, ax...) })
			}
		case 2:
			for i := 0; i < 16; i++ {
				i := i
				add(func() (*G.Node, error) { return G.At(t, i>>3, i>>2&1, i>>1&1, i&1) })
			}
			for k := 0; k < 4; k++ {
				for i := 0; i < 2; i++ {
					s := make([]tensor.Slice, k+1)
					s[k] = sl(i, i+1, 1)
					add(func() (*G.Node, error) { return G.Slice(t, s...) })
				}
			}
		case 3:
			for k := 0; k < 4; k++ {
				k := k
				add(func() (*G.Node, error) { return G.Concat(k, t, t) })
				add(func() (*G.Node, error) { return G.Concat(k, t, t, t) })
			}
			for _, s := range [][]int{{16}, {2, 8}, {4, 4}, {8, 2}, {1, 16}, {16, 1}, {2, 2, 4}, {2, 4, 2}, {4, 2, 2}, {1, 4, 4}, {4, 1, 4}, {4, 4, 1}, {2, 2, 2, 2, 1}, {1, 2, 2, 2, 2}, {2, 1, 2, 2, 2}} {
				s := s
				add(func() (*G.Node, error) { return G.Reshape(t, tensor.Shape(s)) })
			}
		case 4:
			for s := 0; s < 7; s++ {
				for e := s + 2; e <= 7; e++ {
					for st := 1; st < e-s; st++ {
						s, e, st := s, e, st
						add(func() (*G.Node, error) { return G.Slice(v, sl(s, e, st)) })
					}
				}
			}
		}
		return r
	})
}

// HActivations: softmaxes, rectifiers and normalisations of a matrix with different parameters.
//
//vsym:paths=3000
func HActivations() {
	vsym.Generic(true)
	group := vsym.Choice("group", 3)
	sh := []shaped{{"x", []int{2, 2}, true}}
	if group == 2 {
		sh = append(sh, shaped{"one", []int{1, 2, 1, 1}, true})
	}
	check(sh, func(in []*hlp.In) []mk {
		n := in[0].N
		var r []mk
		add := func(f func() (*G.Node, error)) { r = append(r, f) }
		switch group {
		case 0:
			add(func() (*G.Node, error) { return G.SoftMax(n, 0) })
			add(func() (*G.Node, error) { return G.SoftMax(n, 1) })
			add(func() (*G.Node, error) { return G.LogSoftMax(n, 0) })
			add(func() (*G.Node, error) { return G.LogSoftMax(n, 1) })
		case 1:
			for _, a := range []float64{0.5, 0.25, 1e-9, 2e-9, 0} {
				a := a
				add(func() (*G.Node, error) { return G.LeakyRelu(n, a) })
			}
		case 2:
			for _, p := range []struct {
				k, n int
				e    float64
			}{{1, 2, 0.5}, {2, 2, 0.5}, {1, 2, 0.25}, {1, 2, 1e-9}, {1, 2, 2e-9}} {
				p := p
				add(func() (*G.Node, error) {
					m, err := G.Reshape(n, tensor.Shape{1, 2, 1, 2})
					if err != nil {
						return nil, err
					}
					return G.GroupNorm(m, in[1].N, in[1].N, p.k, p.n, p.e)
				})
			}
		}
		return r
	})
}

// HLinalg: products of square matrices in every orientation and contraction.
func HLinalg() {
	check([]shaped{{"a", []int{2, 2}, false}, {"b", []int{2, 2}, false}, {"v", []int{2}, false}, {"t", []int{2, 2, 2}, false}, {"u", []int{2, 2, 2}, false}}, func(in []*hlp.In) []mk {
		a, c, v, t, w := in[0].N, in[1].N, in[2].N, in[3].N, in[4].N
		var r []mk
		add := func(f func() (*G.Node, error)) { r = append(r, f) }
		add(func() (*G.Node, error) { return G.Mul(a, c) })
		add(func() (*G.Node, error) { return G.Mul(c, a) })
		add(func() (*G.Node, error) { return G.Mul(a, a) })
		add(func() (*G.Node, error) { return G.HadamardProd(a, c) })
		add(func() (*G.Node, error) { return G.Mul(a, v) })
		add(func() (*G.Node, error) { return G.Mul(v, a) })
		add(func() (*G.Node, error) { return G.Mul(c, v) })
		add(func() (*G.Node, error) { return G.Mul(v, v) })
		add(func() (*G.Node, error) { return G.OuterProd(v, v) })
		for i := 0; i < 4; i++ {
			i := i
			add(func() (*G.Node, error) { return G.BatchedMatMul(t, w, i&1 == 1, i&2 == 2) })
		}
		add(func() (*G.Node, error) { return G.BatchedMatMul(w, t) })
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				i, j := i, j
				add(func() (*G.Node, error) { return G.Tensordot([]int{i}, []int{j}, a, c) })
			}
		}
		add(func() (*G.Node, error) { return G.Tensordot([]int{0}, []int{0}, c, a) })
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				i, j := i, j
				add(func() (*G.Node, error) { return G.Tensordot([]int{i}, []int{j}, t, w) })
			}
		}
		pats := [][2][]byte{{{0}, nil}, {{1}, nil}, {nil, {0}}, {nil, {1}}}
		for _, p := range pats[2:] {
			p := p
			add(func() (*G.Node, error) {
				n, err := G.Reshape(v, tensor.Shape{1, 2})
				if err != nil {
					return nil, err
				}
				if p[1][0] == 1 {
					if n, err = G.Reshape(v, tensor.Shape{2, 1}); err != nil {
						return nil, err
					}
				}
				return G.BroadcastAdd(a, n, p[0], p[1])
			})
		}
		add(func() (*G.Node, error) { return G.DiagFlat(v) })
		return r
	})
}

// HImages: convolutions and pooling of one image with different kernels, strides, paddings and dilations.
//
//vsym:paths=3000
func HImages() {
	check([]shaped{{"im", []int{1, 1, 3, 3}, false}, {"f", []int{1, 1, 2, 2}, false}, {"l", []int{1, 1, 1, 2}, false}}, func(in []*hlp.In) []mk {
		im, f, l := in[0].N, in[1].N, in[2].N
		var r []mk
		add := func(f func() (*G.Node, error)) { r = append(r, f) }
		k := tensor.Shape{2, 2}
		for _, p := range [][3][]int{{{0, 0}, {1, 1}, {1, 1}}, {{1, 1}, {1, 1}, {1, 1}}, {{1, 0}, {1, 1}, {1, 1}}, {{0, 1}, {1, 1}, {1, 1}},
			{{0, 0}, {2, 1}, {1, 1}}, {{0, 0}, {1, 2}, {1, 1}}, {{0, 0}, {1, 1}, {2, 1}}, {{0, 0}, {1, 1}, {1, 2}}, {{1, 1}, {2, 2}, {1, 1}}, {{1, 1}, {1, 1}, {2, 2}}} {
			p := p
			add(func() (*G.Node, error) { return G.Conv2d(im, f, k, p[0], p[1], p[2]) })
		}
		for s := 1; s < 4; s += 2 {
			s := s
			add(func() (*G.Node, error) {
				return G.Conv2d(im, l, tensor.Shape{1, 2}, []int{0, 0}, []int{s, s}, []int{1, 1})
			})
			add(func() (*G.Node, error) {
				t, err := G.Reshape(l, tensor.Shape{1, 1, 2, 1})
				if err != nil {
					return nil, err
				}
				return G.Conv2d(im, t, tensor.Shape{2, 1}, []int{0, 0}, []int{s, s}, []int{1, 1})
			})
		}
		for _, p := range [][3][]int{{{2, 2}, {0, 0}, {1, 1}}, {{2, 1}, {0, 0}, {1, 1}}, {{1, 2}, {0, 0}, {1, 1}}, {{2, 2}, {1, 1}, {1, 1}},
			{{2, 2}, {0, 0}, {2, 1}}, {{2, 2}, {0, 0}, {1, 2}}, {{3, 3}, {0, 0}, {1, 1}}, {{2, 2}, {1, 1}, {2, 2}}} {
			p := p
			add(func() (*G.Node, error) { return G.AveragePool2D(im, tensor.Shape(p[0]), p[1], p[2]) })
		}
		add(func() (*G.Node, error) { return G.Upsample2D(im, 1) })
		add(func() (*G.Node, error) { return G.Upsample2D(im, 2) })
		add(func() (*G.Node, error) { return G.GlobalAveragePool2D(im) })
		return r
	})
}

// HMaxPools: maximum pooling of one image with pairs of settings.
//
//vsym:paths=4000
func HMaxPools() {
	sets := [][3][]int{{{2, 2}, {0, 0}, {1, 1}}, {{2, 1}, {0, 0}, {1, 1}}, {{1, 2}, {0, 0}, {1, 1}}, {{2, 2}, {0, 0}, {2, 1}}, {{2, 2}, {0, 0}, {1, 2}}, {{1, 1}, {0, 0}, {2, 1}}, {{1, 1}, {0, 0}, {1, 2}}}
	i := vsym.Choice("i", len(sets))
	j := vsym.Choice("j", len(sets))
	vsym.Assume(i < j)
	check([]shaped{{"im", []int{1, 1, 2, 2}, false}}, func(in []*hlp.In) []mk {
		im := in[0].N
		p := func(k int) mk {
			s := sets[k]
			return func() (*G.Node, error) { return G.MaxPool2D(im, tensor.Shape(s[0]), s[1], s[2]) }
		}
		return []mk{p(i), p(j)}
	})
}

// HSettingsGrid: convolutions and pools of one image with every combination of small settings.
func HSettingsGrid() {
	g := G.NewGraph()
	im := G.NewTensor(g, hlp.F64, 4, G.WithName("im"), G.WithShape(1, 1, 5, 5))
	f := G.NewTensor(g, hlp.F64, 4, G.WithName("f"), G.WithShape(1, 1, 2, 2))
	var r []mk
	add := func(f func() (*G.Node, error)) { r = append(r, f) }
	two := func(lo, hi int, f func(s []int)) {
		for a := lo; a <= hi; a++ {
			for b := lo; b <= hi; b++ {
				f([]int{a, b})
			}
		}
	}
	which := vsym.Choice("operation", 4)
	two(0, 1, func(pad []int) {
		two(1, 3, func(stride []int) {
			two(1, 2, func(k []int) {
				switch which {
				case 0:
					add(func() (*G.Node, error) { return G.Conv2d(im, f, tensor.Shape{2, 2}, pad, stride, k) })
				case 1:
					add(func() (*G.Node, error) { return G.AveragePool2D(im, tensor.Shape{k[0] + 1, k[1] + 1}, pad, stride) })
				case 2:
					add(func() (*G.Node, error) { return G.MaxPool2D(im, tensor.Shape{k[0] + 1, k[1] + 1}, pad, stride) })
				case 3:
					two(0, 1, func(pad2 []int) {
						add(func() (*G.Node, error) {
							return G.MaxPool2D(im, tensor.Shape{2, 2}, []int{pad[0], pad[1], pad2[0], pad2[1]}, []int{stride[0] + 3*k[0], stride[1] + 3*k[1]})
						})
					})
				}
			})
		})
	})
	distinct(r)
}

// HFar: positions and extents beyond 255, which differ by a multiple of 256.
func HFar() {
	check([]shaped{{"x", []int{516}, false}}, func(in []*hlp.In) []mk {
		x := in[0].N
		var r []mk
		add := func(f func() (*G.Node, error)) { r = append(r, f) }
		for _, s := range [][3]int{{0, 2, 1}, {256, 258, 1}, {512, 514, 1}, {0, 514, 257}, {0, 514, 1}, {2, 258, 1}, {2, 514, 1}, {0, 258, 1}} {
			s := s
			if (s[1]-s[0])%s[2] != 0 {
				continue
			}
			add(func() (*G.Node, error) { return G.Slice(x, sl(s[0], s[1], s[2])) })
		}
		for _, k := range []int{1, 257, 513} {
			k := k
			add(func() (*G.Node, error) { return G.At(x, k) })
		}
		return r
	})
}

// HNames: inputs are told apart by name, type and shape; same-named ones of the same type and shape are one. The names
// include two whose hashes are equal, and operations on them stay apart as well.
func HNames() {
	g := G.NewGraph()
	names := []string{"x", "y", "v1539599", "v1722382", "v1539598", "v1722383"}
	var ins []*hlp.In
	for _, n := range names {
		ins = append(ins, hlp.Sym(g, hlp.F64, n, 2))
	}
	for i, n := range names {
		vsym.Assert(G.NewVector(g, hlp.F64, G.WithName(n), G.WithShape(2)) == ins[i].N, "an input of the same name is another node", i)
		for j := 0; j < i; j++ {
			vsym.Assert(ins[i].N != ins[j].N, "inputs of different names share a node", i, j)
		}
	}
	other := []*G.Node{ins[0].N, G.NewVector(g, hlp.F32, G.WithName("x"), G.WithShape(2)), G.NewVector(g, hlp.F64, G.WithName("x"), G.WithShape(3)),
		G.NewMatrix(g, hlp.F64, G.WithName("x"), G.WithShape(2, 1)), G.NewMatrix(g, hlp.F64, G.WithName("x"), G.WithShape(1, 2)), G.NewScalar(g, hlp.F64, G.WithName("x"))}
	for i := range other {
		for j := 0; j < i; j++ {
			vsym.Assert(other[i] != other[j], "inputs of different types or shapes share a node", i, j)
		}
	}
	vsym.Cover("names")
}

// HCollide: expressions over inputs whose hashes collide.
func HCollide() {
	check([]shaped{{"v1539599", []int{2}, false}, {"v1722382", []int{2}, false}, {"y", []int{2}, false}}, func(in []*hlp.In) []mk {
		x, z, y := in[0], in[1], in[2]
		var r []mk
		for _, f := range []func(*G.Node) (*G.Node, error){G.Neg, G.Square, G.Cube} {
			r = append(r, u(f, x), u(f, z))
		}
		for _, f := range []func(a, b *G.Node) (*G.Node, error){G.Add, G.Sub, G.HadamardProd} {
			r = append(r, b(f, x, y), b(f, z, y), b(f, x, z), b(f, z, x), b(f, x, x), b(f, z, z))
		}
		for _, n := range []*G.Node{x.N, z.N} {
			n := n
			r = append(r, func() (*G.Node, error) {
				m, err := G.Square(n)
				if err != nil {
					return nil, err
				}
				return G.Sum(m)
			})
		}
		return r
	})
}

// HConstants: constants are one node exactly if they have the same type, shape and elements.
func HConstants() {
	big := func(k int, v float64) *tensor.Dense {
		x := make([]float64, 400)
		x[k] = v
		return hlp.Dense(hlp.F64, x, 400)
	}
	sq := func(k int, v float64) *tensor.Dense {
		x := make([]float64, 400)
		x[k] = v
		return hlp.Dense(hlp.F64, x, 20, 20)
	}
	vals := []interface{}{1.0, float32(1), 2.0, -1.0, 0.0, 1 + 1e-12, 1, int32(1), int64(1),
		hlp.Dense(hlp.F64, []float64{1, 2}, 2), hlp.Dense(hlp.F64, []float64{2, 1}, 2), hlp.Dense(hlp.F64, []float64{1, 2}, 2, 1), hlp.Dense(hlp.F64, []float64{1, 2}, 1, 2),
		hlp.Dense(hlp.F32, []float64{1, 2}, 2), hlp.Dense(hlp.F64, []float64{1, 1}, 2), hlp.Dense(hlp.F64, []float64{1, 1 + 1e-12}, 2),
		big(200, 1), big(200, 2), big(201, 1), sq(210, 1), sq(210, 2), sq(211, 1)}
	g := G.NewGraph()
	var ns []*G.Node
	for _, v := range vals {
		ns = append(ns, g.AddNode(G.NewConstant(v)))
	}
	for i, v := range vals {
		vsym.Assert(G.ValueEq(ns[i].Value(), G.NewConstant(v).Value()), "a constant has another value", i)
		vsym.Assert(g.AddNode(G.NewConstant(v)) == ns[i], "an equal constant is another node", i)
		for j := 0; j < i; j++ {
			vsym.Assert(ns[i] != ns[j], "different constants share a node", i, j)
		}
	}
	vsym.Cover("constants")
}

// HGrads: operations that differ only in their parameters, together in one cost with the same weights, keep their own
// gradients, on both machines.
//
//vsym:paths=3000
func HGrads() {
	vsym.Generic(true)
	g := G.NewGraph()
	var x *hlp.In
	var ns []*G.Node
	add := func(n *G.Node, err error) { ns = append(ns, hlp.Node(n, err)) }
	switch vsym.Choice("group", 11) {
	case 0:
		x = hlp.Sym(g, hlp.F64, "x", 2, 2)
		add(G.Sum(x.N, 0))
		add(G.Sum(x.N, 1))
		add(G.Slice(x.N, sl(0, 1, 1)))
		add(G.Slice(x.N, sl(1, 2, 1)))
		add(G.Slice(x.N, nil, sl(0, 1, 1)))
		add(G.Slice(x.N, nil, sl(1, 2, 1)))
		add(G.Norm(x.N, 0, 2))
		add(G.Norm(x.N, 1, 2))
	case 1:
		x = hlp.Sym(g, hlp.F64, "x", 2, 2)
		add(G.Transpose(x.N))
		add(G.Square(x.N))
		add(G.Mul(x.N, x.N))
		add(G.HadamardProd(x.N, ns[0]))
		add(G.Cube(x.N))
	case 2:
		x = hlp.Sym(g, hlp.F64, "x", 2, 2, 2)
		for _, p := range hlp.Perms(3) {
			if p[0] != 0 || p[1] != 1 {
				add(G.Transpose(x.N, p...))
			}
		}
	case 3:
		x = hlp.Sym(g, hlp.F64, "x", 2, 2)
		add(G.SoftMax(x.N, 0))
		add(G.SoftMax(x.N, 1))
		add(G.LogSoftMax(x.N, 0))
		add(G.LogSoftMax(x.N, 1))
	case 4:
		x = hlp.Sym(g, hlp.F64, "x", 1, 1, 3, 3)
		f := hlp.Sym(g, hlp.F64, "f", 1, 1, 2, 2)
		for _, p := range [][3][]int{{{1, 0}, {2, 1}, {1, 1}}, {{0, 1}, {1, 2}, {1, 1}}, {{0, 0}, {1, 1}, {1, 1}}, {{1, 1}, {1, 1}, {2, 2}}, {{0, 0}, {1, 1}, {2, 2}}, {{0, 0}, {2, 2}, {1, 1}}} {
			add(G.Conv2d(x.N, f.N, tensor.Shape{2, 2}, p[0], p[1], p[2]))
		}
	case 5:
		x = hlp.Sym(g, hlp.F64, "x", 1, 1, 3, 3)
		for _, p := range [][3][]int{{{2, 2}, {0, 0}, {1, 1}}, {{2, 2}, {1, 1}, {2, 2}}, {{2, 2}, {1, 0}, {1, 1}}, {{2, 2}, {0, 1}, {1, 1}}, {{1, 1}, {0, 0}, {2, 2}}} {
			add(G.AveragePool2D(x.N, tensor.Shape(p[0]), p[1], p[2]))
		}
	case 6:
		x = hlp.Sym(g, hlp.F64, "x", 1, 1, 2, 2)
		add(G.MaxPool2D(x.N, tensor.Shape{2, 1}, []int{0, 0}, []int{1, 1}))
		add(G.MaxPool2D(x.N, tensor.Shape{1, 2}, []int{0, 0}, []int{1, 1}))
		add(G.MaxPool2D(x.N, tensor.Shape{2, 2}, []int{0, 0}, []int{1, 1}))
		add(G.MaxPool2D(x.N, tensor.Shape{1, 1}, []int{0, 0}, []int{2, 2}))
	case 7:
		x = hlp.Sym(g, hlp.F64, "x", 516)
		for _, s := range [][2]int{{0, 2}, {256, 258}, {512, 514}} {
			add(G.Slice(x.N, sl(s[0], s[1], 1)))
		}
	case 8:
		x = hlp.SymPos(g, hlp.F64, "x", 2)
		for _, f := range []func(*G.Node) (*G.Node, error){G.Sin, G.Cos, G.Exp, G.Log, G.Neg, G.Square, G.Sqrt, G.Inverse, G.InverseSqrt, G.Cube, G.Tanh, G.Log1p, G.Expm1, G.Log2} {
			add(f(x.N))
		}
	case 9:
		x = hlp.Sym(g, hlp.F64, "x", 7)
		for s := 0; s < 7; s++ {
			for st := 2; st < 7; st++ {
				if n := (7 - s + st - 1) / st; n == 2 || n == 3 {
					add(G.Slice(x.N, sl(s, 7, st)))
				}
			}
		}
		add(G.Slice(x.N, sl(0, 2, 1)))
		add(G.Slice(x.N, sl(0, 4, 2)))
		add(G.Slice(x.N, sl(3, 5, 1)))
	case 10:
		x = hlp.Sym(g, hlp.F64, "x", 2, 2, 2, 2)
		for _, p := range hlp.Perms(4)[1:] {
			add(G.Transpose(x.N, p...))
		}
		for k := 0; k < 4; k++ {
			add(G.Sum(x.N, k))
			add(G.Concat(k, x.N, x.N))
		}
	}
	var cost *G.Node
	if vsym.Choice("added", 2) == 1 { // those of equal shapes are added and have one gradient
		var sums []*G.Node
		for _, n := range ns {
			done := false
			for i, s := range sums {
				if s.Shape().Eq(n.Shape()) {
					sums[i] = hlp.Node(G.Add(s, n))
					done = true
					break
				}
			}
			if !done {
				sums = append(sums, n)
			}
		}
		ns = sums
	}
	for _, n := range ns {
		c := hlp.Weighted(g, n)
		if cost == nil {
			cost = c
		} else {
			cost = hlp.Node(G.Add(cost, c))
		}
	}
	if vsym.Choice("lisp", 2) == 1 {
		hlp.LispGrads(g, cost, x)
	} else {
		hlp.TapeGrads(g, cost, x)
	}
}

// distinct holds of expressions which only differ in one setting.
func distinct(ms []mk) {
	var ns []*G.Node
	for _, m := range ms {
		ns = append(ns, hlp.Node(m()))
	}
	for i := range ns {
		vsym.Assert(hlp.Node(ms[i]()) == ns[i], "building the same expression again gives another node", i)
		for j := 0; j < i; j++ {
			vsym.Assert(ns[i] != ns[j], "different expressions share a node", i, j)
		}
	}
	vsym.Cover("compared")
}

// HRandom: random nodes of different distributions, parameters, types and shapes are different, and draw from their own
// distribution.
func HRandom() {
	g := G.NewGraph()
	lo, hi := 1.0, 2.0
	draw := vsym.Float64In("draw", 0, 1)
	normal := vsym.Float64In("normal", -100, 100)
	rng.Draw = func() float64 { return draw }
	rng.DrawNormal = func() float64 { return normal }
	type maker = func(g *G.ExprGraph, dt tensor.Dtype, a, b float64, shape ...int) *G.Node
	var ns []*G.Node
	var vs []*G.Value
	var want []float64
	for _, dt := range []tensor.Dtype{hlp.F64, hlp.F32} {
		for _, sh := range [][]int{nil, {2}, {2, 1}, {1, 2}, {3}} {
			for k, f := range []maker{G.UniformRandomNode, G.GaussianRandomNode} {
				for j := 0; j < 4 && (j < 2 || dt == hlp.F64); j++ {
					a, c := lo, hi
					switch j {
					case 1:
						c = hi + 0.25
					case 2:
						a = lo + 1e-9
					case 3:
						a = lo + 2e-9
					}
					n := f(g, dt, a, c, sh...)
					ns = append(ns, n)
					vs = append(vs, hlp.Watch(n))
					w := a + draw*(c-a)
					if k == 1 {
						w = a + normal*c
					}
					want = append(want, w)
				}
			}
		}
	}
	for i := range ns {
		for j := 0; j < i; j++ {
			vsym.Assert(ns[i] != ns[j], "draws from different distributions share a node", i, j)
		}
	}
	hlp.RunTape(g)
	for i := range ns {
		for _, v := range hlp.Nums(*vs[i]) {
			vsym.AssertNear(v, want[i], 1e-6, "drawn value")
		}
	}
	vsym.Cover("drawn")
}

// HSettings: sequence losses and detection layers which differ in one setting.
func HSettings() {
	g := G.NewGraph()
	in := G.NewTensor(g, hlp.F64, 4, G.WithName("im"), G.WithShape(1, 12, 2, 2))
	lp := G.NewTensor(g, hlp.F64, 3, G.WithName("lp"), G.WithShape(2, 1, 3))
	tg := G.NewMatrix(g, tensor.Int, G.WithName("tg"), G.WithShape(1, 1))
	il := G.NewVector(g, tensor.Int, G.WithName("il"), G.WithShape(1))
	tl := G.NewVector(g, tensor.Int, G.WithName("tl"), G.WithShape(1))
	yolo := func(anchors []float32, masks []int, net, classes int, th float32) mk {
		return func() (*G.Node, error) { return G.YOLOv3(in, anchors, masks, net, classes, th) }
	}
	distinct([]mk{
		yolo([]float32{1, 2, 3, 4}, []int{0, 1}, 8, 1, 0.5),
		yolo([]float32{1, 2, 3, 5}, []int{0, 1}, 8, 1, 0.5),
		yolo([]float32{1, 2, 3, 4}, []int{1, 0}, 8, 1, 0.5),
		yolo([]float32{1, 2, 3, 4}, []int{1, 1}, 8, 1, 0.5),
		yolo([]float32{1, 2, 3, 4}, []int{0, 1}, 16, 1, 0.5),
		yolo([]float32{1, 2, 3, 4}, []int{0, 1}, 8, 2, 0.5),
		yolo([]float32{1, 2, 3, 4}, []int{0, 1}, 8, 1, 0.25),
		func() (*G.Node, error) { return G.CTCLoss(lp, tg, il, tl, G.ReductionMean) },
		func() (*G.Node, error) { return G.CTCLoss(lp, tg, il, tl, G.ReductionSum) },
	})
}

// HTwice: inputs and constants built twice, with values and with options used again, are one node whose shape, and the
// values given, stay what they were; an operation on them computes with them.
func HTwice() {
	dt := []tensor.Dtype{hlp.F64, hlp.F32}[vsym.Choice("width", 2)]
	sh := [][]int{{2}, {2, 1}, {1, 2, 2}}[vsym.Choice("shape", 3)]
	xs, ys := hlp.Syms("x", hlp.Prod(sh)), hlp.Syms("y", hlp.Prod(sh))
	t, o := hlp.Dense(dt, xs, sh...), hlp.Dense(dt, ys, sh...)
	g := G.NewGraph()
	nw := func(opts ...G.NodeConsOpt) *G.Node { return G.NewTensor(g, dt, len(sh), opts...) }
	var a, b *G.Node
	switch vsym.Choice("way", 7) {
	case 0: // the same value
		a, b = nw(G.WithName("a"), G.WithValue(t)), nw(G.WithName("a"), G.WithValue(t))
	case 1: // another value
		a, b = nw(G.WithName("a"), G.WithValue(t)), nw(G.WithName("a"), G.WithValue(o))
	case 2: // without value
		a, b = nw(G.WithName("a"), G.WithValue(t)), nw(G.WithName("a"), G.WithShape(sh...))
	case 3: // the same options
		opts := []G.NodeConsOpt{G.WithShape(sh...), G.WithName("a"), G.WithValue(t)}
		a, b = nw(opts...), nw(opts...)
	case 4:
		opts := []G.NodeConsOpt{G.WithName("a"), G.WithValue(t)}
		a, b = nw(opts...), nw(opts...)
	case 5:
		a, b = G.NodeFromAny(g, t, G.WithName("a")), G.NodeFromAny(g, t, G.WithName("a"))
	case 6: // the same shape for nodes of different names
		s := G.WithShape(sh...)
		a = nw(s, G.WithName("a"), G.WithValue(t))
		c := nw(s, G.WithName("c"))
		vsym.Assert(nw(s, G.WithName("c")) == c, "the same input again is another node")
		vsym.Assert(a != c, "inputs of different names share a node")
		hlp.SameShape(c.Shape(), sh, "shape of another input")
		hlp.Ok(G.Let(c, o), "binding")
		b = a
	}
	vsym.Assert(a == b, "the same input again is another node")
	z := hlp.Node(G.Neg(a))
	vsym.Assert(hlp.Node(G.Neg(b)) == z, "the same expression again is another node")
	hlp.SameShape(a.Shape(), sh, "shape of the input")
	hlp.SameShape(z.Shape(), sh, "shape of the result")
	hlp.SameShape(t.Shape(), sh, "shape of the value")
	hlp.SameShape(o.Shape(), sh, "shape of the other value")
	hlp.RunTape(g)
	hlp.ValIsArr(z.Value(), hlp.Arr{Sh: sh, D: xs}.Map(func(v float64) float64 { return -v }), hlp.Tol(dt), "result")
	hlp.ValIsArr(t, hlp.Arr{Sh: sh, D: xs}, hlp.Tol(dt), "value given")
	hlp.ValIsArr(o, hlp.Arr{Sh: sh, D: ys}, hlp.Tol(dt), "other value given")
	vsym.Cover("twice")
}

// HConstantOptions: constants with a shape and a name given, among others.
func HConstantOptions() {
	sh := [][]int{{2}, {2, 1}, {1, 2, 2}}[vsym.Choice("shape", 3)]
	xs := hlp.Syms("x", hlp.Prod(sh))
	t := hlp.Dense(hlp.F64, xs, sh...)
	g := G.NewGraph()
	y := hlp.Sym(g, hlp.F64, "y", sh...)
	opts := [][]G.NodeConsOpt{nil, {G.WithName("c")}, {G.WithShape(sh...)}, {G.WithShape(sh...), G.WithName("c")}}[vsym.Choice("options", 4)]
	c := G.NewConstant(t, opts...)
	hlp.SameShape(c.Shape(), sh, "shape of the constant")
	z := hlp.Node(G.Add(y.N, c))
	d := G.NewConstant(t, opts...)
	vsym.Assert(hlp.Node(G.Add(y.N, d)) == z, "the same constant again is another node")
	hlp.SameShape(c.Shape(), sh, "shape of the constant")
	hlp.RunTape(g)
	hlp.IsArr(z, hlp.Zip(y.Arr(), hlp.Arr{Sh: sh, D: xs}, func(a, b float64) float64 { return a + b }), "result")
	hlp.ValIsArr(t, hlp.Arr{Sh: sh, D: xs}, 1e-9, "value given")
	vsym.Cover("constant")
}

// HCatalog: all operations of the catalogue of operations which take inputs of the same shapes, together in one graph,
// keep the values they have alone, and in one cost the gradients that this cost has.
//
//vsym:paths=3000
func HCatalog() {
	vsym.Generic(true)
	es := hlp.Catalog()
	same := func(a, b hlp.Entry) bool {
		if len(a.Shapes) != len(b.Shapes) || a.Pos != b.Pos {
			return false
		}
		for i := range a.Shapes {
			if len(a.Shapes[i]) != len(b.Shapes[i]) || !tensor.Shape(a.Shapes[i]).Eq(tensor.Shape(b.Shapes[i])) {
				return false
			}
		}
		return true
	}
	first := vsym.Choice("operation", len(es))
	for _, e := range es[:first] {
		vsym.Assume(!same(e, es[first]))
	}
	way := vsym.Choice("way", 2)
	g := G.NewGraph()
	xs := es[first].Draw()
	ins := es[first].Ins(g, hlp.F64, xs)
	var wants, gots []*G.Value
	var cost *G.Node
	for _, e := range es[first:] {
		if !same(e, es[first]) || way == 1 && e.Flat {
			continue
		}
		y := e.Build(ins)
		if way == 0 {
			alone := G.NewGraph()
			wants = append(wants, hlp.Watch(e.Build(e.Ins(alone, hlp.F64, xs))))
			gots = append(gots, hlp.Watch(y))
			hlp.RunTape(alone)
			continue
		}
		y = hlp.Weighted(g, y)
		if cost == nil {
			cost = y
		} else {
			cost = hlp.Node(G.Add(cost, y))
		}
	}
	if way == 1 {
		vsym.Assume(cost != nil)
		hlp.TapeGrads(g, cost, ins...)
		return
	}
	hlp.RunTape(g)
	for i := range gots {
		hlp.Same(hlp.Nums(*gots[i]), hlp.Nums(*wants[i]), hlp.Tol(hlp.F64), "value among others")
	}
	vsym.Cover("among others")
}
