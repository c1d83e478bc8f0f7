package c19

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// HRefused: an operation that is refused - operands of shapes, types or graphs that do not go together, axes and ranges
// outside the operand - between two edits leaves the graph as it was.
//
//vsym:paths=3000
func HRefused() {
	m := fresh()
	x := m.newInput("x")
	y := m.newInput("y")
	// inputs that are not scalars, not used by the edits
	v := G.NewVector(m.g, hlp.F64, G.WithShape(2), G.WithName("v"))
	w := G.NewVector(m.g, hlp.F64, G.WithShape(3), G.WithName("w"))
	a := G.NewMatrix(m.g, hlp.F64, G.WithShape(2, 3), G.WithName("a"))
	f := G.NewVector(m.g, hlp.F32, G.WithShape(2), G.WithName("f"))
	for _, n := range []*G.Node{v, w, a, f} {
		hlp.Ok(G.Let(n, hlp.Value(n.Dtype(), make([]float64, n.Shape().TotalSize()), n.Shape())), "let")
		m.live = append(m.live, n)
		m.kids[n] = nil
		m.input[n] = true
	}
	m.width = 2

	m.live[0], m.live[1], m.live[4], m.live[5] = m.live[4], m.live[5], m.live[0], m.live[1]
	m.edit(2)
	var err error
	other := G.NewGraph()
	switch vsym.Choice("refused", 22) {
	case 0:
		_, err = G.Add(v, w)
	case 1:
		_, err = G.HadamardProd(v, a)
	case 2:
		_, err = G.Sub(v, f)
	case 3:
		_, err = G.Mul(f, v)
	case 4:
		_, err = G.Mul(a, a)
	case 5:
		_, err = G.OuterProd(x, v)
	case 6:
		_, err = G.Sum(a, 2)
	case 7:
		_, err = G.Max(v, 1)
	case 8:
		_, err = G.Slice(v, G.S(2))
	case 9:
		_, err = G.Slice(x, G.S(0))
	case 10:
		_, err = G.Concat(0, v, a)
	case 11:
		_, err = G.Concat(1, v, w)
	case 12:
		_, err = G.Reshape(a, []int{4})
	case 13:
		_, err = G.Transpose(a, 0, 0)
	case 14:
		_, err = G.ByIndices(a, v, 0)
	case 15:
		_, err = G.Add(x, G.NewScalar(other, hlp.F64, G.WithName("o")))
	case 16:
		_, err = G.Lt(v, w, true)
	case 17:
		_, err = G.Eq(v, f, false)
	case 18:
		_, err = G.MaxBetween(v, w)
	case 19:
		_, err = G.Tensordot([]int{0}, []int{0}, v, w)
	case 20:
		_, err = G.Im2Col(a, tensor.Shape{1, 1}, tensor.Shape{0, 0}, tensor.Shape{1, 1}, tensor.Shape{1, 1})
	case 21:
		_, err = G.Grad(a, x, y)
	}
	vsym.Assert(err != nil, "accepted")
	m.width = 1
	m.check()
	m.edit(2)
	m.check()
	m.run()
}

// HWalk: walking a graph from a node gives every node below it exactly once and the node itself first, for every
// program of three sums and products that starts with the sum of two inputs; a set of nodes gives every element exactly once.
//
//vsym:paths=4000
func HWalk() {
	g := G.NewGraph()
	ns := G.Nodes{G.NewVector(g, hlp.F64, G.WithShape(2), G.WithName("x")), G.NewVector(g, hlp.F64, G.WithShape(2), G.WithName("y"))}
	below := map[*G.Node]map[*G.Node]bool{}
	for _, n := range ns {
		below[n] = map[*G.Node]bool{n: true}
	}
	for i := 0; i < 3; i++ {
		a, b := ns[0], ns[1]
		op := G.Add
		if i > 0 {
			a, b = ns[vsym.Choice("left", len(ns))], ns[vsym.Choice("right", len(ns))]
		}
		if i == 1 {
			op = G.HadamardProd
		}
		n := hlp.Node(op(a, b))
		if below[n] == nil {
			s := map[*G.Node]bool{n: true}
			for _, c := range (G.Nodes{a, b}) {
				for d := range below[c] {
					s[d] = true
				}
			}
			below[n] = s
			ns = append(ns, n)
		}
	}
	start := ns[vsym.Choice("start", len(ns))]
	seen := map[*G.Node]int{}
	first := true
	for n := range G.WalkGraph(start) {
		if first {
			vsym.Assert(n == start, "walk starts elsewhere")
		}
		first = false
		seen[n]++
	}
	set := G.NewNodeSet()
	for _, n := range ns {
		want := 0
		if below[start][n] {
			want = 1
			set.Add(n)
		}
		vsym.Assert(seen[n] == want, "number of times a node is met")
	}
	met := map[*G.Node]int{}
	for n := range set.Iter() {
		met[n]++
	}
	vsym.Assert(len(met) == len(below[start]), "elements of a set")
	for n, k := range met {
		vsym.Assert(k == 1 && below[start][n], "element of a set")
	}
	vsym.Cover("walk")
}
