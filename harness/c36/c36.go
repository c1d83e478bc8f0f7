// Package c36 checks that the drawing of a graph shows that graph.
package c36

import (
	"fmt"
	"strconv"
	"strings"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/encoding/dot"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// vertex is one entry of a drawing.
type vertex struct {
	label string
	in    []string // the boxes it is drawn in, outermost first, for every time it is drawn
}

// drawing is what can be read off the text of a drawing.
type drawing struct {
	vs    map[string]*vertex
	edges map[[2]string]int
}

// read understands the text of a drawing: boxes, vertices with their settings, and edges.
func read(text string) drawing {
	d := drawing{vs: map[string]*vertex{}, edges: map[[2]string]int{}}
	var boxes []string
	cur := ""
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		switch {
		case l == "" || strings.HasPrefix(l, "//"):
		case strings.HasSuffix(l, "{"):
			boxes = append(boxes, strings.TrimSpace(strings.TrimSuffix(l, "{")))
		case l == "}":
			vsym.Assert(len(boxes) > 0, "the drawing closes what it opened")
			boxes = boxes[:len(boxes)-1]
		case strings.HasSuffix(l, "["):
			cur = strings.TrimSpace(strings.TrimSuffix(l, "["))
			if cur == "graph" || cur == "node" || cur == "edge" {
				cur = ""
				break
			}
			if d.vs[cur] == nil {
				d.vs[cur] = &vertex{}
			}
			d.vs[cur].in = append(d.vs[cur].in, strings.Join(boxes[1:], "/"))
		case l == "];":
			cur = ""
		case strings.Contains(l, " -> "):
			p := strings.Split(strings.TrimSuffix(l, ";"), " -> ")
			d.edges[[2]string{p[0], p[1]}]++
		case cur != "" && strings.HasPrefix(l, "label="):
			lab := strings.TrimPrefix(l, "label=")
			v := d.vs[cur]
			vsym.Assert(v.label == "" || v.label == lab, "a vertex is labelled the same wherever it is drawn")
			v.label = lab
		}
	}
	vsym.Assert(len(boxes) == 0, "the drawing closes what it opened")
	return d
}

func (v *vertex) within(box string) bool {
	for _, in := range v.in {
		if strings.HasPrefix(in, box) {
			return true
		}
	}
	return false
}

// shows checks a drawing against the graph.
func shows(g *G.ExprGraph, text, shape string) {
	d := read(text)
	all := g.AllNodes()
	vsym.Assert(len(d.vs) == len(all), "as many vertices as nodes")
	of := map[string]string{} // number in the label -> vertex
	for id, v := range d.vs {
		p := strings.Split(strings.Trim(v.label, `"`), "}")
		head := strings.TrimLeft(p[0], "{")
		num := head[strings.LastIndex(head, "|")+1:]
		vsym.Assert(of[num] == "", "no two vertices with the number of the same node")
		of[num] = id
	}
	number := func(n *G.Node) string { return "0x" + strconv.FormatInt(n.ID(), 16) }
	edges := 0
	for _, n := range all {
		id, ok := of[number(n)]
		vsym.Assert(ok, "every node is drawn")
		if !ok {
			continue
		}
		v := d.vs[id]
		vsym.Assert(strings.HasSuffix(v.label, fmt.Sprintf("{Shape|%v}}\"", n.Shape())), "the vertex shows the node's shape")
		op := n.Op()
		switch {
		case op == nil:
			vsym.Assert(strings.HasSuffix(v.label, shape), "the vertex shows the input's extents")
			vsym.Assert(strings.HasPrefix(v.label, `"{{`+n.Name()+"|"), "the vertex shows the input's name")
			vsym.Assert(v.within("subgraph Inputs") && !v.within("subgraph Constants") && !v.within("subgraph cluster_ExprGraph"), "inputs are drawn among the inputs")
		case op.Arity() == 0:
			vsym.Assert(!v.within("subgraph Inputs") && v.within("subgraph Constants") && !v.within("subgraph cluster_ExprGraph"), "constants are drawn among the constants")
		default:
			vsym.Assert(!v.within("subgraph Inputs") && !v.within("subgraph Constants") && v.within("subgraph cluster_ExprGraph"), "operations are drawn among the expressions")
		}
		to := map[int64]bool{}
		it := g.From(n.ID())
		for it.Next() {
			to[it.Node().ID()] = true
		}
		edges += len(to)
		for _, m := range all {
			want := 0
			if to[m.ID()] {
				want = 1
			}
			vsym.Assert(d.edges[[2]string{id, of[number(m)]}] == want, "one edge to each operand and none to other nodes")
		}
	}
	vsym.Assert(len(d.edges) == edges, "no other edges")
}

// HDraw draws graphs of one or two operations out of 8 on two inputs of any extents up to 100, with and without the nodes of
// the gradients, twice: every node is drawn with its number, name and shape, once among nodes of its kind, and there is one
// edge for each pair of a node and an operand of its and no other. The extents stay symbolic in the labels.
//
//vsym:paths=4000
func HDraw() {
	g := G.NewGraph()
	dt := tensor.Float64
	r, c := vsym.Int("rows", 2, 100), vsym.Int("cols", 2, 100)
	a := G.NewMatrix(g, dt, G.WithShape(r, c), G.WithName("a"))
	b := G.NewMatrix(g, dt, G.WithShape(r, c), G.WithName("b"))
	pool := []*G.Node{a, b}
	steps := 1 + vsym.Choice("steps", 2)
	for i := 0; i < steps; i++ {
		x := pool[vsym.Choice("x", len(pool))]
		pool = append(pool, build(vsym.Choice("op", 8), x, pool))
	}
	if vsym.Choice("gradient", 2) == 1 {
		last := pool[len(pool)-1]
		if _, err := G.Grad(hlp.Node(G.Sum(last)), a, b); err != nil {
			return // an input the cost does not depend on
		}
	}
	out, err := dot.Marshal(g)
	hlp.Ok(err, "drawing")
	shows(g, string(out), fmt.Sprintf("{Shape|(%d, %d)}}\"", r, c))
	again, err := dot.Marshal(g)
	hlp.Ok(err, "drawing again")
	vsym.Assert(string(again) == string(out), "a second drawing is the same")
}

// build is one of the operations drawn.
func build(op int, x *G.Node, pool []*G.Node) *G.Node {
	switch op {
	case 0:
		return hlp.Node(G.Add(x, pool[len(pool)-1]))
	case 1:
		return hlp.Node(G.HadamardProd(x, pool[0]))
	case 2:
		return hlp.Node(G.Sigmoid(x))
	case 3:
		return hlp.Node(G.Add(x, G.NewConstant(2.0)))
	case 4:
		return hlp.Node(G.Rectify(x))
	case 5:
		return hlp.Node(G.Square(x))
	case 6:
		return hlp.Node(G.SoftMax(x))
	}
	return hlp.Node(G.Mul(x, hlp.Node(G.Mul(hlp.Node(G.Transpose(x)), pool[1]))))
}

// HDrawn runs graphs of one or two operations that were drawn before, between or after the runs, in both widths and on
// symbolic values: the values and gradients are those of the graph nobody has drawn, and later operations on a drawn graph
// are drawn as well.
//
//vsym:paths=4000
func HDrawn() {
	dt := []tensor.Dtype{hlp.F64, hlp.F32}[vsym.Choice("width", 2)]
	xs, ys := hlp.Syms("x", 4), hlp.Syms("y", 4)
	op1, op2, when := vsym.Choice("first", 2), vsym.Choice("second", 2), vsym.Choice("when", 3)
	if op1 == 0 {
		op1 = 5
	}
	run := func(draw bool) [][]float64 {
		g := G.NewGraph()
		a, b := hlp.Var(g, dt, "a", xs, 2, 2), hlp.Var(g, dt, "b", ys, 2, 2)
		see := func(k int) {
			if draw && when == k {
				out, err := dot.Marshal(g)
				hlp.Ok(err, "drawing")
				shows(g, string(out), "{Shape|(2, 2)}}\"")
			}
		}
		pool := []*G.Node{a.N, b.N}
		pool = append(pool, build(op1, a.N, pool))
		see(0)
		last := build(op2, pool[2], pool)
		cost := hlp.Node(G.Sum(hlp.Node(G.HadamardProd(last, b.N))))
		see(1)
		_, err := G.Grad(cost, a.N, b.N)
		hlp.Ok(err, "gradients")
		see(2)
		v := hlp.Watch(cost)
		m := G.NewTapeMachine(g, G.BindDualValues(a.N, b.N))
		defer m.Close()
		hlp.Ok(m.RunAll(), "run")
		ga, err := a.N.Grad()
		hlp.Ok(err, "gradient of a")
		gb, err := b.N.Grad()
		hlp.Ok(err, "gradient of b")
		return [][]float64{hlp.Nums(*v), hlp.Nums(ga), hlp.Nums(gb)}
	}
	drawn, plain := run(true), run(false)
	for i, w := range []string{"cost", "gradient of a", "gradient of b"} {
		hlp.Same(drawn[i], plain[i], hlp.Tol(dt), w+" of a drawn graph")
	}
}
