package c36

import (
	"fmt"
	"strings"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// link is an operand in a drawing: which node, whose operand and at which position.
type link struct{ from, to, pos string }

// lines reads vertices and operands off the older kind of drawing, where those among gradients are told by inverted edges.
func lines(text string) (vs map[string]int, ls map[link]int) {
	vs, ls = map[string]int{}, map[link]int{}
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "Node_") {
			continue
		}
		i := strings.Index(l, "->")
		if i < 0 {
			vs[l[:strings.Index(l, " ")]]++
			continue
		}
		p := strings.Index(l, "taillabel=\"")
		if p < 0 {
			continue // tells what a node is the derivative of
		}
		a, b := l[:strings.Index(l, ":")], l[i+2:]
		b = b[:strings.Index(b, ":")]
		if strings.Contains(l, "dir=back") {
			a, b = b, a
		}
		t := l[p+len("taillabel=\""):]
		ls[link{a, b, strings.TrimSpace(t[:strings.Index(t, "\"")])}]++
	}
	return
}

// pictures checks that the drawing shows the nodes of a set, each once, and each operand in the set of each of them.
func pictures(text string, all []*G.Node, in map[*G.Node]bool, first int) {
	vs, ls := lines(text)
	vsym.Assert(len(vs) == len(in), "as many vertices as nodes")
	links := 0
	for _, n := range all {
		if !in[n] {
			continue
		}
		id := fmt.Sprintf("Node_%p", n)
		vsym.Assert(vs[id] == 1, "every node is drawn once")
		for i, c := range operands(n) {
			if !in[c] {
				continue
			}
			links++
			vsym.Assert(ls[link{id, fmt.Sprintf("Node_%p", c), fmt.Sprint(i + first)}] == 1, "every operand has an edge with its position")
		}
	}
	vsym.Assert(len(ls) == links, "no other edges")
}

var kids map[*G.Node][]*G.Node

// operands are those an operation was given, in order.
func operands(n *G.Node) []*G.Node { return kids[n] }

// HText draws, in the older way, a graph of a product, a sum and a constant, or of a shared operand, with and without the nodes
// of gradients of one input: the whole graph, what one of the nodes depends on, and what is within up to two steps above and
// below it. Each drawing shows those nodes and the operands among them. The inputs have any extents up to 100.
//
//vsym:paths=4000
func HText() {
	g := G.NewGraph()
	dt := tensor.Float64
	r := vsym.Int("rows", 2, 100)
	a := G.NewMatrix(g, dt, G.WithShape(r, r), G.WithName("a"))
	b := G.NewMatrix(g, dt, G.WithShape(r, r), G.WithName("b"))
	kids = map[*G.Node][]*G.Node{}
	made := func(n *G.Node, xs ...*G.Node) *G.Node { kids[n] = xs; return n }
	var p, q *G.Node
	switch vsym.Choice("graph", 3) {
	case 0:
		p = made(hlp.Node(G.Mul(a, b)), a, b)
		q = hlp.Node(G.Add(p, G.NewConstant(2.0)))
		for _, c := range g.AllNodes() {
			if c.Op() != nil && c.Op().Arity() == 0 {
				made(q, p, c) // the graph has its own node for the constant
			}
		}
	case 1:
		p = made(hlp.Node(G.HadamardProd(a, a)), a, a)
		q = made(hlp.Node(G.Sub(b, p)), b, p)
	case 2:
		p = made(hlp.Node(G.Sigmoid(a)), a)
		q = made(hlp.Node(G.Mul(p, p)), p, p)
	}
	s := made(hlp.Node(G.Sum(q)), q)
	own := map[*G.Node]bool{}
	for _, n := range g.AllNodes() {
		own[n] = true
	}
	grads := vsym.Choice("gradients", 2) == 1
	if grads {
		_, err := G.Grad(s, a)
		hlp.Ok(err, "gradients")
	}
	all := g.AllNodes()
	at := []*G.Node{a, p, q, s}[vsym.Choice("node", 4)]
	switch how := vsym.Choice("how", 2); {
	case how == 0:
		in := map[*G.Node]bool{}
		var below func(n *G.Node)
		below = func(n *G.Node) {
			in[n] = true
			for _, c := range operands(n) {
				below(c)
			}
		}
		below(at)
		pictures(at.ToDot(), all, in, 1)
	case grads:
		// which operands the nodes of gradients have is not known from the outside: only what is said of the nodes themselves
		up, down := vsym.Choice("up", 3), vsym.Choice("down", 3)
		vs, _ := lines(at.RestrictedToDot(up, down))
		in := around(g, at, up, down)
		vsym.Assert(len(vs) == len(in), "as many vertices as nodes around the node")
		for n := range in {
			vsym.Assert(vs[fmt.Sprintf("Node_%p", n)] == 1, "every node around the node is drawn once")
		}
		vs, _ = lines(g.ToDot())
		vsym.Assert(len(vs) == len(all), "as many vertices as nodes of the graph")
		for _, n := range all {
			vsym.Assert(vs[fmt.Sprintf("Node_%p", n)] == 1, "every node of the graph is drawn once")
		}
	default:
		up, down := vsym.Choice("up", 3), vsym.Choice("down", 3)
		pictures(at.RestrictedToDot(up, down), all, around(g, at, up, down), 0)
		pictures(g.ToDot(), all, own, 0)
	}
}

// around are the nodes within so many steps above and below a node.
func around(g *G.ExprGraph, at *G.Node, up, down int) map[*G.Node]bool {
	in := map[*G.Node]bool{at: true}
	level := []*G.Node{at}
	for ; up > 0; up-- {
		var next []*G.Node
		for _, n := range level {
			it := g.To(n.ID())
			for it.Next() {
				m := it.Node().(*G.Node)
				in[m] = true
				next = append(next, m)
			}
		}
		level = next
	}
	level = []*G.Node{at}
	for ; down > 0; down-- {
		var next []*G.Node
		for _, n := range level {
			it := g.From(n.ID())
			for it.Next() {
				m := it.Node().(*G.Node)
				in[m] = true
				next = append(next, m)
			}
		}
		level = next
	}
	return in
}
