// Package c19: the graph after edits.
package c19

import (
	"gonum.org/v1/gonum/graph"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
)

// model is what the graph should be: the nodes in it, what each is computed from, and the values.
type model struct {
	g     *G.ExprGraph
	live  []*G.Node
	kids  map[*G.Node][]*G.Node
	val   map[*G.Node]float64
	input map[*G.Node]bool
	stmt  map[*G.Node]bool
	konst map[float64]*G.Node
	gone  []int64
	reads map[*G.Node]*G.Value
	names int
	width int // how many of the latest nodes edits may use
}

func fresh() *model {
	return &model{g: G.NewGraph(), kids: map[*G.Node][]*G.Node{}, val: map[*G.Node]float64{}, input: map[*G.Node]bool{},
		width: 3, stmt: map[*G.Node]bool{}, konst: map[float64]*G.Node{}, reads: map[*G.Node]*G.Value{}}
}

func (m *model) has(n *G.Node) bool { return index(m.live, n) >= 0 }

func index(ns []*G.Node, n *G.Node) int {
	for i, x := range ns {
		if x == n {
			return i
		}
	}
	return -1
}

func list(it graph.Nodes) []*G.Node {
	var r []*G.Node
	for it != nil && it.Next() {
		r = append(r, it.Node().(*G.Node))
	}
	return r
}

func sameSet(got, want []*G.Node, msg string) {
	vsym.Assert(len(got) == len(want), msg+": how many", len(got), len(want))
	for _, n := range want {
		vsym.Assert(index(got, n) >= 0, msg+": missing", int(n.ID()))
	}
}

// add records a node built from the children.
func (m *model) add(n *G.Node, val float64, kids ...*G.Node) *G.Node {
	if m.has(n) {
		vsym.AssertNear(m.val[n], val, 1e-9, "an expression was merged with another")
		return n
	}
	for o := range m.kids {
		if m.has(o) && !m.input[o] && !m.stmt[o] && len(m.kids[o]) > 0 && o.Op().String() == n.Op().String() && len(kids) == len(m.kids[o]) {
			same := true
			for i := range kids {
				same = same && m.kids[o][i] == kids[i]
			}
			if same {
				vsym.Assert(false, "an expression already in the graph was added again")
			}
		}
	}
	m.live = append(m.live, n)
	m.kids[n] = kids
	m.val[n] = val
	return n
}

func (m *model) newInput(name string) *G.Node {
	n := G.NewScalar(m.g, hlp.F64, G.WithName(name))
	vsym.Assert(!m.has(n), "a new input is new")
	x := vsym.Float64(name)
	hlp.Ok(G.Let(n, x), "let")
	m.live = append(m.live, n)
	m.kids[n] = nil
	m.val[n] = x
	m.input[n] = true
	return n
}

func (m *model) addConst(a *G.Node, c float64) *G.Node {
	n := hlp.Node(G.Add(a, G.NewConstant(c)))
	cs := list(m.g.From(n.ID()))
	vsym.Assert(len(cs) == 2, "operands of a sum with a constant", len(cs))
	k := cs[1]
	if old, ok := m.konst[c]; ok {
		vsym.Assert(old == k, "the constant of the graph is used")
	}
	if !m.has(k) {
		m.live = append(m.live, k)
		m.kids[k] = nil
		m.val[k] = c
		m.konst[c] = k
	}
	vsym.Assert(hlp.Nums(k.Value())[0] == c, "value of the constant")
	return m.add(n, m.val[a]+c, a, k)
}

func (m *model) parents(n *G.Node) []*G.Node {
	var r []*G.Node
	for _, p := range m.live {
		if index(m.kids[p], n) >= 0 {
			r = append(r, p)
		}
	}
	return r
}

func (m *model) remove(n *G.Node) {
	m.g.RemoveNode(n)
	m.gone = append(m.gone, n.ID())
	m.live = append([]*G.Node{}, m.live...)
	i := index(m.live, n)
	m.live = append(m.live[:i], m.live[i+1:]...)
	for c, k := range m.konst {
		if k == n {
			delete(m.konst, c)
		}
	}
}

func (m *model) read(n *G.Node) {
	v := new(G.Value)
	r := G.Read(n, v)
	m.reads[r] = v
	m.live = append(m.live, r)
	m.kids[r] = []*G.Node{n}
	m.stmt[r] = true
}

// operand chooses one of the latest nodes that have values.
func (m *model) operand(name string, of int) *G.Node {
	var r []*G.Node
	for i := len(m.live) - 1; i >= 0 && len(r) < of; i-- {
		if !m.stmt[m.live[i]] {
			r = append(r, m.live[i])
		}
	}
	vsym.Assume(len(r) > 0)
	return r[vsym.Choice(name, len(r))]
}

// edit makes one of the edits.
func (m *model) edit(kinds int) {
	switch vsym.Choice("edit", kinds) {
	case 0:
		a := m.operand("a", m.width)
		b := a
		if vsym.Bool("other") {
			b = m.live[0]
		}
		vsym.Assume(!m.stmt[b])
		m.add(hlp.Node(G.HadamardProd(a, b)), m.val[a]*m.val[b], a, b)
	case 1:
		a := m.operand("a", m.width)
		c := 2.0
		if vsym.Bool("const") {
			c = 3
		}
		m.addConst(a, c)
	case 2: // remove something nothing is computed from
		var r []*G.Node
		for _, n := range m.live {
			if len(m.parents(n)) == 0 {
				r = append(r, n)
			}
		}
		vsym.Assume(len(r) > 0)
		n := r[vsym.Choice("remove", len(r))]
		vsym.Assume(len(m.live) > 1)
		m.remove(n)
	case 3:
		m.read(m.operand("a", 2))
	case 4:
		m.names++
		m.newInput([]string{"p", "q", "r", "s"}[m.names-1])
	case 5:
		a := m.operand("a", 2)
		m.add(hlp.Node(G.Neg(a)), -m.val[a], a)
	}
}

// check compares everything the graph reports.
func (m *model) check() {
	g := m.g
	all := g.AllNodes()
	sameSet(all, m.live, "nodes")
	sameSet(list(g.Nodes()), m.live, "nodes by iterator")
	for i, n := range m.live {
		vsym.Assert(g.Has(n.ID()), "a node of the graph is reported absent", int(n.ID()))
		vsym.Assert(g.Node(n.ID()) == graph.Node(n), "looking up a node by its number", int(n.ID()))
		vsym.Assert(n.Graph() == g, "graph of a node")
		for j := 0; j < i; j++ {
			vsym.Assert(n.ID() != m.live[j].ID(), "two nodes have one number")
		}
	}
	for _, id := range m.gone {
		vsym.Assert(!g.Has(id), "a removed node is reported present")
		vsym.Assert(g.Node(id) == nil, "a removed node is found")
	}
	edges := 0
	for _, a := range m.live {
		from := list(g.From(a.ID()))
		vsym.Assert(len(from) == len(m.kids[a]), "number of operands")
		for i, k := range m.kids[a] {
			vsym.Assert(from[i] == k, "operand", i)
		}
		sameSet(list(g.To(a.ID())), m.parents(a), "users of a node")
		for _, b := range m.live {
			want := index(m.kids[a], b) >= 0
			back := index(m.kids[b], a) >= 0
			vsym.Assert(g.HasEdgeFromTo(a.ID(), b.ID()) == want, "edge from one to another")
			vsym.Assert(g.HasEdgeBetween(a.ID(), b.ID()) == (want || back), "edge between two")
			e := g.Edge(a.ID(), b.ID())
			vsym.Assert((e != nil) == want, "edge")
			if e != nil {
				vsym.Assert(e.From() == graph.Node(a) && e.To() == graph.Node(b), "ends of an edge")
			}
			if want {
				edges++
			}
		}
	}
	n := 0
	for it := g.Edges(); it.Next(); n++ {
		e := it.Edge()
		vsym.Assert(g.HasEdgeFromTo(e.From().ID(), e.To().ID()), "a listed edge is an edge")
	}
	vsym.Assert(n == edges, "number of edges", n, edges)
	var roots, ins []*G.Node
	for _, a := range m.live {
		ps := m.parents(a)
		if len(ps) == 0 || len(ps) == 1 && m.stmt[ps[0]] {
			roots = append(roots, a)
		}
		if m.input[a] {
			ins = append(ins, a)
		}
	}
	sameSet(g.Roots(), roots, "roots")
	sameSet(g.Inputs(), ins, "inputs")
	for _, a := range ins {
		by := g.ByName(a.Name())
		vsym.Assert(len(by) == 1 && by[0] == a, "looking up an input by name")
	}
	for i := 0; i < 2; i++ {
		sorted, err := G.Sort(g)
		if i == 1 {
			sorted, err = G.UnstableSort(g)
		}
		hlp.Ok(err, "sort")
		sameSet(sorted, m.live, "sorted nodes")
		for j, a := range sorted {
			for _, k := range m.kids[a] {
				vsym.Assert(index(sorted, k) > j, "a node is listed after one it is computed from")
			}
		}
	}
	vsym.Cover("checked")
}

// run checks what the graph computes for the nodes that are read.
func (m *model) run() {
	hlp.RunTape(m.g)
	for _, r := range m.live {
		if m.stmt[r] {
			n := m.kids[r][0]
			vsym.AssertNear(hlp.Nums(*m.reads[r])[0], m.val[n], 1e-9, "value read")
		}
	}
}

func edits(n, width int) {
	m := fresh()
	m.width = width
	m.newInput("x")
	m.newInput("y")
	each := vsym.Bool("checkEach")
	for i := 0; i < n; i++ {
		m.edit(6)
		if each && i < n-1 {
			m.check()
		}
	}
	m.check()
	m.run()
}

// HEdits: three edits of a graph of two inputs: a product, a sum with one of two constants, the removal of any node
// nothing is computed from, a statement reading a value, a further input, a negation.
//
//vsym:paths=20000
func HEdits() { edits(3, 2) }

// HEdits4: four edits.
//
//vsym:thorough
//vsym:paths=60000
func HEdits4() { edits(4, 3) }

// HCollide: edits of a graph of two inputs whose hashes collide.
//
//vsym:paths=20000
func HCollide() {
	m := fresh()
	m.newInput("v839579")
	m.newInput("v1028194")
	for i := 0; i < 2; i++ {
		m.edit(3)
	}
	m.check()
	a := m.operand("read", 2)
	m.read(a)
	m.check()
	m.run()
}

// HBack: a node is removed and the same expression built again.
func HBack() {
	m := fresh()
	x, y := m.newInput("x"), m.newInput("y")
	build := func() *G.Node {
		p := m.add(hlp.Node(G.HadamardProd(x, y)), m.val[x]*m.val[y], x, y)
		return m.addConst(p, 2)
	}
	s := build()
	m.check()
	depth := vsym.Choice("depth", 3)
	p := m.kids[s][0]
	k := m.kids[s][1]
	m.remove(s)
	if depth > 0 {
		m.remove(p)
	}
	if depth > 1 {
		m.remove(k)
	}
	if vsym.Bool("between") {
		m.check()
	}
	m.g.RemoveNode(s) // not in the graph any more
	m.check()
	s = build()
	if vsym.Bool("twice") {
		m.add(hlp.Node(G.HadamardProd(x, y)), m.val[x]*m.val[y], x, y)
		m.g.AddNode(s)
		m.g.AddNode(x)
	}
	m.check()
	m.read(s)
	m.check()
	m.run()
}

// clone makes the model of the graph's clone.
func (m *model) clone() *model {
	c := fresh()
	c.g = m.g.Clone().(*G.ExprGraph)
	c.names, c.width = m.names, 1
	of := map[*G.Node]*G.Node{}
	got := c.g.AllNodes()
	vsym.Assert(len(got) == len(m.live), "number of nodes of a clone")
	for _, n := range m.live {
		vsym.Assert(c.g.Has(n.ID()), "a clone has the nodes of the original")
		k := c.g.Node(n.ID()).(*G.Node)
		vsym.Assert(k != n, "a clone has nodes of its own")
		vsym.Assert(k.Name() == n.Name() && k.Type() == n.Type() && k.Op() == n.Op(), "a node of a clone is like the original")
		vsym.Assert((k.Value() == nil) == (n.Value() == nil), "a node of a clone has a value if the original has")
		if n.Value() != nil {
			hlp.Same(hlp.Nums(k.Value()), hlp.Nums(n.Value()), 1e-9, "value in a clone")
		}
		of[n] = k
	}
	for _, n := range m.live {
		k := of[n]
		c.live = append(c.live, k)
		for _, o := range m.kids[n] {
			c.kids[k] = append(c.kids[k], of[o])
		}
		c.val[k] = m.val[n]
		c.input[k] = m.input[n]
		c.stmt[k] = m.stmt[n]
		c.reads[k] = m.reads[n]
	}
	for v, n := range m.konst {
		c.konst[v] = of[n]
	}
	c.gone = m.gone
	return c
}

// HClone: a graph is cloned after two edits; then the original or the clone is edited, and its inputs bound to other
// values.
//
//vsym:paths=20000
func HClone() {
	m := fresh()
	m.newInput("x")
	m.newInput("y")
	m.check()
	m.width = 2
	for i := 0; i < 2; i++ {
		m.edit(3)
	}
	c := m.clone()
	a, b := m, c
	if vsym.Bool("editClone") {
		a, b = c, m
	}
	a.width = 1
	a.edit(3)
	a.check()
	b.check()
	for _, n := range a.live {
		if a.input[n] {
			z := vsym.Float64("rebound")
			hlp.Ok(G.Let(n, z), "let")
			a.val[n] = z
		}
	}
	for _, n := range a.live { // operands come before what is computed from them
		switch ks := a.kids[n]; {
		case len(ks) == 2 && n.Op().String()[:1] == "+":
			a.val[n] = a.val[ks[0]] + a.val[ks[1]]
		case len(ks) == 2:
			a.val[n] = a.val[ks[0]] * a.val[ks[1]]
		}
	}
	for _, g := range []*model{b, a} {
		g.read(g.live[len(g.live)-1])
		g.run()
		g.check()
	}
}

// HCloneGrad: cloning a graph with gradients, before or after running it.
func HCloneGrad() {
	g := G.NewGraph()
	x, y := hlp.Sym(g, hlp.F64, "x", 2), hlp.Sym(g, hlp.F64, "y", 2)
	cost := hlp.Node(G.Sum(hlp.Node(G.HadamardProd(hlp.Node(G.Square(x.N)), y.N))))
	_, err := G.Grad(cost, x.N, y.N)
	hlp.Ok(err, "grad")
	run := vsym.Bool("run")
	if run {
		vm := G.NewTapeMachine(g, G.BindDualValues(x.N, y.N))
		hlp.Ok(vm.RunAll(), "run")
	}
	c := g.Clone().(*G.ExprGraph)
	for _, n := range g.AllNodes() {
		k := c.Node(n.ID()).(*G.Node)
		vsym.Assert((n.Deriv() == nil) == (k.Deriv() == nil), "a node of a clone has a gradient if the original has")
		if n.Deriv() != nil {
			vsym.Assert(k.Deriv() == c.Node(n.Deriv().ID()).(*G.Node), "gradient node in a clone")
		}
		vsym.Assert(len(n.DerivOf()) == len(k.DerivOf()), "what a node of a clone is the gradient of")
		for i, d := range n.DerivOf() {
			vsym.Assert(k.DerivOf()[i] == c.Node(d.ID()).(*G.Node), "what a node of a clone is the gradient of", i)
		}
	}
	cx, cy := c.Node(x.N.ID()).(*G.Node), c.Node(y.N.ID()).(*G.Node)
	if run {
		d, err := cx.Grad()
		hlp.Ok(err, "gradient in a clone")
		for i, v := range hlp.Nums(d) {
			vsym.AssertNear(v, 2*x.X[i]*y.X[i], 1e-9, "gradient in a clone")
		}
	}
	// the clone computes with its own values
	z := hlp.Syms("z", 2)
	hlp.Ok(G.Let(cx, hlp.Dense(hlp.F64, z, 2)), "let")
	vm := G.NewTapeMachine(c, G.BindDualValues(cx, cy))
	hlp.Ok(vm.RunAll(), "run of a clone")
	d, err := cx.Grad()
	hlp.Ok(err, "gradient in a clone")
	was := 0.0
	for i, v := range hlp.Nums(d) {
		if run {
			was = 2 * x.X[i] * y.X[i]
		}
		vsym.AssertNear(v, 2*z[i]*y.X[i]+was, 1e-9, "gradient in a clone bound to other values")
	}
	hlp.Is(x.N, x.X, "value of the original")
	if run {
		d, err := x.N.Grad()
		hlp.Ok(err, "gradient of the original")
		for i, v := range hlp.Nums(d) {
			vsym.AssertNear(v, 2*x.X[i]*y.X[i], 1e-9, "gradient of the original")
		}
	}
}

func (m *model) below(n *G.Node, r []*G.Node) []*G.Node {
	if index(r, n) >= 0 {
		return r
	}
	r = append(r, n)
	for _, k := range m.kids[n] {
		r = m.below(k, r)
	}
	return r
}

// HSubgraph: the parts of a graph below one or two nodes.
//
//vsym:paths=20000
func HSubgraph() {
	m := fresh()
	m.newInput("x")
	m.newInput("y")
	m.width = 2
	m.add(hlp.Node(G.HadamardProd(m.live[0], m.live[1])), m.val[m.live[0]]*m.val[m.live[1]], m.live[0], m.live[1])
	for i := 0; i < 2; i++ {
		m.edit(4)
	}
	n := m.live[vsym.Choice("root", len(m.live))]
	o := n
	if vsym.Bool("two") {
		o = m.live[len(m.live)-1]
	}
	exact := m.below(o, m.below(n, nil))
	full := append([]*G.Node{}, exact...)
	for _, s := range m.live {
		if m.stmt[s] && index(full, m.kids[s][0]) >= 0 && index(full, s) < 0 {
			full = append(full, s)
		}
	}
	roots := []*G.Node{n, o}
	for i, r := range roots {
		if m.stmt[r] {
			roots[i] = m.kids[r][0]
		}
	}
	if roots[0] == roots[1] {
		roots = roots[:1]
	}
	var sub *G.ExprGraph
	want := full
	kind := vsym.Choice("kind", 4)
	switch kind {
	case 0:
		sub = m.g.SubgraphRoots(n, o)
	case 1:
		sub = m.g.ExactSubgraphRoots(n, o)
		want = exact
	case 2:
		vsym.Assume(n == o)
		sub = m.g.Subgraph(n)
	case 3:
		vsym.Assume(len(exact) > 1)
		sub = m.g.Subgraph(append([]*G.Node{}, exact...)...)
	}
	sameSet(sub.AllNodes(), want, "nodes of a part")
	if kind < 3 {
		sameSet(sub.Roots(), roots, "roots of a part")
	}
	var ins []*G.Node
	for _, a := range want {
		vsym.Assert(sub.Has(a.ID()) && sub.Node(a.ID()) == graph.Node(a), "looking up a node of a part")
		if m.input[a] {
			ins = append(ins, a)
		}
		for _, b := range want {
			vsym.Assert(sub.HasEdgeFromTo(a.ID(), b.ID()) == (index(m.kids[a], b) >= 0), "edge within a part")
		}
	}
	for _, a := range m.live {
		if index(want, a) < 0 {
			vsym.Assert(!sub.Has(a.ID()), "a node outside a part")
		}
	}
	sameSet(sub.Inputs(), ins, "inputs of a part")
	sorted, err := G.Sort(sub)
	hlp.Ok(err, "sort")
	sameSet(sorted, want, "sorted nodes of a part")
	for j, a := range sorted {
		for _, k := range m.kids[a] {
			vsym.Assert(index(sorted, k) > j, "a node is listed after one it is computed from")
		}
	}
	m.check()
}

// HConstants: constants asked of the graph, and copying nodes to another graph.
func HConstants() {
	m := fresh()
	x := m.newInput("x")
	vals := []float64{2, 3, 0, -1}
	n := vsym.Choice("n", 3) + 1
	for i := 0; i < n; i++ {
		c := vals[vsym.Choice("c", len(vals))]
		k := m.g.Constant(G.NewF64(c))
		vsym.Assert(hlp.Nums(k.Value())[0] == c, "value of a constant")
		if old, ok := m.konst[c]; ok {
			vsym.Assert(old == k, "a constant was added again")
		} else {
			vsym.Assert(!m.has(k), "constants of different values share a node")
			m.live = append(m.live, k)
			m.kids[k] = nil
			m.val[k] = c
			m.konst[c] = k
		}
		m.check()
	}
	c := vals[vsym.Choice("sum", len(vals))]
	m.addConst(x, c)
	m.check()
	o := fresh()
	o.newInput("y")
	k := x.CloneTo(o.g)
	vsym.Assert(k != x && k.Name() == "x" && k.Graph() == o.g, "a node copied to another graph")
	o.live = append(o.live, k)
	o.kids[k] = nil
	o.val[k] = m.val[x]
	o.input[k] = true
	vsym.Assert(x.CloneTo(m.g) == x, "a node copied to its own graph")
	vsym.Assert(x.CloneTo(o.g) == k, "a node copied again")
	o.addConst(k, 2)
	o.check()
	m.check()
	o.read(o.live[len(o.live)-1])
	o.run()
	m.read(m.live[len(m.live)-1])
	m.run()
}

func subset(ns []*G.Node, name string) ([]*G.Node, []bool) {
	var r []*G.Node
	in := make([]bool, len(ns))
	for i, n := range ns {
		if in[i] = vsym.Bool(name); in[i] {
			r = append(r, n)
		}
	}
	return r, in
}

func pick(ns []*G.Node, f func(i int) bool) []*G.Node {
	var r []*G.Node
	for i, n := range ns {
		if f(i) {
			r = append(r, n)
		}
	}
	return r
}

// HSets: operations on collections of nodes, for every two subsets of three nodes.
//
//vsym:paths=4000
func HSets() {
	m := fresh()
	ns := []*G.Node{m.newInput("x"), m.newInput("y"), m.newInput("z")}
	as, a := subset(ns, "a")
	bs, b := subset(ns, "b")
	cp := func(ns []*G.Node) G.Nodes { return append(G.Nodes{}, ns...) }
	both := pick(ns, func(i int) bool { return a[i] && b[i] })
	either := pick(ns, func(i int) bool { return a[i] || b[i] })
	diff := pick(ns, func(i int) bool { return a[i] && !b[i] })
	sym := pick(ns, func(i int) bool { return a[i] != b[i] })
	eq := len(sym) == 0
	sub := len(diff) == 0
	sameSet(cp(as).Intersect(cp(bs)), both, "intersection")
	sameSet(cp(as).Difference(cp(bs)), diff, "difference")
	vsym.Assert(cp(as).Equals(cp(bs)) == eq, "equality")
	sameSet(append(cp(as), bs...).Set(), either, "duplicates dropped")
	u := cp(as)
	for _, n := range bs {
		u = u.Add(n)
	}
	sameSet(u, either, "additions")
	for i, n := range ns {
		vsym.Assert(cp(as).Contains(n) == a[i], "membership", i)
	}
	vsym.Assert(cp(as).AllSameGraph() == (len(as) > 0), "nodes of one graph")
	other := fresh().newInput("x")
	vsym.Assert(!append(cp(as), other).AllSameGraph() || len(as) == 0, "nodes of two graphs")

	sa, sb := G.NewNodeSet(as...), G.NewNodeSet(bs...)
	sameSet(sa.Intersect(sb).ToSlice(), both, "intersection of sets")
	sameSet(sa.Union(sb).ToSlice(), either, "union of sets")
	sameSet(sa.Difference(sb).ToSlice(), diff, "difference of sets")
	sameSet(sa.SymmetricDifference(sb).ToSlice(), sym, "symmetric difference of sets")
	vsym.Assert(sa.Equal(sb) == eq, "equality of sets")
	vsym.Assert(sa.IsSubset(sb) == sub && sb.IsSuperset(sa) == sub, "inclusion of sets")
	vsym.Assert(sa.ContainsAll(bs...) == sb.IsSubset(sa), "membership of several")
	vsym.Assert(sa.Cardinality() == len(as), "size of a set")
	c := sa.Clone()
	vsym.Assert(c.Equal(sa), "clone of a set")
	for i, n := range ns {
		vsym.Assert(sa.Contains(n) == a[i], "membership of a set", i)
		vsym.Assert(c.Add(n) == !a[i], "whether an addition is new", i)
	}
	sameSet(c.ToSlice(), ns, "set after additions")
	for _, n := range bs {
		c.Remove(n)
	}
	sameSet(c.ToSlice(), pick(ns, func(i int) bool { return !b[i] }), "set after removals")
	sameSet(sa.ToSlice(), as, "the original of a clone")
	c.Clear()
	vsym.Assert(c.Cardinality() == 0, "cleared set")
}
