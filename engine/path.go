package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Input is one recorded nondeterministic input of the harness, in call order.
type Input struct {
	Kind string  `json:"kind"` // f64, f32, int, bool, choice, deriv, rand
	Name string  `json:"name"`
	F    float64 `json:"f,omitempty"`
	I    int64   `json:"i,omitempty"`
	t    *Term
}

type Path struct {
	prefix []int
	pos    int
	taken  []int
	labels []string
	pc     []*Term
	pcVars []map[*Term]bool
	known  map[*Term]bool
	nf     *NF
	inputs []Input
	ex     *Explorer
	res    *pathResult
	boxes  []*Term
	model  map[*Term]any
	covers map[string]bool
	calls  []string
	batch  []*Term
}

type pathResult struct {
	asserts, trivial, unsat, unknown int
	unkMsg                           []string
	viol                             *Violation
	end                              string
	msg                              string
}

type Violation struct {
	Harness string
	Msg     string
	Kind    string // assert, panic, deadlock
	Inputs  []Input
	Sched   bool
	Detail  string
	Taken   []int
	margin  float64
	trace   []string
}

// ---------------------------------------------------------------- decisions

func (m *M) addPC(l *Term) {
	if l.isTrue() {
		return
	}
	if l.op == TAnd {
		m.addPC(l.args[0])
		m.addPC(l.args[1])
		return
	}
	p := m.path
	if p.known[l] {
		return
	}
	vs := map[*Term]bool{}
	termVars(l, map[*Term]bool{}, vs)
	p.pc = append(p.pc, l)
	p.pcVars = append(p.pcVars, vs)
	p.known[l] = true
	if p.model != nil && !m.modelSat(l) {
		p.model = nil
	}
}

func (m *M) modelSat(l *Term) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			ok = false
		}
	}()
	ev := newEval(m.path.model)
	vs := map[*Term]bool{}
	termVars(l, map[*Term]bool{}, vs)
	for v := range vs {
		if _, ok := m.path.model[v]; !ok {
			return false
		}
	}
	return ev.bool(l)
}

func (m *M) branch(v V) bool {
	if v.r == nil {
		return v.n != 0
	}
	return m.branchT(m.boolTermOf(v))
}

func (m *M) next(label string, opts []int) (int, bool) {
	p := m.path
	if p.pos < len(p.prefix) {
		c := p.prefix[p.pos]
		p.pos++
		p.taken = append(p.taken, c)
		return c, true
	}
	return 0, false
}

func (m *M) branchT(c *Term) bool {
	if c.isConst() {
		return c.n != 0
	}
	p := m.path
	if p == nil {
		panic(unsupported("symbolic branch during initialisation"))
	}
	if p.known[c] {
		return true
	}
	nc := m.t.not(c)
	if p.known[nc] {
		return false
	}
	if m.generic {
		a, eq := c, true
		if a.op == TNot {
			a, eq = a.args[0], false
		}
		if a.op == TEq && a.args[0].sort == SReal {
			// generic position: distinct real expressions are taken to differ
			m.addPC(m.t.not(a))
			return !eq
		}
	}
	if d, ok := m.next("branch", nil); ok {
		if d&1 == 1 {
			m.addPC(c)
			return true
		}
		m.addPC(nc)
		return false
	}
	m.checkTime()
	// feasibility of both sides
	ft, ff := vUnknown, vUnknown
	ft = m.feasible(c)
	if ft == vUnsat {
		ff = vSat
	} else {
		ff = m.feasible(nc)
	}
	if ft == vUnknown {
		p.ex.note(&p.ex.unkBranches)
	}
	switch {
	case ft != vUnsat && ff != vUnsat:
		p.ex.push(append(append([]int(nil), p.taken...), 0))
		p.taken = append(p.taken, 1)
		m.addPC(c)
		return true
	case ft != vUnsat:
		p.taken = append(p.taken, 1)
		m.addPC(c)
		return true
	default:
		p.taken = append(p.taken, 0)
		m.addPC(nc)
		return false
	}
}

func (m *M) feasible(c *Term) verdict {
	p := m.path
	if p.model != nil && m.modelSat(c) {
		return vSat
	}
	vs := map[*Term]bool{}
	termVars(c, map[*Term]bool{}, vs)
	lits := append(sliceLits(p.pc, p.pcVars, vs), c)
	v, mod := m.check(lits, m.e.branchTO)
	if v == vSat && mod != nil {
		// merge into the running model if it covers the rest
		if p.model == nil {
			nm := map[*Term]any{}
			for k, x := range mod {
				nm[k] = x
			}
			old := p.model
			p.model = nm
			ok := m.modelSat(c)
			for _, l := range p.pc {
				if !ok || !m.modelSat(l) {
					ok = false
					break
				}
			}
			if !ok {
				p.model = old
			}
		}
	}
	return v
}

func (m *M) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	if m.path == nil {
		return 0
	}
	p := m.path
	if d, ok := m.next(label, nil); ok {
		return d
	}
	m.checkTime()
	for i := n - 1; i >= 1; i-- {
		p.ex.push(append(append([]int(nil), p.taken...), i))
	}
	p.taken = append(p.taken, 0)
	return 0
}

func (m *M) checkTime() {
	if time.Now().After(m.deadline) {
		panic(pathEnd{"limit", "time limit"})
	}
}

// concretize forks over the feasible values of an integer term.
func (m *M) concretize(v V, k Kind, why string) V {
	t, ok := v.r.(*Term)
	if !ok {
		if v.r == nil {
			return v
		}
		if a, ok := absAddr(v); ok {
			return V{n: a}
		}
		panic(unsupported("concretize %T (%s)", v.r, why))
	}
	if t.sort == SBool {
		return b2v(m.branchT(t))
	}
	if t.sort != SBV {
		panic(unsupported("concretize real (%s)", why))
	}
	p := m.path
	for i := 0; i < 300; i++ {
		// candidate value: from the decision prefix or from the solver
		var val uint64
		if p.pos < len(p.prefix) {
			val = uint64(p.prefix[p.pos])
			p.pos++
			p.taken = append(p.taken, int(val))
		} else {
			vs := map[*Term]bool{}
			termVars(t, map[*Term]bool{}, vs)
			var mod map[*Term]any
			if p.model != nil && m.hasVars(vs) {
				mod = p.model
			} else {
				lits := sliceLits(p.pc, p.pcVars, vs)
				probe := m.t.eq(t, t)
				lits = append(lits, probe)
				var vd verdict
				vd, mod = m.check(append(lits, m.t.bvcmp(TBUle, m.t.bvTerm(0, t.w), t)), m.e.branchTO)
				if vd != vSat {
					if vd == vUnsat {
						panic(pathEnd{"infeasible", "concretize"})
					}
					panic(unsupported("solver gave no value (%s)", why))
				}
			}
			ev := newEval(mod)
			val = ev.bv(t)
			p.taken = append(p.taken, int(val))
		}
		eq := m.t.eq(t, m.t.bvTerm(val, t.w))
		if m.branchT(eq) {
			return V{n: normInt(uint64(sextK(val, t.w, k)), k)}
		}
	}
	panic(pathEnd{"limit", "too many values for " + why})
}

func (m *M) hasVars(vs map[*Term]bool) bool {
	for v := range vs {
		if _, ok := m.path.model[v]; !ok {
			return false
		}
	}
	return true
}

func sextK(n uint64, w uint8, k Kind) int64 {
	if k.isSigned() {
		return sext(n, w)
	}
	return int64(n)
}

// concretizeReal forks over the integer part (truncation toward zero) of a real term.
func (m *M) concretizeReal(t *Term, k Kind) V {
	p := m.path
	for i := 0; i < 64; i++ {
		var val int64
		if p.pos < len(p.prefix) {
			val = int64(p.prefix[p.pos])
			p.pos++
			p.taken = append(p.taken, int(val))
		} else {
			vs := map[*Term]bool{}
			termVars(t, map[*Term]bool{}, vs)
			vd, mod := m.check(append(sliceLits(p.pc, p.pcVars, vs), m.t.lt(t, m.t.add(t, m.t.one))), m.e.branchTO)
			f := 0.0
			if vd == vSat {
				f = newEval(mod).real(t)
			}
			if math.IsNaN(f) || math.Abs(f) > 1e15 {
				panic(unsupported("float to int conversion of unbounded value"))
			}
			val = int64(f)
			p.taken = append(p.taken, int(val))
		}
		lo, hi := m.t.intTerm(val), m.t.intTerm(val+1)
		var c *Term
		switch {
		case val > 0:
			c = m.t.and(m.t.le(lo, t), m.t.lt(t, hi))
		case val < 0:
			c = m.t.and(m.t.lt(m.t.intTerm(val-1), t), m.t.le(t, lo))
		default:
			c = m.t.and(m.t.lt(m.t.intTerm(-1), t), m.t.lt(t, hi))
		}
		if m.branchT(c) {
			return V{n: normInt(uint64(val), k)}
		}
	}
	panic(pathEnd{"limit", "too many integer parts"})
}

func (m *M) noteDiv(d *Term) {}

// ---------------------------------------------------------------- assertions

func (m *M) assume(c *Term) {
	if c.isConst() {
		if c.n == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	p := m.path
	if p.known[c] {
		return
	}
	if p.known[m.t.not(c)] {
		panic(pathEnd{"assume", ""})
	}
	if p.pos < len(p.prefix) {
		// feasibility was established when the prefix was explored
		m.addPC(c)
		return
	}
	if m.feasible(c) == vUnsat {
		panic(pathEnd{"assume", ""})
	}
	m.addPC(c)
}

// assertT checks an assertion on the current path. Inside a decision prefix the assertion was decided by the parent path.
func (m *M) assertT(c *Term, msg string) {
	p := m.path
	if c.isConst() && c.n != 0 {
		if p.pos >= len(p.prefix) {
			p.res.asserts++
			p.res.trivial++
			p.ex.sampleAssert(msg, "concrete on this path")
		}
		return
	}
	if p.pos < len(p.prefix) {
		return
	}
	p.res.asserts++
	nc := m.t.not(c)
	vs := map[*Term]bool{}
	termVars(nc, map[*Term]bool{}, vs)
	lits := sliceLits(p.pc, p.pcVars, vs)
	if c.isConst() {
		lits = p.pc
	} else {
		lits = append(lits, nc)
	}
	v, mod := m.check(lits, m.e.assertTO)
	if c.isConst() && len(lits) == 0 {
		v = vSat
		mod = map[*Term]any{}
	}
	switch v {
	case vUnsat:
		p.res.unsat++
		p.ex.sampleAssert(msg, "unsat")
		return
	case vUnknown:
		// the solver did not decide: fall back to searching a witness numerically, never to a claim
		if viol := m.witness(nc, msg, nil); viol != nil {
			p.res.viol = viol
			panic(pathEnd{"violation", msg})
		}
		p.res.unknown++
		if len(p.res.unkMsg) < 5 {
			p.res.unkMsg = append(p.res.unkMsg, msg)
		}
		return
	}
	viol := m.witness(nc, msg, mod)
	if viol == nil {
		// the model does not survive evaluation with the real functions: abstraction artefact, undecided
		p.res.unknown++
		if len(p.res.unkMsg) < 5 {
			p.res.unkMsg = append(p.res.unkMsg, msg+" (model not realisable)")
		}
		return
	}
	p.res.viol = viol
	panic(pathEnd{"violation", msg})
}

// margin measures how badly a literal is satisfied: >0 satisfied with that margin.
func (ev *evalEnv) margin(l *Term) float64 {
	switch l.op {
	case TNot:
		a := l.args[0]
		switch a.op {
		case TEq:
			if a.args[0].sort == SReal {
				x, y := ev.real(a.args[0]), ev.real(a.args[1])
				d := math.Abs(x - y)
				if math.IsNaN(d) {
					return math.NaN()
				}
				return d / (1 + math.Abs(x) + math.Abs(y))
			}
		case TLt:
			return ev.real(a.args[0]) - ev.real(a.args[1])
		case TLe:
			return ev.real(a.args[0]) - ev.real(a.args[1])
		case TAnd:
			return math.Max(ev.margin(not1(a.args[0])), ev.margin(not1(a.args[1])))
		case TOr:
			return math.Min(ev.margin(not1(a.args[0])), ev.margin(not1(a.args[1])))
		case TNot:
			return ev.margin(a.args[0])
		}
	case TLt, TLe:
		return ev.real(l.args[1]) - ev.real(l.args[0])
	case TAnd:
		return math.Min(ev.margin(l.args[0]), ev.margin(l.args[1]))
	case TOr:
		return math.Max(ev.margin(l.args[0]), ev.margin(l.args[1]))
	case TEq:
		if l.args[0].sort == SReal {
			x, y := ev.real(l.args[0]), ev.real(l.args[1])
			if math.Abs(x-y) <= 1e-12*(1+math.Abs(x)+math.Abs(y)) {
				return 1
			}
			return -1
		}
	}
	if ev.bool(l) {
		return 1
	}
	return -1
}

func not1(a *Term) *Term {
	if a.op == TNot {
		return a.args[0]
	}
	return &Term{op: TNot, sort: SBool, args: []*Term{a}}
}

// witness turns a (candidate) model into concrete inputs violating the assertion when evaluated with the real functions.
func (m *M) witness(nc *Term, msg string, mod map[*Term]any) *Violation {
	p := m.path
	var best map[*Term]any
	bestM := 0.0
	try := func(md map[*Term]any) {
		defer func() { recover() }()
		ev := newEval(md)
		for _, l := range p.pc {
			if mg := ev.margin(l); !(mg > 0) && !ev.bool(l) {
				return
			}
		}
		var mg float64
		if nc.isConst() {
			mg = 1
		} else {
			mg = ev.margin(nc)
		}
		if math.IsNaN(mg) {
			return
		}
		if mg > bestM && mg > 1e-9 {
			bestM = mg
			best = md
		}
	}
	if mod != nil {
		full := map[*Term]any{}
		for _, in := range p.inputs {
			if in.t == nil {
				continue
			}
			if v, ok := mod[in.t]; ok {
				full[in.t] = v
			}
		}
		for k, v := range mod {
			full[k] = v
		}
		// variables outside the sliced query get a model of the remaining path condition
		missing := false
		for _, vs := range p.pcVars {
			for v := range vs {
				if _, ok := full[v]; !ok {
					missing = true
				}
			}
		}
		if missing {
			rest := map[*Term]bool{}
			var lits []*Term
			for i, vs := range p.pcVars {
				inQ := false
				for v := range vs {
					if _, ok := mod[v]; ok {
						inQ = true
					}
				}
				if !inQ {
					lits = append(lits, p.pc[i])
					for v := range vs {
						rest[v] = true
					}
				}
			}
			if v2, mod2 := m.check(lits, m.e.branchTO); v2 == vSat {
				for k, v := range mod2 {
					full[k] = v
				}
			}
		}
		for _, in := range p.inputs {
			if in.t != nil && in.t.op == TVar {
				if _, ok := full[in.t]; !ok {
					if in.t.sort == SReal {
						full[in.t] = 0.5
					} else {
						full[in.t] = uint64(0)
					}
				}
			}
		}
		try(full)
		mod = full
	}
	// nicer / realisable points: random perturbation and resampling
	hasReal := false
	for _, in := range p.inputs {
		if in.t != nil && in.t.sort == SReal {
			hasReal = true
		}
	}
	if hasReal && bestM < 1e-3 {
		rng := rand.New(rand.NewSource(int64(len(p.taken))*7919 + 1))
		for i := 0; i < 3000 && bestM < 1e-2; i++ {
			md := map[*Term]any{}
			for k, v := range mod {
				md[k] = v
			}
			for _, in := range p.inputs {
				if in.t == nil || in.t.op != TVar {
					continue
				}
				if in.t.sort == SReal {
					cur, ok := md[in.t].(float64)
					if !ok || i%3 == 0 {
						md[in.t] = math.Round((rng.Float64()*4-2)*64) / 64
						if i%2 == 0 {
							md[in.t] = math.Round((rng.Float64()*2+0.05)*64) / 64
						}
					} else {
						md[in.t] = cur + rng.NormFloat64()*0.25*float64(1+i%4)
					}
				} else if _, ok := md[in.t]; !ok {
					md[in.t] = uint64(rng.Intn(4))
				}
			}
			try(md)
		}
	}
	if best == nil {
		return nil
	}
	v := &Violation{Msg: msg, Kind: "assert", margin: bestM, Taken: append([]int(nil), p.taken...)}
	v.Inputs = m.concreteInputs(best)
	ev := newEval(best)
	if !nc.isConst() && nc.op == TNot && nc.args[0].op == TEq && nc.args[0].args[0].sort == SReal {
		v.Detail = fmt.Sprintf("lhs=%g rhs=%g", ev.real(nc.args[0].args[0]), ev.real(nc.args[0].args[1]))
	}
	return v
}

func (m *M) concreteInputs(md map[*Term]any) []Input {
	ev := newEval(md)
	var out []Input
	for _, in := range m.path.inputs {
		o := in
		if in.t != nil {
			switch in.t.sort {
			case SReal:
				o.F = ev.real(in.t)
			case SBool:
				if ev.bool(in.t) {
					o.I = 1
				}
			case SBV:
				o.I = sext(ev.bv(in.t), in.t.w)
			}
		}
		out = append(out, o)
	}
	return out
}

// ---------------------------------------------------------------- exploration

type Explorer struct {
	e       *Engine
	harness *ssa.Function
	name    string
	mu      *sync.Mutex
	sch     *Sched
	stack   [][]int
	active  int
	stop    bool

	paths, done, assumed, limits, panics, infeasible int
	unsupp                                           map[string]int
	engErr                                           map[string]int
	asserts, trivial, unsat, unknown                 int
	unkMsg                                           map[string]int
	unkBranches                                      int
	viols                                            []*Violation
	maxViol                                          int
	maxPaths                                         int
	deadline                                         time.Time
	samples                                          []string
	funcs                                            map[string]bool
	queries, qsat, qunsat, qunk                      int64
	solverTime                                       time.Duration
	maxQ                                             time.Duration
	steps                                            int64
	covers                                           map[string]bool
	wall                                             time.Duration
	truncated                                        bool
	okEnds                                           int
	busy                                             time.Duration
	started                                          bool
	doc                                              string
	known                                            func(*Violation) bool
	maxVal                                           int
	traces                                           [][]Input
	decisions                                        int64
}

func (ex *Explorer) note(c *int) {
	ex.mu.Lock()
	*c++
	ex.mu.Unlock()
}

func (ex *Explorer) sampleAssert(msg, verdict string) {
	ex.mu.Lock()
	if len(ex.samples) < 4 {
		ex.samples = append(ex.samples, fmt.Sprintf("%s: %s -> %s", ex.name, msg, verdict))
	}
	ex.mu.Unlock()
}

// beginPath resets the machine to its snapshot.
func (m *M) beginPath(ex *Explorer, prefix []int) {
	m.rollback()
	m.path = &Path{prefix: prefix, known: map[*Term]bool{}, nf: newNF(), ex: ex, res: &pathResult{}, covers: map[string]bool{}}
}

// rollback restores the snapshot.
func (m *M) rollback() {
	for i := len(m.journal) - 1; i >= 0; i-- {
		j := &m.journal[i]
		j.o.lay, j.o.raw, j.o.slots = j.lay, j.raw, j.slots
		j.o.epoch = 0
	}
	m.journal = m.journal[:0]
	for i := len(m.mapJ) - 1; i >= 0; i-- {
		j := &m.mapJ[i]
		j.o.ents, j.o.index, j.o.live, j.o.sym = j.ents, j.index, j.live, j.sym
		j.o.epoch = 0
	}
	m.mapJ = m.mapJ[:0]
	for i := len(m.chanJ) - 1; i >= 0; i-- {
		j := &m.chanJ[i]
		*j.o = j.old
		j.o.epoch = 0
	}
	m.chanJ = m.chanJ[:0]
	m.epoch++
	m.t = newTerms()
	m.nextAddr = m.snapAddr
	if m.snapAddr == 0 {
		m.nextAddr = 1 << 32
	}
	m.gs = nil
	m.nextG = 0
	m.cur = nil
	m.steps = 0
	m.pools = map[poolKey][]V{}
	m.side = map[any]any{}
	m.sched, m.delay = false, false
	m.schedEver = false
	m.preempts = 0
	m.mapOrder = 0
	m.generic = false
	m.randN = 0
	m.path = nil
	for _, i := range m.lateG {
		m.globals[i] = nil
	}
	m.lateG = m.lateG[:0]
	for _, p := range m.initList {
		m.inited[p] = false
	}
	m.initList = m.initList[:0]
}

// warm moves packages that were initialised on the last path below the snapshot.
func (m *M) warm() {
	list := append([]int(nil), m.initList...)
	m.rollback()
	m.deadline = time.Now().Add(120 * time.Second)
	g := &G{id: 0}
	m.cur = g
	m.gs = []*G{g}
	for _, p := range list {
		if m.inited[p] {
			continue
		}
		m.pushInit(g, p)
		m.runNested(g, 0)
	}
	m.initList = m.initList[:0]
	m.snapAddr = m.nextAddr
	m.epoch++
	m.gs, m.cur = nil, nil
}

func (ex *Explorer) runPath(m *M, prefix []int) (res *pathResult) {
	m.beginPath(ex, prefix)
	res = m.path.res
	m.deadline = time.Now().Add(ex.e.pathTO)
	if m.deadline.After(ex.deadline) {
		m.deadline = ex.deadline
	}
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case pathEnd:
				res.end, res.msg = x.kind, x.msg
			case unsupportedErr:
				res.end, res.msg = "unsupported", strings.TrimPrefix(x.msg, "@@ ")
			case engineErr:
				res.end, res.msg = "engine", x.msg+x.trace
			case nfTooBig, nfDivZero:
				res.end, res.msg = "unsupported", "term normalisation limit"
			default:
				res.end, res.msg = "engine", fmt.Sprint(e)+"\n"+goStack()
			}
		}
		// an escaping panic or deadlock is a violation candidate
		if res.end == "panic" || res.end == "deadlock" {
			func() {
				defer func() {
					if e := recover(); e != nil {
						res.end, res.msg = "engine", fmt.Sprint(e)
					}
				}()
				v, mod := m.check(m.path.pc, ex.e.assertTO)
				if len(m.path.pc) == 0 {
					v, mod = vSat, map[*Term]any{}
				}
				if v == vUnsat {
					res.end = "infeasible"
					return
				}
				if mod == nil {
					mod = m.path.model
				}
				if viol := m.witness(m.t.tt, res.end+": "+firstLine(res.msg), mod); viol != nil {
					viol.Kind = res.end
					viol.Detail = res.msg
					res.viol = viol
				} else {
					res.unknown++
					res.unkMsg = append(res.unkMsg, res.end+": "+firstLine(res.msg))
				}
			}()
		}
		if res.viol != nil {
			res.viol.Harness = ex.name
			res.viol.Sched = m.schedEver
		}
	}()
	code := m.e.code(ex.harness)
	main := m.spawn(m.e.funcVal(code), nil)
	m.cur = main
	if m.needInit(code.pkg) {
		m.pushInit(main, code.pkg)
	}
	m.runMain(main)
	m.flushBatch()
	res.end = "done"
	ex.mu.Lock()
	want := len(ex.traces) < ex.maxVal
	ex.mu.Unlock()
	if want {
		v, mod := vSat, map[*Term]any{}
		if len(m.path.pc) > 0 {
			v, mod = m.check(m.path.pc, ex.e.branchTO)
		}
		if v != vUnsat {
			if mod == nil {
				mod = m.path.model
			}
			if w := m.witness(m.t.tt, "", mod); w != nil {
				ex.mu.Lock()
				ex.traces = append(ex.traces, w.Inputs)
				ex.mu.Unlock()
			}
		}
	}
	return
}

// flushBatch submits the equalities whose two sides became the same term to the solver in one query.
func (m *M) flushBatch() {
	p := m.path
	if len(p.batch) == 0 {
		return
	}
	c := m.t.tt
	for _, t := range p.batch {
		c = m.t.and(c, m.t.mk(TEq, SBool, 0, 0, "", nil, t, t))
	}
	n := len(p.batch)
	p.batch = nil
	if v, _ := m.check([]*Term{m.t.not(c)}, m.e.assertTO); v == vUnsat {
		p.res.unsat += n
	} else {
		p.res.trivial += n
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// getM provides a machine, possibly one warmed by an earlier harness.
func (e *Engine) getM() *M {
	e.warmMu.Lock()
	defer e.warmMu.Unlock()
	if n := len(e.mpool); n > 0 {
		m := e.mpool[n-1]
		e.mpool = e.mpool[:n-1]
		return m
	}
	m := newM(e)
	m.sol = newSolver(e.z3)
	return m
}

func (e *Engine) putM(m *M) {
	m.rollback()
	m.t = newTerms()
	s := m.sol
	s.queries, s.sat, s.unsat, s.unknown, s.time, s.maxQ = 0, 0, 0, 0, 0, 0
	m.funcsSeen = map[*Code]bool{}
	e.warmMu.Lock()
	e.mpool = append(e.mpool, m)
	e.warmMu.Unlock()
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = big.NewRat
