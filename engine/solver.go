package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type verdict int

const (
	vUnknown verdict = iota
	vSat
	vUnsat
)

func (v verdict) String() string { return [...]string{"unknown", "sat", "unsat"}[v] }

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	lines chan string
	bin   string

	queries, sat, unsat, unknown int64
	time                         time.Duration
	maxQ                         time.Duration
	logw                         io.Writer
	slowLog                      string
}

func newSolver(bin string) *Solver { return &Solver{bin: bin} }

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(engineErr{"cannot start solver: " + err.Error(), ""})
	}
	ch := make(chan string, 64)
	s.lines = ch
	go func() {
		r := bufio.NewReaderSize(o, 1<<16)
		for {
			l, err := r.ReadString('\n')
			if l != "" {
				ch <- strings.TrimRight(l, "\n")
			}
			if err != nil {
				close(ch)
				return
			}
		}
	}()
}

func (s *Solver) kill() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		go func(ch chan string, c *exec.Cmd) {
			for range ch {
			}
			c.Wait()
		}(s.lines, s.cmd)
		s.cmd = nil
	}
}

// run sends a complete problem; vars lists names whose values are wanted on sat.
func (s *Solver) run(text string, vars []string, timeout time.Duration) (verdict, map[string]string) {
	if s.cmd == nil {
		s.start()
	}
	st := time.Now()
	var b bytes.Buffer
	b.WriteString("(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n")
	fmt.Fprintf(&b, "(set-option :timeout %d)\n", timeout.Milliseconds())
	b.WriteString(text)
	b.WriteString("(check-sat)\n(echo \"@@\")\n")
	if d := os.Getenv("ENGINE_DUMP"); d != "" {
		defer func() {
			if w := time.Since(st); w > 20*time.Millisecond {
				os.WriteFile(fmt.Sprintf("%s/%d_%d.smt2", d, w.Milliseconds(), st.UnixNano()), b.Bytes(), 0644)
			}
		}()
	}
	done := make(chan struct{})
	in := s.in
	go func() {
		in.Write(b.Bytes())
		close(done)
	}()
	s.queries++
	v := vUnknown
	hard := time.NewTimer(timeout + 3*time.Second)
	defer hard.Stop()
	errMsg := ""
loop:
	for {
		select {
		case l, ok := <-s.lines:
			if !ok {
				s.kill()
				break loop
			}
			switch {
			case l == "sat":
				v = vSat
			case l == "unsat":
				v = vUnsat
			case l == "@@":
				break loop
			case strings.HasPrefix(l, "(error"):
				errMsg = l
			}
		case <-hard.C:
			s.kill()
			break loop
		}
	}
	if errMsg != "" {
		if os.Getenv("ENGINE_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver error:", errMsg)
			os.WriteFile("/tmp/solver_error.smt2", b.Bytes(), 0644)
		}
		v = vUnknown
	}
	var vals map[string]string
	if v == vSat && len(vars) > 0 && s.cmd != nil {
		vals = map[string]string{}
		fmt.Fprintf(s.in, "(get-value (%s))\n(echo \"@@\")\n", strings.Join(vars, " "))
		var txt strings.Builder
		h2 := time.NewTimer(5 * time.Second)
	l2:
		for {
			select {
			case l, ok := <-s.lines:
				if !ok {
					s.kill()
					break l2
				}
				if l == "@@" {
					break l2
				}
				txt.WriteString(l)
				txt.WriteByte(' ')
			case <-h2.C:
				s.kill()
				break l2
			}
		}
		h2.Stop()
		sx := parseSexp(txt.String())
		if len(sx) > 0 {
			for _, p := range sx[0].list {
				if len(p.list) == 2 {
					vals[p.list[0].atom] = p.list[1].String()
				}
			}
		}
	}
	el := time.Since(st)
	s.time += el
	if el > s.maxQ {
		s.maxQ = el
	}
	switch v {
	case vSat:
		s.sat++
	case vUnsat:
		s.unsat++
	default:
		s.unknown++
		if d := os.Getenv("ENGINE_SLOW"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/slow%d.smt2", d, time.Now().UnixNano()), b.Bytes(), 0644)
		}
	}
	return v, vals
}

type sexp struct {
	atom string
	list []*sexp
	isL  bool
}

func (s *sexp) String() string {
	if !s.isL {
		return s.atom
	}
	var p []string
	for _, x := range s.list {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

func parseSexp(s string) []*sexp {
	i := 0
	var parse func() *sexp
	parse = func() *sexp {
		for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t') {
			i++
		}
		if i >= len(s) {
			return nil
		}
		if s[i] == '(' {
			i++
			x := &sexp{isL: true}
			for {
				for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t') {
					i++
				}
				if i >= len(s) {
					return x
				}
				if s[i] == ')' {
					i++
					return x
				}
				e := parse()
				if e == nil {
					return x
				}
				x.list = append(x.list, e)
			}
		}
		j := i
		for i < len(s) && s[i] != ' ' && s[i] != ')' && s[i] != '(' && s[i] != '\n' {
			i++
		}
		if i == j {
			i++
			return &sexp{atom: ""}
		}
		return &sexp{atom: s[j:i]}
	}
	var out []*sexp
	for i < len(s) {
		e := parse()
		if e == nil {
			break
		}
		out = append(out, e)
	}
	return out
}

func smtRealVal(s string) (float64, bool) {
	x := parseSexp(s)
	if len(x) == 0 {
		return 0, false
	}
	return sexpReal(x[0])
}

func sexpReal(x *sexp) (float64, bool) {
	if !x.isL {
		a := strings.TrimSuffix(x.atom, "?")
		f, err := strconv.ParseFloat(a, 64)
		return f, err == nil
	}
	if len(x.list) == 2 && x.list[0].atom == "-" {
		f, ok := sexpReal(x.list[1])
		return -f, ok
	}
	if len(x.list) == 3 && x.list[0].atom == "/" {
		a, ok1 := sexpReal(x.list[1])
		b, ok2 := sexpReal(x.list[2])
		return a / b, ok1 && ok2
	}
	return 0, false
}

// ---------------------------------------------------------------- encoding

// enc builds one self-contained SMT problem.
type enc struct {
	nf     *NF
	decl   bytes.Buffer
	body   bytes.Buffer
	names  map[*Term]string
	reals  map[int]bool  // atoms used
	exps   map[int]int64 // gcd of exponents (scaled)
	lits   []func()
	facs   map[int]bool
	nz     map[int]bool
	vars   []*Term
	varN   map[*Term]string
	side   []func()
	hasBV  bool
	hasInt bool
	polys  []poly
	queue  []int
}

func ratSMT(r *big.Rat) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var s string
	if a.IsInt() {
		s = a.Num().String() + ".0"
	} else {
		s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

// A problem is gathered first (so that exponent units are known) and printed afterwards.
type cmpLit struct {
	op   string // "=", "<", "<="
	a, b *rf
}

type eNode struct {
	s    string // literal text
	cmp  *cmpLit
	op   string
	kids []*eNode
}

type builder struct {
	nf    *NF
	memo  map[*Term]*eNode
	bvTxt map[*Term]string
	defs  bytes.Buffer
	decls bytes.Buffer
	vars  map[*Term]string
	used  map[int]bool
	order []int
	nz    map[int]bool
	facs  map[int]bool
	facO  []int
	nzO   []int
	unit  map[int]int64
	cons  []*eNode
	logic bool // pure real
	nbv   int
}

func newBuilder(nf *NF) *builder {
	return &builder{nf: nf, memo: map[*Term]*eNode{}, bvTxt: map[*Term]string{}, vars: map[*Term]string{},
		used: map[int]bool{}, nz: map[int]bool{}, facs: map[int]bool{}, unit: map[int]int64{}, logic: true}
}

func gcd64(a, b int64) int64 {
	a, b = abs64(a), abs64(b)
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (b *builder) usePoly(p poly) {
	for _, t := range p {
		for _, x := range t.m {
			b.useAtom(int(x.a), x.e)
		}
	}
}

func (b *builder) useAtom(id int, e int64) {
	if u, ok := b.unit[id]; ok {
		b.unit[id] = gcd64(u, e)
	} else {
		b.unit[id] = gcd64(expD, e)
	}
	if e < 0 && !b.nz[id] {
		b.nz[id] = true
		b.nzO = append(b.nzO, id)
	}
	if b.used[id] {
		return
	}
	b.used[id] = true
	b.order = append(b.order, id)
	a := b.nf.atoms[id]
	switch a.kind {
	case aVar:
		b.vars[a.t] = fmt.Sprintf("a%d", id)
	case aRoot:
		b.useRF(a.base)
	case aIte:
		c := b.boolN(a.t.args[0])
		b.useRF(a.args[0])
		b.useRF(a.args[1])
		at := b.nf.atomRF(a)
		b.cons = append(b.cons,
			&eNode{op: "or", kids: []*eNode{{op: "not", kids: []*eNode{c}}, {cmp: &cmpLit{"=", at, a.args[0]}}}},
			&eNode{op: "or", kids: []*eNode{c, {cmp: &cmpLit{"=", at, a.args[1]}}}})
	case aB2R:
		b.logic = false
		b.bv(a.t.args[0])
	case aUF:
		at := b.nf.atomRF(a)
		switch a.name {
		case "sin", "cos":
			s, c := b.nf.uf("sin", a.args[0]), b.nf.uf("cos", a.args[0])
			b.useRF(s)
			b.useRF(c)
			if a.name == "sin" {
				b.cons = append(b.cons, &eNode{cmp: &cmpLit{"=", b.nf.add(b.nf.mul(s, s), b.nf.mul(c, c)), b.nf.constRF(big.NewRat(1, 1))}})
			}
		case "cbrt":
			b.useRF(a.args[0])
			b.cons = append(b.cons, &eNode{cmp: &cmpLit{"=", b.nf.powInt(at, 3), a.args[0]}})
		case "floor":
			b.useRF(a.args[0])
			d := b.nf.add(a.args[0], b.nf.scale(at, big.NewRat(-1, 1)))
			b.cons = append(b.cons, &eNode{cmp: &cmpLit{"<=", b.nf.constRF(new(big.Rat)), d}},
				&eNode{cmp: &cmpLit{"<", d, b.nf.constRF(big.NewRat(1, 1))}},
				&eNode{s: fmt.Sprintf("(is_int a%d)", id)})
			b.logic = false
		}
	}
}

func (b *builder) useRF(r *rf) {
	b.usePoly(r.num)
	for _, f := range r.den {
		if !b.facs[f.id] {
			b.facs[f.id] = true
			b.facO = append(b.facO, f.id)
			b.usePoly(b.nf.facs[f.id])
		}
	}
}

func (b *builder) cmp(op string, x, y *Term) *eNode {
	a, c := b.nf.of(x), b.nf.of(y)
	b.useRF(a)
	b.useRF(c)
	return &eNode{cmp: &cmpLit{op, a, c}}
}

func (b *builder) boolN(t *Term) *eNode {
	if e, ok := b.memo[t]; ok {
		return e
	}
	var e *eNode
	switch t.op {
	case TConst:
		if t.n != 0 {
			e = &eNode{s: "true"}
		} else {
			e = &eNode{s: "false"}
		}
	case TVar:
		n := fmt.Sprintf("b%d", t.id)
		fmt.Fprintf(&b.decls, "(declare-const %s Bool)\n", n)
		b.vars[t] = n
		e = &eNode{s: n}
	case TNot:
		e = &eNode{op: "not", kids: []*eNode{b.boolN(t.args[0])}}
	case TAnd, TOr:
		o := "and"
		if t.op == TOr {
			o = "or"
		}
		e = &eNode{op: o, kids: []*eNode{b.boolN(t.args[0]), b.boolN(t.args[1])}}
	case TEq:
		switch t.args[0].sort {
		case SBool:
			e = &eNode{op: "=", kids: []*eNode{b.boolN(t.args[0]), b.boolN(t.args[1])}}
		case SReal:
			e = b.cmp("=", t.args[0], t.args[1])
		default:
			e = &eNode{s: "(= " + b.bv(t.args[0]) + " " + b.bv(t.args[1]) + ")"}
		}
	case TLt:
		e = b.cmp("<", t.args[0], t.args[1])
	case TLe:
		e = b.cmp("<=", t.args[0], t.args[1])
	case TBUlt:
		e = &eNode{s: "(bvult " + b.bv(t.args[0]) + " " + b.bv(t.args[1]) + ")"}
	case TBUle:
		e = &eNode{s: "(bvule " + b.bv(t.args[0]) + " " + b.bv(t.args[1]) + ")"}
	case TBSlt:
		e = &eNode{s: "(bvslt " + b.bv(t.args[0]) + " " + b.bv(t.args[1]) + ")"}
	case TBSle:
		e = &eNode{s: "(bvsle " + b.bv(t.args[0]) + " " + b.bv(t.args[1]) + ")"}
	default:
		panic(fmt.Sprintf("encode bool op %d", t.op))
	}
	b.memo[t] = e
	return e
}

var bvOps = map[TOp]string{TBAdd: "bvadd", TBSub: "bvsub", TBMul: "bvmul", TBUDiv: "bvudiv", TBSDiv: "bvsdiv", TBURem: "bvurem", TBSRem: "bvsrem",
	TBAnd: "bvand", TBOr: "bvor", TBXor: "bvxor", TBShl: "bvshl", TBLshr: "bvlshr", TBAshr: "bvashr"}

func (b *builder) bv(t *Term) string {
	b.logic = false
	if s, ok := b.bvTxt[t]; ok {
		return s
	}
	var s string
	switch t.op {
	case TConst:
		s = fmt.Sprintf("(_ bv%d %d)", t.n, t.w)
		b.bvTxt[t] = s
		return s
	case TVar:
		n := fmt.Sprintf("v%d", t.id)
		if t.bits > 0 && t.bits < t.w {
			fmt.Fprintf(&b.decls, "(declare-const n%s (_ BitVec %d))\n(define-fun %s () (_ BitVec %d) ((_ zero_extend %d) n%s))\n", n, t.bits, n, t.w, t.w-t.bits, n)
		} else {
			fmt.Fprintf(&b.decls, "(declare-const %s (_ BitVec %d))\n", n, t.w)
		}
		b.vars[t] = n
		b.bvTxt[t] = n
		return n
	case TIte:
		// the condition may contain real comparisons: emitted through a Boolean name
		c := b.boolN(t.args[0])
		cn := fmt.Sprintf("c%d", t.args[0].id)
		if _, ok := b.bvTxt[t.args[0]]; !ok {
			b.bvTxt[t.args[0]] = cn
			fmt.Fprintf(&b.decls, "(declare-const %s Bool)\n", cn)
			b.cons = append(b.cons, &eNode{op: "=", kids: []*eNode{{s: cn}, c}})
		}
		s = "(ite " + cn + " " + b.bv(t.args[1]) + " " + b.bv(t.args[2]) + ")"
	case TBExtract:
		s = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, b.bv(t.args[0]))
	case TBZext:
		s = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, b.bv(t.args[0]))
	case TBSext:
		s = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, b.bv(t.args[0]))
	default:
		o, ok := bvOps[t.op]
		if !ok {
			panic(fmt.Sprintf("encode bv op %d", t.op))
		}
		s = "(" + o + " " + b.bv(t.args[0]) + " " + b.bv(t.args[1]) + ")"
	}
	n := fmt.Sprintf("d%d", t.id)
	fmt.Fprintf(&b.defs, "(define-fun %s () (_ BitVec %d) %s)\n", n, t.w, s)
	b.bvTxt[t] = n
	return n
}

func (b *builder) polyText(p poly, shift map[int]int64) string {
	if len(p) == 0 {
		return "0.0"
	}
	var parts []string
	for _, t := range p.sorted() {
		var fs []string
		exps := map[int]int64{}
		var ids []int
		for _, x := range t.m {
			exps[int(x.a)] = x.e
			ids = append(ids, int(x.a))
		}
		for id, s := range shift {
			if _, ok := exps[id]; !ok {
				ids = append(ids, id)
			}
			exps[id] += s
		}
		sort.Ints(ids)
		if !(t.c.IsInt() && t.c.Num().IsInt64() && t.c.Num().Int64() == 1) {
			fs = append(fs, ratSMT(t.c))
		}
		for _, id := range ids {
			e := exps[id]
			if e == 0 {
				continue
			}
			u := b.unit[id]
			k := e / u
			if k < 0 || e%u != 0 {
				panic(fmt.Sprintf("polyText exponent %d unit %d", e, u))
			}
			for i := int64(0); i < k; i++ {
				fs = append(fs, fmt.Sprintf("a%d", id))
			}
		}
		switch len(fs) {
		case 0:
			parts = append(parts, "1.0")
		case 1:
			parts = append(parts, fs[0])
		default:
			parts = append(parts, "(* "+strings.Join(fs, " ")+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(+ " + strings.Join(parts, " ") + ")"
}

// facText prints a factor multiplied by enough powers to be a polynomial.
func (b *builder) minExps(ps ...poly) map[int]int64 {
	mn := map[int]int64{}
	for _, p := range ps {
		for _, t := range p {
			for _, x := range t.m {
				if x.e < mn[int(x.a)] {
					mn[int(x.a)] = x.e
				}
			}
		}
	}
	sh := map[int]int64{}
	for a, e := range mn {
		if e < 0 {
			sh[a] = -e
		}
	}
	return sh
}

func (b *builder) positive(p poly) bool {
	for _, t := range p {
		if t.c.Sign() <= 0 {
			return false
		}
		for _, x := range t.m {
			a := b.nf.atoms[x.a]
			if a.kind == aExp || a.kind == aRoot {
				continue
			}
			if x.e%(2*expD) != 0 {
				return false
			}
		}
	}
	return len(p) > 0
}

func (b *builder) evenShift(sh map[int]int64) map[int]int64 {
	for id, e := range sh {
		a := b.nf.atoms[id]
		if a.kind == aExp || a.kind == aRoot {
			continue
		}
		if (e/expD)%2 != 0 {
			sh[id] = e + expD
		}
	}
	return sh
}

func (b *builder) cmpText(c *cmpLit) string {
	nf := b.nf
	// cross multiplied form
	full := mergeDen(c.a.den, c.b.den, false)
	if c.op == "=" {
		sh := b.minExps(c.a.num, c.b.num)
		return "(= " + b.crossText(c.a, full, sh) + " " + b.crossText(c.b, full, sh) + ")"
	}
	d := nf.add(c.a, nf.scale(c.b, big.NewRat(-1, 1)))
	b.useRF(d)
	sh := b.evenShift(b.minExps(d.num))
	t := b.polyText(d.num, sh)
	fs := []string{t}
	for _, f := range d.den {
		if f.k%2 == 1 && !b.positive(nf.facs[f.id]) {
			fp := nf.facs[f.id]
			fs = append(fs, b.polyText(fp, b.evenShift(b.minExps(fp))))
		}
	}
	if len(fs) > 1 {
		t = "(* " + strings.Join(fs, " ") + ")"
	}
	return "(" + c.op + " " + t + " 0.0)"
}

func (b *builder) crossText(r *rf, full []factor, sh map[int]int64) string {
	t := b.polyText(r.num, sh)
	have := map[int]int{}
	for _, f := range r.den {
		have[f.id] = f.k
	}
	fs := []string{t}
	for _, f := range full {
		for k := have[f.id]; k < f.k; k++ {
			// factors are multiplied by positive powers on both sides alike
			fp := b.nf.facs[f.id]
			fs = append(fs, b.polyText(fp, b.minExps(fp)))
		}
		// the side that has the factor in its denominator misses the shift of the other side
		if len(b.minExps(b.nf.facs[f.id])) > 0 {
			for k := 0; k < have[f.id]; k++ {
				fs = append(fs, b.shiftText(b.minExps(b.nf.facs[f.id])))
			}
		}
	}
	if len(fs) == 1 {
		return t
	}
	return "(* " + strings.Join(fs, " ") + ")"
}

func (b *builder) shiftText(sh map[int]int64) string {
	p := poly{}
	p.addTerm(nil, big.NewRat(1, 1))
	return b.polyText(p, sh)
}

func (b *builder) text(e *eNode, w *bytes.Buffer) {
	switch {
	case e.cmp != nil:
		w.WriteString(b.cmpText(e.cmp))
	case e.op != "":
		w.WriteString("(" + e.op)
		for _, k := range e.kids {
			w.WriteByte(' ')
			b.text(k, w)
		}
		w.WriteByte(')')
	default:
		w.WriteString(e.s)
	}
}

// problem renders the conjunction of the given literals.
func (b *builder) problem(lits []*Term) (txt string, vars []*Term, names []string) {
	var ns []*eNode
	for _, l := range lits {
		ns = append(ns, b.boolN(l))
	}
	var out bytes.Buffer
	var body bytes.Buffer
	// rendering may add atoms (subtractions), so iterate until stable
	nc := 0
	for {
		body.Reset()
		for _, n := range ns {
			body.WriteString("(assert ")
			b.text(n, &body)
			body.WriteString(")\n")
		}
		for i := 0; i < len(b.cons); i++ {
			body.WriteString("(assert ")
			b.text(b.cons[i], &body)
			body.WriteString(")\n")
		}
		k := len(b.order)*1000003 + len(b.cons)*1009 + len(b.facO)
		if k == nc {
			break
		}
		nc = k
	}
	for i := 0; i < len(b.order); i++ {
		id := b.order[i]
		a := b.nf.atoms[id]
		u := b.unit[id]
		switch a.kind {
		case aExp:
			fmt.Fprintf(&body, "(assert (> a%d 0.0))\n", id)
		case aRoot:
			q := expD / u
			fmt.Fprintf(&body, "(assert (>= a%d 0.0))\n", id)
			var ps []string
			for j := int64(0); j < q; j++ {
				ps = append(ps, fmt.Sprintf("a%d", id))
			}
			pw := ps[0]
			if len(ps) > 1 {
				pw = "(* " + strings.Join(ps, " ") + ")"
			}
			sh := b.minExps(a.base.num)
			lhs := []string{pw}
			if len(sh) > 0 {
				lhs = append(lhs, b.shiftText(sh))
			}
			for _, f := range a.base.den {
				fp := b.nf.facs[f.id]
				fsh := b.minExps(fp)
				if len(fsh) > 0 {
					continue
				}
				for k := 0; k < f.k; k++ {
					lhs = append(lhs, b.polyText(fp, nil))
				}
			}
			l := lhs[0]
			if len(lhs) > 1 {
				l = "(* " + strings.Join(lhs, " ") + ")"
			}
			fmt.Fprintf(&body, "(assert (= %s %s))\n", l, b.polyText(a.base.num, sh))
		case aB2R:
			bt := b.bv(a.t.args[0])
			w := a.t.args[0].w
			e := fmt.Sprintf("(to_real (bv2nat %s))", bt)
			if a.t.name == "s" {
				e = fmt.Sprintf("(to_real (ite (bvslt %s (_ bv0 %d)) (- (bv2nat %s) %s) (bv2nat %s)))", bt, w, bt, new(big.Int).Lsh(big.NewInt(1), uint(w)).String(), bt)
			}
			fmt.Fprintf(&body, "(assert (= a%d %s))\n", id, e)
		}
	}
	for _, id := range b.nzO {
		if k := b.nf.atoms[id].kind; k != aExp {
			fmt.Fprintf(&body, "(assert (not (= a%d 0.0)))\n", id)
		}
	}
	for _, f := range b.facO {
		fp := b.nf.facs[f]
		if b.positive(fp) {
			continue
		}
		fmt.Fprintf(&body, "(assert (not (= %s 0.0)))\n", b.polyText(fp, b.minExps(fp)))
	}
	if b.logic {
		out.WriteString("(set-logic QF_NRA)\n")
	} else if len(b.order) == 0 {
		out.WriteString("(set-logic QF_BV)\n")
	}
	for _, id := range b.order {
		fmt.Fprintf(&out, "(declare-const a%d Real)\n", id)
	}
	out.Write(b.decls.Bytes())
	out.Write(b.defs.Bytes())
	out.Write(body.Bytes())
	for t := range b.vars {
		vars = append(vars, t)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
	for _, v := range vars {
		names = append(names, b.vars[v])
	}
	return out.String(), vars, names
}

// termVars collects the free variables of a term.
func termVars(t *Term, seen map[*Term]bool, out map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == TVar {
		out[t] = true
	}
	for _, a := range t.args {
		termVars(a, seen, out)
	}
}

// slice keeps the path literals connected with the goal through shared variables.
func sliceLits(pc []*Term, vs []map[*Term]bool, goal map[*Term]bool) []*Term {
	keep := make([]bool, len(pc))
	g := map[*Term]bool{}
	for v := range goal {
		g[v] = true
	}
	for ch := true; ch; {
		ch = false
		for i := range pc {
			if keep[i] {
				continue
			}
			hit := len(vs[i]) == 0
			for v := range vs[i] {
				if g[v] {
					hit = true
					break
				}
			}
			if hit {
				keep[i] = true
				ch = true
				for v := range vs[i] {
					g[v] = true
				}
			}
		}
	}
	var out []*Term
	for i, k := range keep {
		if k {
			out = append(out, pc[i])
		}
	}
	return out
}

// check decides the conjunction of lits.
func (m *M) check(lits []*Term, timeout time.Duration) (v verdict, model map[*Term]any) {
	for _, l := range lits {
		if l.isFalse() {
			return vUnsat, nil
		}
	}
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case nfTooBig, nfDivZero:
				m.sol.queries++
				m.sol.unknown++
				v, model = vUnknown, nil
			default:
				panic(e)
			}
		}
	}()
	b := newBuilder(m.path.nf)
	m.path.nf.ops = 0
	txt, vars, names := b.problem(lits)
	var vals map[string]string
	v, vals = m.sol.run(txt, names, timeout)
	if v == vSat {
		model = map[*Term]any{}
		for i, t := range vars {
			s := vals[names[i]]
			switch t.sort {
			case SReal:
				f, ok := smtRealVal(s)
				if !ok || math.IsNaN(f) {
					f = approxAlgebraic(s)
				}
				// variables stand for x^(unit/expD) only for exp/root atoms; aVar units are whole
				model[t] = f
			case SBool:
				n := uint64(0)
				if s == "true" {
					n = 1
				}
				model[t] = n
			case SBV:
				n := uint64(0)
				if strings.HasPrefix(s, "#x") {
					n, _ = strconv.ParseUint(s[2:], 16, 64)
				} else if strings.HasPrefix(s, "#b") {
					n, _ = strconv.ParseUint(s[2:], 2, 64)
				}
				model[t] = n
			}
		}
	}
	return v, model
}

// approxAlgebraic handles (root-obj poly k) answers by leaving zero; validation by evaluation follows anyway.
func approxAlgebraic(s string) float64 { return 0 }
