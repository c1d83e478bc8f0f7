package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

func typesPtr(t types.Type) types.Type { return types.NewPointer(t) }

// writeOverlay maps the harness sources into the repository's tree.
func writeOverlay(repo, hdir, grp, extra string) (string, error) {
	rep := map[string]string{}
	add := func(sub string, dst string) error {
		fs, err := filepath.Glob(filepath.Join(hdir, sub, "*.go"))
		if err != nil {
			return err
		}
		for _, f := range fs {
			rep[filepath.Join(repo, dst, filepath.Base(f))] = f
		}
		return nil
	}
	add("vsym", "internal/vsym")
	add("hlp", "internal/zzh/hlp")
	add(grp, "internal/zzh/"+grp)
	if err := addCopies(repo, hdir, grp, rep); err != nil {
		return "", err
	}
	if extra != "" {
		rep[filepath.Join(repo, "internal/zzh/replay/main.go")] = extra
	}
	f, err := os.CreateTemp("", "ov*.json")
	if err != nil {
		return "", err
	}
	defer f.Close()
	if err := drawSeam(repo, f.Name(), rep); err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	f.Write(b)
	return f.Name(), nil
}

// copied are the packages that cannot be built as a whole without hardware libraries. The files of theirs that need no such
// library are mapped, as they are, into a package next to the harness that checks them.
var copied = map[string]string{"c24": "cuda"}

func addCopies(repo, hdir, grp string, rep map[string]string) error {
	pkg, ok := copied[grp]
	if !ok {
		return nil
	}
	fs, err := filepath.Glob(filepath.Join(repo, pkg, "*.go"))
	if err != nil {
		return err
	}
	dst := filepath.Join(repo, "internal/zzh", pkg)
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.ImportsOnly)
		if err != nil {
			return err
		}
		plain := true
		for _, i := range a.Imports {
			p, _ := strconv.Unquote(i.Path.Value)
			if p == "C" || strings.HasPrefix(p, "gorgonia.org/") {
				plain = false
			}
		}
		if plain {
			rep[filepath.Join(dst, filepath.Base(f))] = f
		}
	}
	fs, err = filepath.Glob(filepath.Join(hdir, grp, pkg, "*.go"))
	for _, f := range fs {
		rep[filepath.Join(dst, filepath.Base(f))] = f
	}
	return err
}

// drawSeams are the functions of the random number module through which all draws go, with the code put in front of them:
// a harness that sets the variables decides the draws, symbolically under the engine and from the record in a replay.
var drawSeams = []struct{ file, fn, hook, decl string }{
	{"uniform.go", "func (ung UniformGenerator) Float64() float64 {", "if Draw != nil {\n\t\treturn Draw()\n\t}", "var Draw func() float64"},
	{"uniform.go", "func (ung UniformGenerator) Float32() float32 {", "if Draw != nil {\n\t\treturn float32(Draw())\n\t}", ""},
	{"gauss.go", "func (grng GaussianGenerator) gaussian() float64 {", "if DrawNormal != nil {\n\t\treturn DrawNormal()\n\t}", "var DrawNormal func() float64"},
}

func drawSeam(repo, ov string, rep map[string]string) error {
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/leesper/go_rng")
	cmd.Dir = repo
	out, err := cmd.Output()
	if err != nil {
		return nil // no longer a dependency: harnesses that use the seam will say so
	}
	dir := strings.TrimSpace(string(out))
	files := map[string]string{}
	for _, s := range drawSeams {
		src, ok := files[s.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(dir, s.file))
			if err != nil {
				return nil
			}
			src = string(b)
		}
		files[s.file] = strings.Replace(src, s.fn, s.fn+"\n\t"+s.hook, 1) + "\n" + s.decl + "\n"
	}
	for n, src := range files {
		if err := os.WriteFile(ov+"."+n, []byte(src), 0o644); err != nil {
			return err
		}
		rep[filepath.Join(dir, n)] = ov + "." + n
	}
	return nil
}

func rmOverlay(ov string) {
	os.Remove(ov)
	os.Remove(ov + ".uniform.go")
	os.Remove(ov + ".gauss.go")
}

func (ex *Explorer) report(w io.Writer) {
	fmt.Fprintf(w, "%s: paths=%d ok=%d assumed=%d limits=%d infeasible=%d asserts=%d (trivial %d, unsat %d, unknown %d) queries=%d (sat %d unsat %d unk %d) solver=%.2fs max=%.2fs wall=%.2fs steps=%d trunc=%v\n",
		ex.name, ex.paths, ex.okEnds, ex.assumed, ex.limits, ex.infeasible, ex.asserts, ex.trivial, ex.unsat, ex.unknown, ex.queries, ex.qsat, ex.qunsat, ex.qunk,
		ex.solverTime.Seconds(), ex.maxQ.Seconds(), ex.wall.Seconds(), ex.steps, ex.truncated)
	for _, k := range sortedKeys(ex.unsupp) {
		fmt.Fprintf(w, "   UNSUPPORTED x%d: %s\n", ex.unsupp[k], k)
	}
	for _, k := range sortedKeys(ex.engErr) {
		s := k
		if len(s) > 3000 {
			s = s[:3000]
		}
		fmt.Fprintf(w, "   ENGINE x%d: %s\n", ex.engErr[k], s)
	}
	for _, k := range sortedKeys(ex.unkMsg) {
		fmt.Fprintf(w, "   UNDECIDED x%d: %s\n", ex.unkMsg[k], k)
	}
	for _, v := range ex.viols {
		fmt.Fprintf(w, "   VIOLATION %s: %s %s %s margin=%g\n", v.Kind, v.Msg, v.Detail, inputsText(v.Inputs), v.margin)
	}
}

func inputsText(in []Input) string {
	var p []string
	for _, i := range in {
		switch i.Kind {
		case "f64", "f32", "deriv":
			p = append(p, fmt.Sprintf("%s=%g", i.Name, i.F))
		default:
			p = append(p, fmt.Sprintf("%s=%d", i.Name, i.I))
		}
	}
	return strings.Join(p, " ")
}

// finding is one entry of known-findings.jsonl.
type finding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	What     string `json:"what"`
	Status   string `json:"status"`
	re       *regexp.Regexp
}

func loadFindings(path, id string) []*finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []*finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		f := &finding{}
		if json.Unmarshal([]byte(l), f) != nil || f.Property != id || f.Status != "open" {
			continue
		}
		f.re = regexp.MustCompile(f.Match)
		out = append(out, f)
	}
	return out
}

type hinfo struct {
	name, doc string
	fn        *ssa.Function
	paths     int
	thorough  bool
}

func harnesses(e *Engine, pkgs []*packages.Package, grp string) []*hinfo {
	var out []*hinfo
	for _, p := range pkgs {
		if !strings.HasSuffix(p.PkgPath, "/zzh/"+grp) {
			continue
		}
		sp := e.prog.Package(p.Types)
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "H") || fd.Type.Params.NumFields() > 0 {
					continue
				}
				fn := sp.Func(fd.Name.Name)
				if fn == nil {
					continue
				}
				h := &hinfo{name: fd.Name.Name, fn: fn, paths: 20000}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						t := strings.TrimPrefix(c.Text, "//")
						if strings.HasPrefix(t, "vsym:") {
							for _, kv := range strings.Fields(t[5:]) {
								if strings.HasPrefix(kv, "paths=") {
									h.paths, _ = strconv.Atoi(kv[6:])
								}
								if kv == "thorough" {
									h.thorough = true
								}
							}
							continue
						}
						h.doc += strings.TrimSpace(t) + " "
					}
				}
				h.doc = strings.TrimSpace(h.doc)
				out = append(out, h)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

const replayMain = `// Code generated for replaying counterexamples; not part of the repository.
package main

import (
	"fmt"
	"os"
	"runtime/debug"

	h "gorgonia.org/gorgonia/internal/zzh/%s"
	"gorgonia.org/gorgonia/internal/vsym"
)

var all = map[string]func(){
%s}

func main() {
	if err := vsym.Load(os.Args[2]); err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case vsym.Failure:
				fmt.Println("FAILED:", x.Msg)
				os.Exit(1)
			case vsym.Skip:
				fmt.Println("SKIP:", x.Msg)
				os.Exit(3)
			default:
				fmt.Println("PANIC:", e)
				debug.PrintStack()
				os.Exit(2)
			}
		}
	}()
	all[os.Args[1]]()
	fmt.Println("HELD")
}
`

type replayer struct {
	dir, repo, bin string
	err            error
	done           chan struct{}
}

func startReplayer(repo, hdir, grp, dir string, names []string) *replayer {
	r := &replayer{dir: dir, repo: repo, bin: filepath.Join(dir, "replay"), done: make(chan struct{})}
	go func() {
		defer close(r.done)
		var b strings.Builder
		for _, n := range names {
			fmt.Fprintf(&b, "\t%q: h.%s,\n", n, n)
		}
		mf := filepath.Join(dir, "main.go")
		if r.err = os.WriteFile(mf, []byte(fmt.Sprintf(replayMain, grp, b.String())), 0o644); r.err != nil {
			return
		}
		ov, err := writeOverlay(repo, hdir, grp, mf)
		if err != nil {
			r.err = err
			return
		}
		defer rmOverlay(ov)
		ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, "go", "build", "-overlay", ov, "-o", r.bin, "./internal/zzh/replay")
		cmd.Dir = repo
		out, err := cmd.CombinedOutput()
		if err != nil {
			r.err = fmt.Errorf("building the native replay: %v: %s", err, out)
		}
	}()
	return r
}

// run executes the harness natively; outcome is held, failed, panic, skip, hang or error.
func (r *replayer) run(name, file string, to time.Duration, env ...string) (string, string) {
	<-r.done
	if r.err != nil {
		return "error", r.err.Error()
	}
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin, name, file)
	cmd.Dir = r.dir
	cmd.Env = append(os.Environ(), env...)
	out, err := cmd.CombinedOutput()
	s := string(out)
	if len(s) > 4000 {
		s = s[:4000]
	}
	if ctx.Err() != nil {
		return "hang", s
	}
	if err == nil {
		return "held", s
	}
	if x, ok := err.(*exec.ExitError); ok {
		switch x.ExitCode() {
		case 1:
			return "failed", s
		case 3:
			return "skip", s
		case 2:
			if strings.Contains(s, "all goroutines are asleep") {
				return "hang", s
			}
			return "panic", s
		}
	}
	return "error", s
}

func saveInputs(path string, harness, msg string, in []Input) error {
	b, err := json.MarshalIndent(map[string]any{"harness": harness, "message": msg, "Inputs": in}, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	vdir := fs.String("verif", "/verif", "")
	id := fs.String("id", "", "property")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int("seed", 1, "")
	only := fs.String("only", "", "harness name substring (development)")
	bud := fs.Duration("budget", 0, "")
	vb := fs.Bool("v", false, "")
	fs.Parse(args)
	t0 := time.Now()
	grp := strings.ToLower(*id)
	hdir := filepath.Join(*vdir, "harness")
	ev := &evidence{id: *id, tier: *tier, seed: *seed, t0: t0, path: filepath.Join(*vdir, "evidence", *id+".json")}
	os.MkdirAll(filepath.Dir(ev.path), 0o755)
	os.Remove(ev.path)

	budget := 150 * time.Second
	if *tier == "thorough" {
		budget = 620 * time.Second
	}
	if *bud > 0 {
		budget = *bud
	}
	ovf, err := writeOverlay(*repo, hdir, grp, "")
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(2)
	}
	e, pkgs, err := loadEngine(*repo, ovf, []string{"./internal/zzh/" + grp})
	rmOverlay(ovf)
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(2)
	}
	ev.loadS = time.Since(t0).Seconds()
	e.verbose = *vb
	if *tier == "thorough" {
		e.branchTO, e.assertTO, e.pathTO = 5*time.Second, 60*time.Second, 300*time.Second
	}
	hs := harnesses(e, pkgs, grp)
	scratch, err := os.MkdirTemp("", "vreplay")
	if err != nil {
		fmt.Println("error:", err)
		os.Exit(2)
	}
	defer os.RemoveAll(scratch)
	code := 0
	func() {
		var names []string
		for _, h := range hs {
			names = append(names, h.name)
		}
		rp := startReplayer(*repo, hdir, grp, scratch, names)
		findings := loadFindings(filepath.Join(*vdir, "known-findings.jsonl"), *id)
		s := newSched(e, budget)
		for _, h := range hs {
			if *only != "" && !strings.Contains(h.name, *only) {
				continue
			}
			if h.thorough && *tier != "thorough" {
				continue
			}
			mp := h.paths
			if *tier == "thorough" {
				mp *= 20
			}
			ex := s.add(h.name, h.fn, mp, 8, 2)
			ex.doc = h.doc
			ex.known = func(v *Violation) bool { return matchFinding(findings, v) != nil }
		}
		nw := runtime.NumCPU()
		s.run(nw)
		for _, ex := range s.exs {
			if *vb || *only != "" {
				ex.report(os.Stdout)
			}
		}
		// replay candidates against the compiled code
		rdir := filepath.Join(*vdir, "evidence", "replay", *id)
		os.RemoveAll(rdir)
		knownSeen := map[string]bool{}
		reported := 0
		replayBudget := time.Now().Add(240 * time.Second)
		for _, ex := range s.exs {
			seen := map[string]int{}
			confirmed := map[string]bool{}
			for i, v := range ex.viols {
				key := v.Kind + v.Msg
				f := matchFinding(findings, v)
				if f != nil {
					key = "known:" + f.What
				}
				if confirmed[key] || seen[key] >= 3 || time.Now().After(replayBudget) {
					continue
				}
				seen[key]++
				file := filepath.Join(scratch, fmt.Sprintf("%s-%d.json", ex.name, i))
				saveInputs(file, ex.name, v.Msg, v.Inputs)
				tries := 40
				if v.Sched {
					tries = 300
				}
				ok := false
				last, out := "", ""
				for t := 0; t < tries && !ok; t++ {
					last, out = rp.run(ex.name, file, 20*time.Second, fmt.Sprintf("GOMAXPROCS=%d", 1+(t*3)%8))
					switch last {
					case "failed", "panic":
						ok = true
					case "hang":
						ok = v.Kind == "deadlock" || v.Kind == "limit"
						if !ok {
							t = tries
						}
					case "error", "skip":
						t = tries
					}
					if time.Now().After(replayBudget) {
						break
					}
				}
				if !ok {
					ev.unconfirmed = append(ev.unconfirmed, fmt.Sprintf("%s: %s: native replay %s %s; inputs %s", ex.name, v.Msg, last, firstLine(out), inputsText(v.Inputs)))
					continue
				}
				confirmed[key] = true
				if f != nil {
					if !knownSeen[f.What] {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *id, f.What)
						knownSeen[f.What] = true
					}
					continue
				}
				os.MkdirAll(rdir, 0o755)
				dst := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", ex.name, i))
				b, _ := os.ReadFile(file)
				os.WriteFile(dst, b, 0o644)
				fmt.Printf("VIOLATION property=%s replay=%s\n", *id, dst)
				fmt.Printf("  harness %s: %s\n  inputs: %s\n  replay on the compiled code: %s: %s\n", ex.name, v.Msg, inputsText(v.Inputs), last, firstLine(out))
				reported++
				code = 1
			}
		}
		// validate the encoding on sampled path models
		valBudget := time.Now().Add(60 * time.Second)
		for _, ex := range s.exs {
			for i, tr := range ex.traces {
				if time.Now().After(valBudget) {
					break
				}
				file := filepath.Join(scratch, fmt.Sprintf("val-%s-%d.json", ex.name, i))
				saveInputs(file, ex.name, "", tr)
				st, out := rp.run(ex.name, file, 20*time.Second)
				if st == "held" {
					ev.validated++
				} else {
					ev.mismatch = append(ev.mismatch, fmt.Sprintf("%s: native %s: %s; inputs %s", ex.name, st, firstLine(out), inputsText(tr)))
				}
				if st == "error" {
					break
				}
			}
		}
		ev.exs = s.exs
		ev.violations = reported
		ev.known = sortedKeys(knownSeen)
	}()
	if *only == "" {
		ev.write(e)
	}
	ev.summary(os.Stdout)
	if *vb || *only != "" {
		for _, x := range ev.mismatch {
			fmt.Println("  MISMATCH", x)
		}
		for _, x := range ev.unconfirmed {
			fmt.Println("  UNCONFIRMED", x)
		}
	}
	for _, m := range e.mpool {
		m.sol.kill()
	}
	os.RemoveAll(scratch)
	os.Exit(code)
}

func matchFinding(fs []*finding, v *Violation) *finding {
	for _, f := range fs {
		if f.Harness != "" && f.Harness != v.Harness {
			continue
		}
		if f.re.MatchString(v.Msg) {
			return f
		}
	}
	return nil
}

type evidence struct {
	id, tier, path string
	seed           int
	t0             time.Time
	loadS          float64
	exs            []*Explorer
	unconfirmed    []string
	mismatch       []string
	known          []string
	validated      int
	violations     int
}

func (ev *evidence) totals() (t Explorer) {
	for _, ex := range ev.exs {
		t.paths += ex.paths
		t.okEnds += ex.okEnds
		t.assumed += ex.assumed
		t.infeasible += ex.infeasible
		t.asserts += ex.asserts
		t.trivial += ex.trivial
		t.unsat += ex.unsat
		t.unknown += ex.unknown
		t.queries += ex.queries
		t.qsat += ex.qsat
		t.qunsat += ex.qunsat
		t.qunk += ex.qunk
		t.solverTime += ex.solverTime
		t.steps += ex.steps
		t.decisions += ex.decisions
		if ex.maxQ > t.maxQ {
			t.maxQ = ex.maxQ
		}
	}
	return
}

func (ev *evidence) summary(w io.Writer) {
	t := ev.totals()
	fmt.Fprintf(w, "%s %s: %d harnesses, %d paths, %d assertions (%d discharged by the solver, %d concrete, %d undecided), %d queries, solver %.1fs, wall %.1fs, native validations %d, mismatches %d, unconfirmed %d, violations %d\n",
		ev.id, ev.tier, len(ev.exs), t.paths, t.asserts, t.unsat, t.trivial, t.unknown, t.queries, t.solverTime.Seconds(), time.Since(ev.t0).Seconds(), ev.validated, len(ev.mismatch), len(ev.unconfirmed), ev.violations)
}

func (ev *evidence) write(e *Engine) {
	t := ev.totals()
	var per []any
	var notes []string
	var samples []any
	funcs := map[string]bool{}
	complete := true
	for _, ex := range ev.exs {
		h := map[string]any{"harness": ex.name, "scope": ex.doc, "paths": ex.paths, "completed": ex.okEnds, "assertions": ex.asserts, "discharged": ex.unsat, "concrete": ex.trivial,
			"undecided": ex.unknown, "queries": ex.queries, "solver_s": round3(ex.solverTime.Seconds()), "interpreted_instructions": ex.steps, "covered": sortedKeys(ex.covers)}
		if ex.truncated {
			h["truncated"] = true
			complete = false
		}
		if ex.okEnds == 0 && len(ex.viols) == 0 {
			notes = append(notes, ex.name+": no path completed")
			complete = false
		}
		for _, k := range sortedKeys(ex.unsupp) {
			notes = append(notes, fmt.Sprintf("%s: not encoded (x%d): %s", ex.name, ex.unsupp[k], firstLine(k)))
			complete = false
		}
		for _, k := range sortedKeys(ex.engErr) {
			notes = append(notes, fmt.Sprintf("%s: engine error (x%d): %s", ex.name, ex.engErr[k], firstLine(k)))
			complete = false
		}
		for _, k := range sortedKeys(ex.unkMsg) {
			notes = append(notes, fmt.Sprintf("%s: undecided (x%d): %s", ex.name, ex.unkMsg[k], k))
			complete = false
		}
		for f := range ex.funcs {
			if strings.Contains(f, "gorgonia.org/gorgonia") && !strings.Contains(f, "/zzh/") {
				funcs[f] = true
			}
		}
		for _, s := range ex.samples {
			if len(samples) < 40 {
				samples = append(samples, ex.name+": "+s)
			}
		}
		per = append(per, h)
	}
	if len(samples) == 0 {
		samples = append(samples, "no assertion reached")
	}
	cov := map[string]any{
		"states":                          t.paths,
		"transitions":                     t.decisions + int64(t.paths),
		"states_meaning":                  "states: symbolic execution paths explored, each standing for every input that follows it; transitions: decision edges between them",
		"traces_validated_against_impl":   ev.validated,
		"samples":                         samples,
		"functions_encoded":               len(funcs),
		"functions_encoded_list":          sortedKeys(funcs),
		"assertions":                      t.asserts,
		"assertions_discharged_by_solver": t.unsat,
		"assertions_concrete":             t.trivial,
		"assertions_undecided":            t.unknown,
		"queries":                         t.queries,
		"queries_unsat":                   t.qunsat,
		"queries_sat":                     t.qsat,
		"queries_unknown":                 t.qunk,
		"solver_s":                        round3(t.solverTime.Seconds()),
		"solver_max_query_s":              round3(t.maxQ.Seconds()),
		"interpreted_instructions":        t.steps,
		"load_s":                          round3(ev.loadS),
		"exhaustive":                      complete,
		"exhaustive_meaning":              "every feasible path of every harness within its stated bounds was completed and every assertion decided",
		"harnesses":                       per,
		"notes":                           notes,
		"unconfirmed_candidates":          ev.unconfirmed,
		"native_mismatches":               ev.mismatch,
		"known_findings":                  ev.known,
	}
	out := map[string]any{"property": ev.id, "tier": ev.tier, "seed": ev.seed, "level": "model_checking", "coverage": cov, "wall_s": round3(time.Since(ev.t0).Seconds()), "violations": ev.violations,
		"assumptions": []string{
			"floating point arithmetic is interpreted as exact real arithmetic; rounding, overflow, NaN and infinities of symbolic values are outside the claim",
			"symbolic divisors, and arguments of logarithms and roots, are taken inside the function's domain",
			"transcendental functions are uninterpreted beyond the algebraic laws of the normal form (exp/log/power laws, sin^2+cos^2=1)",
			"the Go standard library's runtime, sync, reflect and math primitives are modelled by the engine; portable (noasm) kernels of the dependencies are interpreted",
			"graph topologies, tensor shapes and dtypes are those named by each harness; values, choices, schedules and map orders are symbolic",
		}}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(ev.path, b, 0o644)
}

func round3(f float64) float64 { return float64(int64(f*1000+0.5)) / 1000 }
