package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func loadOverlay(path string) (map[string][]byte, error) {
	if path == "" {
		return nil, nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var o struct{ Replace map[string]string }
	if err := json.Unmarshal(b, &o); err != nil {
		return nil, err
	}
	r := map[string][]byte{}
	for k, v := range o.Replace {
		c, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		r[k] = c
	}
	return r, nil
}

func loadEngine(dir string, overlay string, pats []string) (*Engine, []*packages.Package, error) {
	ov, err := loadOverlay(overlay)
	if err != nil {
		return nil, nil, err
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Overlay: ov, BuildFlags: []string{"-tags=noasm,purego,safe"}}
	pkgs, err := packages.Load(cfg, append(pats, "runtime", "reflect", "sync")...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, pkgs, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, gindex: map[*ssa.Global]int{}, pindex: map[*ssa.Package]int{}, skipInit: map[string]bool{}, maxSteps: 2000000000}
	for _, p := range prog.AllPackages() {
		e.pindex[p] = len(e.pkgs)
		e.pkgs = append(e.pkgs, p)
		for _, mb := range p.Members {
			if g, ok := mb.(*ssa.Global); ok {
				e.gindex[g] = len(e.globals)
				e.globals = append(e.globals, g)
			}
		}
		path := p.Pkg.Path()
		switch {
		case path == "runtime", path == "os", path == "syscall", path == "reflect", path == "time", path == "log", path == "net", path == "internal/reflectlite",
			strings.HasPrefix(path, "runtime/"), path == "internal/poll", path == "internal/cpu", path == "internal/godebug", path == "internal/testlog",
			strings.HasPrefix(path, "internal/runtime"), strings.HasPrefix(path, "internal/syscall"), path == "testing", path == "flag", path == "crypto/rand", path == "internal/godebugs":
			e.skipInit[path] = true
		}
	}
	e.constAddr = 1 << 16
	rt := prog.ImportedPackage("runtime")
	e.rtErrType = rtypeOf(rt.Pkg.Scope().Lookup("errorString").Type())
	rf := prog.ImportedPackage("reflect")
	e.rtypeType = rtypeOf(typesPtr(rf.Pkg.Scope().Lookup("rtype").Type()))
	if rl := prog.ImportedPackage("internal/reflectlite"); rl != nil {
		e.rliteType = rtypeOf(rl.Pkg.Scope().Lookup("rtype").Type())
	}
	e.branchTO = 2 * time.Second
	e.assertTO = 10 * time.Second
	e.pathTO = 60 * time.Second
	e.z3 = "z3-new"
	return e, pkgs, nil
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: engine run|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	default:
		os.Exit(2)
	}
}

// run is a development command: explores the harnesses of one package matching a pattern.
func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	hdir := fs.String("h", "/verif/harness", "")
	grp := fs.String("g", "", "group")
	pat := fs.String("f", "", "function name substring")
	workers := fs.Int("w", 4, "")
	budget := fs.Duration("t", 60*time.Second, "")
	mp := fs.Int("paths", 100000, "")
	vb := fs.Bool("v", false, "")
	fs.Parse(args)
	ovf, err := writeOverlay(*repo, *hdir, *grp, "")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer rmOverlay(ovf)
	t0 := time.Now()
	e, pkgs, err := loadEngine(*repo, ovf, []string{"./internal/zzh/" + *grp})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e.verbose = *vb
	fmt.Printf("loaded in %v\n", time.Since(t0))
	for _, p := range pkgs {
		sp := e.prog.Package(p.Types)
		if sp == nil || !strings.Contains(p.PkgPath, "zzh") {
			continue
		}
		for _, n := range sortedKeys(sp.Members) {
			fn, ok := sp.Members[n].(*ssa.Function)
			if !ok || !strings.HasPrefix(n, "H") || !strings.Contains(n, *pat) || fn.Signature.Params().Len() > 0 {
				continue
			}
			s := newSched(e, *budget)
			ex := s.add(n, fn, *mp, 6, 1)
			s.run(*workers)
			ex.report(os.Stdout)
		}
	}
	_ = runtime.NumCPU
	_ = filepath.Join
}
