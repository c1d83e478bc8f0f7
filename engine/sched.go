package main

import (
	"fmt"
	"os"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Sched distributes the pending paths of several harnesses over a fixed number of workers. The harness that has
// used the least time so far goes first, so that a tight budget is shared evenly.
type Sched struct {
	e        *Engine
	mu       sync.Mutex
	cond     *sync.Cond
	exs      []*Explorer
	deadline time.Time
}

func newSched(e *Engine, budget time.Duration) *Sched {
	s := &Sched{e: e, deadline: time.Now().Add(budget)}
	s.cond = sync.NewCond(&s.mu)
	return s
}

func (s *Sched) add(name string, fn *ssa.Function, maxPaths, maxViol, maxVal int) *Explorer {
	ex := &Explorer{e: s.e, sch: s, mu: &s.mu, harness: fn, name: name, unsupp: map[string]int{}, engErr: map[string]int{}, unkMsg: map[string]int{},
		funcs: map[string]bool{}, covers: map[string]bool{}, maxViol: maxViol, maxPaths: maxPaths, maxVal: maxVal, deadline: s.deadline}
	ex.stack = [][]int{{}}
	s.exs = append(s.exs, ex)
	return ex
}

func (ex *Explorer) push(p []int) {
	ex.mu.Lock()
	ex.stack = append(ex.stack, p)
	ex.sch.cond.Signal()
	ex.mu.Unlock()
}

func (s *Sched) take() (*Explorer, []int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for {
		late := time.Now().After(s.deadline)
		var best *Explorer
		active := 0
		for _, ex := range s.exs {
			active += ex.active
			if len(ex.stack) == 0 {
				continue
			}
			if late || ex.stop || ex.paths >= ex.maxPaths {
				ex.truncated = true
				ex.stack = nil
				continue
			}
			if best == nil || ex.busy < best.busy {
				best = ex
			}
		}
		if best != nil {
			n := len(best.stack)
			p := best.stack[n-1]
			best.stack = best.stack[:n-1]
			best.active++
			best.paths++
			best.busy += time.Millisecond
			return best, p
		}
		if active == 0 {
			s.cond.Broadcast()
			return nil, nil
		}
		s.cond.Wait()
	}
}

func (s *Sched) run(workers int) {
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.worker()
		}()
	}
	wg.Wait()
}

func (s *Sched) worker() {
	e := s.e
	var m *M
	defer func() {
		if m != nil {
			e.putM(m)
		}
	}()
	for {
		ex, p := s.take()
		if ex == nil {
			return
		}
		if m == nil {
			m = e.getM()
		}
		t0 := time.Now()
		sl := m.sol
		q0, s0, u0, k0, st0 := sl.queries, sl.sat, sl.unsat, sl.unknown, sl.time
		sl.maxQ = 0
		m.funcsSeen = map[*Code]bool{}
		res := ex.runPath(m, p)
		if e.verbose {
			fmt.Fprintf(os.Stderr, "[%s] path %v end=%s %s asserts=%d unsat=%d unk=%d steps=%d %v\n", ex.name, p, res.end, res.msg, res.asserts, res.unsat, res.unknown, m.steps, time.Since(t0))
		}
		s.mu.Lock()
		ex.steps += m.steps
		ex.asserts += res.asserts
		ex.trivial += res.trivial
		ex.unsat += res.unsat
		ex.unknown += res.unknown
		ex.decisions += int64(len(m.path.taken) - len(p))
		for _, t := range res.unkMsg {
			ex.unkMsg[t]++
		}
		for c := range m.path.covers {
			if res.end == "done" {
				ex.covers[c] = true
			}
		}
		switch res.end {
		case "done":
			ex.okEnds++
		case "assume":
			ex.assumed++
		case "limit":
			ex.limits++
			ex.unsupp["limit: "+res.msg]++
		case "infeasible":
			ex.infeasible++
		case "unsupported":
			ex.unsupp[res.msg]++
		case "engine":
			ex.engErr[res.msg]++
		}
		if res.viol != nil {
			ex.viols = append(ex.viols, res.viol)
			n := 0
			for _, v := range ex.viols {
				if ex.known == nil || !ex.known(v) {
					n++
				}
			}
			if n >= ex.maxViol || len(ex.viols) > 200 {
				ex.stop = true
			}
		}
		ex.queries += sl.queries - q0
		ex.qsat += sl.sat - s0
		ex.qunsat += sl.unsat - u0
		ex.qunk += sl.unknown - k0
		ex.solverTime += sl.time - st0
		if sl.maxQ > ex.maxQ {
			ex.maxQ = sl.maxQ
		}
		for c := range m.funcsSeen {
			if c.fn != nil {
				ex.funcs[c.name] = true
			}
		}
		d := time.Since(t0)
		ex.busy += d
		ex.wall += d
		ex.active--
		s.cond.Broadcast()
		s.mu.Unlock()
		if len(m.initList) > 0 && res.end != "engine" {
			func() {
				defer func() {
					if r := recover(); r != nil {
						s.mu.Lock()
						ex.engErr[fmt.Sprintf("warm-up: %v", r)]++
						s.mu.Unlock()
						m.sol.kill()
						m = nil
					}
				}()
				m.warm()
			}()
		} else if res.end == "engine" {
			m.sol.kill()
			m = nil
		}
	}
}
