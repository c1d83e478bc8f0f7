// Package vsym is the interface between the verification harnesses and the symbolic engine.
// Under the engine every function is interpreted symbolically; compiled natively the package replays a
// recorded counterexample: inputs are read in call order from the file named by VSYM_REPLAY.
package vsym

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
)

type input struct {
	Kind string  `json:"kind"`
	Name string  `json:"name"`
	F    float64 `json:"f"`
	I    int64   `json:"i"`
}

// Failure is panicked by a failed assertion during native replay.
type Failure struct{ Msg string }

// Skip is panicked when a native replay leaves the assumed input domain.
type Skip struct{ Msg string }

var (
	inputs []input
	pos    int
	tape   *os.File
)

// Load reads the recorded inputs for a native replay.
func Load(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var f struct{ Inputs []input }
	if err := json.Unmarshal(b, &f); err != nil {
		return err
	}
	inputs, pos = f.Inputs, 0
	return nil
}

// Rewind restarts the recorded inputs.
func Rewind() { pos = 0 }

func next(kind, name string) input {
	if pos >= len(inputs) {
		panic(Skip{fmt.Sprintf("no recorded input for %s %s", kind, name)})
	}
	in := inputs[pos]
	if in.Kind != kind {
		panic(Skip{fmt.Sprintf("recorded input %d is %s %s, wanted %s %s", pos, in.Kind, in.Name, kind, name)})
	}
	pos++
	return in
}

// Draw returns the next recorded random draw; ok is false if there is none.
func Draw(kind string) (float64, int64, bool) {
	if pos >= len(inputs) || inputs[pos].Kind != kind {
		return 0, 0, false
	}
	in := inputs[pos]
	pos++
	return in.F, in.I, true
}

func Float64(name string) float64                   { return next("f64", name).F }
func Float32(name string) float32                   { return float32(next("f32", name).F) }
func Float64In(name string, lo, hi float64) float64 { return next("f64", name).F }
func Float32In(name string, lo, hi float32) float32 { return float32(next("f32", name).F) }
func Int(name string, lo, hi int) int               { return int(next("int", name).I) }
func Bool(name string) bool                         { return next("bool", name).I != 0 }
func Choice(name string, n int) int                 { return int(next("choice", name).I) }
func Concrete(n int) int                            { return n }

func Assume(c bool) {
	if !c {
		panic(Skip{"assumption"})
	}
}

func msg(m string, idx []int) string {
	if len(idx) > 0 {
		return fmt.Sprintf("%s %v", m, idx)
	}
	return m
}

// Assert states the property.
func Assert(c bool, m string, idx ...int) {
	if !c {
		panic(Failure{msg(m, idx)})
	}
}

func near(a, b, tol float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return a == b
	}
	return math.Abs(a-b) <= tol*(1+math.Abs(a)+math.Abs(b))
}

// AssertEq states equality in exact arithmetic (within rounding natively).
func AssertEq(a, b float64, m string, idx ...int) {
	if !near(a, b, 1e-6) {
		panic(Failure{fmt.Sprintf("%s: got %v, want %v", msg(m, idx), a, b)})
	}
}

func AssertEq32(a, b float32, m string, idx ...int) {
	if !near(float64(a), float64(b), 1e-3) {
		panic(Failure{fmt.Sprintf("%s: got %v, want %v", msg(m, idx), a, b)})
	}
}

// AssertNear is AssertEq with an explicit native tolerance.
func AssertNear(a, b, tol float64, m string, idx ...int) {
	if !near(a, b, tol) {
		panic(Failure{fmt.Sprintf("%s: got %v, want %v", msg(m, idx), a, b)})
	}
}

// Deriv is the derivative of y (an expression over symbolic inputs) with respect to the input x.
func Deriv(y, x float64) float64   { return next("deriv", "").F }
func Deriv32(y, x float32) float32 { return float32(next("deriv", "").F) }

// Cover marks a point that must be reached for the check not to be vacuous.
func Cover(name string) {}

// Symbolic reports whether the engine is executing.
func Symbolic() bool { return false }

// Schedules makes goroutine scheduling nondeterministic, with the given number of preemptions.
func Schedules(preemptions int) {}

// Delays explores every schedule that differs from round robin in at most n places.
func Delays(n int) {}

// Generic restricts inputs to generic position: real expressions that are not identical are taken to differ.
func Generic(on bool) {}

// MapOrder selects the map iteration order model.
func MapOrder(mode int) {}

func Exp(x float64) float64    { return math.Exp(x) }
func Log(x float64) float64    { return math.Log(x) }
func Sqrt(x float64) float64   { return math.Sqrt(x) }
func Tanh(x float64) float64   { return math.Tanh(x) }
func Sin(x float64) float64    { return math.Sin(x) }
func Cos(x float64) float64    { return math.Cos(x) }
func Pow(x, y float64) float64 { return math.Pow(x, y) }
func Abs(x float64) float64    { return math.Abs(x) }
