package hlp

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/tensor"
)

// Param is a parameter of a model given to a solver: a value, a gradient and the value expected.
type Param struct {
	DT    tensor.Dtype
	Shape []int
	X     []float64
	V, D  G.Value
}

func Value(dt tensor.Dtype, x []float64, shape []int) G.Value {
	if len(shape) > 0 {
		return Dense(dt, x, shape...)
	}
	if dt == tensor.Float32 {
		return G.NewF32(float32(x[0]))
	}
	return G.NewF64(x[0])
}

// NewParam makes a parameter with symbolic contents (a scalar if no shape is given) and zero gradient.
func NewParam(dt tensor.Dtype, name string, shape ...int) *Param {
	return ParamOf(dt, Syms(name, Prod(shape)), shape...)
}

// ParamOf makes a parameter holding x.
func ParamOf(dt tensor.Dtype, x []float64, shape ...int) *Param {
	p := &Param{DT: dt, Shape: shape, X: append([]float64(nil), x...)}
	p.V = Value(dt, p.X, shape)
	p.D = Value(dt, make([]float64, len(p.X)), shape)
	return p
}

// Value returns the parameter's value.
func (p *Param) Value() G.Value { return p.V }

// Grad returns the parameter's gradient.
func (p *Param) Grad() (G.Value, error) { return p.D, nil }

// SetGrad writes the gradient in place, as a machine does.
func (p *Param) SetGrad(g []float64) {
	switch d := p.D.(type) {
	case *G.F64:
		*d = G.F64(g[0])
	case *G.F32:
		*d = G.F32(float32(g[0]))
	case *tensor.Dense:
		for i := range g {
			switch x := d.Data().(type) {
			case []float64:
				x[i] = g[i]
			case []float32:
				x[i] = float32(g[i])
			}
		}
	}
}

// Check compares the value with what is expected, and the gradient with zero.
func (p *Param) Check(tol float64, k, t int) {
	got := Nums(p.V)
	vsym.Assert(len(got) == len(p.X), "parameter: number of elements", k, t)
	for i := range got {
		vsym.AssertNear(got[i], p.X[i], tol, "parameter after the step", k, t, i)
	}
	for _, d := range Nums(p.D) {
		vsym.Assert(d == 0, "gradient is not cleared", k, t)
	}
}
