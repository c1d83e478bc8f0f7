package hlp

import (
	"errors"
	"fmt"
	"hash"

	"github.com/chewxy/hm"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"
)

// Fault decides whether and how a Faulty operation fails.
type Fault struct {
	On    bool
	Panic bool
	Calls int
	Diff  *Fault // of the derivative, if any
	Bad   bool   // instead of failing, give Num for element At
	Num   float64
	At    int
}

type faulty struct {
	f    *Fault
	name string
	typ  hm.Type
	sh   tensor.Shape
}

// Faulty is the identity on n, which fails while f is set.
func Faulty(n *G.Node, name string, f *Fault) *G.Node {
	return Node(G.ApplyOp(&faulty{f, name, n.Type(), n.Shape()}, n))
}

func (op *faulty) Arity() int                                     { return 1 }
func (op *faulty) Type() hm.Type                                  { return hm.NewFnType(op.typ, op.typ) }
func (op *faulty) InferShape(...G.DimSizer) (tensor.Shape, error) { return op.sh.Clone(), nil }
func (op *faulty) ReturnsPtr() bool                               { return false }
func (op *faulty) CallsExtern() bool                              { return false }
func (op *faulty) OverwritesInput() int                           { return -1 }
func (op *faulty) WriteHash(h hash.Hash)                          { fmt.Fprintf(h, "faulty %s", op.name) }
func (op *faulty) Hashcode() uint32                               { return 0x5eed + uint32(op.name[0]) }
func (op *faulty) String() string                                 { return "faulty " + op.name }
func (op *faulty) DiffWRT(n int) []bool                           { return []bool{true} }

// SymDiff is the identity on the gradient, which fails while the fault of the derivative is set.
func (op *faulty) SymDiff(in G.Nodes, out, d *G.Node) (G.Nodes, error) {
	if op.f.Diff != nil {
		d = Faulty(d, op.name+"'", op.f.Diff)
	}
	return G.Nodes{d}, nil
}

func (op *faulty) Do(vs ...G.Value) (G.Value, error) {
	op.f.Calls++
	if op.f.On {
		if op.f.Panic {
			panic("injected fault")
		}
		return nil, ErrInjected
	}
	v, err := G.CloneValue(vs[0])
	if err == nil && op.f.Bad {
		spoil(v, op.f)
	}
	return v, err
}

func spoil(v G.Value, f *Fault) {
	switch x := v.(type) {
	case *G.F64:
		*x = G.F64(f.Num)
	case *G.F32:
		*x = G.F32(f.Num)
	default:
		switch d := v.Data().(type) {
		case []float64:
			d[f.At] = f.Num
		case []float32:
			d[f.At] = float32(f.Num)
		}
	}
}

// DoDiff adds the gradient of the output to that of the input.
func (op *faulty) DoDiff(ctx G.ExecutionContext, in G.Nodes, out *G.Node) error {
	dx, err := in[0].Grad()
	if err != nil {
		return err
	}
	dy, err := out.Grad()
	if err != nil {
		return err
	}
	if op.f.Diff != nil && op.f.Diff.On {
		return ErrInjected
	}
	x, y := dx.(*tensor.Dense), dy.(*tensor.Dense)
	if _, err = tensor.Add(x, y, tensor.UseUnsafe()); err != nil {
		return err
	}
	if op.f.Diff != nil && op.f.Diff.Bad {
		spoil(dx, op.f.Diff)
	}
	return nil
}

// ErrInjected is the failure of a Faulty operation.
var ErrInjected = errors.New("injected fault")

// Rebind binds new symbolic contents to an input.
func (in *In) Rebind(x []float64) {
	in.X = x
	if len(in.Shape) == 0 {
		Ok(G.Let(in.N, Scalar(in.DT, x[0])), "binding")
		return
	}
	Ok(G.Let(in.N, Dense(in.DT, x, in.Shape...)), "binding")
}
