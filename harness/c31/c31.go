// Package c31: detection boxes are decoded per cell and anchor.
package c31

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

// anchors are powers of two, so that dividing by and multiplying with the stride is exact.
var anchors = []float32{2, 4, 8, 16, 32, 64, 1, 128, 256, 0.5, 512, 1024, 16, 2048, 4096, 32, 8192, 64}

func detect(anchors []float32, batch, grid, classes, stride int, masks []int, every int) {
	attrs := 5 + classes
	sh := []int{batch, attrs * len(masks), grid, grid}
	x := make([]float64, hlp.Prod(sh))
	for i := range x {
		if i%every == 0 {
			x[i] = vsym.Float64In("x", -14, 14)
		} else {
			x[i] = float64(i%15)/8 - 1
		}
	}
	g := G.NewGraph()
	in := hlp.Var(g, tensor.Float32, "in", x, sh...)
	var out *G.Node
	used := append([]int{}, masks...)
	given := append([]float32{}, anchors...)
	out = hlp.Node(G.YOLOv3(in.N, given, used, grid*stride, classes, 0.7))
	other := hlp.Node(G.Neg(in.N))
	ov := hlp.Watch(other)
	m := G.NewTapeMachine(g)
	sigmoid := func(v float64) float64 { return 1 / (1 + vsym.Exp(-v)) }
	a := in.Arr()
	want := hlp.Build([]int{batch, grid * grid * len(masks), attrs}, func(ix []int) float64 {
		cell, k := ix[1]/len(masks), ix[1]%len(masks)
		cy, cx := cell/grid, cell%grid
		v := a.At(ix[0], k*attrs+ix[2], cy, cx)
		switch ix[2] {
		case 0:
			return (sigmoid(v) + float64(cx)) * float64(stride)
		case 1:
			return (sigmoid(v) + float64(cy)) * float64(stride)
		case 2, 3:
			return vsym.Exp(v) * float64(anchors[2*masks[k]+ix[2]-2])
		}
		return sigmoid(v)
	})
	for i := 0; i < 2; i++ {
		hlp.Ok(m.RunAll(), "run")
		hlp.IsArr(out, want, "boxes")
		hlp.IsArr(in.N, a, "input")
		hlp.ValIsArr(*ov, a.Map(func(v float64) float64 { return -v }), hlp.Tol(tensor.Float32), "other use of the input")
		m.Reset()
	}
	for i := range anchors {
		vsym.Assert(given[i] == anchors[i], "anchors")
	}
	for i := range masks {
		vsym.Assert(used[i] == masks[i], "masks")
	}
	hlp.Ok(m.Close(), "close")
}

// HDetect: grids of 1x1 to 2x2 cells, one to three of three anchors in any order, one or two classes, strides 1, 2 and 4, batches of
// one or two; two runs, after which the input is as it was.
//
//vsym:paths=5000
func HDetect() {
	batch, grid := 1+vsym.Choice("batch", 2), 1+vsym.Choice("grid", 2)
	masks := [][]int{{0}, {1}, {2}, {0, 1}, {1, 2}, {2, 0}, {0, 1, 2}, {2, 1, 0}}[vsym.Choice("masks", 8)]
	detect(anchors[:6], batch, grid, 1+vsym.Choice("classes", 2), 1<<uint(vsym.Choice("stride", 3)), masks, 1)
}

// HLarge: grids of 3x3 to 5x5 cells, up to nine anchors of which up to five are used, seven classes or a
// batch of three, stride 8; every seventeenth element arbitrary, the others given.
func HLarge() {
	k, grid := vsym.Choice("batch and classes", 2), 3+vsym.Choice("grid", 3)
	masks := [][]int{{3, 4, 5}, {8, 0, 7}, {6}, {1, 3, 5, 7, 8}}[vsym.Choice("masks", 4)]
	detect(anchors, 1+2*k, grid, 7-4*k, 8, masks, 17)
}
