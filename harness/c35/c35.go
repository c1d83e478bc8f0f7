// Package c35: loading a set of pictures of digits.
package c35

import (
	"gorgonia.org/gorgonia/examples/mnist"
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/hlp"
	"gorgonia.org/tensor"
)

var dts = []tensor.Dtype{hlp.F64, hlp.F32}

// set is a set of pictures of h by w pixels with their labels.
type set struct {
	h, w   int
	px, lb []byte
}

func pixels(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vsym.Int("px", 0, 255))
	}
	return b
}

func digits(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vsym.Int("digit", 0, 9))
	}
	return b
}

func be(n int) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func join(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func (s set) images() []byte { return join(be(0x803), be(len(s.lb)), be(s.h), be(s.w), s.px) }
func (s set) labels() []byte { return join(be(0x801), be(len(s.lb)), s.lb) }

var kinds = []string{"train", "dev", "test"}
var names = [][]string{{"train-images-idx3-ubyte", "train-labels-idx1-ubyte"}, {"t10k-images-idx3-ubyte", "t10k-labels-idx1-ubyte"}}

// load loads what is in the files given for the training set and the test set.
func load(kind string, files [][][]byte, dt tensor.Dtype) (x, y tensor.Tensor, err error) {
	dir := vsym.Dir()
	defer vsym.Clean(dir)
	for i, fs := range files {
		for j, b := range fs {
			if b != nil {
				vsym.File(dir, names[i][j], b)
			}
		}
	}
	return mnist.Load(kind, dir, dt)
}

// is checks what was loaded of a set.
func (s set) is(x, y tensor.Tensor, dt tensor.Dtype) {
	n, k := len(s.lb), s.h*s.w
	hlp.SameShape(x.Shape(), []int{n, k}, "shape of the inputs")
	hlp.SameShape(y.Shape(), []int{n, 10}, "shape of the targets")
	vsym.Assert(x.Dtype() == dt, "type of the inputs")
	vsym.Assert(y.Dtype() == dt, "type of the targets")
	dx, dy := hlp.Nums(x), hlp.Nums(y)
	for i, p := range s.px {
		if p == 255 {
			vsym.AssertNear(dx[i], 0.999, 1e-6, "full pixel", i)
		} else {
			vsym.AssertNear(dx[i], float64(p)/255*0.9+0.1, 1e-6, "pixel", i)
		}
	}
	for i, l := range s.lb {
		for j := 0; j < 10; j++ {
			want := 0.1
			if j == int(l) {
				want = 0.9
			}
			vsym.AssertNear(dy[i*10+j], want, 1e-6, "target", i, j)
		}
	}
}

// HPixels: one to three pictures of 1x1 to 3x2 pixels, up to six pixels in all, arbitrary, with given labels.
func HPixels() {
	dt := dts[vsym.Choice("dtype", 2)]
	n := 1 + vsym.Choice("n", 3)
	s := set{h: 1 + vsym.Choice("h", 3), w: 1 + vsym.Choice("w", 2)}
	vsym.Assume(n*s.h*s.w <= 6)
	s.px, s.lb = pixels(n*s.h*s.w), []byte{5, 0, 9}[:n]
	x, y, err := load("train", [][][]byte{{s.images(), s.labels()}}, dt)
	hlp.Ok(err, "load")
	s.is(x, y, dt)
	vsym.Cover("pixels")
}

// HLabels: one or two arbitrary digits; five given ones.
func HLabels() {
	dt := dts[vsym.Choice("dtype", 2)]
	s := set{h: 1, w: 1}
	if n := vsym.Choice("n", 3); n < 2 {
		s.lb = digits(1 + n)
	} else {
		s.lb = []byte{4, 9, 0, 4, 7}
	}
	s.px = make([]byte, len(s.lb))
	x, y, err := load("test", [][][]byte{nil, {s.images(), s.labels()}}, dt)
	hlp.Ok(err, "load")
	s.is(x, y, dt)
	vsym.Cover("labels")
}

// HKinds: every kind of set is loaded from its own files.
func HKinds() {
	dt := dts[vsym.Choice("dtype", 2)]
	ss := []set{{1, 2, pixels(2), []byte{3}}, {1, 2, pixels(4), []byte{7, 0}}}
	k := vsym.Choice("kind", 3)
	x, y, err := load(kinds[k], [][][]byte{{ss[0].images(), ss[0].labels()}, {ss[1].images(), ss[1].labels()}}, dt)
	hlp.Ok(err, "load")
	ss[k/2].is(x, y, dt)
	vsym.Cover("kinds")
}

// HBad: the file of pictures or that of labels is missing, ends at any point before its end, or starts with any other
// number than that of its kind (labels; for pictures see HBadPictures); this is reported and nothing is given. The files of
// the other set are in order.
func HBad() {
	dt := dts[vsym.Choice("dtype", 2)]
	good := set{1, 2, []byte{1, 2}, []byte{3}}
	s := set{1, 2, []byte{0, 100, 255, 7}, []byte{8, 1}}
	files := [][][]byte{{good.images(), good.labels()}, {good.images(), good.labels()}}
	k := vsym.Choice("kind", 3)
	bad := [][]byte{s.images(), s.labels()}
	files[k/2] = bad
	w := vsym.Choice("file", 2)
	switch vsym.Choice("fault", 3) {
	case 0:
		bad[w] = bad[w][:vsym.Choice("cut", len(bad[w]))]
	case 1:
		vsym.Assume(w == 1)
		m := pixels(4)
		b := bad[w]
		vsym.Assume(m[0] != b[0] || m[1] != b[1] || m[2] != b[2] || m[3] != b[3])
		bad[w] = join(m, b[4:])
	case 2:
		bad[w] = nil
	}
	x, y, err := load(kinds[k], files, dt)
	vsym.Assert(err != nil, "a bad or missing file is not reported")
	vsym.Assert(x == nil && y == nil, "something is loaded from bad files")
	vsym.Cover("bad")
}

// HBadPictures: the file of pictures starts with any other number than that of its kind; this is reported and nothing is given.
func HBadPictures() {
	dt := dts[vsym.Choice("dtype", 2)]
	s := set{1, 2, []byte{0, 100, 255, 7}, []byte{8, 1}}
	b := s.images()
	m := pixels(4)
	vsym.Assume(m[0] != b[0] || m[1] != b[1] || m[2] != b[2] || m[3] != b[3])
	bad := [][]byte{join(m, b[4:]), s.labels()}
	x, y, err := load(kinds[0], [][][]byte{bad, bad}, dt)
	vsym.Assert(err != nil, "a file of other things is not reported")
	vsym.Assert(x == nil && y == nil, "something is loaded from a file of other things")
}
