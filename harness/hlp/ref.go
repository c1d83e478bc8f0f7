package hlp

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/internal/vsym"
)

// Arr is a reference array: row-major data with a shape.
type Arr struct {
	Sh []int
	D  []float64
}

// A makes a reference array.
func A(d []float64, sh ...int) Arr { return Arr{append([]int{}, sh...), d} }

// Arr gives the contents of an input as a reference array.
func (in *In) Arr() Arr { return Arr{append([]int{}, in.Shape...), in.X} }

// Zero makes an array of zeroes.
func Zero(sh ...int) Arr { return Arr{append([]int{}, sh...), make([]float64, Prod(sh))} }

// Off is the row-major offset.
func Off(sh, ix []int) int {
	o := 0
	for i := range sh {
		o = o*sh[i] + ix[i]
	}
	return o
}

// At reads an element.
func (a Arr) At(ix ...int) float64 { return a.D[Off(a.Sh, ix)] }

// Each visits every index in row-major order.
func Each(sh []int, f func(ix []int)) {
	n := Prod(sh)
	for k := 0; k < n; k++ {
		ix := make([]int, len(sh))
		r := k
		for i := len(sh) - 1; i >= 0; i-- {
			ix[i] = r % sh[i]
			r /= sh[i]
		}
		f(ix)
	}
}

// Build makes an array from a function of the index.
func Build(sh []int, f func(ix []int) float64) Arr {
	r := Arr{Sh: append([]int{}, sh...)}
	Each(sh, func(ix []int) { r.D = append(r.D, f(ix)) })
	return r
}

// Map applies f to every element.
func (a Arr) Map(f func(x float64) float64) Arr {
	return Build(a.Sh, func(ix []int) float64 { return f(a.At(ix...)) })
}

// Zip combines two arrays of the same shape.
func Zip(a, b Arr, f func(x, y float64) float64) Arr {
	return Build(a.Sh, func(ix []int) float64 { return f(a.At(ix...), b.At(ix...)) })
}

// Perm transposes.
func (a Arr) Perm(p ...int) Arr {
	sh := make([]int, len(p))
	for i := range p {
		sh[i] = a.Sh[p[i]]
	}
	return Build(sh, func(ix []int) float64 {
		o := make([]int, len(p))
		for i := range p {
			o[p[i]] = ix[i]
		}
		return a.At(o...)
	})
}

// In reports whether x is in l.
func InList(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// Fold reduces along axes, starting from the first element met.
func (a Arr) Fold(axes []int, f func(acc, x float64) float64) Arr {
	var sh []int
	for i, d := range a.Sh {
		if !InList(axes, i) {
			sh = append(sh, d)
		}
	}
	r := Zero(sh...)
	seen := make([]bool, len(r.D))
	Each(a.Sh, func(ix []int) {
		var o []int
		for i := range ix {
			if !InList(axes, i) {
				o = append(o, ix[i])
			}
		}
		k := Off(sh, o)
		if !seen[k] {
			seen[k] = true
			r.D[k] = a.At(ix...)
		} else {
			r.D[k] = f(r.D[k], a.At(ix...))
		}
	})
	return r
}

// Sum sums along axes.
func (a Arr) Sum(axes ...int) Arr {
	return a.Fold(axes, func(x, y float64) float64 { return x + y })
}

// Concat joins along an axis.
func Concat(axis int, as ...Arr) Arr {
	sh := append([]int{}, as[0].Sh...)
	for _, b := range as[1:] {
		sh[axis] += b.Sh[axis]
	}
	return Build(sh, func(ix []int) float64 {
		k := ix[axis]
		for _, b := range as {
			if k < b.Sh[axis] {
				o := append([]int{}, ix...)
				o[axis] = k
				return b.At(o...)
			}
			k -= b.Sh[axis]
		}
		return 0
	})
}

// Repeat repeats each element n times along an axis.
func (a Arr) Repeat(axis, n int) Arr {
	sh := append([]int{}, a.Sh...)
	sh[axis] *= n
	return Build(sh, func(ix []int) float64 {
		o := append([]int{}, ix...)
		o[axis] /= n
		return a.At(o...)
	})
}

// SliceAx takes start:end:step along an axis, keeping the axis.
func (a Arr) SliceAx(axis, start, end, step int) Arr {
	sh := append([]int{}, a.Sh...)
	sh[axis] = (end - start + step - 1) / step
	return Build(sh, func(ix []int) float64 {
		o := append([]int{}, ix...)
		o[axis] = start + ix[axis]*step
		return a.At(o...)
	})
}

// Drop removes an axis of extent 1.
func (a Arr) Drop(axis int) Arr {
	sh := append(append([]int{}, a.Sh[:axis]...), a.Sh[axis+1:]...)
	return Arr{sh, a.D}
}

// Reshape gives the same data another shape.
func (a Arr) Reshape(sh ...int) Arr { return Arr{append([]int{}, sh...), a.D} }

// Dot contracts the given axes.
func Dot(a, b Arr, ax, bx []int) Arr {
	var sh, ka, kb []int
	var con []int
	for i, d := range a.Sh {
		if !InList(ax, i) {
			sh = append(sh, d)
			ka = append(ka, i)
		}
	}
	for i, d := range b.Sh {
		if !InList(bx, i) {
			sh = append(sh, d)
			kb = append(kb, i)
		}
	}
	for _, x := range ax {
		con = append(con, a.Sh[x])
	}
	return Build(sh, func(ix []int) float64 {
		s := 0.0
		Each(con, func(c []int) {
			ia, ib := make([]int, len(a.Sh)), make([]int, len(b.Sh))
			for i, k := range ka {
				ia[k] = ix[i]
			}
			for i, k := range kb {
				ib[k] = ix[len(ka)+i]
			}
			for i := range c {
				ia[ax[i]] = c[i]
				ib[bx[i]] = c[i]
			}
			s += a.At(ia...) * b.At(ib...)
		})
		return s
	})
}

// IsArr asserts shape and contents of a node's value.
func IsArr(n *G.Node, w Arr, msg string) { ValIsArr(n.Value(), w, Tol(n.Dtype()), msg) }

// ValIsArr asserts shape and contents of a value.
func ValIsArr(v G.Value, w Arr, tol float64, msg string) {
	vsym.Assert(v != nil, msg+": value is missing")
	SameShape(v.Shape(), w.Sh, msg)
	Same(Nums(v), w.D, tol, msg)
}

// Perms lists the permutations of n axes.
func Perms(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var r [][]int
	for _, p := range Perms(n - 1) {
		for k := 0; k <= len(p); k++ {
			q := append(append(append([]int{}, p[:k]...), n-1), p[k:]...)
			r = append(r, q)
		}
	}
	return r
}

// Subsets lists the non-empty subsets of n axes, ascending.
func Subsets(n int) [][]int {
	var r [][]int
	for m := 1; m < 1<<uint(n); m++ {
		var s []int
		for i := 0; i < n; i++ {
			if m>>uint(i)&1 == 1 {
				s = append(s, i)
			}
		}
		r = append(r, s)
	}
	return r
}

// IsShape reports whether s is the array's shape.
func (a Arr) IsShape(s []int) bool {
	if len(s) != len(a.Sh) {
		return false
	}
	for i := range s {
		if s[i] != a.Sh[i] {
			return false
		}
	}
	return true
}
