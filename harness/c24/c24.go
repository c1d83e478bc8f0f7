// Package c24 checks the allocator of device memory.
package c24

import (
	"gorgonia.org/gorgonia/internal/vsym"
	"gorgonia.org/gorgonia/internal/zzh/cuda"
)

const unit = 32

type block struct {
	addr uintptr
	size int64
}

// world is the allocator with what has been handed out by it and not been given back.
type world struct {
	a     *cuda.Allocator
	start uintptr
	size  int64
	used  []block
}

func up(n int64) int64 {
	if r := n % unit; r != 0 {
		return n - r + unit
	}
	return n
}

// room tells whether the memory between the offsets lo and hi is reserved and not in use.
func (w *world) room(lo, hi int64) bool {
	if hi > w.size {
		return false
	}
	for _, u := range w.used {
		at := int64(u.addr - w.start)
		if at < hi && lo < at+u.size {
			return false
		}
	}
	return true
}

// fits tells whether somewhere in the memory that is not in use there is room for a block.
func (w *world) fits(size int64) bool {
	n := up(size)
	if w.room(0, n) {
		return true
	}
	for _, u := range w.used {
		p := up(int64(u.addr-w.start) + u.size)
		if w.room(p, p+n) {
			return true
		}
	}
	return false
}

// alloc asks for a block, checks what is handed out, and tells whether it was.
func (w *world) alloc(size int64) bool {
	addr, err := w.a.Alloc(size)
	if err != nil {
		vsym.Assert(!w.fits(size), "no memory is handed out though there is room")
		return false
	}
	vsym.Assert(addr >= w.start, "a block starts before the reserved memory")
	vsym.Assert(int64(addr-w.start)+size <= w.size, "a block reaches beyond the reserved memory")
	vsym.Assert(addr%unit == 0, "a block is not aligned")
	for _, u := range w.used {
		if addr < u.addr {
			vsym.Assert(addr+uintptr(size) <= u.addr, "a block reaches into a later one that is in use")
		} else {
			vsym.Assert(u.addr+uintptr(u.size) <= addr, "a block starts inside one that is in use")
		}
	}
	w.used = append(w.used, block{addr, size})
	return true
}

func (w *world) free(i int) {
	w.a.Free(w.used[i].addr)
	w.used = append(append([]block{}, w.used[:i]...), w.used[i+1:]...)
}

// whole gives everything back, in the order last to first or first to last, and takes the whole memory as one block.
func (w *world) whole(backwards bool) {
	for len(w.used) > 0 {
		if backwards {
			w.free(len(w.used) - 1)
		} else {
			w.free(0)
		}
	}
	if n := w.size - w.size%unit; n > 0 {
		vsym.Assert(w.alloc(n), "not all of the memory is available when everything has been given back")
	}
}

func histories(steps int, size, max int64) {
	w := &world{a: cuda.NewAllocator(unit), start: 64 * unit, size: size}
	w.a.Reserve(w.start, w.size)
	for i := 0; i < steps; i++ {
		if k := vsym.Choice("step", 1+len(w.used)); k == 0 {
			w.alloc(int64(vsym.Int("size", 1, int(max))))
		} else {
			w.free(k - 1)
		}
	}
	w.whole(vsym.Choice("order", 2) == 0)
}

// HHistories: every history of 5 steps, each asking for a block of any size up to 96 or giving back any block in use, on
// 224 units of memory aligned to 32, followed by giving everything back and asking for all of it. The sizes are symbolic.
func HHistories() { histories(5, 224, 96) }

// rounds: so many blocks are asked for, some of them given back, and so many blocks are asked for again.
func rounds(first, back, again int, size, max int64) {
	w := &world{a: cuda.NewAllocator(unit), start: 64 * unit, size: size}
	w.a.Reserve(w.start, w.size)
	for i := 0; i < first; i++ {
		w.alloc(unit * int64(vsym.Int("size", 1, int(max))))
	}
	for i := 0; i < back && len(w.used) > 0; i++ {
		w.free(vsym.Choice("back", len(w.used)))
	}
	for i := 0; i < again; i++ {
		w.alloc(unit * int64(vsym.Int("size", 1, int(size/unit))))
	}
	w.whole(vsym.Choice("order", 2) == 0)
}

// HRounds: three blocks are asked for, two given back in any order, and three more asked for, each of any number of units,
// on 7 units of memory; then everything is given back and all of the memory asked for.
func HRounds() { rounds(3, 2, 3, 7*unit, 2) }

// HFourRounds: four blocks are asked for, three given back in any order, and three more asked for, on 6 units of memory.
//
//vsym:thorough
func HFourRounds() { rounds(4, 3, 3, 6*unit, 2) }

// HLong: every history of 7 steps with sizes of any number of units up to 3, on 6 units of memory.
//
//vsym:thorough
func HLong() {
	w := &world{a: cuda.NewAllocator(unit), start: 64 * unit, size: 6 * unit}
	w.a.Reserve(w.start, w.size)
	for i := 0; i < 7; i++ {
		if k := vsym.Choice("step", 1+len(w.used)); k == 0 {
			w.alloc(unit * int64(vsym.Int("size", 1, 3)))
		} else {
			w.free(k - 1)
		}
	}
	w.whole(vsym.Choice("order", 2) == 0)
}

// HReserved: memory of any size up to 150 is reserved, two blocks are asked for, the memory is given up with or without the
// blocks being given back, and memory of another size is reserved at another address and used in the same way.
func HReserved() {
	w := &world{a: cuda.NewAllocator(unit)}
	for i := 0; i < 2; i++ {
		w.start, w.size, w.used = uintptr(64*(i+1)*unit), int64(vsym.Int("reserved", 1, 150)), nil
		w.a.Reserve(w.start, w.size)
		n := 2 - i
		for j := 0; j < n; j++ {
			w.alloc(int64(vsym.Int("size", 1, 150)))
		}
		if i == 1 || vsym.Choice("back", 2) == 1 {
			w.whole(true)
		}
		vsym.Assert(w.a.Release() == w.start, "the memory given up is not the memory reserved")
		_, err := w.a.Alloc(1)
		vsym.Assert(err != nil, "memory is handed out after all of it has been given up")
	}
}

// HMisuse: requests for no memory or less are refused, and giving back an address that is not in use, or one that has been
// given back before, changes nothing.
func HMisuse() {
	w := &world{a: cuda.NewAllocator(unit), start: 64 * unit, size: 5 * unit}
	w.a.Reserve(w.start, w.size)
	none := func() {
		_, err := w.a.Alloc(int64(vsym.Int("none", -40, 0)))
		vsym.Assert(err != nil, "a block of no size is handed out")
	}
	none()
	w.alloc(int64(vsym.Int("size", 1, 70)))
	w.alloc(int64(vsym.Int("size", 1, 70)))
	k := vsym.Choice("twice", 2)
	if len(w.used) == 2 {
		at := w.used[k].addr
		w.free(k)
		if vsym.Choice("again", 2) == 1 {
			w.a.Free(at)
		}
	}
	if len(w.used) > 0 {
		// inside a block, and after the memory
		if vsym.Choice("inside", 2) == 1 {
			w.a.Free(w.used[0].addr + 1)
		} else {
			w.a.Free(w.start + uintptr(w.size))
		}
	}
	none()
	w.alloc(int64(vsym.Int("size", 1, 100)))
	w.whole(false)
}
