package cuda

// Allocator gives the harness the device memory allocator.
type Allocator struct{ b *bfc }

func NewAllocator(alignment int64) *Allocator { return &Allocator{newBFC(alignment)} }

func (a *Allocator) Reserve(start uintptr, size int64) { a.b.reserve(start, size) }

func (a *Allocator) Release() uintptr { return a.b.release() }

func (a *Allocator) Alloc(size int64) (uintptr, error) { return a.b.alloc(size) }

func (a *Allocator) Free(addr uintptr) { a.b.free(addr) }
