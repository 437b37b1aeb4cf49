package vsim

import "unsafe"

// Atomic operations are scheduling points and order their users (sequentially consistent).

var atomicVC = struct {
	s *Sim
	m map[unsafe.Pointer]*vclock
}{}

func at[T any](p *T) {
	s := S
	if s == nil {
		return
	}
	if atomicVC.s != s {
		atomicVC.s, atomicVC.m = s, map[unsafe.Pointer]*vclock{}
	}
	k := unsafe.Pointer(p)
	vc := atomicVC.m[k]
	if vc == nil {
		vc = &vclock{}
		atomicVC.m[k] = vc
	}
	acqrel(k, vc, siteAtomic)
}

type number interface {
	~int | ~int32 | ~int64 | ~uint | ~uint32 | ~uint64 | ~uintptr
}

func atLoad[T any](p *T) T     { at(p); return *p }
func atStore[T any](p *T, v T) { at(p); *p = v }
func atAdd[T number](p *T, d T) T {
	at(p)
	*p += d
	return *p
}
func atSwap[T any](p *T, v T) T { at(p); o := *p; *p = v; return o }
func atCAS[T comparable](p *T, o, n T) bool {
	at(p)
	if *p == o {
		*p = n
		return true
	}
	return false
}

func LoadInt32(p *int32) int32                         { return atLoad(p) }
func LoadInt64(p *int64) int64                         { return atLoad(p) }
func LoadUint32(p *uint32) uint32                      { return atLoad(p) }
func LoadUint64(p *uint64) uint64                      { return atLoad(p) }
func LoadUintptr(p *uintptr) uintptr                   { return atLoad(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { return atLoad(p) }
func StoreInt32(p *int32, v int32)                     { atStore(p, v) }
func StoreInt64(p *int64, v int64)                     { atStore(p, v) }
func StoreUint32(p *uint32, v uint32)                  { atStore(p, v) }
func StoreUint64(p *uint64, v uint64)                  { atStore(p, v) }
func StoreUintptr(p *uintptr, v uintptr)               { atStore(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { atStore(p, v) }
func AddInt32(p *int32, d int32) int32                 { return atAdd(p, d) }
func AddInt64(p *int64, d int64) int64                 { return atAdd(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { return atAdd(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { return atAdd(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr         { return atAdd(p, d) }
func SwapInt32(p *int32, v int32) int32                { return atSwap(p, v) }
func SwapInt64(p *int64, v int64) int64                { return atSwap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return atSwap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return atSwap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool    { return atCAS(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool    { return atCAS(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return atCAS(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return atCAS(p, o, n) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	return atCAS(p, o, n)
}

type atomicNum[T number] struct {
	v  T
	vc vclock
}

func (a *atomicNum[T]) op()        { acqrel(nil, &a.vc, siteAtomic) }
func (a *atomicNum[T]) Load() T    { a.op(); return a.v }
func (a *atomicNum[T]) Store(v T)  { a.op(); a.v = v }
func (a *atomicNum[T]) Add(d T) T  { a.op(); a.v += d; return a.v }
func (a *atomicNum[T]) Swap(v T) T { a.op(); o := a.v; a.v = v; return o }
func (a *atomicNum[T]) And(v T) T  { a.op(); o := a.v; a.v &= v; return o }
func (a *atomicNum[T]) Or(v T) T   { a.op(); o := a.v; a.v |= v; return o }
func (a *atomicNum[T]) CompareAndSwap(o, n T) bool {
	a.op()
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

type AtomicInt32 struct{ atomicNum[int32] }
type AtomicInt64 struct{ atomicNum[int64] }
type AtomicUint32 struct{ atomicNum[uint32] }
type AtomicUint64 struct{ atomicNum[uint64] }
type AtomicUintptr struct{ atomicNum[uintptr] }

type AtomicBool struct {
	v  bool
	vc vclock
}

func (a *AtomicBool) op()              { acqrel(nil, &a.vc, siteAtomic) }
func (a *AtomicBool) Load() bool       { a.op(); return a.v }
func (a *AtomicBool) Store(v bool)     { a.op(); a.v = v }
func (a *AtomicBool) Swap(v bool) bool { a.op(); o := a.v; a.v = v; return o }
func (a *AtomicBool) CompareAndSwap(o, n bool) bool {
	a.op()
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

type AtomicPointer[T any] struct {
	v  *T
	vc vclock
}

func (a *AtomicPointer[T]) op()          { acqrel(nil, &a.vc, siteAtomic) }
func (a *AtomicPointer[T]) Load() *T     { a.op(); return a.v }
func (a *AtomicPointer[T]) Store(v *T)   { a.op(); a.v = v }
func (a *AtomicPointer[T]) Swap(v *T) *T { a.op(); o := a.v; a.v = v; return o }
func (a *AtomicPointer[T]) CompareAndSwap(o, n *T) bool {
	a.op()
	if a.v == o {
		a.v = n
		return true
	}
	return false
}

type AtomicValue struct {
	v  any
	vc vclock
}

func (a *AtomicValue) op()            { acqrel(nil, &a.vc, siteAtomic) }
func (a *AtomicValue) Load() any      { a.op(); return a.v }
func (a *AtomicValue) Store(v any)    { a.op(); a.v = v }
func (a *AtomicValue) Swap(v any) any { a.op(); o := a.v; a.v = v; return o }
func (a *AtomicValue) CompareAndSwap(o, n any) bool {
	a.op()
	if a.v == o {
		a.v = n
		return true
	}
	return false
}
func AndInt32(p *int32, m int32) int32                               { at(p); o := *p; *p &= m; return o }
func OrInt32(p *int32, m int32) int32                                { at(p); o := *p; *p |= m; return o }
func AndUint32(p *uint32, m uint32) uint32                           { at(p); o := *p; *p &= m; return o }
func OrUint32(p *uint32, m uint32) uint32                            { at(p); o := *p; *p |= m; return o }
func AndInt64(p *int64, m int64) int64                               { at(p); o := *p; *p &= m; return o }
func OrInt64(p *int64, m int64) int64                                { at(p); o := *p; *p |= m; return o }
func AndUint64(p *uint64, m uint64) uint64                           { at(p); o := *p; *p &= m; return o }
func OrUint64(p *uint64, m uint64) uint64                            { at(p); o := *p; *p |= m; return o }
func SwapUintptr(p *uintptr, v uintptr) uintptr                      { return atSwap(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer { return atSwap(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool            { return atCAS(p, o, n) }
