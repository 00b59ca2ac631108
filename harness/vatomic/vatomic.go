// Package vatomic replaces package sync/atomic in instrumented code.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/vsched"
)

func rd(p unsafe.Pointer) { vsched.AtomPoint(p, true, "atomic load") }
func wr(p unsafe.Pointer) { vsched.AtomPoint(p, false, "atomic update") }

func LoadInt32(p *int32) int32          { rd(unsafe.Pointer(p)); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { wr(unsafe.Pointer(p)); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, d int32) int32  { wr(unsafe.Pointer(p)); return atomic.AddInt32(p, d) }
func SwapInt32(p *int32, v int32) int32 { wr(unsafe.Pointer(p)); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int32 struct{ v int32 }

func (a *Int32) Load() int32                    { return LoadInt32(&a.v) }
func (a *Int32) Store(v int32)                  { StoreInt32(&a.v, v) }
func (a *Int32) Add(d int32) int32              { return AddInt32(&a.v, d) }
func (a *Int32) Swap(v int32) int32             { return SwapInt32(&a.v, v) }
func (a *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&a.v, o, n) }

func LoadInt64(p *int64) int64          { rd(unsafe.Pointer(p)); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { wr(unsafe.Pointer(p)); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, d int64) int64  { wr(unsafe.Pointer(p)); return atomic.AddInt64(p, d) }
func SwapInt64(p *int64, v int64) int64 { wr(unsafe.Pointer(p)); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Int64 struct{ v int64 }

func (a *Int64) Load() int64                    { return LoadInt64(&a.v) }
func (a *Int64) Store(v int64)                  { StoreInt64(&a.v, v) }
func (a *Int64) Add(d int64) int64              { return AddInt64(&a.v, d) }
func (a *Int64) Swap(v int64) int64             { return SwapInt64(&a.v, v) }
func (a *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&a.v, o, n) }

func LoadUint32(p *uint32) uint32           { rd(unsafe.Pointer(p)); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { wr(unsafe.Pointer(p)); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { wr(unsafe.Pointer(p)); return atomic.AddUint32(p, d) }
func SwapUint32(p *uint32, v uint32) uint32 { wr(unsafe.Pointer(p)); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint32 struct{ v uint32 }

func (a *Uint32) Load() uint32                    { return LoadUint32(&a.v) }
func (a *Uint32) Store(v uint32)                  { StoreUint32(&a.v, v) }
func (a *Uint32) Add(d uint32) uint32             { return AddUint32(&a.v, d) }
func (a *Uint32) Swap(v uint32) uint32            { return SwapUint32(&a.v, v) }
func (a *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&a.v, o, n) }

func LoadUint64(p *uint64) uint64           { rd(unsafe.Pointer(p)); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { wr(unsafe.Pointer(p)); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { wr(unsafe.Pointer(p)); return atomic.AddUint64(p, d) }
func SwapUint64(p *uint64, v uint64) uint64 { wr(unsafe.Pointer(p)); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uint64 struct{ v uint64 }

func (a *Uint64) Load() uint64                    { return LoadUint64(&a.v) }
func (a *Uint64) Store(v uint64)                  { StoreUint64(&a.v, v) }
func (a *Uint64) Add(d uint64) uint64             { return AddUint64(&a.v, d) }
func (a *Uint64) Swap(v uint64) uint64            { return SwapUint64(&a.v, v) }
func (a *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&a.v, o, n) }

func LoadUintptr(p *uintptr) uintptr           { rd(unsafe.Pointer(p)); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)       { wr(unsafe.Pointer(p)); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr { wr(unsafe.Pointer(p)); return atomic.AddUintptr(p, d) }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	wr(unsafe.Pointer(p))
	return atomic.SwapUintptr(p, v)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	wr(unsafe.Pointer(p))
	return atomic.CompareAndSwapUintptr(p, o, n)
}

type Uintptr struct{ v uintptr }

func (a *Uintptr) Load() uintptr                    { return LoadUintptr(&a.v) }
func (a *Uintptr) Store(v uintptr)                  { StoreUintptr(&a.v, v) }
func (a *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&a.v, d) }
func (a *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&a.v, v) }
func (a *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&a.v, o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	rd(unsafe.Pointer(p))
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	wr(unsafe.Pointer(p))
	atomic.StorePointer(p, v)
}

type Bool struct{ v uint32 }

func b(x bool) uint32 {
	if x {
		return 1
	}
	return 0
}
func (a *Bool) Load() bool                    { return LoadUint32(&a.v) != 0 }
func (a *Bool) Store(v bool)                  { StoreUint32(&a.v, b(v)) }
func (a *Bool) Swap(v bool) bool              { return SwapUint32(&a.v, b(v)) != 0 }
func (a *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&a.v, b(o), b(n)) }

type Value struct{ v atomic.Value }

func (a *Value) Load() interface{}              { rd(unsafe.Pointer(a)); return a.v.Load() }
func (a *Value) Store(v interface{})            { wr(unsafe.Pointer(a)); a.v.Store(v) }
func (a *Value) Swap(v interface{}) interface{} { wr(unsafe.Pointer(a)); return a.v.Swap(v) }
func (a *Value) CompareAndSwap(o, n interface{}) bool {
	wr(unsafe.Pointer(a))
	return a.v.CompareAndSwap(o, n)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (a *Pointer[T]) Load() *T     { rd(unsafe.Pointer(a)); return a.v.Load() }
func (a *Pointer[T]) Store(v *T)   { wr(unsafe.Pointer(a)); a.v.Store(v) }
func (a *Pointer[T]) Swap(v *T) *T { wr(unsafe.Pointer(a)); return a.v.Swap(v) }
func (a *Pointer[T]) CompareAndSwap(o, n *T) bool {
	wr(unsafe.Pointer(a))
	return a.v.CompareAndSwap(o, n)
}
