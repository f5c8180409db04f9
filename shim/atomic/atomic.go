// Package atomic is the controlled stand-in for sync/atomic.
package atomic

import (
	"unsafe"

	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
)

func LoadInt32(p *int32) int32     { rt.AtomicOp(unsafe.Pointer(p), false, "atomic.Load"); return *p }
func StoreInt32(p *int32, v int32) { rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Store"); *p = v }
func AddInt32(p *int32, d int32) int32 {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Add")
	*p += d
	return *p
}
func SwapInt32(p *int32, v int32) int32 {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Swap")
	o := *p
	*p = v
	return o
}
func AndInt32(p *int32, v int32) int32 {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.And")
	o := *p
	*p &= v
	return o
}
func OrInt32(p *int32, v int32) int32 {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Or")
	o := *p
	*p |= v
	return o
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.CompareAndSwap")
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Int32 is atomic.Int32.
type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) And(v int32) int32              { return AndInt32(&x.v, v) }
func (x *Int32) Or(v int32) int32               { return OrInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&x.v, o, n) }

func LoadInt64(p *int64) int64     { rt.AtomicOp(unsafe.Pointer(p), false, "atomic.Load"); return *p }
func StoreInt64(p *int64, v int64) { rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Store"); *p = v }
func AddInt64(p *int64, d int64) int64 {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Add")
	*p += d
	return *p
}
func SwapInt64(p *int64, v int64) int64 {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Swap")
	o := *p
	*p = v
	return o
}
func AndInt64(p *int64, v int64) int64 {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.And")
	o := *p
	*p &= v
	return o
}
func OrInt64(p *int64, v int64) int64 {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Or")
	o := *p
	*p |= v
	return o
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.CompareAndSwap")
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Int64 is atomic.Int64.
type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) And(v int64) int64              { return AndInt64(&x.v, v) }
func (x *Int64) Or(v int64) int64               { return OrInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&x.v, o, n) }

func LoadUint32(p *uint32) uint32     { rt.AtomicOp(unsafe.Pointer(p), false, "atomic.Load"); return *p }
func StoreUint32(p *uint32, v uint32) { rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Store"); *p = v }
func AddUint32(p *uint32, d uint32) uint32 {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Add")
	*p += d
	return *p
}
func SwapUint32(p *uint32, v uint32) uint32 {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Swap")
	o := *p
	*p = v
	return o
}
func AndUint32(p *uint32, v uint32) uint32 {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.And")
	o := *p
	*p &= v
	return o
}
func OrUint32(p *uint32, v uint32) uint32 {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Or")
	o := *p
	*p |= v
	return o
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.CompareAndSwap")
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) And(v uint32) uint32             { return AndUint32(&x.v, v) }
func (x *Uint32) Or(v uint32) uint32              { return OrUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&x.v, o, n) }

func LoadUint64(p *uint64) uint64     { rt.AtomicOp(unsafe.Pointer(p), false, "atomic.Load"); return *p }
func StoreUint64(p *uint64, v uint64) { rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Store"); *p = v }
func AddUint64(p *uint64, d uint64) uint64 {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Add")
	*p += d
	return *p
}
func SwapUint64(p *uint64, v uint64) uint64 {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Swap")
	o := *p
	*p = v
	return o
}
func AndUint64(p *uint64, v uint64) uint64 {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.And")
	o := *p
	*p &= v
	return o
}
func OrUint64(p *uint64, v uint64) uint64 {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Or")
	o := *p
	*p |= v
	return o
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.CompareAndSwap")
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) And(v uint64) uint64             { return AndUint64(&x.v, v) }
func (x *Uint64) Or(v uint64) uint64              { return OrUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&x.v, o, n) }

func LoadUintptr(p *uintptr) uintptr { rt.AtomicOp(unsafe.Pointer(p), false, "atomic.Load"); return *p }
func StoreUintptr(p *uintptr, v uintptr) {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Store")
	*p = v
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Add")
	*p += d
	return *p
}
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Swap")
	o := *p
	*p = v
	return o
}
func AndUintptr(p *uintptr, v uintptr) uintptr {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.And")
	o := *p
	*p &= v
	return o
}
func OrUintptr(p *uintptr, v uintptr) uintptr {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.Or")
	o := *p
	*p |= v
	return o
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.CompareAndSwap")
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) And(v uintptr) uintptr            { return AndUintptr(&x.v, v) }
func (x *Uintptr) Or(v uintptr) uintptr             { return OrUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(&x.v, o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	rt.AtomicOp(unsafe.Pointer(p), false, "atomic.LoadPointer")
	return *p
}
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.StorePointer")
	*p = v
}
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.SwapPointer")
	o := *p
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	rt.AtomicOp(unsafe.Pointer(p), true, "atomic.CompareAndSwapPointer")
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Bool is atomic.Bool.
type Bool struct{ v bool }

func (x *Bool) Load() bool   { rt.AtomicOp(unsafe.Pointer(&x.v), false, "atomic.Load"); return x.v }
func (x *Bool) Store(v bool) { rt.AtomicOp(unsafe.Pointer(&x.v), true, "atomic.Store"); x.v = v }
func (x *Bool) Swap(v bool) bool {
	rt.AtomicOp(unsafe.Pointer(&x.v), true, "atomic.Swap")
	o := x.v
	x.v = v
	return o
}
func (x *Bool) CompareAndSwap(o, n bool) bool {
	rt.AtomicOp(unsafe.Pointer(&x.v), true, "atomic.CompareAndSwap")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T   { rt.AtomicOp(unsafe.Pointer(&x.v), false, "atomic.Load"); return x.v }
func (x *Pointer[T]) Store(v *T) { rt.AtomicOp(unsafe.Pointer(&x.v), true, "atomic.Store"); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T {
	rt.AtomicOp(unsafe.Pointer(&x.v), true, "atomic.Swap")
	o := x.v
	x.v = v
	return o
}
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	rt.AtomicOp(unsafe.Pointer(&x.v), true, "atomic.CompareAndSwap")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

// Value is atomic.Value.
type Value struct{ v interface{} }

func (x *Value) Load() interface{} {
	rt.AtomicOp(unsafe.Pointer(&x.v), false, "atomic.Load")
	return x.v
}
func (x *Value) Store(v interface{}) {
	rt.AtomicOp(unsafe.Pointer(&x.v), true, "atomic.Store")
	x.v = v
}
func (x *Value) Swap(v interface{}) interface{} {
	rt.AtomicOp(unsafe.Pointer(&x.v), true, "atomic.Swap")
	o := x.v
	x.v = v
	return o
}
func (x *Value) CompareAndSwap(o, n interface{}) bool {
	rt.AtomicOp(unsafe.Pointer(&x.v), true, "atomic.CompareAndSwap")
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
