// Package atomic replaces sync/atomic in instrumented code: every operation is a
// scheduling point and takes effect indivisibly.
package atomic

import (
	"unsafe"

	"vsim/rt"
)

func ld(p unsafe.Pointer) {
	if rt.S != nil && !rt.Dying() {
		rt.Sync()
		rt.AtomicLoad(p)
	}
}

func st(p unsafe.Pointer) {
	if rt.S != nil && !rt.Dying() {
		rt.Sync()
		rt.AtomicStore(p)
	}
}

func pt(p unsafe.Pointer) {
	if rt.S != nil && !rt.Dying() {
		rt.Sync()
		rt.AtomicRMW(p)
	}
}

// did tells the simulator that the operation changed something.
func did(changed bool) {
	if changed {
		rt.Did()
	}
}

func AddInt32(p *int32, d int32) int32 { pt(unsafe.Pointer(p)); did(d != 0); *p += d; return *p }
func LoadInt32(p *int32) int32         { ld(unsafe.Pointer(p)); return *p }
func StoreInt32(p *int32, v int32)     { st(unsafe.Pointer(p)); did(*p != v); *p = v }
func SwapInt32(p *int32, v int32) int32 {
	pt(unsafe.Pointer(p))
	o := *p
	did(o != v)
	*p = v
	return o
}
func AndInt32(p *int32, v int32) int32 { pt(unsafe.Pointer(p)); o := *p; did(true); *p &= v; return o }
func OrInt32(p *int32, v int32) int32  { pt(unsafe.Pointer(p)); o := *p; did(true); *p |= v; return o }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		did(o != v)
		*p = v
		return true
	}
	return false
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                  { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return AddInt32(&x.v, d) }
func (x *Int32) And(d int32) int32              { return AndInt32(&x.v, d) }
func (x *Int32) Or(d int32) int32               { return OrInt32(&x.v, d) }
func (x *Int32) CompareAndSwap(o, v int32) bool { return CompareAndSwapInt32(&x.v, o, v) }

func AddInt64(p *int64, d int64) int64 { pt(unsafe.Pointer(p)); did(d != 0); *p += d; return *p }
func LoadInt64(p *int64) int64         { ld(unsafe.Pointer(p)); return *p }
func StoreInt64(p *int64, v int64)     { st(unsafe.Pointer(p)); did(*p != v); *p = v }
func SwapInt64(p *int64, v int64) int64 {
	pt(unsafe.Pointer(p))
	o := *p
	did(o != v)
	*p = v
	return o
}
func AndInt64(p *int64, v int64) int64 { pt(unsafe.Pointer(p)); o := *p; did(true); *p &= v; return o }
func OrInt64(p *int64, v int64) int64  { pt(unsafe.Pointer(p)); o := *p; did(true); *p |= v; return o }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		did(o != v)
		*p = v
		return true
	}
	return false
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                  { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return AddInt64(&x.v, d) }
func (x *Int64) And(d int64) int64              { return AndInt64(&x.v, d) }
func (x *Int64) Or(d int64) int64               { return OrInt64(&x.v, d) }
func (x *Int64) CompareAndSwap(o, v int64) bool { return CompareAndSwapInt64(&x.v, o, v) }

func AddUint32(p *uint32, d uint32) uint32 { pt(unsafe.Pointer(p)); did(d != 0); *p += d; return *p }
func LoadUint32(p *uint32) uint32          { ld(unsafe.Pointer(p)); return *p }
func StoreUint32(p *uint32, v uint32)      { st(unsafe.Pointer(p)); did(*p != v); *p = v }
func SwapUint32(p *uint32, v uint32) uint32 {
	pt(unsafe.Pointer(p))
	o := *p
	did(o != v)
	*p = v
	return o
}
func AndUint32(p *uint32, v uint32) uint32 {
	pt(unsafe.Pointer(p))
	o := *p
	did(true)
	*p &= v
	return o
}
func OrUint32(p *uint32, v uint32) uint32 {
	pt(unsafe.Pointer(p))
	o := *p
	did(true)
	*p |= v
	return o
}
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		did(o != v)
		*p = v
		return true
	}
	return false
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(&x.v, d) }
func (x *Uint32) And(d uint32) uint32             { return AndUint32(&x.v, d) }
func (x *Uint32) Or(d uint32) uint32              { return OrUint32(&x.v, d) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { return CompareAndSwapUint32(&x.v, o, v) }

func AddUint64(p *uint64, d uint64) uint64 { pt(unsafe.Pointer(p)); did(d != 0); *p += d; return *p }
func LoadUint64(p *uint64) uint64          { ld(unsafe.Pointer(p)); return *p }
func StoreUint64(p *uint64, v uint64)      { st(unsafe.Pointer(p)); did(*p != v); *p = v }
func SwapUint64(p *uint64, v uint64) uint64 {
	pt(unsafe.Pointer(p))
	o := *p
	did(o != v)
	*p = v
	return o
}
func AndUint64(p *uint64, v uint64) uint64 {
	pt(unsafe.Pointer(p))
	o := *p
	did(true)
	*p &= v
	return o
}
func OrUint64(p *uint64, v uint64) uint64 {
	pt(unsafe.Pointer(p))
	o := *p
	did(true)
	*p |= v
	return o
}
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		did(o != v)
		*p = v
		return true
	}
	return false
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(&x.v, d) }
func (x *Uint64) And(d uint64) uint64             { return AndUint64(&x.v, d) }
func (x *Uint64) Or(d uint64) uint64              { return OrUint64(&x.v, d) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { return CompareAndSwapUint64(&x.v, o, v) }

func AddUintptr(p *uintptr, d uintptr) uintptr {
	pt(unsafe.Pointer(p))
	did(d != 0)
	*p += d
	return *p
}
func LoadUintptr(p *uintptr) uintptr     { ld(unsafe.Pointer(p)); return *p }
func StoreUintptr(p *uintptr, v uintptr) { st(unsafe.Pointer(p)); did(*p != v); *p = v }
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	pt(unsafe.Pointer(p))
	o := *p
	did(o != v)
	*p = v
	return o
}
func AndUintptr(p *uintptr, v uintptr) uintptr {
	pt(unsafe.Pointer(p))
	o := *p
	did(true)
	*p &= v
	return o
}
func OrUintptr(p *uintptr, v uintptr) uintptr {
	pt(unsafe.Pointer(p))
	o := *p
	did(true)
	*p |= v
	return o
}
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		did(o != v)
		*p = v
		return true
	}
	return false
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(d uintptr) uintptr            { return AndUintptr(&x.v, d) }
func (x *Uintptr) Or(d uintptr) uintptr             { return OrUintptr(&x.v, d) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool { return CompareAndSwapUintptr(&x.v, o, v) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { ld(unsafe.Pointer(p)); return *p }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { st(unsafe.Pointer(p)); did(*p != v); *p = v }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt(unsafe.Pointer(p))
	o := *p
	did(o != v)
	*p = v
	return o
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	pt(unsafe.Pointer(p))
	if *p == o {
		did(o != v)
		*p = v
		return true
	}
	return false
}

type Bool struct{ v bool }

func (x *Bool) Load() bool   { ld(unsafe.Pointer(x)); return x.v }
func (x *Bool) Store(v bool) { st(unsafe.Pointer(x)); did(x.v != v); x.v = v }
func (x *Bool) Swap(v bool) bool {
	pt(unsafe.Pointer(x))
	o := x.v
	did(o != v)
	x.v = v
	return o
}
func (x *Bool) CompareAndSwap(o, v bool) bool {
	pt(unsafe.Pointer(x))
	if x.v == o {
		did(o != v)
		x.v = v
		return true
	}
	return false
}

type Pointer[T any] struct{ p *T }

func (x *Pointer[T]) Load() *T   { ld(unsafe.Pointer(x)); return x.p }
func (x *Pointer[T]) Store(v *T) { st(unsafe.Pointer(x)); did(x.p != v); x.p = v }
func (x *Pointer[T]) Swap(v *T) *T {
	pt(unsafe.Pointer(x))
	o := x.p
	did(o != v)
	x.p = v
	return o
}
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool {
	pt(unsafe.Pointer(x))
	if x.p == o {
		did(o != v)
		x.p = v
		return true
	}
	return false
}

type Value struct{ v any }

func (x *Value) Load() any { ld(unsafe.Pointer(x)); return x.v }
func (x *Value) Store(v any) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	st(unsafe.Pointer(x))
	did(true)
	x.v = v
}
func (x *Value) Swap(v any) any { pt(unsafe.Pointer(x)); o := x.v; did(true); x.v = v; return o }
func (x *Value) CompareAndSwap(o, v any) bool {
	pt(unsafe.Pointer(x))
	if x.v == o {
		did(o != v)
		x.v = v
		return true
	}
	return false
}
