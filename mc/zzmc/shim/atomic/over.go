// Package atomic replaces the standard package in rewritten code.
package atomic

import (
	"unsafe"

	"github.com/NubeDev/bacnet/zzmc/mcrt"
)

func LoadInt32(p *int32) int32 { mcrt.Atomic(unsafe.Pointer(p)); return *p }
func StoreInt32(p *int32, v int32) { mcrt.AtomicW(unsafe.Pointer(p)); *p = v }
func AddInt32(p *int32, d int32) int32 { mcrt.AtomicW(unsafe.Pointer(p)); *p += d; return *p }
func AndInt32(p *int32, m int32) int32 { mcrt.AtomicW(unsafe.Pointer(p)); o := *p; *p &= m; return o }
func OrInt32(p *int32, m int32) int32 { mcrt.AtomicW(unsafe.Pointer(p)); o := *p; *p |= m; return o }
func SwapInt32(p *int32, v int32) int32 { mcrt.AtomicW(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	mcrt.Atomic(unsafe.Pointer(p))
	if *p == o {
		*p = v
		return true
	}
	return false
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32 { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32) { StoreInt32(&x.v, v) }
func (x *Int32) Add(d int32) int32 { return AddInt32(&x.v, d) }
func (x *Int32) And(m int32) int32 { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32 { return OrInt32(&x.v, m) }
func (x *Int32) Swap(v int32) int32 { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(o, v int32) bool { return CompareAndSwapInt32(&x.v, o, v) }

func LoadInt64(p *int64) int64 { mcrt.Atomic(unsafe.Pointer(p)); return *p }
func StoreInt64(p *int64, v int64) { mcrt.AtomicW(unsafe.Pointer(p)); *p = v }
func AddInt64(p *int64, d int64) int64 { mcrt.AtomicW(unsafe.Pointer(p)); *p += d; return *p }
func AndInt64(p *int64, m int64) int64 { mcrt.AtomicW(unsafe.Pointer(p)); o := *p; *p &= m; return o }
func OrInt64(p *int64, m int64) int64 { mcrt.AtomicW(unsafe.Pointer(p)); o := *p; *p |= m; return o }
func SwapInt64(p *int64, v int64) int64 { mcrt.AtomicW(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	mcrt.Atomic(unsafe.Pointer(p))
	if *p == o {
		*p = v
		return true
	}
	return false
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64 { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64) { StoreInt64(&x.v, v) }
func (x *Int64) Add(d int64) int64 { return AddInt64(&x.v, d) }
func (x *Int64) And(m int64) int64 { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64 { return OrInt64(&x.v, m) }
func (x *Int64) Swap(v int64) int64 { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(o, v int64) bool { return CompareAndSwapInt64(&x.v, o, v) }

func LoadUint32(p *uint32) uint32 { mcrt.Atomic(unsafe.Pointer(p)); return *p }
func StoreUint32(p *uint32, v uint32) { mcrt.AtomicW(unsafe.Pointer(p)); *p = v }
func AddUint32(p *uint32, d uint32) uint32 { mcrt.AtomicW(unsafe.Pointer(p)); *p += d; return *p }
func AndUint32(p *uint32, m uint32) uint32 { mcrt.AtomicW(unsafe.Pointer(p)); o := *p; *p &= m; return o }
func OrUint32(p *uint32, m uint32) uint32 { mcrt.AtomicW(unsafe.Pointer(p)); o := *p; *p |= m; return o }
func SwapUint32(p *uint32, v uint32) uint32 { mcrt.AtomicW(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	mcrt.Atomic(unsafe.Pointer(p))
	if *p == o {
		*p = v
		return true
	}
	return false
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32 { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32) { StoreUint32(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32 { return AddUint32(&x.v, d) }
func (x *Uint32) And(m uint32) uint32 { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32 { return OrUint32(&x.v, m) }
func (x *Uint32) Swap(v uint32) uint32 { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { return CompareAndSwapUint32(&x.v, o, v) }

func LoadUint64(p *uint64) uint64 { mcrt.Atomic(unsafe.Pointer(p)); return *p }
func StoreUint64(p *uint64, v uint64) { mcrt.AtomicW(unsafe.Pointer(p)); *p = v }
func AddUint64(p *uint64, d uint64) uint64 { mcrt.AtomicW(unsafe.Pointer(p)); *p += d; return *p }
func AndUint64(p *uint64, m uint64) uint64 { mcrt.AtomicW(unsafe.Pointer(p)); o := *p; *p &= m; return o }
func OrUint64(p *uint64, m uint64) uint64 { mcrt.AtomicW(unsafe.Pointer(p)); o := *p; *p |= m; return o }
func SwapUint64(p *uint64, v uint64) uint64 { mcrt.AtomicW(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	mcrt.Atomic(unsafe.Pointer(p))
	if *p == o {
		*p = v
		return true
	}
	return false
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64 { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64) { StoreUint64(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64 { return AddUint64(&x.v, d) }
func (x *Uint64) And(m uint64) uint64 { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64 { return OrUint64(&x.v, m) }
func (x *Uint64) Swap(v uint64) uint64 { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { return CompareAndSwapUint64(&x.v, o, v) }

func LoadUintptr(p *uintptr) uintptr { mcrt.Atomic(unsafe.Pointer(p)); return *p }
func StoreUintptr(p *uintptr, v uintptr) { mcrt.AtomicW(unsafe.Pointer(p)); *p = v }
func AddUintptr(p *uintptr, d uintptr) uintptr { mcrt.AtomicW(unsafe.Pointer(p)); *p += d; return *p }
func AndUintptr(p *uintptr, m uintptr) uintptr { mcrt.AtomicW(unsafe.Pointer(p)); o := *p; *p &= m; return o }
func OrUintptr(p *uintptr, m uintptr) uintptr { mcrt.AtomicW(unsafe.Pointer(p)); o := *p; *p |= m; return o }
func SwapUintptr(p *uintptr, v uintptr) uintptr { mcrt.AtomicW(unsafe.Pointer(p)); o := *p; *p = v; return o }
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	mcrt.Atomic(unsafe.Pointer(p))
	if *p == o {
		*p = v
		return true
	}
	return false
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr) { StoreUintptr(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(m uintptr) uintptr { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr { return OrUintptr(&x.v, m) }
func (x *Uintptr) Swap(v uintptr) uintptr { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool { return CompareAndSwapUintptr(&x.v, o, v) }

type Bool struct{ v uint32 }

func b2u(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func (x *Bool) Load() bool                   { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                 { StoreUint32(&x.v, b2u(v)) }
func (x *Bool) Swap(v bool) bool             { return SwapUint32(&x.v, b2u(v)) != 0 }
func (x *Bool) CompareAndSwap(o, v bool) bool { return CompareAndSwapUint32(&x.v, b2u(o), b2u(v)) }

type Pointer[T any] struct{ p *T }

func (x *Pointer[T]) Load() *T   { mcrt.Atomic(unsafe.Pointer(x)); return x.p }
func (x *Pointer[T]) Store(v *T) { mcrt.Atomic(unsafe.Pointer(x)); x.p = v }
func (x *Pointer[T]) Swap(v *T) *T {
	mcrt.Atomic(unsafe.Pointer(x))
	o := x.p
	x.p = v
	return o
}
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool {
	mcrt.Atomic(unsafe.Pointer(x))
	if x.p == o {
		x.p = v
		return true
	}
	return false
}

type Value struct{ v interface{} }

func (x *Value) Load() interface{}   { mcrt.Atomic(unsafe.Pointer(x)); return x.v }
func (x *Value) Store(v interface{}) { mcrt.Atomic(unsafe.Pointer(x)); x.v = v }
func (x *Value) Swap(v interface{}) interface{} {
	mcrt.Atomic(unsafe.Pointer(x))
	o := x.v
	x.v = v
	return o
}
func (x *Value) CompareAndSwap(o, v interface{}) bool {
	mcrt.Atomic(unsafe.Pointer(x))
	if x.v == o {
		x.v = v
		return true
	}
	return false
}
