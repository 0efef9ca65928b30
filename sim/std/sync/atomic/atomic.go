// Package atomic replaces package sync/atomic: real atomics behind a scheduling point.
package atomic

import (
	real "sync/atomic"
	"unsafe"

	rt "ZZSIM/rt"
)

var _ unsafe.Pointer


// Int32 replaces atomic.Int32.
type Int32 struct{ x real.Int32 }

func (x *Int32) Load() int32 { rt.Yield(); return x.x.Load() }
func (x *Int32) Store(v int32) { rt.Yield(); x.x.Store(v) }
func (x *Int32) Swap(v int32) int32 { rt.Yield(); return x.x.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { rt.Yield(); return x.x.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32 { rt.Yield(); return x.x.Add(d) }
func (x *Int32) And(m int32) int32 { rt.Yield(); return x.x.And(m) }
func (x *Int32) Or(m int32) int32 { rt.Yield(); return x.x.Or(m) }

func LoadInt32(p *int32) int32 { rt.Yield(); return real.LoadInt32(p) }
func StoreInt32(p *int32, v int32) { rt.Yield(); real.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { rt.Yield(); return real.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { rt.Yield(); return real.CompareAndSwapInt32(p, o, n) }
func AddInt32(p *int32, d int32) int32 { rt.Yield(); return real.AddInt32(p, d) }
func AndInt32(p *int32, m int32) int32 { rt.Yield(); return real.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32 { rt.Yield(); return real.OrInt32(p, m) }

// Int64 replaces atomic.Int64.
type Int64 struct{ x real.Int64 }

func (x *Int64) Load() int64 { rt.Yield(); return x.x.Load() }
func (x *Int64) Store(v int64) { rt.Yield(); x.x.Store(v) }
func (x *Int64) Swap(v int64) int64 { rt.Yield(); return x.x.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { rt.Yield(); return x.x.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64 { rt.Yield(); return x.x.Add(d) }
func (x *Int64) And(m int64) int64 { rt.Yield(); return x.x.And(m) }
func (x *Int64) Or(m int64) int64 { rt.Yield(); return x.x.Or(m) }

func LoadInt64(p *int64) int64 { rt.Yield(); return real.LoadInt64(p) }
func StoreInt64(p *int64, v int64) { rt.Yield(); real.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { rt.Yield(); return real.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { rt.Yield(); return real.CompareAndSwapInt64(p, o, n) }
func AddInt64(p *int64, d int64) int64 { rt.Yield(); return real.AddInt64(p, d) }
func AndInt64(p *int64, m int64) int64 { rt.Yield(); return real.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64 { rt.Yield(); return real.OrInt64(p, m) }

// Uint32 replaces atomic.Uint32.
type Uint32 struct{ x real.Uint32 }

func (x *Uint32) Load() uint32 { rt.Yield(); return x.x.Load() }
func (x *Uint32) Store(v uint32) { rt.Yield(); x.x.Store(v) }
func (x *Uint32) Swap(v uint32) uint32 { rt.Yield(); return x.x.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { rt.Yield(); return x.x.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32 { rt.Yield(); return x.x.Add(d) }
func (x *Uint32) And(m uint32) uint32 { rt.Yield(); return x.x.And(m) }
func (x *Uint32) Or(m uint32) uint32 { rt.Yield(); return x.x.Or(m) }

func LoadUint32(p *uint32) uint32 { rt.Yield(); return real.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32) { rt.Yield(); real.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { rt.Yield(); return real.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { rt.Yield(); return real.CompareAndSwapUint32(p, o, n) }
func AddUint32(p *uint32, d uint32) uint32 { rt.Yield(); return real.AddUint32(p, d) }
func AndUint32(p *uint32, m uint32) uint32 { rt.Yield(); return real.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32 { rt.Yield(); return real.OrUint32(p, m) }

// Uint64 replaces atomic.Uint64.
type Uint64 struct{ x real.Uint64 }

func (x *Uint64) Load() uint64 { rt.Yield(); return x.x.Load() }
func (x *Uint64) Store(v uint64) { rt.Yield(); x.x.Store(v) }
func (x *Uint64) Swap(v uint64) uint64 { rt.Yield(); return x.x.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { rt.Yield(); return x.x.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64 { rt.Yield(); return x.x.Add(d) }
func (x *Uint64) And(m uint64) uint64 { rt.Yield(); return x.x.And(m) }
func (x *Uint64) Or(m uint64) uint64 { rt.Yield(); return x.x.Or(m) }

func LoadUint64(p *uint64) uint64 { rt.Yield(); return real.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64) { rt.Yield(); real.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { rt.Yield(); return real.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { rt.Yield(); return real.CompareAndSwapUint64(p, o, n) }
func AddUint64(p *uint64, d uint64) uint64 { rt.Yield(); return real.AddUint64(p, d) }
func AndUint64(p *uint64, m uint64) uint64 { rt.Yield(); return real.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64 { rt.Yield(); return real.OrUint64(p, m) }

// Uintptr replaces atomic.Uintptr.
type Uintptr struct{ x real.Uintptr }

func (x *Uintptr) Load() uintptr { rt.Yield(); return x.x.Load() }
func (x *Uintptr) Store(v uintptr) { rt.Yield(); x.x.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr { rt.Yield(); return x.x.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { rt.Yield(); return x.x.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr { rt.Yield(); return x.x.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr { rt.Yield(); return x.x.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr { rt.Yield(); return x.x.Or(m) }

func LoadUintptr(p *uintptr) uintptr { rt.Yield(); return real.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr) { rt.Yield(); real.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { rt.Yield(); return real.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { rt.Yield(); return real.CompareAndSwapUintptr(p, o, n) }
func AddUintptr(p *uintptr, d uintptr) uintptr { rt.Yield(); return real.AddUintptr(p, d) }
func AndUintptr(p *uintptr, m uintptr) uintptr { rt.Yield(); return real.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr { rt.Yield(); return real.OrUintptr(p, m) }

// Bool replaces atomic.Bool.
type Bool struct{ x real.Bool }

func (x *Bool) Load() bool { rt.Yield(); return x.x.Load() }
func (x *Bool) Store(v bool) { rt.Yield(); x.x.Store(v) }
func (x *Bool) Swap(v bool) bool { rt.Yield(); return x.x.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { rt.Yield(); return x.x.CompareAndSwap(o, n) }

// Value replaces atomic.Value.
type Value struct{ x real.Value }

func (x *Value) Load() any { rt.Yield(); return x.x.Load() }
func (x *Value) Store(v any) { rt.Yield(); x.x.Store(v) }
func (x *Value) Swap(v any) any { rt.Yield(); return x.x.Swap(v) }
func (x *Value) CompareAndSwap(o, n any) bool { rt.Yield(); return x.x.CompareAndSwap(o, n) }

// Pointer replaces atomic.Pointer.
type Pointer[T any] struct{ x real.Pointer[T] }

func (x *Pointer[T]) Load() *T { rt.Yield(); return x.x.Load() }
func (x *Pointer[T]) Store(v *T) { rt.Yield(); x.x.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T { rt.Yield(); return x.x.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { rt.Yield(); return x.x.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer { rt.Yield(); return real.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { rt.Yield(); real.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer { rt.Yield(); return real.SwapPointer(p, v) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool { rt.Yield(); return real.CompareAndSwapPointer(p, o, n) }
