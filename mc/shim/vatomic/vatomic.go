// Package vatomic stands in for package sync/atomic in the instrumented code. Generated by hand-written rules.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/mc/rt"
)

type Value struct{ v atomic.Value }

func (v *Value) Load() any      { rt.Point("atomic.load"); return v.v.Load() }
func (v *Value) Store(x any)    { rt.Point("atomic.store"); v.v.Store(x) }
func (v *Value) Swap(x any) any { rt.Point("atomic.swap"); return v.v.Swap(x) }
func (v *Value) CompareAndSwap(a, b any) bool {
	rt.Point("atomic.cas")
	return v.v.CompareAndSwap(a, b)
}

type Bool struct{ v atomic.Bool }

func (v *Bool) Load() bool       { rt.Point("atomic.load"); return v.v.Load() }
func (v *Bool) Store(x bool)     { rt.Point("atomic.store"); v.v.Store(x) }
func (v *Bool) Swap(x bool) bool { rt.Point("atomic.swap"); return v.v.Swap(x) }
func (v *Bool) CompareAndSwap(a, b bool) bool {
	rt.Point("atomic.cas")
	return v.v.CompareAndSwap(a, b)
}

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (v *Pointer[T]) Load() *T     { rt.Point("atomic.load"); return v.v.Load() }
func (v *Pointer[T]) Store(x *T)   { rt.Point("atomic.store"); v.v.Store(x) }
func (v *Pointer[T]) Swap(x *T) *T { rt.Point("atomic.swap"); return v.v.Swap(x) }
func (v *Pointer[T]) CompareAndSwap(a, b *T) bool {
	rt.Point("atomic.cas")
	return v.v.CompareAndSwap(a, b)
}

type Int32 struct{ v atomic.Int32 }

func (v *Int32) Load() int32        { rt.Point("atomic.load"); return v.v.Load() }
func (v *Int32) Store(x int32)      { rt.Point("atomic.store"); v.v.Store(x) }
func (v *Int32) Swap(x int32) int32 { rt.Point("atomic.swap"); return v.v.Swap(x) }
func (v *Int32) CompareAndSwap(a, b int32) bool {
	rt.Point("atomic.cas")
	return v.v.CompareAndSwap(a, b)
}
func (v *Int32) Add(d int32) int32 { rt.Point("atomic.add"); return v.v.Add(d) }
func (v *Int32) And(d int32) int32 { rt.Point("atomic.and"); return v.v.And(d) }
func (v *Int32) Or(d int32) int32  { rt.Point("atomic.or"); return v.v.Or(d) }

func LoadInt32(p *int32) int32          { rt.Point("atomic.load"); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, x int32)      { rt.Point("atomic.store"); atomic.StoreInt32(p, x) }
func SwapInt32(p *int32, x int32) int32 { rt.Point("atomic.swap"); return atomic.SwapInt32(p, x) }
func CompareAndSwapInt32(p *int32, a, b int32) bool {
	rt.Point("atomic.cas")
	return atomic.CompareAndSwapInt32(p, a, b)
}
func AddInt32(p *int32, d int32) int32 { rt.Point("atomic.add"); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, d int32) int32 { rt.Point("atomic.and"); return atomic.AndInt32(p, d) }
func OrInt32(p *int32, d int32) int32  { rt.Point("atomic.or"); return atomic.OrInt32(p, d) }

type Int64 struct{ v atomic.Int64 }

func (v *Int64) Load() int64        { rt.Point("atomic.load"); return v.v.Load() }
func (v *Int64) Store(x int64)      { rt.Point("atomic.store"); v.v.Store(x) }
func (v *Int64) Swap(x int64) int64 { rt.Point("atomic.swap"); return v.v.Swap(x) }
func (v *Int64) CompareAndSwap(a, b int64) bool {
	rt.Point("atomic.cas")
	return v.v.CompareAndSwap(a, b)
}
func (v *Int64) Add(d int64) int64 { rt.Point("atomic.add"); return v.v.Add(d) }
func (v *Int64) And(d int64) int64 { rt.Point("atomic.and"); return v.v.And(d) }
func (v *Int64) Or(d int64) int64  { rt.Point("atomic.or"); return v.v.Or(d) }

func LoadInt64(p *int64) int64          { rt.Point("atomic.load"); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, x int64)      { rt.Point("atomic.store"); atomic.StoreInt64(p, x) }
func SwapInt64(p *int64, x int64) int64 { rt.Point("atomic.swap"); return atomic.SwapInt64(p, x) }
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	rt.Point("atomic.cas")
	return atomic.CompareAndSwapInt64(p, a, b)
}
func AddInt64(p *int64, d int64) int64 { rt.Point("atomic.add"); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, d int64) int64 { rt.Point("atomic.and"); return atomic.AndInt64(p, d) }
func OrInt64(p *int64, d int64) int64  { rt.Point("atomic.or"); return atomic.OrInt64(p, d) }

type Uint32 struct{ v atomic.Uint32 }

func (v *Uint32) Load() uint32         { rt.Point("atomic.load"); return v.v.Load() }
func (v *Uint32) Store(x uint32)       { rt.Point("atomic.store"); v.v.Store(x) }
func (v *Uint32) Swap(x uint32) uint32 { rt.Point("atomic.swap"); return v.v.Swap(x) }
func (v *Uint32) CompareAndSwap(a, b uint32) bool {
	rt.Point("atomic.cas")
	return v.v.CompareAndSwap(a, b)
}
func (v *Uint32) Add(d uint32) uint32 { rt.Point("atomic.add"); return v.v.Add(d) }
func (v *Uint32) And(d uint32) uint32 { rt.Point("atomic.and"); return v.v.And(d) }
func (v *Uint32) Or(d uint32) uint32  { rt.Point("atomic.or"); return v.v.Or(d) }

func LoadUint32(p *uint32) uint32           { rt.Point("atomic.load"); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, x uint32)       { rt.Point("atomic.store"); atomic.StoreUint32(p, x) }
func SwapUint32(p *uint32, x uint32) uint32 { rt.Point("atomic.swap"); return atomic.SwapUint32(p, x) }
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	rt.Point("atomic.cas")
	return atomic.CompareAndSwapUint32(p, a, b)
}
func AddUint32(p *uint32, d uint32) uint32 { rt.Point("atomic.add"); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, d uint32) uint32 { rt.Point("atomic.and"); return atomic.AndUint32(p, d) }
func OrUint32(p *uint32, d uint32) uint32  { rt.Point("atomic.or"); return atomic.OrUint32(p, d) }

type Uint64 struct{ v atomic.Uint64 }

func (v *Uint64) Load() uint64         { rt.Point("atomic.load"); return v.v.Load() }
func (v *Uint64) Store(x uint64)       { rt.Point("atomic.store"); v.v.Store(x) }
func (v *Uint64) Swap(x uint64) uint64 { rt.Point("atomic.swap"); return v.v.Swap(x) }
func (v *Uint64) CompareAndSwap(a, b uint64) bool {
	rt.Point("atomic.cas")
	return v.v.CompareAndSwap(a, b)
}
func (v *Uint64) Add(d uint64) uint64 { rt.Point("atomic.add"); return v.v.Add(d) }
func (v *Uint64) And(d uint64) uint64 { rt.Point("atomic.and"); return v.v.And(d) }
func (v *Uint64) Or(d uint64) uint64  { rt.Point("atomic.or"); return v.v.Or(d) }

func LoadUint64(p *uint64) uint64           { rt.Point("atomic.load"); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, x uint64)       { rt.Point("atomic.store"); atomic.StoreUint64(p, x) }
func SwapUint64(p *uint64, x uint64) uint64 { rt.Point("atomic.swap"); return atomic.SwapUint64(p, x) }
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	rt.Point("atomic.cas")
	return atomic.CompareAndSwapUint64(p, a, b)
}
func AddUint64(p *uint64, d uint64) uint64 { rt.Point("atomic.add"); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, d uint64) uint64 { rt.Point("atomic.and"); return atomic.AndUint64(p, d) }
func OrUint64(p *uint64, d uint64) uint64  { rt.Point("atomic.or"); return atomic.OrUint64(p, d) }

type Uintptr struct{ v atomic.Uintptr }

func (v *Uintptr) Load() uintptr          { rt.Point("atomic.load"); return v.v.Load() }
func (v *Uintptr) Store(x uintptr)        { rt.Point("atomic.store"); v.v.Store(x) }
func (v *Uintptr) Swap(x uintptr) uintptr { rt.Point("atomic.swap"); return v.v.Swap(x) }
func (v *Uintptr) CompareAndSwap(a, b uintptr) bool {
	rt.Point("atomic.cas")
	return v.v.CompareAndSwap(a, b)
}
func (v *Uintptr) Add(d uintptr) uintptr { rt.Point("atomic.add"); return v.v.Add(d) }
func (v *Uintptr) And(d uintptr) uintptr { rt.Point("atomic.and"); return v.v.And(d) }
func (v *Uintptr) Or(d uintptr) uintptr  { rt.Point("atomic.or"); return v.v.Or(d) }

func LoadUintptr(p *uintptr) uintptr     { rt.Point("atomic.load"); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, x uintptr) { rt.Point("atomic.store"); atomic.StoreUintptr(p, x) }
func SwapUintptr(p *uintptr, x uintptr) uintptr {
	rt.Point("atomic.swap")
	return atomic.SwapUintptr(p, x)
}
func CompareAndSwapUintptr(p *uintptr, a, b uintptr) bool {
	rt.Point("atomic.cas")
	return atomic.CompareAndSwapUintptr(p, a, b)
}
func AddUintptr(p *uintptr, d uintptr) uintptr {
	rt.Point("atomic.add")
	return atomic.AddUintptr(p, d)
}
func AndUintptr(p *uintptr, d uintptr) uintptr {
	rt.Point("atomic.and")
	return atomic.AndUintptr(p, d)
}
func OrUintptr(p *uintptr, d uintptr) uintptr { rt.Point("atomic.or"); return atomic.OrUintptr(p, d) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	rt.Point("atomic.load")
	return atomic.LoadPointer(p)
}
func StorePointer(p *unsafe.Pointer, x unsafe.Pointer) {
	rt.Point("atomic.store")
	atomic.StorePointer(p, x)
}
func SwapPointer(p *unsafe.Pointer, x unsafe.Pointer) unsafe.Pointer {
	rt.Point("atomic.swap")
	return atomic.SwapPointer(p, x)
}
func CompareAndSwapPointer(p *unsafe.Pointer, a, b unsafe.Pointer) bool {
	rt.Point("atomic.cas")
	return atomic.CompareAndSwapPointer(p, a, b)
}
