// Package vuatomic stands in for go.uber.org/atomic in the instrumented code.
package vuatomic

import (
	"go.uber.org/atomic"

	"verif.local/mc/rt"
)

type (
	Bool          = atomic.Bool
	Duration      = atomic.Duration
	Error         = atomic.Error
	Float32       = atomic.Float32
	Float64       = atomic.Float64
	String        = atomic.String
	Time          = atomic.Time
	UnsafePointer = atomic.UnsafePointer
	Value         = atomic.Value
)

var (
	NewBool          = atomic.NewBool
	NewDuration      = atomic.NewDuration
	NewError         = atomic.NewError
	NewFloat32       = atomic.NewFloat32
	NewFloat64       = atomic.NewFloat64
	NewString        = atomic.NewString
	NewTime          = atomic.NewTime
	NewUnsafePointer = atomic.NewUnsafePointer
)

type Int32 struct{ v atomic.Int32 }

func NewInt32(x int32) *Int32        { r := &Int32{}; r.v.Store(x); return r }
func (i *Int32) Load() int32         { rt.Point("atomic.load"); return i.v.Load() }
func (i *Int32) Add(d int32) int32   { rt.Point("atomic.add"); return i.v.Add(d) }
func (i *Int32) Sub(d int32) int32   { rt.Point("atomic.sub"); return i.v.Sub(d) }
func (i *Int32) Inc() int32          { rt.Point("atomic.inc"); return i.v.Inc() }
func (i *Int32) Dec() int32          { rt.Point("atomic.dec"); return i.v.Dec() }
func (i *Int32) CAS(a, b int32) bool { rt.Point("atomic.cas"); return i.v.CompareAndSwap(a, b) }
func (i *Int32) CompareAndSwap(a, b int32) bool {
	rt.Point("atomic.cas")
	return i.v.CompareAndSwap(a, b)
}
func (i *Int32) Store(x int32)                { rt.Point("atomic.store"); i.v.Store(x) }
func (i *Int32) Swap(x int32) int32           { rt.Point("atomic.swap"); return i.v.Swap(x) }
func (i *Int32) MarshalJSON() ([]byte, error) { return i.v.MarshalJSON() }
func (i *Int32) UnmarshalJSON(b []byte) error { return i.v.UnmarshalJSON(b) }
func (i *Int32) String() string               { return i.v.String() }

type Int64 struct{ v atomic.Int64 }

func NewInt64(x int64) *Int64        { r := &Int64{}; r.v.Store(x); return r }
func (i *Int64) Load() int64         { rt.Point("atomic.load"); return i.v.Load() }
func (i *Int64) Add(d int64) int64   { rt.Point("atomic.add"); return i.v.Add(d) }
func (i *Int64) Sub(d int64) int64   { rt.Point("atomic.sub"); return i.v.Sub(d) }
func (i *Int64) Inc() int64          { rt.Point("atomic.inc"); return i.v.Inc() }
func (i *Int64) Dec() int64          { rt.Point("atomic.dec"); return i.v.Dec() }
func (i *Int64) CAS(a, b int64) bool { rt.Point("atomic.cas"); return i.v.CompareAndSwap(a, b) }
func (i *Int64) CompareAndSwap(a, b int64) bool {
	rt.Point("atomic.cas")
	return i.v.CompareAndSwap(a, b)
}
func (i *Int64) Store(x int64)                { rt.Point("atomic.store"); i.v.Store(x) }
func (i *Int64) Swap(x int64) int64           { rt.Point("atomic.swap"); return i.v.Swap(x) }
func (i *Int64) MarshalJSON() ([]byte, error) { return i.v.MarshalJSON() }
func (i *Int64) UnmarshalJSON(b []byte) error { return i.v.UnmarshalJSON(b) }
func (i *Int64) String() string               { return i.v.String() }

type Uint32 struct{ v atomic.Uint32 }

func NewUint32(x uint32) *Uint32       { r := &Uint32{}; r.v.Store(x); return r }
func (i *Uint32) Load() uint32         { rt.Point("atomic.load"); return i.v.Load() }
func (i *Uint32) Add(d uint32) uint32  { rt.Point("atomic.add"); return i.v.Add(d) }
func (i *Uint32) Sub(d uint32) uint32  { rt.Point("atomic.sub"); return i.v.Sub(d) }
func (i *Uint32) Inc() uint32          { rt.Point("atomic.inc"); return i.v.Inc() }
func (i *Uint32) Dec() uint32          { rt.Point("atomic.dec"); return i.v.Dec() }
func (i *Uint32) CAS(a, b uint32) bool { rt.Point("atomic.cas"); return i.v.CompareAndSwap(a, b) }
func (i *Uint32) CompareAndSwap(a, b uint32) bool {
	rt.Point("atomic.cas")
	return i.v.CompareAndSwap(a, b)
}
func (i *Uint32) Store(x uint32)               { rt.Point("atomic.store"); i.v.Store(x) }
func (i *Uint32) Swap(x uint32) uint32         { rt.Point("atomic.swap"); return i.v.Swap(x) }
func (i *Uint32) MarshalJSON() ([]byte, error) { return i.v.MarshalJSON() }
func (i *Uint32) UnmarshalJSON(b []byte) error { return i.v.UnmarshalJSON(b) }
func (i *Uint32) String() string               { return i.v.String() }

type Uint64 struct{ v atomic.Uint64 }

func NewUint64(x uint64) *Uint64       { r := &Uint64{}; r.v.Store(x); return r }
func (i *Uint64) Load() uint64         { rt.Point("atomic.load"); return i.v.Load() }
func (i *Uint64) Add(d uint64) uint64  { rt.Point("atomic.add"); return i.v.Add(d) }
func (i *Uint64) Sub(d uint64) uint64  { rt.Point("atomic.sub"); return i.v.Sub(d) }
func (i *Uint64) Inc() uint64          { rt.Point("atomic.inc"); return i.v.Inc() }
func (i *Uint64) Dec() uint64          { rt.Point("atomic.dec"); return i.v.Dec() }
func (i *Uint64) CAS(a, b uint64) bool { rt.Point("atomic.cas"); return i.v.CompareAndSwap(a, b) }
func (i *Uint64) CompareAndSwap(a, b uint64) bool {
	rt.Point("atomic.cas")
	return i.v.CompareAndSwap(a, b)
}
func (i *Uint64) Store(x uint64)               { rt.Point("atomic.store"); i.v.Store(x) }
func (i *Uint64) Swap(x uint64) uint64         { rt.Point("atomic.swap"); return i.v.Swap(x) }
func (i *Uint64) MarshalJSON() ([]byte, error) { return i.v.MarshalJSON() }
func (i *Uint64) UnmarshalJSON(b []byte) error { return i.v.UnmarshalJSON(b) }
func (i *Uint64) String() string               { return i.v.String() }

type Uintptr struct{ v atomic.Uintptr }

func NewUintptr(x uintptr) *Uintptr      { r := &Uintptr{}; r.v.Store(x); return r }
func (i *Uintptr) Load() uintptr         { rt.Point("atomic.load"); return i.v.Load() }
func (i *Uintptr) Add(d uintptr) uintptr { rt.Point("atomic.add"); return i.v.Add(d) }
func (i *Uintptr) Sub(d uintptr) uintptr { rt.Point("atomic.sub"); return i.v.Sub(d) }
func (i *Uintptr) Inc() uintptr          { rt.Point("atomic.inc"); return i.v.Inc() }
func (i *Uintptr) Dec() uintptr          { rt.Point("atomic.dec"); return i.v.Dec() }
func (i *Uintptr) CAS(a, b uintptr) bool { rt.Point("atomic.cas"); return i.v.CompareAndSwap(a, b) }
func (i *Uintptr) CompareAndSwap(a, b uintptr) bool {
	rt.Point("atomic.cas")
	return i.v.CompareAndSwap(a, b)
}
func (i *Uintptr) Store(x uintptr)              { rt.Point("atomic.store"); i.v.Store(x) }
func (i *Uintptr) Swap(x uintptr) uintptr       { rt.Point("atomic.swap"); return i.v.Swap(x) }
func (i *Uintptr) MarshalJSON() ([]byte, error) { return i.v.MarshalJSON() }
func (i *Uintptr) UnmarshalJSON(b []byte) error { return i.v.UnmarshalJSON(b) }
func (i *Uintptr) String() string               { return i.v.String() }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func NewPointer[T any](p *T) *Pointer[T] { r := &Pointer[T]{}; r.v.Store(p); return r }
func (i *Pointer[T]) Load() *T           { rt.Point("atomic.load"); return i.v.Load() }
func (i *Pointer[T]) Store(x *T)         { rt.Point("atomic.store"); i.v.Store(x) }
func (i *Pointer[T]) Swap(x *T) *T       { rt.Point("atomic.swap"); return i.v.Swap(x) }
func (i *Pointer[T]) CompareAndSwap(a, b *T) bool {
	rt.Point("atomic.cas")
	return i.v.CompareAndSwap(a, b)
}
