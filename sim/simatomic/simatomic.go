// Package simatomic stands in for package sync/atomic in the code under test: the same API on the real
// operations (so that the race detector sees them as they are), with a yield before each, so that two of
// them in one statement can be separated.
package simatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/sim/hook"
)

// Functions on int32.

func AddInt32(p *int32, d int32) int32  { hook.Y(0); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, m int32) int32  { hook.Y(0); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32   { hook.Y(0); return atomic.OrInt32(p, m) }
func LoadInt32(p *int32) int32          { hook.Y(0); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { hook.Y(0); atomic.StoreInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { hook.Y(0); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	hook.Y(0)
	return atomic.CompareAndSwapInt32(p, o, v)
}

// Int32 is atomic.Int32.
type Int32 struct{ v atomic.Int32 }

func (x *Int32) Add(d int32) int32              { hook.Y(0); return x.v.Add(d) }
func (x *Int32) And(m int32) int32              { hook.Y(0); return x.v.And(m) }
func (x *Int32) Or(m int32) int32               { hook.Y(0); return x.v.Or(m) }
func (x *Int32) Load() int32                    { hook.Y(0); return x.v.Load() }
func (x *Int32) Store(v int32)                  { hook.Y(0); x.v.Store(v) }
func (x *Int32) Swap(v int32) int32             { hook.Y(0); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, v int32) bool { hook.Y(0); return x.v.CompareAndSwap(o, v) }

// Functions on int64.

func AddInt64(p *int64, d int64) int64  { hook.Y(0); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, m int64) int64  { hook.Y(0); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64   { hook.Y(0); return atomic.OrInt64(p, m) }
func LoadInt64(p *int64) int64          { hook.Y(0); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { hook.Y(0); atomic.StoreInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { hook.Y(0); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	hook.Y(0)
	return atomic.CompareAndSwapInt64(p, o, v)
}

// Int64 is atomic.Int64.
type Int64 struct{ v atomic.Int64 }

func (x *Int64) Add(d int64) int64              { hook.Y(0); return x.v.Add(d) }
func (x *Int64) And(m int64) int64              { hook.Y(0); return x.v.And(m) }
func (x *Int64) Or(m int64) int64               { hook.Y(0); return x.v.Or(m) }
func (x *Int64) Load() int64                    { hook.Y(0); return x.v.Load() }
func (x *Int64) Store(v int64)                  { hook.Y(0); x.v.Store(v) }
func (x *Int64) Swap(v int64) int64             { hook.Y(0); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, v int64) bool { hook.Y(0); return x.v.CompareAndSwap(o, v) }

// Functions on uint32.

func AddUint32(p *uint32, d uint32) uint32  { hook.Y(0); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, m uint32) uint32  { hook.Y(0); return atomic.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32   { hook.Y(0); return atomic.OrUint32(p, m) }
func LoadUint32(p *uint32) uint32           { hook.Y(0); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { hook.Y(0); atomic.StoreUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { hook.Y(0); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	hook.Y(0)
	return atomic.CompareAndSwapUint32(p, o, v)
}

// Uint32 is atomic.Uint32.
type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Add(d uint32) uint32             { hook.Y(0); return x.v.Add(d) }
func (x *Uint32) And(m uint32) uint32             { hook.Y(0); return x.v.And(m) }
func (x *Uint32) Or(m uint32) uint32              { hook.Y(0); return x.v.Or(m) }
func (x *Uint32) Load() uint32                    { hook.Y(0); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { hook.Y(0); x.v.Store(v) }
func (x *Uint32) Swap(v uint32) uint32            { hook.Y(0); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { hook.Y(0); return x.v.CompareAndSwap(o, v) }

// Functions on uint64.

func AddUint64(p *uint64, d uint64) uint64  { hook.Y(0); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, m uint64) uint64  { hook.Y(0); return atomic.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64   { hook.Y(0); return atomic.OrUint64(p, m) }
func LoadUint64(p *uint64) uint64           { hook.Y(0); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { hook.Y(0); atomic.StoreUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { hook.Y(0); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	hook.Y(0)
	return atomic.CompareAndSwapUint64(p, o, v)
}

// Uint64 is atomic.Uint64.
type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Add(d uint64) uint64             { hook.Y(0); return x.v.Add(d) }
func (x *Uint64) And(m uint64) uint64             { hook.Y(0); return x.v.And(m) }
func (x *Uint64) Or(m uint64) uint64              { hook.Y(0); return x.v.Or(m) }
func (x *Uint64) Load() uint64                    { hook.Y(0); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { hook.Y(0); x.v.Store(v) }
func (x *Uint64) Swap(v uint64) uint64            { hook.Y(0); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { hook.Y(0); return x.v.CompareAndSwap(o, v) }

// Functions on uintptr.

func AddUintptr(p *uintptr, d uintptr) uintptr  { hook.Y(0); return atomic.AddUintptr(p, d) }
func AndUintptr(p *uintptr, m uintptr) uintptr  { hook.Y(0); return atomic.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr   { hook.Y(0); return atomic.OrUintptr(p, m) }
func LoadUintptr(p *uintptr) uintptr            { hook.Y(0); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { hook.Y(0); atomic.StoreUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { hook.Y(0); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	hook.Y(0)
	return atomic.CompareAndSwapUintptr(p, o, v)
}

// Uintptr is atomic.Uintptr.
type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Add(d uintptr) uintptr            { hook.Y(0); return x.v.Add(d) }
func (x *Uintptr) And(m uintptr) uintptr            { hook.Y(0); return x.v.And(m) }
func (x *Uintptr) Or(m uintptr) uintptr             { hook.Y(0); return x.v.Or(m) }
func (x *Uintptr) Load() uintptr                    { hook.Y(0); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { hook.Y(0); x.v.Store(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { hook.Y(0); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool { hook.Y(0); return x.v.CompareAndSwap(o, v) }

// Functions on unsafe.Pointer.

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { hook.Y(0); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { hook.Y(0); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	hook.Y(0)
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	hook.Y(0)
	return atomic.CompareAndSwapPointer(p, o, v)
}

// Bool is atomic.Bool.
type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { hook.Y(0); return x.v.Load() }
func (x *Bool) Store(v bool)                  { hook.Y(0); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { hook.Y(0); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, v bool) bool { hook.Y(0); return x.v.CompareAndSwap(o, v) }

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { hook.Y(0); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { hook.Y(0); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { hook.Y(0); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool { hook.Y(0); return x.v.CompareAndSwap(o, v) }

// Value is atomic.Value.
type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { hook.Y(0); return x.v.Load() }
func (x *Value) Store(v any)                  { hook.Y(0); x.v.Store(v) }
func (x *Value) Swap(v any) any               { hook.Y(0); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, v any) bool { hook.Y(0); return x.v.CompareAndSwap(o, v) }
