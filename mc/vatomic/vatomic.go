// Package vatomic has the interface of package sync/atomic for code run by vsched.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif.local/mc/vsched"
)

func r(o *vsched.Obj) { point(o, "atomic load", false) }
func w(o *vsched.Obj) { point(o, "atomic store", true) }

func point(o *vsched.Obj, k string, write bool) {
	if vsched.Active() {
		vsched.Point(k, o, write, nil, nil)
	}
}

// the functions on plain variables share one object per execution in the happens-before hash
var all vsched.Obj

func LoadInt32(p *int32) int32          { r(&all); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { w(&all); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, d int32) int32  { w(&all); return atomic.AddInt32(p, d) }
func SwapInt32(p *int32, v int32) int32 { w(&all); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, v int32) bool {
	w(&all)
	return atomic.CompareAndSwapInt32(p, o, v)
}
func AndInt32(p *int32, v int32) int32 { w(&all); return atomic.AndInt32(p, v) }
func OrInt32(p *int32, v int32) int32  { w(&all); return atomic.OrInt32(p, v) }

// Int32 is an atomic int32.
type Int32 struct {
	v atomic.Int32
	o vsched.Obj
}

func (x *Int32) Load() int32                    { r(&x.o); return x.v.Load() }
func (x *Int32) Store(v int32)                  { w(&x.o); x.v.Store(v) }
func (x *Int32) Add(d int32) int32              { w(&x.o); return x.v.Add(d) }
func (x *Int32) Swap(v int32) int32             { w(&x.o); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, v int32) bool { w(&x.o); return x.v.CompareAndSwap(o, v) }
func (x *Int32) And(v int32) int32              { w(&x.o); return x.v.And(v) }
func (x *Int32) Or(v int32) int32               { w(&x.o); return x.v.Or(v) }

func LoadInt64(p *int64) int64          { r(&all); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { w(&all); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, d int64) int64  { w(&all); return atomic.AddInt64(p, d) }
func SwapInt64(p *int64, v int64) int64 { w(&all); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, v int64) bool {
	w(&all)
	return atomic.CompareAndSwapInt64(p, o, v)
}
func AndInt64(p *int64, v int64) int64 { w(&all); return atomic.AndInt64(p, v) }
func OrInt64(p *int64, v int64) int64  { w(&all); return atomic.OrInt64(p, v) }

// Int64 is an atomic int64.
type Int64 struct {
	v atomic.Int64
	o vsched.Obj
}

func (x *Int64) Load() int64                    { r(&x.o); return x.v.Load() }
func (x *Int64) Store(v int64)                  { w(&x.o); x.v.Store(v) }
func (x *Int64) Add(d int64) int64              { w(&x.o); return x.v.Add(d) }
func (x *Int64) Swap(v int64) int64             { w(&x.o); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, v int64) bool { w(&x.o); return x.v.CompareAndSwap(o, v) }
func (x *Int64) And(v int64) int64              { w(&x.o); return x.v.And(v) }
func (x *Int64) Or(v int64) int64               { w(&x.o); return x.v.Or(v) }

func LoadUint32(p *uint32) uint32           { r(&all); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { w(&all); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, d uint32) uint32  { w(&all); return atomic.AddUint32(p, d) }
func SwapUint32(p *uint32, v uint32) uint32 { w(&all); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool {
	w(&all)
	return atomic.CompareAndSwapUint32(p, o, v)
}
func AndUint32(p *uint32, v uint32) uint32 { w(&all); return atomic.AndUint32(p, v) }
func OrUint32(p *uint32, v uint32) uint32  { w(&all); return atomic.OrUint32(p, v) }

// Uint32 is an atomic uint32.
type Uint32 struct {
	v atomic.Uint32
	o vsched.Obj
}

func (x *Uint32) Load() uint32                    { r(&x.o); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { w(&x.o); x.v.Store(v) }
func (x *Uint32) Add(d uint32) uint32             { w(&x.o); return x.v.Add(d) }
func (x *Uint32) Swap(v uint32) uint32            { w(&x.o); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool { w(&x.o); return x.v.CompareAndSwap(o, v) }
func (x *Uint32) And(v uint32) uint32             { w(&x.o); return x.v.And(v) }
func (x *Uint32) Or(v uint32) uint32              { w(&x.o); return x.v.Or(v) }

func LoadUint64(p *uint64) uint64           { r(&all); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { w(&all); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, d uint64) uint64  { w(&all); return atomic.AddUint64(p, d) }
func SwapUint64(p *uint64, v uint64) uint64 { w(&all); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool {
	w(&all)
	return atomic.CompareAndSwapUint64(p, o, v)
}
func AndUint64(p *uint64, v uint64) uint64 { w(&all); return atomic.AndUint64(p, v) }
func OrUint64(p *uint64, v uint64) uint64  { w(&all); return atomic.OrUint64(p, v) }

// Uint64 is an atomic uint64.
type Uint64 struct {
	v atomic.Uint64
	o vsched.Obj
}

func (x *Uint64) Load() uint64                    { r(&x.o); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { w(&x.o); x.v.Store(v) }
func (x *Uint64) Add(d uint64) uint64             { w(&x.o); return x.v.Add(d) }
func (x *Uint64) Swap(v uint64) uint64            { w(&x.o); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool { w(&x.o); return x.v.CompareAndSwap(o, v) }
func (x *Uint64) And(v uint64) uint64             { w(&x.o); return x.v.And(v) }
func (x *Uint64) Or(v uint64) uint64              { w(&x.o); return x.v.Or(v) }

func LoadUintptr(p *uintptr) uintptr            { r(&all); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { w(&all); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr  { w(&all); return atomic.AddUintptr(p, d) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { w(&all); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool {
	w(&all)
	return atomic.CompareAndSwapUintptr(p, o, v)
}
func AndUintptr(p *uintptr, v uintptr) uintptr { w(&all); return atomic.AndUintptr(p, v) }
func OrUintptr(p *uintptr, v uintptr) uintptr  { w(&all); return atomic.OrUintptr(p, v) }

// Uintptr is an atomic uintptr.
type Uintptr struct {
	v atomic.Uintptr
	o vsched.Obj
}

func (x *Uintptr) Load() uintptr                    { r(&x.o); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { w(&x.o); x.v.Store(v) }
func (x *Uintptr) Add(d uintptr) uintptr            { w(&x.o); return x.v.Add(d) }
func (x *Uintptr) Swap(v uintptr) uintptr           { w(&x.o); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool { w(&x.o); return x.v.CompareAndSwap(o, v) }
func (x *Uintptr) And(v uintptr) uintptr            { w(&x.o); return x.v.And(v) }
func (x *Uintptr) Or(v uintptr) uintptr             { w(&x.o); return x.v.Or(v) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { r(&all); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { w(&all); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	w(&all)
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, v unsafe.Pointer) bool {
	w(&all)
	return atomic.CompareAndSwapPointer(p, o, v)
}

// Bool is an atomic bool.
type Bool struct {
	v atomic.Bool
	o vsched.Obj
}

func (x *Bool) Load() bool                    { r(&x.o); return x.v.Load() }
func (x *Bool) Store(v bool)                  { w(&x.o); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { w(&x.o); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, v bool) bool { w(&x.o); return x.v.CompareAndSwap(o, v) }

// Pointer is an atomic pointer.
type Pointer[T any] struct {
	v atomic.Pointer[T]
	o vsched.Obj
}

func (x *Pointer[T]) Load() *T                    { r(&x.o); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { w(&x.o); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { w(&x.o); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool { w(&x.o); return x.v.CompareAndSwap(o, v) }

// Value is an atomic value.
type Value struct {
	v atomic.Value
	o vsched.Obj
}

func (x *Value) Load() any                    { r(&x.o); return x.v.Load() }
func (x *Value) Store(v any)                  { w(&x.o); x.v.Store(v) }
func (x *Value) Swap(v any) any               { w(&x.o); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, v any) bool { w(&x.o); return x.v.CompareAndSwap(o, v) }
