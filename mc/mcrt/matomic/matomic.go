// Package matomic stands in for the package sync/atomic in explored code: every operation is a scheduling point.
package matomic

import (
	"sync/atomic"
	"unsafe"

	"verif/mcrt"
)

func LoadInt32(p *int32) int32          { mcrt.Yield(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, v int32)      { mcrt.Yield(); atomic.StoreInt32(p, v) }
func AddInt32(p *int32, v int32) int32  { mcrt.Yield(); return atomic.AddInt32(p, v) }
func SwapInt32(p *int32, v int32) int32 { mcrt.Yield(); return atomic.SwapInt32(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	mcrt.Yield()
	return atomic.CompareAndSwapInt32(p, o, n)
}

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { mcrt.Yield(); return x.v.Load() }
func (x *Int32) Store(v int32)                  { mcrt.Yield(); x.v.Store(v) }
func (x *Int32) Add(v int32) int32              { mcrt.Yield(); return x.v.Add(v) }
func (x *Int32) Swap(v int32) int32             { mcrt.Yield(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { mcrt.Yield(); return x.v.CompareAndSwap(o, n) }

func LoadInt64(p *int64) int64          { mcrt.Yield(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, v int64)      { mcrt.Yield(); atomic.StoreInt64(p, v) }
func AddInt64(p *int64, v int64) int64  { mcrt.Yield(); return atomic.AddInt64(p, v) }
func SwapInt64(p *int64, v int64) int64 { mcrt.Yield(); return atomic.SwapInt64(p, v) }
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	mcrt.Yield()
	return atomic.CompareAndSwapInt64(p, o, n)
}

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { mcrt.Yield(); return x.v.Load() }
func (x *Int64) Store(v int64)                  { mcrt.Yield(); x.v.Store(v) }
func (x *Int64) Add(v int64) int64              { mcrt.Yield(); return x.v.Add(v) }
func (x *Int64) Swap(v int64) int64             { mcrt.Yield(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { mcrt.Yield(); return x.v.CompareAndSwap(o, n) }

func LoadUint32(p *uint32) uint32           { mcrt.Yield(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, v uint32)       { mcrt.Yield(); atomic.StoreUint32(p, v) }
func AddUint32(p *uint32, v uint32) uint32  { mcrt.Yield(); return atomic.AddUint32(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { mcrt.Yield(); return atomic.SwapUint32(p, v) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	mcrt.Yield()
	return atomic.CompareAndSwapUint32(p, o, n)
}

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { mcrt.Yield(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { mcrt.Yield(); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32             { mcrt.Yield(); return x.v.Add(v) }
func (x *Uint32) Swap(v uint32) uint32            { mcrt.Yield(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { mcrt.Yield(); return x.v.CompareAndSwap(o, n) }

func LoadUint64(p *uint64) uint64           { mcrt.Yield(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, v uint64)       { mcrt.Yield(); atomic.StoreUint64(p, v) }
func AddUint64(p *uint64, v uint64) uint64  { mcrt.Yield(); return atomic.AddUint64(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { mcrt.Yield(); return atomic.SwapUint64(p, v) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	mcrt.Yield()
	return atomic.CompareAndSwapUint64(p, o, n)
}

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { mcrt.Yield(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { mcrt.Yield(); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64             { mcrt.Yield(); return x.v.Add(v) }
func (x *Uint64) Swap(v uint64) uint64            { mcrt.Yield(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { mcrt.Yield(); return x.v.CompareAndSwap(o, n) }

func LoadUintptr(p *uintptr) uintptr            { mcrt.Yield(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, v uintptr)        { mcrt.Yield(); atomic.StoreUintptr(p, v) }
func AddUintptr(p *uintptr, v uintptr) uintptr  { mcrt.Yield(); return atomic.AddUintptr(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr { mcrt.Yield(); return atomic.SwapUintptr(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	mcrt.Yield()
	return atomic.CompareAndSwapUintptr(p, o, n)
}

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { mcrt.Yield(); return x.v.Load() }
func (x *Uintptr) Store(v uintptr)                  { mcrt.Yield(); x.v.Store(v) }
func (x *Uintptr) Add(v uintptr) uintptr            { mcrt.Yield(); return x.v.Add(v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { mcrt.Yield(); return x.v.Swap(v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { mcrt.Yield(); return x.v.CompareAndSwap(o, n) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { mcrt.Yield(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { mcrt.Yield(); atomic.StorePointer(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	mcrt.Yield()
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	mcrt.Yield()
	return atomic.CompareAndSwapPointer(p, o, n)
}

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { mcrt.Yield(); return x.v.Load() }
func (x *Bool) Store(v bool)                  { mcrt.Yield(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool              { mcrt.Yield(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { mcrt.Yield(); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { mcrt.Yield(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { mcrt.Yield(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { mcrt.Yield(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { mcrt.Yield(); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() interface{}                    { mcrt.Yield(); return x.v.Load() }
func (x *Value) Store(v interface{})                  { mcrt.Yield(); x.v.Store(v) }
func (x *Value) Swap(v interface{}) interface{}       { mcrt.Yield(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(o, n interface{}) bool { mcrt.Yield(); return x.v.CompareAndSwap(o, n) }
