// Package vatomic replaces sync/atomic in the instrumented build. Loads,
// stores, swaps and compare-and-swaps are scheduling points; additions are not
// (their order is not observable except through the former).
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"PKG/vsched"
)

func pt[T any](p *T, w bool) { vsched.StepAddr(unsafe.Pointer(p), w, "atomic") }

func AddInt32(p *int32, d int32) int32         { return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64         { return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32     { return atomic.AddUint32(p, d) }
func AddUint64(p *uint64, d uint64) uint64     { return atomic.AddUint64(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr { return atomic.AddUintptr(p, d) }

func LoadInt32(p *int32) int32                         { pt(p, false); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64                         { pt(p, false); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32                      { pt(p, false); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64                      { pt(p, false); return atomic.LoadUint64(p) }
func LoadUintptr(p *uintptr) uintptr                   { pt(p, false); return atomic.LoadUintptr(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt(p, false); return atomic.LoadPointer(p) }
func StoreInt32(p *int32, v int32)                     { pt(p, true); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)                     { pt(p, true); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)                  { pt(p, true); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)                  { pt(p, true); atomic.StoreUint64(p, v) }
func StoreUintptr(p *uintptr, v uintptr)               { pt(p, true); atomic.StoreUintptr(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { pt(p, true); atomic.StorePointer(p, v) }
func SwapInt32(p *int32, v int32) int32                { pt(p, true); return atomic.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64                { pt(p, true); return atomic.SwapInt64(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { pt(p, true); return atomic.SwapUint32(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { pt(p, true); return atomic.SwapUint64(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr        { pt(p, true); return atomic.SwapUintptr(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	pt(p, true)
	return atomic.SwapPointer(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	pt(p, true)
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	pt(p, true)
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt(p, true)
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt(p, true)
	return atomic.CompareAndSwapUint64(p, o, n)
}
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt(p, true)
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt(p, true)
	return atomic.CompareAndSwapPointer(p, o, n)
}
func AndInt32(p *int32, m int32) int32     { return atomic.AndInt32(p, m) }
func AndUint32(p *uint32, m uint32) uint32 { return atomic.AndUint32(p, m) }
func AndInt64(p *int64, m int64) int64     { return atomic.AndInt64(p, m) }
func AndUint64(p *uint64, m uint64) uint64 { return atomic.AndUint64(p, m) }
func OrInt32(p *int32, m int32) int32      { return atomic.OrInt32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { return atomic.OrUint32(p, m) }
func OrInt64(p *int64, m int64) int64      { return atomic.OrInt64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { return atomic.OrUint64(p, m) }

type Int32 struct{ v atomic.Int32 }

func (x *Int32) Load() int32                    { pt(x, false); return x.v.Load() }
func (x *Int32) Store(n int32)                  { pt(x, true); x.v.Store(n) }
func (x *Int32) Swap(n int32) int32             { pt(x, true); return x.v.Swap(n) }
func (x *Int32) CompareAndSwap(o, n int32) bool { pt(x, true); return x.v.CompareAndSwap(o, n) }
func (x *Int32) Add(d int32) int32              { return x.v.Add(d) }
func (x *Int32) And(d int32) int32              { return x.v.And(d) }
func (x *Int32) Or(d int32) int32               { return x.v.Or(d) }

type Int64 struct{ v atomic.Int64 }

func (x *Int64) Load() int64                    { pt(x, false); return x.v.Load() }
func (x *Int64) Store(n int64)                  { pt(x, true); x.v.Store(n) }
func (x *Int64) Swap(n int64) int64             { pt(x, true); return x.v.Swap(n) }
func (x *Int64) CompareAndSwap(o, n int64) bool { pt(x, true); return x.v.CompareAndSwap(o, n) }
func (x *Int64) Add(d int64) int64              { return x.v.Add(d) }
func (x *Int64) And(d int64) int64              { return x.v.And(d) }
func (x *Int64) Or(d int64) int64               { return x.v.Or(d) }

type Uint32 struct{ v atomic.Uint32 }

func (x *Uint32) Load() uint32                    { pt(x, false); return x.v.Load() }
func (x *Uint32) Store(n uint32)                  { pt(x, true); x.v.Store(n) }
func (x *Uint32) Swap(n uint32) uint32            { pt(x, true); return x.v.Swap(n) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { pt(x, true); return x.v.CompareAndSwap(o, n) }
func (x *Uint32) Add(d uint32) uint32             { return x.v.Add(d) }
func (x *Uint32) And(d uint32) uint32             { return x.v.And(d) }
func (x *Uint32) Or(d uint32) uint32              { return x.v.Or(d) }

type Uint64 struct{ v atomic.Uint64 }

func (x *Uint64) Load() uint64                    { pt(x, false); return x.v.Load() }
func (x *Uint64) Store(n uint64)                  { pt(x, true); x.v.Store(n) }
func (x *Uint64) Swap(n uint64) uint64            { pt(x, true); return x.v.Swap(n) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { pt(x, true); return x.v.CompareAndSwap(o, n) }
func (x *Uint64) Add(d uint64) uint64             { return x.v.Add(d) }
func (x *Uint64) And(d uint64) uint64             { return x.v.And(d) }
func (x *Uint64) Or(d uint64) uint64              { return x.v.Or(d) }

type Uintptr struct{ v atomic.Uintptr }

func (x *Uintptr) Load() uintptr                    { pt(x, false); return x.v.Load() }
func (x *Uintptr) Store(n uintptr)                  { pt(x, true); x.v.Store(n) }
func (x *Uintptr) Swap(n uintptr) uintptr           { pt(x, true); return x.v.Swap(n) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { pt(x, true); return x.v.CompareAndSwap(o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { return x.v.Add(d) }

type Bool struct{ v atomic.Bool }

func (x *Bool) Load() bool                    { pt(x, false); return x.v.Load() }
func (x *Bool) Store(n bool)                  { pt(x, true); x.v.Store(n) }
func (x *Bool) Swap(n bool) bool              { pt(x, true); return x.v.Swap(n) }
func (x *Bool) CompareAndSwap(o, n bool) bool { pt(x, true); return x.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (x *Value) Load() any                    { pt(x, false); return x.v.Load() }
func (x *Value) Store(n any)                  { pt(x, true); x.v.Store(n) }
func (x *Value) Swap(n any) any               { pt(x, true); return x.v.Swap(n) }
func (x *Value) CompareAndSwap(o, n any) bool { pt(x, true); return x.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Pointer[T]) Load() *T                    { pt(x, false); return x.v.Load() }
func (x *Pointer[T]) Store(n *T)                  { pt(x, true); x.v.Store(n) }
func (x *Pointer[T]) Swap(n *T) *T                { pt(x, true); return x.v.Swap(n) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { pt(x, true); return x.v.CompareAndSwap(o, n) }
