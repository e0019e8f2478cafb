//go:build go1.21

// Package matomic is sync/atomic with a scheduling point before each
// operation (the operation itself is the real atomic one, so the race
// detector sees real atomics in race builds).
package matomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
)

func p() { mcrt.AtomicPoint() }

func AddInt32(a *int32, d int32) int32      { p(); return atomic.AddInt32(a, d) }
func AddInt64(a *int64, d int64) int64      { p(); return atomic.AddInt64(a, d) }
func AddUint32(a *uint32, d uint32) uint32  { p(); return atomic.AddUint32(a, d) }
func AddUint64(a *uint64, d uint64) uint64  { p(); return atomic.AddUint64(a, d) }
func LoadInt32(a *int32) int32              { p(); return atomic.LoadInt32(a) }
func LoadInt64(a *int64) int64              { p(); return atomic.LoadInt64(a) }
func LoadUint32(a *uint32) uint32           { p(); return atomic.LoadUint32(a) }
func LoadUint64(a *uint64) uint64           { p(); return atomic.LoadUint64(a) }
func StoreInt32(a *int32, v int32)          { p(); atomic.StoreInt32(a, v) }
func StoreInt64(a *int64, v int64)          { p(); atomic.StoreInt64(a, v) }
func StoreUint32(a *uint32, v uint32)       { p(); atomic.StoreUint32(a, v) }
func StoreUint64(a *uint64, v uint64)       { p(); atomic.StoreUint64(a, v) }
func SwapInt32(a *int32, v int32) int32     { p(); return atomic.SwapInt32(a, v) }
func SwapInt64(a *int64, v int64) int64     { p(); return atomic.SwapInt64(a, v) }
func SwapUint32(a *uint32, v uint32) uint32 { p(); return atomic.SwapUint32(a, v) }
func SwapUint64(a *uint64, v uint64) uint64 { p(); return atomic.SwapUint64(a, v) }
func CompareAndSwapInt32(a *int32, o, n int32) bool {
	p()
	return atomic.CompareAndSwapInt32(a, o, n)
}
func CompareAndSwapInt64(a *int64, o, n int64) bool {
	p()
	return atomic.CompareAndSwapInt64(a, o, n)
}
func CompareAndSwapUint32(a *uint32, o, n uint32) bool {
	p()
	return atomic.CompareAndSwapUint32(a, o, n)
}
func CompareAndSwapUint64(a *uint64, o, n uint64) bool {
	p()
	return atomic.CompareAndSwapUint64(a, o, n)
}
func LoadPointer(a *unsafe.Pointer) unsafe.Pointer     { p(); return atomic.LoadPointer(a) }
func StorePointer(a *unsafe.Pointer, v unsafe.Pointer) { p(); atomic.StorePointer(a, v) }
func CompareAndSwapPointer(a *unsafe.Pointer, o, n unsafe.Pointer) bool {
	p()
	return atomic.CompareAndSwapPointer(a, o, n)
}

// Value models atomic.Value.
type Value struct{ v atomic.Value }

func (v *Value) Load() interface{}   { p(); return v.v.Load() }
func (v *Value) Store(x interface{}) { p(); v.v.Store(x) }
func (v *Value) Swap(x interface{}) interface{} {
	p()
	return v.v.Swap(x)
}
func (v *Value) CompareAndSwap(o, n interface{}) bool { p(); return v.v.CompareAndSwap(o, n) }

type Int32 struct{ v atomic.Int32 }

func (v *Int32) Load() int32                    { p(); return v.v.Load() }
func (v *Int32) Store(x int32)                  { p(); v.v.Store(x) }
func (v *Int32) Add(x int32) int32              { p(); return v.v.Add(x) }
func (v *Int32) Swap(x int32) int32             { p(); return v.v.Swap(x) }
func (v *Int32) CompareAndSwap(o, n int32) bool { p(); return v.v.CompareAndSwap(o, n) }

type Int64 struct{ v atomic.Int64 }

func (v *Int64) Load() int64                    { p(); return v.v.Load() }
func (v *Int64) Store(x int64)                  { p(); v.v.Store(x) }
func (v *Int64) Add(x int64) int64              { p(); return v.v.Add(x) }
func (v *Int64) Swap(x int64) int64             { p(); return v.v.Swap(x) }
func (v *Int64) CompareAndSwap(o, n int64) bool { p(); return v.v.CompareAndSwap(o, n) }

type Uint32 struct{ v atomic.Uint32 }

func (v *Uint32) Load() uint32                    { p(); return v.v.Load() }
func (v *Uint32) Store(x uint32)                  { p(); v.v.Store(x) }
func (v *Uint32) Add(x uint32) uint32             { p(); return v.v.Add(x) }
func (v *Uint32) Swap(x uint32) uint32            { p(); return v.v.Swap(x) }
func (v *Uint32) CompareAndSwap(o, n uint32) bool { p(); return v.v.CompareAndSwap(o, n) }

type Uint64 struct{ v atomic.Uint64 }

func (v *Uint64) Load() uint64                    { p(); return v.v.Load() }
func (v *Uint64) Store(x uint64)                  { p(); v.v.Store(x) }
func (v *Uint64) Add(x uint64) uint64             { p(); return v.v.Add(x) }
func (v *Uint64) Swap(x uint64) uint64            { p(); return v.v.Swap(x) }
func (v *Uint64) CompareAndSwap(o, n uint64) bool { p(); return v.v.CompareAndSwap(o, n) }

type Bool struct{ v atomic.Bool }

func (v *Bool) Load() bool                    { p(); return v.v.Load() }
func (v *Bool) Store(x bool)                  { p(); v.v.Store(x) }
func (v *Bool) Swap(x bool) bool              { p(); return v.v.Swap(x) }
func (v *Bool) CompareAndSwap(o, n bool) bool { p(); return v.v.CompareAndSwap(o, n) }

// Pointer models atomic.Pointer.
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (v *Pointer[T]) Load() *T                    { p(); return v.v.Load() }
func (v *Pointer[T]) Store(x *T)                  { p(); v.v.Store(x) }
func (v *Pointer[T]) Swap(x *T) *T                { p(); return v.v.Swap(x) }
func (v *Pointer[T]) CompareAndSwap(o, n *T) bool { p(); return v.v.CompareAndSwap(o, n) }
