// Package vatomic mirrors sync/atomic with a scheduling point before every
// operation.
package vatomic

import (
	"sync/atomic"
	"unsafe"

	"verif/sched"
)

func pt() {
	if sched.Cur() != nil && !sched.Killing() {
		sched.PointAt("atomic")
	}
}

type Bool struct{ v atomic.Bool }

func (b *Bool) Load() bool                    { pt(); return b.v.Load() }
func (b *Bool) Store(x bool)                  { pt(); b.v.Store(x) }
func (b *Bool) Swap(x bool) bool              { pt(); return b.v.Swap(x) }
func (b *Bool) CompareAndSwap(o, n bool) bool { pt(); return b.v.CompareAndSwap(o, n) }

type Value struct{ v atomic.Value }

func (b *Value) Load() any                    { pt(); return b.v.Load() }
func (b *Value) Store(x any)                  { pt(); b.v.Store(x) }
func (b *Value) Swap(x any) any               { pt(); return b.v.Swap(x) }
func (b *Value) CompareAndSwap(o, n any) bool { pt(); return b.v.CompareAndSwap(o, n) }

type Pointer[T any] struct{ v atomic.Pointer[T] }

func (b *Pointer[T]) Load() *T                    { pt(); return b.v.Load() }
func (b *Pointer[T]) Store(x *T)                  { pt(); b.v.Store(x) }
func (b *Pointer[T]) Swap(x *T) *T                { pt(); return b.v.Swap(x) }
func (b *Pointer[T]) CompareAndSwap(o, n *T) bool { pt(); return b.v.CompareAndSwap(o, n) }

type Int32 struct{ v atomic.Int32 }

func (b *Int32) Load() int32                    { pt(); return b.v.Load() }
func (b *Int32) Store(x int32)                  { pt(); b.v.Store(x) }
func (b *Int32) Swap(x int32) int32             { pt(); return b.v.Swap(x) }
func (b *Int32) CompareAndSwap(o, n int32) bool { pt(); return b.v.CompareAndSwap(o, n) }
func (b *Int32) Add(d int32) int32              { pt(); return b.v.Add(d) }
func (b *Int32) And(m int32) int32              { pt(); return b.v.And(m) }
func (b *Int32) Or(m int32) int32               { pt(); return b.v.Or(m) }

func LoadInt32(p *int32) int32                      { pt(); return atomic.LoadInt32(p) }
func StoreInt32(p *int32, x int32)                  { pt(); atomic.StoreInt32(p, x) }
func SwapInt32(p *int32, x int32) int32             { pt(); return atomic.SwapInt32(p, x) }
func CompareAndSwapInt32(p *int32, o, n int32) bool { pt(); return atomic.CompareAndSwapInt32(p, o, n) }
func AddInt32(p *int32, d int32) int32              { pt(); return atomic.AddInt32(p, d) }
func AndInt32(p *int32, m int32) int32              { pt(); return atomic.AndInt32(p, m) }
func OrInt32(p *int32, m int32) int32               { pt(); return atomic.OrInt32(p, m) }

type Int64 struct{ v atomic.Int64 }

func (b *Int64) Load() int64                    { pt(); return b.v.Load() }
func (b *Int64) Store(x int64)                  { pt(); b.v.Store(x) }
func (b *Int64) Swap(x int64) int64             { pt(); return b.v.Swap(x) }
func (b *Int64) CompareAndSwap(o, n int64) bool { pt(); return b.v.CompareAndSwap(o, n) }
func (b *Int64) Add(d int64) int64              { pt(); return b.v.Add(d) }
func (b *Int64) And(m int64) int64              { pt(); return b.v.And(m) }
func (b *Int64) Or(m int64) int64               { pt(); return b.v.Or(m) }

func LoadInt64(p *int64) int64                      { pt(); return atomic.LoadInt64(p) }
func StoreInt64(p *int64, x int64)                  { pt(); atomic.StoreInt64(p, x) }
func SwapInt64(p *int64, x int64) int64             { pt(); return atomic.SwapInt64(p, x) }
func CompareAndSwapInt64(p *int64, o, n int64) bool { pt(); return atomic.CompareAndSwapInt64(p, o, n) }
func AddInt64(p *int64, d int64) int64              { pt(); return atomic.AddInt64(p, d) }
func AndInt64(p *int64, m int64) int64              { pt(); return atomic.AndInt64(p, m) }
func OrInt64(p *int64, m int64) int64               { pt(); return atomic.OrInt64(p, m) }

type Uint32 struct{ v atomic.Uint32 }

func (b *Uint32) Load() uint32                    { pt(); return b.v.Load() }
func (b *Uint32) Store(x uint32)                  { pt(); b.v.Store(x) }
func (b *Uint32) Swap(x uint32) uint32            { pt(); return b.v.Swap(x) }
func (b *Uint32) CompareAndSwap(o, n uint32) bool { pt(); return b.v.CompareAndSwap(o, n) }
func (b *Uint32) Add(d uint32) uint32             { pt(); return b.v.Add(d) }
func (b *Uint32) And(m uint32) uint32             { pt(); return b.v.And(m) }
func (b *Uint32) Or(m uint32) uint32              { pt(); return b.v.Or(m) }

func LoadUint32(p *uint32) uint32           { pt(); return atomic.LoadUint32(p) }
func StoreUint32(p *uint32, x uint32)       { pt(); atomic.StoreUint32(p, x) }
func SwapUint32(p *uint32, x uint32) uint32 { pt(); return atomic.SwapUint32(p, x) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	pt()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func AddUint32(p *uint32, d uint32) uint32 { pt(); return atomic.AddUint32(p, d) }
func AndUint32(p *uint32, m uint32) uint32 { pt(); return atomic.AndUint32(p, m) }
func OrUint32(p *uint32, m uint32) uint32  { pt(); return atomic.OrUint32(p, m) }

type Uint64 struct{ v atomic.Uint64 }

func (b *Uint64) Load() uint64                    { pt(); return b.v.Load() }
func (b *Uint64) Store(x uint64)                  { pt(); b.v.Store(x) }
func (b *Uint64) Swap(x uint64) uint64            { pt(); return b.v.Swap(x) }
func (b *Uint64) CompareAndSwap(o, n uint64) bool { pt(); return b.v.CompareAndSwap(o, n) }
func (b *Uint64) Add(d uint64) uint64             { pt(); return b.v.Add(d) }
func (b *Uint64) And(m uint64) uint64             { pt(); return b.v.And(m) }
func (b *Uint64) Or(m uint64) uint64              { pt(); return b.v.Or(m) }

func LoadUint64(p *uint64) uint64           { pt(); return atomic.LoadUint64(p) }
func StoreUint64(p *uint64, x uint64)       { pt(); atomic.StoreUint64(p, x) }
func SwapUint64(p *uint64, x uint64) uint64 { pt(); return atomic.SwapUint64(p, x) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	pt()
	return atomic.CompareAndSwapUint64(p, o, n)
}
func AddUint64(p *uint64, d uint64) uint64 { pt(); return atomic.AddUint64(p, d) }
func AndUint64(p *uint64, m uint64) uint64 { pt(); return atomic.AndUint64(p, m) }
func OrUint64(p *uint64, m uint64) uint64  { pt(); return atomic.OrUint64(p, m) }

type Uintptr struct{ v atomic.Uintptr }

func (b *Uintptr) Load() uintptr                    { pt(); return b.v.Load() }
func (b *Uintptr) Store(x uintptr)                  { pt(); b.v.Store(x) }
func (b *Uintptr) Swap(x uintptr) uintptr           { pt(); return b.v.Swap(x) }
func (b *Uintptr) CompareAndSwap(o, n uintptr) bool { pt(); return b.v.CompareAndSwap(o, n) }
func (b *Uintptr) Add(d uintptr) uintptr            { pt(); return b.v.Add(d) }
func (b *Uintptr) And(m uintptr) uintptr            { pt(); return b.v.And(m) }
func (b *Uintptr) Or(m uintptr) uintptr             { pt(); return b.v.Or(m) }

func LoadUintptr(p *uintptr) uintptr            { pt(); return atomic.LoadUintptr(p) }
func StoreUintptr(p *uintptr, x uintptr)        { pt(); atomic.StoreUintptr(p, x) }
func SwapUintptr(p *uintptr, x uintptr) uintptr { pt(); return atomic.SwapUintptr(p, x) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	pt()
	return atomic.CompareAndSwapUintptr(p, o, n)
}
func AddUintptr(p *uintptr, d uintptr) uintptr { pt(); return atomic.AddUintptr(p, d) }
func AndUintptr(p *uintptr, m uintptr) uintptr { pt(); return atomic.AndUintptr(p, m) }
func OrUintptr(p *uintptr, m uintptr) uintptr  { pt(); return atomic.OrUintptr(p, m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { pt(); return atomic.LoadPointer(p) }
func StorePointer(p *unsafe.Pointer, x unsafe.Pointer) { pt(); atomic.StorePointer(p, x) }
func SwapPointer(p *unsafe.Pointer, x unsafe.Pointer) unsafe.Pointer {
	pt()
	return atomic.SwapPointer(p, x)
}
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	pt()
	return atomic.CompareAndSwapPointer(p, o, n)
}
