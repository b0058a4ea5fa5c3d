// Package atomic stands for sync/atomic in scheduled programs: every operation
// is a point where another thread may be chosen.
package atomic

import (
	"sync/atomic"

	"verif/mc/ssync"
)

type Int32 struct{ v atomic.Int32 }
type Int64 struct{ v atomic.Int64 }
type Uint32 struct{ v atomic.Uint32 }
type Uint64 struct{ v atomic.Uint64 }
type Bool struct{ v atomic.Bool }
type Value struct{ v atomic.Value }
type Pointer[T any] struct{ v atomic.Pointer[T] }

func (x *Int32) Load() int32                      { ssync.Yield(); return x.v.Load() }
func (x *Int32) Store(v int32)                    { ssync.Yield(); x.v.Store(v) }
func (x *Int32) Add(v int32) int32                { ssync.Yield(); return x.v.Add(v) }
func (x *Int32) Swap(v int32) int32               { ssync.Yield(); return x.v.Swap(v) }
func (x *Int32) CompareAndSwap(a, b int32) bool   { ssync.Yield(); return x.v.CompareAndSwap(a, b) }
func (x *Int64) Load() int64                      { ssync.Yield(); return x.v.Load() }
func (x *Int64) Store(v int64)                    { ssync.Yield(); x.v.Store(v) }
func (x *Int64) Add(v int64) int64                { ssync.Yield(); return x.v.Add(v) }
func (x *Int64) Swap(v int64) int64               { ssync.Yield(); return x.v.Swap(v) }
func (x *Int64) CompareAndSwap(a, b int64) bool   { ssync.Yield(); return x.v.CompareAndSwap(a, b) }
func (x *Uint32) Load() uint32                    { ssync.Yield(); return x.v.Load() }
func (x *Uint32) Store(v uint32)                  { ssync.Yield(); x.v.Store(v) }
func (x *Uint32) Add(v uint32) uint32             { ssync.Yield(); return x.v.Add(v) }
func (x *Uint32) Swap(v uint32) uint32            { ssync.Yield(); return x.v.Swap(v) }
func (x *Uint32) CompareAndSwap(a, b uint32) bool { ssync.Yield(); return x.v.CompareAndSwap(a, b) }
func (x *Uint64) Load() uint64                    { ssync.Yield(); return x.v.Load() }
func (x *Uint64) Store(v uint64)                  { ssync.Yield(); x.v.Store(v) }
func (x *Uint64) Add(v uint64) uint64             { ssync.Yield(); return x.v.Add(v) }
func (x *Uint64) Swap(v uint64) uint64            { ssync.Yield(); return x.v.Swap(v) }
func (x *Uint64) CompareAndSwap(a, b uint64) bool { ssync.Yield(); return x.v.CompareAndSwap(a, b) }
func (x *Bool) Load() bool                        { ssync.Yield(); return x.v.Load() }
func (x *Bool) Store(v bool)                      { ssync.Yield(); x.v.Store(v) }
func (x *Bool) Swap(v bool) bool                  { ssync.Yield(); return x.v.Swap(v) }
func (x *Bool) CompareAndSwap(a, b bool) bool     { ssync.Yield(); return x.v.CompareAndSwap(a, b) }
func (x *Value) Load() any                        { ssync.Yield(); return x.v.Load() }
func (x *Value) Store(v any)                      { ssync.Yield(); x.v.Store(v) }
func (x *Value) Swap(v any) any                   { ssync.Yield(); return x.v.Swap(v) }
func (x *Value) CompareAndSwap(a, b any) bool     { ssync.Yield(); return x.v.CompareAndSwap(a, b) }
func (x *Pointer[T]) Load() *T                    { ssync.Yield(); return x.v.Load() }
func (x *Pointer[T]) Store(v *T)                  { ssync.Yield(); x.v.Store(v) }
func (x *Pointer[T]) Swap(v *T) *T                { ssync.Yield(); return x.v.Swap(v) }
func (x *Pointer[T]) CompareAndSwap(a, b *T) bool { ssync.Yield(); return x.v.CompareAndSwap(a, b) }

func AddInt32(p *int32, v int32) int32     { ssync.Yield(); return atomic.AddInt32(p, v) }
func AddInt64(p *int64, v int64) int64     { ssync.Yield(); return atomic.AddInt64(p, v) }
func AddUint32(p *uint32, v uint32) uint32 { ssync.Yield(); return atomic.AddUint32(p, v) }
func AddUint64(p *uint64, v uint64) uint64 { ssync.Yield(); return atomic.AddUint64(p, v) }
func LoadInt32(p *int32) int32             { ssync.Yield(); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64             { ssync.Yield(); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32          { ssync.Yield(); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64          { ssync.Yield(); return atomic.LoadUint64(p) }
func StoreInt32(p *int32, v int32)         { ssync.Yield(); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)         { ssync.Yield(); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)      { ssync.Yield(); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)      { ssync.Yield(); atomic.StoreUint64(p, v) }

func CompareAndSwapInt32(p *int32, a, b int32) bool {
	ssync.Yield()
	return atomic.CompareAndSwapInt32(p, a, b)
}
func CompareAndSwapInt64(p *int64, a, b int64) bool {
	ssync.Yield()
	return atomic.CompareAndSwapInt64(p, a, b)
}
func CompareAndSwapUint32(p *uint32, a, b uint32) bool {
	ssync.Yield()
	return atomic.CompareAndSwapUint32(p, a, b)
}
func CompareAndSwapUint64(p *uint64, a, b uint64) bool {
	ssync.Yield()
	return atomic.CompareAndSwapUint64(p, a, b)
}
