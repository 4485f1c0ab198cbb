// Package satomic replaces sync/atomic inside the simulation: each operation is a scheduling point followed
// by one indivisible step, and is sequentially consistent for the race detector.
package satomic

import (
	"unsafe"

	"gRedis/verifsim/sim"
)

func step(p unsafe.Pointer) {
	sim.YS()
	sim.AtomicSync(p)
}

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func add[T num](p *T, d T) T { step(unsafe.Pointer(p)); *p += d; return *p }
func load[T any](p *T) T     { step(unsafe.Pointer(p)); return *p }
func store[T any](p *T, v T) { step(unsafe.Pointer(p)); *p = v }
func swap[T any](p *T, v T) T {
	step(unsafe.Pointer(p))
	o := *p
	*p = v
	return o
}
func cas[T comparable](p *T, o, n T) bool {
	step(unsafe.Pointer(p))
	if *p == o {
		*p = n
		return true
	}
	return false
}
func and[T num](p *T, m T) T { step(unsafe.Pointer(p)); o := *p; *p &= m; return o }
func or[T num](p *T, m T) T  { step(unsafe.Pointer(p)); o := *p; *p |= m; return o }

func AddInt32(p *int32, d int32) int32                 { return add(p, d) }
func AddInt64(p *int64, d int64) int64                 { return add(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { return add(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { return add(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr         { return add(p, d) }
func LoadInt32(p *int32) int32                         { return load(p) }
func LoadInt64(p *int64) int64                         { return load(p) }
func LoadUint32(p *uint32) uint32                      { return load(p) }
func LoadUint64(p *uint64) uint64                      { return load(p) }
func LoadUintptr(p *uintptr) uintptr                   { return load(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { return load(p) }
func StoreInt32(p *int32, v int32)                     { store(p, v) }
func StoreInt64(p *int64, v int64)                     { store(p, v) }
func StoreUint32(p *uint32, v uint32)                  { store(p, v) }
func StoreUint64(p *uint64, v uint64)                  { store(p, v) }
func StoreUintptr(p *uintptr, v uintptr)               { store(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { store(p, v) }
func SwapInt32(p *int32, v int32) int32                { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64                { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return swap(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	return swap(p, v)
}
func CompareAndSwapInt32(p *int32, o, n int32) bool       { return cas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool       { return cas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool    { return cas(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool    { return cas(p, o, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool { return cas(p, o, n) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	return cas(p, o, n)
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                    { return load(&x.v) }
func (x *Int32) Store(v int32)                  { store(&x.v, v) }
func (x *Int32) Swap(v int32) int32             { return swap(&x.v, v) }
func (x *Int32) Add(d int32) int32              { return add(&x.v, d) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return cas(&x.v, o, n) }
func (x *Int32) And(m int32) int32              { return and(&x.v, m) }
func (x *Int32) Or(m int32) int32               { return or(&x.v, m) }

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                    { return load(&x.v) }
func (x *Int64) Store(v int64)                  { store(&x.v, v) }
func (x *Int64) Swap(v int64) int64             { return swap(&x.v, v) }
func (x *Int64) Add(d int64) int64              { return add(&x.v, d) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return cas(&x.v, o, n) }
func (x *Int64) And(m int64) int64              { return and(&x.v, m) }
func (x *Int64) Or(m int64) int64               { return or(&x.v, m) }

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                    { return load(&x.v) }
func (x *Uint32) Store(v uint32)                  { store(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32            { return swap(&x.v, v) }
func (x *Uint32) Add(d uint32) uint32             { return add(&x.v, d) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return cas(&x.v, o, n) }

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                    { return load(&x.v) }
func (x *Uint64) Store(v uint64)                  { store(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64            { return swap(&x.v, v) }
func (x *Uint64) Add(d uint64) uint64             { return add(&x.v, d) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return cas(&x.v, o, n) }

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                    { return load(&x.v) }
func (x *Uintptr) Store(v uintptr)                  { store(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return swap(&x.v, v) }
func (x *Uintptr) Add(d uintptr) uintptr            { return add(&x.v, d) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return cas(&x.v, o, n) }

type Bool struct{ v bool }

func (x *Bool) Load() bool                    { return load(&x.v) }
func (x *Bool) Store(v bool)                  { store(&x.v, v) }
func (x *Bool) Swap(v bool) bool              { return swap(&x.v, v) }
func (x *Bool) CompareAndSwap(o, n bool) bool { return cas(&x.v, o, n) }

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T                    { return load(&x.v) }
func (x *Pointer[T]) Store(v *T)                  { store(&x.v, v) }
func (x *Pointer[T]) Swap(v *T) *T                { return swap(&x.v, v) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool { return cas(&x.v, o, n) }

type Value struct{ v any }

func (x *Value) Load() any                    { return load(&x.v) }
func (x *Value) Store(v any)                  { store(&x.v, v) }
func (x *Value) Swap(v any) any               { return swap(&x.v, v) }
func (x *Value) CompareAndSwap(o, n any) bool { return cas(&x.v, o, n) }
