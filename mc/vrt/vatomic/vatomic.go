// Package atomic stands in for package sync/atomic under the controlled scheduler.
package atomic

import (
	"unsafe"

	"verifmc/vrt"
)

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func load[T any](p *T) (v T) { vrt.Atomic(unsafe.Pointer(p), func() { v = *p }); return }
func store[T any](p *T, v T) { vrt.Atomic(unsafe.Pointer(p), func() { *p = v }) }
func swap[T any](p *T, v T) (old T) {
	vrt.Atomic(unsafe.Pointer(p), func() { old, *p = *p, v })
	return
}
func cas[T comparable](p *T, old, v T) (ok bool) {
	vrt.Atomic(unsafe.Pointer(p), func() {
		if ok = *p == old; ok {
			*p = v
		}
	})
	return
}
func add[T num](p *T, d T) (v T) { vrt.Atomic(unsafe.Pointer(p), func() { *p += d; v = *p }); return }
func and[T num](p *T, d T) (v T) { vrt.Atomic(unsafe.Pointer(p), func() { v = *p; *p &= d }); return }
func or[T num](p *T, d T) (v T)  { vrt.Atomic(unsafe.Pointer(p), func() { v = *p; *p |= d }); return }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { return load(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { store(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	return swap(p, v)
}
func CompareAndSwapPointer(p *unsafe.Pointer, old, v unsafe.Pointer) bool { return cas(p, old, v) }

type Bool struct{ v bool }

func (x *Bool) Load() bool                    { return load(&x.v) }
func (x *Bool) Store(v bool)                  { store(&x.v, v) }
func (x *Bool) Swap(v bool) bool              { return swap(&x.v, v) }
func (x *Bool) CompareAndSwap(o, v bool) bool { return cas(&x.v, o, v) }

type Pointer[T any] struct{ v *T }

func (x *Pointer[T]) Load() *T                    { return load(&x.v) }
func (x *Pointer[T]) Store(v *T)                  { store(&x.v, v) }
func (x *Pointer[T]) Swap(v *T) *T                { return swap(&x.v, v) }
func (x *Pointer[T]) CompareAndSwap(o, v *T) bool { return cas(&x.v, o, v) }

type Value struct{ v any }

func (x *Value) Load() any                    { return load(&x.v) }
func (x *Value) Store(v any)                  { store(&x.v, v) }
func (x *Value) Swap(v any) any               { return swap(&x.v, v) }
func (x *Value) CompareAndSwap(o, v any) bool { return cas(&x.v, o, v) }

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                        { return load(&x.v) }
func (x *Int32) Store(v int32)                      { store(&x.v, v) }
func (x *Int32) Swap(v int32) int32                 { return swap(&x.v, v) }
func (x *Int32) CompareAndSwap(o, v int32) bool     { return cas(&x.v, o, v) }
func (x *Int32) Add(d int32) int32                  { return add(&x.v, d) }
func (x *Int32) And(d int32) int32                  { return and(&x.v, d) }
func (x *Int32) Or(d int32) int32                   { return or(&x.v, d) }
func LoadInt32(p *int32) int32                      { return load(p) }
func StoreInt32(p *int32, v int32)                  { store(p, v) }
func SwapInt32(p *int32, v int32) int32             { return swap(p, v) }
func AddInt32(p *int32, d int32) int32              { return add(p, d) }
func AndInt32(p *int32, d int32) int32              { return and(p, d) }
func OrInt32(p *int32, d int32) int32               { return or(p, d) }
func CompareAndSwapInt32(p *int32, o, v int32) bool { return cas(p, o, v) }

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                        { return load(&x.v) }
func (x *Int64) Store(v int64)                      { store(&x.v, v) }
func (x *Int64) Swap(v int64) int64                 { return swap(&x.v, v) }
func (x *Int64) CompareAndSwap(o, v int64) bool     { return cas(&x.v, o, v) }
func (x *Int64) Add(d int64) int64                  { return add(&x.v, d) }
func (x *Int64) And(d int64) int64                  { return and(&x.v, d) }
func (x *Int64) Or(d int64) int64                   { return or(&x.v, d) }
func LoadInt64(p *int64) int64                      { return load(p) }
func StoreInt64(p *int64, v int64)                  { store(p, v) }
func SwapInt64(p *int64, v int64) int64             { return swap(p, v) }
func AddInt64(p *int64, d int64) int64              { return add(p, d) }
func AndInt64(p *int64, d int64) int64              { return and(p, d) }
func OrInt64(p *int64, d int64) int64               { return or(p, d) }
func CompareAndSwapInt64(p *int64, o, v int64) bool { return cas(p, o, v) }

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                         { return load(&x.v) }
func (x *Uint32) Store(v uint32)                       { store(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32                 { return swap(&x.v, v) }
func (x *Uint32) CompareAndSwap(o, v uint32) bool      { return cas(&x.v, o, v) }
func (x *Uint32) Add(d uint32) uint32                  { return add(&x.v, d) }
func (x *Uint32) And(d uint32) uint32                  { return and(&x.v, d) }
func (x *Uint32) Or(d uint32) uint32                   { return or(&x.v, d) }
func LoadUint32(p *uint32) uint32                      { return load(p) }
func StoreUint32(p *uint32, v uint32)                  { store(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return swap(p, v) }
func AddUint32(p *uint32, d uint32) uint32             { return add(p, d) }
func AndUint32(p *uint32, d uint32) uint32             { return and(p, d) }
func OrUint32(p *uint32, d uint32) uint32              { return or(p, d) }
func CompareAndSwapUint32(p *uint32, o, v uint32) bool { return cas(p, o, v) }

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                         { return load(&x.v) }
func (x *Uint64) Store(v uint64)                       { store(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64                 { return swap(&x.v, v) }
func (x *Uint64) CompareAndSwap(o, v uint64) bool      { return cas(&x.v, o, v) }
func (x *Uint64) Add(d uint64) uint64                  { return add(&x.v, d) }
func (x *Uint64) And(d uint64) uint64                  { return and(&x.v, d) }
func (x *Uint64) Or(d uint64) uint64                   { return or(&x.v, d) }
func LoadUint64(p *uint64) uint64                      { return load(p) }
func StoreUint64(p *uint64, v uint64)                  { store(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return swap(p, v) }
func AddUint64(p *uint64, d uint64) uint64             { return add(p, d) }
func AndUint64(p *uint64, d uint64) uint64             { return and(p, d) }
func OrUint64(p *uint64, d uint64) uint64              { return or(p, d) }
func CompareAndSwapUint64(p *uint64, o, v uint64) bool { return cas(p, o, v) }

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                          { return load(&x.v) }
func (x *Uintptr) Store(v uintptr)                        { store(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr                 { return swap(&x.v, v) }
func (x *Uintptr) CompareAndSwap(o, v uintptr) bool       { return cas(&x.v, o, v) }
func (x *Uintptr) Add(d uintptr) uintptr                  { return add(&x.v, d) }
func (x *Uintptr) And(d uintptr) uintptr                  { return and(&x.v, d) }
func (x *Uintptr) Or(d uintptr) uintptr                   { return or(&x.v, d) }
func LoadUintptr(p *uintptr) uintptr                      { return load(p) }
func StoreUintptr(p *uintptr, v uintptr)                  { store(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr           { return swap(p, v) }
func AddUintptr(p *uintptr, d uintptr) uintptr            { return add(p, d) }
func AndUintptr(p *uintptr, d uintptr) uintptr            { return and(p, d) }
func OrUintptr(p *uintptr, d uintptr) uintptr             { return or(p, d) }
func CompareAndSwapUintptr(p *uintptr, o, v uintptr) bool { return cas(p, o, v) }
