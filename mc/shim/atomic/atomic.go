// Package atomic stands in for sync/atomic in instrumented code.
package atomic

import (
	"reflect"
	"unsafe"

	"vmc/rt"
)

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func at[T any](p *T, w bool) { rt.AtomicOp(rt.AddrObj(unsafe.Pointer(p)), w) }

func add[T integer](p *T, d T) T { at(p, true); *p += d; return *p }
func load[T any](p *T) T         { at(p, false); return *p }
func store[T any](p *T, v T)     { at(p, true); *p = v }
func swap[T any](p *T, v T) T    { at(p, true); o := *p; *p = v; return o }
func cas[T comparable](p *T, o, n T) bool {
	at(p, true)
	if *p == o {
		*p = n
		return true
	}
	return false
}

func AddInt32(p *int32, d int32) int32                                  { return add(p, d) }
func AddInt64(p *int64, d int64) int64                                  { return add(p, d) }
func AddUint32(p *uint32, d uint32) uint32                              { return add(p, d) }
func AddUint64(p *uint64, d uint64) uint64                              { return add(p, d) }
func AddUintptr(p *uintptr, d uintptr) uintptr                          { return add(p, d) }
func LoadInt32(p *int32) int32                                          { return load(p) }
func LoadInt64(p *int64) int64                                          { return load(p) }
func LoadUint32(p *uint32) uint32                                       { return load(p) }
func LoadUint64(p *uint64) uint64                                       { return load(p) }
func LoadUintptr(p *uintptr) uintptr                                    { return load(p) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer                      { return load(p) }
func StoreInt32(p *int32, v int32)                                      { store(p, v) }
func StoreInt64(p *int64, v int64)                                      { store(p, v) }
func StoreUint32(p *uint32, v uint32)                                   { store(p, v) }
func StoreUint64(p *uint64, v uint64)                                   { store(p, v) }
func StoreUintptr(p *uintptr, v uintptr)                                { store(p, v) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer)                  { store(p, v) }
func SwapInt32(p *int32, v int32) int32                                 { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64                                 { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32                             { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64                             { return swap(p, v) }
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer    { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool                     { return cas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool                     { return cas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool                  { return cas(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool                  { return cas(p, o, n) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool               { return cas(p, o, n) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool { return cas(p, o, n) }

type num[T integer] struct {
	o rt.Obj
	v T
}

func (x *num[T]) Load() T    { rt.AtomicOp(&x.o, false); return x.v }
func (x *num[T]) Store(v T)  { rt.AtomicOp(&x.o, true); x.v = v }
func (x *num[T]) Add(d T) T  { rt.AtomicOp(&x.o, true); x.v += d; return x.v }
func (x *num[T]) Swap(v T) T { rt.AtomicOp(&x.o, true); o := x.v; x.v = v; return o }
func (x *num[T]) And(m T) T  { rt.AtomicOp(&x.o, true); o := x.v; x.v &= m; return o }
func (x *num[T]) Or(m T) T   { rt.AtomicOp(&x.o, true); o := x.v; x.v |= m; return o }
func (x *num[T]) CompareAndSwap(o, n T) bool {
	rt.AtomicOp(&x.o, true)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type (
	Int32   struct{ num[int32] }
	Int64   struct{ num[int64] }
	Uint32  struct{ num[uint32] }
	Uint64  struct{ num[uint64] }
	Uintptr struct{ num[uintptr] }
)

type Bool struct {
	o rt.Obj
	v bool
}

func (x *Bool) Load() bool       { rt.AtomicOp(&x.o, false); return x.v }
func (x *Bool) Store(v bool)     { rt.AtomicOp(&x.o, true); x.v = v }
func (x *Bool) Swap(v bool) bool { rt.AtomicOp(&x.o, true); o := x.v; x.v = v; return o }
func (x *Bool) CompareAndSwap(o, n bool) bool {
	rt.AtomicOp(&x.o, true)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Pointer[T any] struct {
	o rt.Obj
	v *T
}

func (x *Pointer[T]) Load() *T     { rt.AtomicOp(&x.o, false); return x.v }
func (x *Pointer[T]) Store(v *T)   { rt.AtomicOp(&x.o, true); x.v = v }
func (x *Pointer[T]) Swap(v *T) *T { rt.AtomicOp(&x.o, true); o := x.v; x.v = v; return o }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	rt.AtomicOp(&x.o, true)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}

type Value struct {
	o rt.Obj
	v interface{}
}

func (x *Value) Load() interface{} { rt.AtomicOp(&x.o, false); return x.v }
func (x *Value) Store(v interface{}) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	rt.AtomicOp(&x.o, true)
	if x.v != nil && reflect.TypeOf(x.v) != reflect.TypeOf(v) {
		panic("sync/atomic: store of inconsistently typed value into Value")
	}
	x.v = v
}
func (x *Value) Swap(v interface{}) interface{} {
	rt.AtomicOp(&x.o, true)
	o := x.v
	x.v = v
	return o
}
func (x *Value) CompareAndSwap(o, n interface{}) bool {
	rt.AtomicOp(&x.o, true)
	if x.v == o {
		x.v = n
		return true
	}
	return false
}
