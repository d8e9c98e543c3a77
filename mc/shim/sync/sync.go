// Package sync stands in for the standard package in instrumented code.
package sync

import "vmc/rt"

type (
	Mutex     = rt.Mutex
	RWMutex   = rt.RWMutex
	WaitGroup = rt.WaitGroup
	Once      = rt.Once
	Cond      = rt.Cond
	Pool      = rt.Pool
	Locker    = rt.Locker
	Map       = rt.SyncMap
)

func NewCond(l Locker) *Cond { return rt.NewCond(l) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
