// Package sync stands in for the standard package in instrumented third-party
// code, whose internal operations are not scheduling points.
package sync

import "vmc/rt"

type (
	Mutex     = rt.QMutex
	RWMutex   = rt.RWMutex
	WaitGroup = rt.WaitGroup
	Once      = rt.Once
	Cond      = rt.Cond
	Pool      = rt.Pool
	Locker    = rt.Locker
	Map       = rt.SyncMap
)
