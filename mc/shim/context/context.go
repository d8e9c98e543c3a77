// Package context stands in for the standard package in instrumented code.
package context

import (
	"context"
	"time"

	"vmc/rt"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context                        { return context.Background() }
func TODO() Context                              { return context.TODO() }
func WithCancel(p Context) (Context, CancelFunc) { return context.WithCancel(p) }
func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	return context.WithCancelCause(p)
}
func WithValue(p Context, k, v interface{}) Context { return context.WithValue(p, k, v) }
func Cause(c Context) error                         { return context.Cause(c) }
func WithoutCancel(p Context) Context               { return context.WithoutCancel(p) }

type dctx struct {
	context.Context
	when    time.Time
	expired bool
}

func (d *dctx) Deadline() (time.Time, bool) { return d.when, true }
func (d *dctx) Err() error {
	if d.expired {
		return context.DeadlineExceeded
	}
	return d.Context.Err()
}

func WithDeadline(p Context, t time.Time) (Context, CancelFunc) {
	if pd, ok := p.Deadline(); ok && pd.Before(t) {
		t = pd
	}
	c, cancel := context.WithCancel(p)
	d := &dctx{Context: c, when: t}
	stop := rt.Timeout(t.Sub(rt.TimeNow()), func() {
		if c.Err() == nil {
			d.expired = true
		}
		cancel()
	})
	return d, func() { stop(); cancel() }
}

func WithTimeout(p Context, t time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, rt.TimeNow().Add(t))
}
