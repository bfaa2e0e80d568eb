// Package xcontext stands in for context.
package xcontext

import (
	"context"
	"dst/sim"
	"dst/x/xtime"
	"time"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context                   { return context.Background() }
func TODO() Context                         { return context.TODO() }
func WithValue(p Context, k, v any) Context { return context.WithValue(p, k, v) }
func WithoutCancel(p Context) Context       { return context.WithoutCancel(p) }

type causeKey struct{}

var site = sim.Site("context")

type ctx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	kids     []*ctx
	after    []func()
	deadline time.Time
	hasDl    bool
	vc       sim.VC
	tm       *xtime.Timer
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	if sim.S != nil {
		sim.SyncPoint(site)
	}
	if c.err != nil {
		sim.Acquire(&c.vc)
	}
	return c.err
}
func (c *ctx) Value(k any) any {
	if k == (causeKey{}) {
		return c
	}
	return c.parent.Value(k)
}

func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	sim.Release(&c.vc)
	if c.tm != nil {
		c.tm.Stop()
	}
	sim.Close[struct{}](site, c.done)
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
	c.kids = nil
	for _, f := range c.after {
		sim.Go(f)
	}
	c.after = nil
}

func newCtx(p Context) *ctx {
	if p == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: p, done: make(chan struct{})}
	if pc, ok := p.Value(causeKey{}).(*ctx); ok && pc != nil {
		if pc.err != nil {
			c.cancel(pc.err, pc.cause)
		} else {
			pc.kids = append(pc.kids, c)
		}
	}
	return c
}

func WithCancel(p Context) (Context, CancelFunc) {
	sim.SyncPoint(site)
	c := newCtx(p)
	return c, func() {
		if sim.SyncPoint(site) {
			c.cancel(Canceled, nil)
		}
	}
}

func WithCancelCause(p Context) (Context, CancelCauseFunc) {
	sim.SyncPoint(site)
	c := newCtx(p)
	return c, func(e error) {
		if sim.SyncPoint(site) {
			c.cancel(Canceled, e)
		}
	}
}

func WithDeadline(p Context, d time.Time) (Context, CancelFunc) { return WithDeadlineCause(p, d, nil) }

func WithDeadlineCause(p Context, d time.Time, cause error) (Context, CancelFunc) {
	sim.SyncPoint(site)
	c := newCtx(p)
	c.hasDl, c.deadline = true, d
	if pd, ok := p.Deadline(); ok && pd.Before(d) {
		c.deadline = pd
	}
	if c.err == nil {
		left := xtime.Until(d)
		if left <= 0 {
			c.cancel(DeadlineExceeded, cause)
		} else {
			c.tm = xtime.AfterFunc(left, func() { c.tm = nil; c.cancel(DeadlineExceeded, cause) })
		}
	}
	return c, func() {
		if sim.SyncPoint(site) {
			c.cancel(Canceled, nil)
		}
	}
}

func WithTimeout(p Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(p, xtime.Now().Add(d))
}

func WithTimeoutCause(p Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(p, xtime.Now().Add(d), cause)
}

func Cause(p Context) error {
	if c, ok := p.Value(causeKey{}).(*ctx); ok && c != nil {
		return c.cause
	}
	return p.Err()
}

func AfterFunc(p Context, f func()) (stop func() bool) {
	sim.SyncPoint(site)
	c, ok := p.Value(causeKey{}).(*ctx)
	if !ok || c == nil {
		return func() bool { return true }
	}
	if c.err != nil {
		sim.Go(f)
		return func() bool { return false }
	}
	done := false
	c.after = append(c.after, func() {
		if !done {
			done = true
			f()
		}
	})
	return func() bool {
		if done {
			return false
		}
		done = true
		return c.err == nil
	}
}
