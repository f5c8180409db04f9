// Package context is the controlled stand-in for the standard package: Done channels are controlled channels.
package context

import (
	real "context"

	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/shim/time"
)

var (
	Canceled         = real.Canceled
	DeadlineExceeded = real.DeadlineExceeded
)

type CancelFunc func()
type CancelCauseFunc func(cause error)

// Context mirrors context.Context.
type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *rt.Chan[struct{}]
	Err() error
	Value(key interface{}) interface{}
}

type base struct{}

func (base) Deadline() (t time.Time, ok bool)  { return }
func (base) Done() *rt.Chan[struct{}]          { return nil }
func (base) Err() error                        { return nil }
func (base) Value(key interface{}) interface{} { return nil }

func Background() Context { return base{} }
func TODO() Context       { return base{} }

type ctx struct {
	parent   Context
	done     *rt.Chan[struct{}]
	err      error
	cause    error
	kids     []*ctx
	after    []*afterF
	deadline time.Time
	hasDL    bool
	timer    *rt.TimerHandle
	vc       rt.VC
}

type afterF struct {
	f       func()
	stopped bool
	fired   bool
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() *rt.Chan[struct{}] { return c.done }
func (c *ctx) Err() error {
	rt.Point("ctx.Err")
	rt.Acquire(&c.vc)
	return c.err
}
func (c *ctx) Value(key interface{}) interface{} {
	if key == ctxKey {
		return c
	}
	return c.parent.Value(key)
}

type keyT struct{}

var ctxKey = &keyT{}

func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	rt.Release(&c.vc)
	c.err, c.cause = err, cause
	if cause == nil {
		c.cause = err
	}
	c.done.CloseNow()
	if c.timer != nil {
		c.timer.Forget()
	}
	for _, k := range append([]*ctx{}, c.kids...) {
		k.cancel(err, c.cause)
	}
	if p, ok := c.parent.Value(ctxKey).(*ctx); ok && p != nil {
		for i, k := range p.kids {
			if k == c {
				p.kids = append(p.kids[:i:i], p.kids[i+1:]...)
				break
			}
		}
	}
	for _, a := range c.after {
		if !a.stopped && !a.fired {
			a.fired = true
			rt.SpawnFromClock("context.AfterFunc", a.f, c.vc)
		}
	}
}

// Children tells how many contexts made from c are not cancelled.
func Children(c Context) int {
	if p, ok := c.Value(ctxKey).(*ctx); ok && p != nil {
		return len(p.kids) + len(p.after)
	}
	return 0
}

func newCtx(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: rt.MakeChan[struct{}](0)}
	if p, ok := parent.Value(ctxKey).(*ctx); ok && p != nil {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() {
		if rt.Ending() {
			return
		}
		rt.Point("cancel")
		c.cancel(Canceled, nil)
	}
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) {
		if rt.Ending() {
			return
		}
		rt.Point("cancel")
		c.cancel(Canceled, cause)
	}
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := newCtx(parent)
	if cur, ok := parent.Deadline(); !ok || d.Before(cur) {
		c.deadline, c.hasDL = d, true
		if c.err == nil {
			dur := time.Until(d)
			if dur <= 0 {
				c.cancel(DeadlineExceeded, cause)
			} else {
				c.timer = rt.StartTimer(int64(dur), "context deadline", func() { c.cancel(DeadlineExceeded, cause) })
			}
		}
	}
	return c, func() {
		if rt.Ending() {
			return
		}
		rt.Point("cancel")
		c.cancel(Canceled, nil)
	}
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, time.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, time.Now().Add(d), cause)
}

type valCtx struct {
	Context
	k, v interface{}
}

func (v *valCtx) Value(key interface{}) interface{} {
	if key == v.k {
		return v.v
	}
	return v.Context.Value(key)
}

func WithValue(parent Context, key, val interface{}) Context { return &valCtx{parent, key, val} }

type noCancel struct{ c Context }

func (noCancel) Deadline() (t time.Time, ok bool) { return }
func (noCancel) Done() *rt.Chan[struct{}]         { return nil }
func (noCancel) Err() error                       { return nil }
func (n noCancel) Value(key interface{}) interface{} {
	if key == ctxKey {
		return nil
	}
	return n.c.Value(key)
}

func WithoutCancel(parent Context) Context { return noCancel{parent} }

func Cause(c Context) error {
	if p, ok := c.Value(ctxKey).(*ctx); ok && p != nil {
		return p.cause
	}
	return c.Err()
}

func AfterFunc(parent Context, f func()) (stop func() bool) {
	p, ok := parent.Value(ctxKey).(*ctx)
	a := &afterF{f: f}
	if ok && p != nil {
		if p.err != nil {
			a.fired = true
			rt.Go(f)
		} else {
			p.after = append(p.after, a)
		}
	}
	return func() bool {
		rt.Point("context.AfterFunc stop")
		if a.fired || a.stopped {
			return false
		}
		a.stopped = true
		return true
	}
}
