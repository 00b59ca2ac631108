// Package vtime replaces the time-dependent functions of package time and the timeout
// constructors of package context in instrumented code. Time is virtual inside an execution.
package vtime

import (
	"context"
	"time"

	"verif/vsched"
)

func Now() time.Time                  { return vsched.Now() }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { vsched.Sleep(d) }

func live() bool { return vsched.Active() && !vsched.Killing() }

func After(d time.Duration) <-chan time.Time {
	if !live() {
		return time.After(d)
	}
	_, ch := vsched.NewChanTimer(d, 0)
	return ch
}

func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	if !live() {
		return time.Tick(d)
	}
	_, ch := vsched.NewChanTimer(d, d)
	return ch
}

type Timer struct {
	C <-chan time.Time
	v *vsched.Timer
	n *time.Timer
}

func NewTimer(d time.Duration) *Timer {
	if !live() {
		n := time.NewTimer(d)
		return &Timer{C: n.C, n: n}
	}
	v, ch := vsched.NewChanTimer(d, 0)
	return &Timer{C: ch, v: v}
}

func AfterFunc(d time.Duration, f func()) *Timer {
	if !live() {
		return &Timer{n: time.AfterFunc(d, f)}
	}
	return &Timer{v: vsched.NewFuncTimer(d, f)}
}

func (t *Timer) Stop() bool {
	if t.n != nil {
		return t.n.Stop()
	}
	return t.v.Stop()
}

func (t *Timer) Reset(d time.Duration) bool {
	if t.n != nil {
		return t.n.Reset(d)
	}
	return t.v.Reset(d)
}

type Ticker struct {
	C <-chan time.Time
	v *vsched.Timer
	n *time.Ticker
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !live() {
		n := time.NewTicker(d)
		return &Ticker{C: n.C, n: n}
	}
	v, ch := vsched.NewChanTimer(d, d)
	return &Ticker{C: ch, v: v}
}

func (t *Ticker) Stop() {
	if t.n != nil {
		t.n.Stop()
		return
	}
	t.v.Stop()
}

func (t *Ticker) Reset(d time.Duration) {
	if t.n != nil {
		t.n.Reset(d)
		return
	}
	t.v.Reset(d)
}

// ctx is a cancellable context on virtual channels.
type ctx struct {
	context.Context
	done     chan struct{}
	err      error
	deadline time.Time
	hasDl    bool
}

func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	vsched.Point("ctx.Err")
	return c.err
}
func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.deadline, true
	}
	return c.Context.Deadline()
}

func (c *ctx) cancel(e error) {
	if c.err == nil {
		c.err = e
		vsched.Close[struct{}](c.done)
	}
}

func mk(parent context.Context) *ctx {
	c := &ctx{Context: parent, done: vsched.MakeChan[struct{}](0)}
	if p, ok := parent.(*ctx); ok {
		vsched.Go(func() {
			vsched.Recv[struct{}](p.done)
			c.cancel(p.err)
		})
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	if !live() {
		return context.WithCancel(parent)
	}
	c := mk(parent)
	return c, func() { c.cancel(context.Canceled) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	if !live() {
		return context.WithDeadline(parent, d)
	}
	return WithTimeout(parent, d.Sub(Now()))
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if !live() {
		return context.WithTimeout(parent, d)
	}
	c := mk(parent)
	c.deadline, c.hasDl = Now().Add(d), true
	t := vsched.NewFuncTimer(d, func() { c.cancel(context.DeadlineExceeded) })
	return c, func() { t.Stop(); c.cancel(context.Canceled) }
}
