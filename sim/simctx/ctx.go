// Package simctx is the simulator's replacement for package context; contexts are ordinary context.Context values.
package simctx

import (
	"context"
	"fmt"
	"time"

	"verif.local/sim/simrt"
)

var Canceled = context.Canceled
var DeadlineExceeded = context.DeadlineExceeded

type Context = context.Context
type CancelFunc = context.CancelFunc
type CancelCauseFunc = context.CancelCauseFunc

type cancelCtx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	children map[*cancelCtx]int
	nchild   int
	deadline time.Time
	hasDL    bool
	timer    *simrt.Timer
	stop     func()
	funcs    []*afterFn
}

type afterFn struct {
	f    func()
	done bool
}

type keyT int

var selfKey keyT

func (c *cancelCtx) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cancelCtx) Done() <-chan struct{} { simrt.Y(50); return c.done }
func (c *cancelCtx) Err() error            { simrt.Y(50); return c.err }
func (c *cancelCtx) Value(k any) any {
	if k == &selfKey {
		return c
	}
	return c.parent.Value(k)
}
func (c *cancelCtx) String() string { return fmt.Sprint(c.parent) + ".WithCancel" }

func newCtx(parent context.Context) *cancelCtx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &cancelCtx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(&selfKey).(*cancelCtx); ok && p.done == parent.Done() {
		if p.err != nil {
			c.cancel(false, p.err, p.cause)
		} else {
			if p.children == nil {
				p.children = map[*cancelCtx]int{}
			}
			p.nchild++
			p.children[c] = p.nchild
			c.stop = func() { delete(p.children, c) }
		}
	} else if parent.Err() != nil {
		c.cancel(false, parent.Err(), context.Cause(parent))
	} else if parent.Done() != nil {
		// a context implemented by harness or third-party code
		if simrt.Active() {
			d := parent.Done()
			simrt.GoNamed("ctxwatch", func() {
				a, b := simrt.RecvCase[struct{}](d), simrt.RecvCase[struct{}](c.done)
				if simrt.Select(false, a, b) == 0 {
					c.cancel(false, parent.Err(), context.Cause(parent))
				}
			}).Daemon = true
		}
	}
	return c
}

// cancel may run in scheduler context (fromTimer) and then must not yield.
func (c *cancelCtx) cancel(fromTimer bool, err, cause error) {
	if c.err != nil {
		return
	}
	if !fromTimer {
		simrt.Y(51)
		if c.err != nil {
			return
		}
	}
	c.cancelNow(err, cause)
	if !fromTimer {
		simrt.Y(51)
	}
}

func (c *cancelCtx) cancelNow(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	if simrt.Active() {
		simrt.CloseFromTimer(c.done)
	} else {
		close(c.done)
	}
	if c.timer != nil {
		c.timer.Stop()
	}
	if c.stop != nil {
		c.stop()
	}
	for _, a := range c.funcs {
		if !a.done {
			a.done = true
			f := a.f
			simrt.SpawnFromTimer("ctxafterfunc", f)
		}
	}
	// children in creation order
	for len(c.children) > 0 {
		var best *cancelCtx
		for k, n := range c.children {
			if best == nil || n < c.children[best] {
				best = k
			}
		}
		delete(c.children, best)
		best.stop = nil
		best.cancelNow(err, cause)
	}
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCtx(parent)
	return c, func() { c.cancel(false, Canceled, nil) }
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(cause error) { c.cancel(false, Canceled, cause) }
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return WithCancel(parent)
	}
	c := newCtx(parent)
	c.deadline, c.hasDL = d, true
	dur := d.UnixNano() - simrt.Now()
	if dur <= 0 {
		c.cancel(false, DeadlineExceeded, cause)
		return c, func() { c.cancel(false, Canceled, nil) }
	}
	if c.err == nil {
		c.timer = simrt.StartTimer(dur, func() { c.cancel(true, DeadlineExceeded, cause) })
	}
	return c, func() { c.cancel(false, Canceled, nil) }
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, time.Unix(0, simrt.Now()).UTC().Add(d))
}

func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, time.Unix(0, simrt.Now()).UTC().Add(d), cause)
}

func Cause(c context.Context) error {
	if p, ok := c.Value(&selfKey).(*cancelCtx); ok {
		return p.cause
	}
	return c.Err()
}

func AfterFunc(ctx context.Context, f func()) func() bool {
	p, ok := ctx.Value(&selfKey).(*cancelCtx)
	a := &afterFn{f: f}
	if ok {
		if p.err != nil {
			a.done = true
			simrt.Go(f)
		} else {
			p.funcs = append(p.funcs, a)
		}
	}
	return func() bool {
		if a.done {
			return false
		}
		a.done = true
		return true
	}
}

type withoutCancel struct{ c context.Context }

func (w withoutCancel) Deadline() (t time.Time, ok bool) { return }
func (w withoutCancel) Done() <-chan struct{}            { return nil }
func (w withoutCancel) Err() error                       { return nil }
func (w withoutCancel) Value(k any) any {
	if k == &selfKey {
		return nil
	}
	return w.c.Value(k)
}

func WithoutCancel(parent context.Context) context.Context { return withoutCancel{parent} }
