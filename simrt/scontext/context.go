// Package scontext replaces the cancellable contexts of package context inside the simulation.
package scontext

import (
	"context"
	"time"

	"gRedis/verifsim/sim"
)

type cctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	has      bool
	kids     []*cctx
	after    []*sim.TaskSeed
	st       *sim.TimerRef
}

func (c *cctx) Deadline() (time.Time, bool) {
	if c.has {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *cctx) Done() <-chan struct{} { return c.done }
func (c *cctx) Err() error            { sim.YS(); return c.err }
func (c *cctx) Value(k any) any {
	if k == &ckey {
		return c
	}
	return c.parent.Value(k)
}

var ckey int

func (c *cctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	c.cause = cause
	sim.CloseQuiet(c.done)
	c.st.Cancel()
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
	for _, f := range c.after {
		f.Launch()
	}
	c.after = nil
}

// AfterFunc replaces context.AfterFunc.
func AfterFunc(ctx context.Context, f func()) (stop func() bool) {
	c, ok := ctx.Value(&ckey).(*cctx)
	if !ok {
		return context.AfterFunc(ctx, f)
	}
	if c.err != nil {
		sim.Go(f)
		return func() bool { return false }
	}
	p := sim.Seed(f)
	c.after = append(c.after, p)
	return func() bool {
		sim.YS()
		for i, q := range c.after {
			if q == p {
				c.after = append(c.after[:i:i], c.after[i+1:]...)
				return true
			}
		}
		return false
	}
}
func mk(parent context.Context) *cctx {
	c := &cctx{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(&ckey).(*cctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := mk(parent)
	return c, func() { sim.YS(); c.cancel(context.Canceled, nil) }
}
func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := mk(parent)
	return c, func(e error) { sim.YS(); c.cancel(context.Canceled, e) }
}
func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}
func WithDeadlineCause(parent context.Context, d time.Time, cause error) (context.Context, context.CancelFunc) {
	c := mk(parent)
	c.deadline, c.has = d, true
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		c.deadline = pd
	}
	if sim.S != nil && c.err == nil {
		c.st = sim.S.AfterRef(c.deadline.UnixNano()-sim.S.Now(), func() { c.cancel(context.DeadlineExceeded, cause) })
	}
	return c, func() { sim.YS(); c.cancel(context.Canceled, nil) }
}
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithTimeoutCause(parent, d, nil)
}
func WithTimeoutCause(parent context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	now := sim.Epoch
	if sim.S != nil {
		now = sim.S.Now()
	}
	return WithDeadlineCause(parent, time.Unix(0, now).Add(d), cause)
}
func Cause(c context.Context) error {
	if x, ok := c.Value(&ckey).(*cctx); ok {
		if x.cause != nil {
			return x.cause
		}
		return x.err
	}
	return c.Err()
}
