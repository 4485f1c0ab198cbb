// Package stime replaces the clock and timers of package time inside the simulation.
package stime

import (
	"time"

	"gRedis/verifsim/sim"
)

// Now reads the simulated clock. It is a scheduling point: time may pass between any two readings.
func Now() time.Time {
	if sim.S == nil {
		return time.Unix(sim.Epoch/1e9, 0)
	}
	sim.YS()
	return time.Unix(0, sim.S.Now())
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration)           { sim.Sleep(int64(d)) }

type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	f  func()
	st *sim.TimerRef
}

func (t *Timer) arm(d time.Duration) {
	if sim.S == nil {
		return
	}
	if t.f != nil {
		t.st = sim.S.AfterTask(int64(d), t.f)
		return
	}
	t.st = sim.S.AfterRef(int64(d), func() { sim.TryPost(t.c, time.Unix(0, sim.S.Now())) })
}
func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func (t *Timer) Stop() bool {
	sim.YS()
	ok := t.st.Cancel()
	if t.c != nil {
		sim.DrainCh(t.c)
	}
	return ok
}
func (t *Timer) Reset(d time.Duration) bool {
	ok := t.Stop()
	t.arm(d)
	return ok
}

type Ticker struct {
	C  <-chan time.Time
	c  chan time.Time
	d  time.Duration
	st *sim.TimerRef
}

func (t *Ticker) arm() {
	if sim.S == nil {
		return
	}
	p := sim.Cur().Proc
	t.st = sim.S.AfterRef(int64(t.d), func() {
		if p != nil && p.Dead {
			return
		}
		sim.TryPost(t.c, time.Unix(0, sim.S.Now()))
		if sim.S.CanTick() {
			t.rearm(p)
		}
	})
}
func (t *Ticker) rearm(p *sim.Proc) {
	t.st = sim.S.AfterRef(int64(t.d), func() {
		if p != nil && p.Dead {
			return
		}
		sim.TryPost(t.c, time.Unix(0, sim.S.Now()))
		if sim.S.CanTick() {
			t.rearm(p)
		}
	})
}
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	t.arm()
	return t
}
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
func (t *Ticker) Stop()                     { sim.YS(); t.st.Cancel() }
func (t *Ticker) Reset(d time.Duration) {
	sim.YS()
	t.st.Cancel()
	t.d = d
	t.arm()
}
