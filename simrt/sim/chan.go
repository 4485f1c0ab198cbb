package sim

import (
	"runtime"
	"unsafe"
)

// Simulated channels: the real channel value only serves as identity and capacity.
type schan struct {
	keep   interface{}
	cap    int
	buf    []cval
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	vc     vclock // release clock of senders/close (coarse but sound direction: joins)
	rvc    vclock
}
type cval struct {
	v  interface{}
	vc vclock
}
type waiter struct {
	t     *Task
	val   cval
	ok    bool
	fired bool
	group *selGroup
	idx   int
}
type selGroup struct {
	done bool
	idx  int
	w    *waiter
}

func chkey[T any](ch <-chan T) uintptr { return *(*uintptr)(unsafe.Pointer(&ch)) }

func getchan[T any](ch <-chan T) *schan {
	k := chkey(ch)
	c := S.chans[k]
	if c == nil {
		c = &schan{keep: ch, cap: cap(ch)}
		S.chans[k] = c
	}
	return c
}

func (c *schan) popRecv() *waiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if w.t.zombie || w.group != nil && w.group.done {
			continue
		}
		return w
	}
	return nil
}
func (c *schan) popSend() *waiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if w.t.zombie || w.group != nil && w.group.done {
			continue
		}
		return w
	}
	return nil
}
func (c *schan) hasRecv() bool {
	for _, w := range c.recvq {
		if !(w.t.zombie || w.group != nil && w.group.done) {
			return true
		}
	}
	return false
}
func (c *schan) hasSend() bool {
	for _, w := range c.sendq {
		if !(w.t.zombie || w.group != nil && w.group.done) {
			return true
		}
	}
	return false
}

func (w *waiter) fire() {
	w.fired = true
	if w.group != nil {
		w.group.done = true
		w.group.idx = w.idx
		w.group.w = w
	}
	S.Ready(w.t)
}

func (c *schan) trySend(v interface{}) bool {
	if c.closed {
		panic("send on closed channel")
	}
	cv := cval{v, relClock()}
	if w := c.popRecv(); w != nil {
		w.val, w.ok = cv, true
		if S.RaceOn && c.cap == 0 {
			acqClock(w.t.vc)
		}
		w.fire()
		return true
	}
	if len(c.buf) < c.cap {
		if S.RaceOn {
			acqClock(c.rvc)
		}
		c.buf = append(c.buf, cv)
		return true
	}
	return false
}

func (c *schan) tryRecv() (v interface{}, ok, done bool) {
	if len(c.buf) > 0 {
		cv := c.buf[0]
		c.buf = c.buf[1:]
		acqClock(cv.vc)
		if S.RaceOn {
			c.rvc = joinClock(c.rvc, relClock())
		}
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.val)
			w.ok = true
			w.fire()
		}
		return cv.v, true, true
	}
	if w := c.popSend(); w != nil {
		acqClock(w.val.vc)
		if S.RaceOn {
			w.t.vc = joinClock(w.t.vc, relClock())
		}
		w.ok = true
		v := w.val.v
		w.fire()
		return v, true, true
	}
	if c.closed {
		acqClock(c.vc)
		return nil, false, true
	}
	return nil, false, false
}

func outside(what string) {
	if S == nil {
		panic("sim: " + what + " outside a run")
	}
	if S.running.dying {
		runtime.Goexit()
	}
}

// SendTo(ch)(v) is `ch <- v`.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		outside("send")
		YS()
		if ch == nil {
			Block("nil channel")
		}
		c := getchan(*(*<-chan T)(unsafe.Pointer(&ch)))
		if c.trySend(v) {
			return
		}
		w := &waiter{t: Cur(), val: cval{v, relClock()}}
		c.sendq = append(c.sendq, w)
		Block("chan send")
		if !w.ok {
			panic("send on closed channel")
		}
	}
}

// Recv2 is `v, ok := <-ch`.
func Recv2[T any](ch <-chan T) (T, bool) {
	outside("receive")
	YS()
	var z T
	if ch == nil {
		Block("nil channel")
	}
	c := getchan(ch)
	v, ok, done := c.tryRecv()
	if !done {
		w := &waiter{t: Cur()}
		c.recvq = append(c.recvq, w)
		Block("chan receive")
		v, ok = w.val.v, w.ok
		if ok {
			acqClock(w.val.vc)
		} else {
			acqClock(c.vc)
		}
	}
	if !ok || v == nil {
		return z, ok
	}
	return v.(T), ok
}

// Recv is `<-ch`.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// RangeCh drives `for v := range ch`.
func RangeCh[T any](ch <-chan T) (<-chan T, T) { var z T; return ch, z }
func NextCh[T any](ch <-chan T, p *T) bool {
	v, ok := Recv2(ch)
	if ok {
		*p = v
	}
	return ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if Dying() {
		return
	}
	outside("close")
	YS()
	if ch == nil {
		panic("close of nil channel")
	}
	c := getchan(*(*<-chan T)(unsafe.Pointer(&ch)))
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	c.vc = relClock()
	for {
		w := c.popRecv()
		if w == nil {
			break
		}
		w.ok = false
		w.fire()
	}
	for {
		w := c.popSend()
		if w == nil {
			break
		}
		w.ok = false
		w.fire()
	}
}

// LenCh is len(ch).
func LenCh[T any](ch <-chan T) int {
	if !Active() || ch == nil {
		return 0
	}
	return len(getchan(ch).buf)
}

// SelCase is one case of a select.
type SelCase interface {
	ready() bool
	try() bool // perform; only called when ready
	enqueue(g *selGroup, idx int)
	finish(w *waiter)
}

type RecvC[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func RecvCase[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: ch} }
func (r *RecvC[T]) ready() bool {
	if r.ch == nil {
		return false
	}
	c := getchan(r.ch)
	return len(c.buf) > 0 || c.closed || c.hasSend()
}
func (r *RecvC[T]) try() bool {
	v, ok, done := getchan(r.ch).tryRecv()
	r.OK = ok
	if ok && v != nil {
		r.V = v.(T)
	}
	return done
}
func (r *RecvC[T]) enqueue(g *selGroup, idx int) {
	if r.ch == nil {
		return
	}
	c := getchan(r.ch)
	c.recvq = append(c.recvq, &waiter{t: Cur(), group: g, idx: idx})
}
func (r *RecvC[T]) finish(w *waiter) {
	r.OK = w.ok
	if w.ok {
		acqClock(w.val.vc)
		if w.val.v != nil {
			r.V = w.val.v.(T)
		}
	} else {
		acqClock(getchan(r.ch).vc)
	}
}

type SendC[T any] struct {
	ch chan<- T
	v  T
}

func SendCase[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{ch, v} }
}
func (r *SendC[T]) rc() <-chan T { return *(*<-chan T)(unsafe.Pointer(&r.ch)) }
func (r *SendC[T]) ready() bool {
	if r.ch == nil {
		return false
	}
	c := getchan(r.rc())
	return c.closed || len(c.buf) < c.cap || c.hasRecv()
}
func (r *SendC[T]) try() bool { return getchan(r.rc()).trySend(r.v) }
func (r *SendC[T]) enqueue(g *selGroup, idx int) {
	if r.ch == nil {
		return
	}
	c := getchan(r.rc())
	c.sendq = append(c.sendq, &waiter{t: Cur(), group: g, idx: idx, val: cval{r.v, relClock()}})
}
func (r *SendC[T]) finish(w *waiter) {
	if !w.ok {
		panic("send on closed channel")
	}
}

// Select performs a select statement; -1 is the default case.
func Select(hasDefault bool, cases ...SelCase) int {
	outside("select")
	YS()
	s := S
	t := s.running
	var rd []int
	for i, c := range cases {
		if c.ready() {
			rd = append(rd, i)
		}
	}
	if len(rd) > 0 {
		k := 0
		if s.explicit {
			if t.di < len(t.decs) && t.decs[t.di].N == t.n && t.decs[t.di].Sel > 0 {
				k = t.decs[t.di].Sel % len(rd)
				t.di++
			}
		} else if len(rd) > 1 {
			k = s.rng.Intn(len(rd))
			if k > 0 {
				s.record(t, Decision{Sel: k})
			}
		}
		cases[rd[k]].try()
		return rd[k]
	}
	if hasDefault {
		return -1
	}
	g := &selGroup{}
	for i, c := range cases {
		c.enqueue(g, i)
	}
	Block("select")
	cases[g.idx].finish(g.w)
	return g.idx
}

// Forever is `select {}`.
func Forever() {
	outside("select{}")
	for {
		Block("select{}")
	}
}

// TryPost is a non-blocking send made by the simulator itself (timers, signals).
func TryPost[T any](ch chan<- T, v T) {
	c := getchan(*(*<-chan T)(unsafe.Pointer(&ch)))
	if !c.closed {
		c.trySend(v)
	}
}

// DrainCh empties a timer channel.
func DrainCh[T any](ch chan T) {
	if S != nil {
		getchan((<-chan T)(ch)).buf = nil
	}
}

// CloseQuiet closes without a scheduling point (context cancellation).
func CloseQuiet[T any](ch chan T) {
	if S == nil || S.running.dying {
		return
	}
	c := getchan((<-chan T)(ch))
	if c.closed {
		return
	}
	c.closed = true
	c.vc = relClock()
	for w := c.popRecv(); w != nil; w = c.popRecv() {
		w.ok = false
		w.fire()
	}
}
