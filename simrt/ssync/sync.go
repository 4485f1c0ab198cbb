// Package ssync replaces package sync inside the simulation.
package ssync

import (
	"gRedis/verifsim/sim"
)

type Locker interface {
	Lock()
	Unlock()
}

// Mutex has the semantics of sync.Mutex in normal mode (barging allowed, any waiter may win).
type Mutex struct {
	locked  bool
	waiters []*sim.Task
	vc      []uint32
}

func (m *Mutex) Lock() {
	if !sim.Active() {
		m.locked = true
		return
	}
	sim.YS()
	for m.locked {
		m.waiters = append(m.waiters, sim.Cur())
		sim.Probe("wait:mutex")
		sim.Block("mutex")
	}
	m.locked = true
	sim.AcqFrom(m.vc)
}

func (m *Mutex) TryLock() bool {
	if !sim.Active() {
		return true
	}
	sim.YS()
	if m.locked {
		return false
	}
	m.locked = true
	sim.AcqFrom(m.vc)
	return true
}

func (m *Mutex) Unlock() {
	if sim.S == nil {
		m.locked = false
		return
	}
	if sim.Dying() {
		return
	}
	if !m.locked {
		sim.Fatal("sync: unlock of unlocked mutex")
	}
	sim.RelSet(&m.vc)
	m.locked = false
	ws := m.waiters
	m.waiters = nil
	for _, w := range ws {
		sim.S.Ready(w)
	}
	sim.YS()
}

// RWMutex follows the algorithm of sync.RWMutex: a waiting writer blocks new readers, and on Unlock all
// readers that were waiting get in before the next writer.
type RWMutex struct {
	w       Mutex
	pending bool
	readers int
	queue   []*sim.Task
	wwait   *sim.Task
	wvc     []uint32
	rvc     []uint32
}

func (m *RWMutex) RLock() {
	if !sim.Active() {
		return
	}
	sim.YS()
	if m.pending {
		m.queue = append(m.queue, sim.Cur())
		sim.Probe("wait:rlock")
		sim.Block("rwmutex.RLock")
	} else {
		m.readers++
	}
	sim.AcqFrom(m.wvc)
}

func (m *RWMutex) TryRLock() bool {
	if !sim.Active() {
		return true
	}
	sim.YS()
	if m.pending {
		return false
	}
	m.readers++
	sim.AcqFrom(m.wvc)
	return true
}

func (m *RWMutex) RUnlock() {
	if sim.S == nil || sim.Dying() {
		return
	}
	if m.readers <= 0 {
		sim.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	sim.RelTo(&m.rvc)
	m.readers--
	if m.readers == 0 && m.wwait != nil {
		w := m.wwait
		m.wwait = nil
		sim.S.Ready(w)
	}
	sim.YS()
}

func (m *RWMutex) Lock() {
	if !sim.Active() {
		return
	}
	m.w.Lock()
	m.pending = true
	if m.readers > 0 {
		m.wwait = sim.Cur()
		sim.Probe("wait:wlock")
		sim.Block("rwmutex.Lock")
	}
	sim.AcqFrom(m.wvc)
	sim.AcqFrom(m.rvc)
}

func (m *RWMutex) TryLock() bool {
	if !sim.Active() {
		return true
	}
	if !m.w.TryLock() {
		return false
	}
	if m.readers > 0 {
		m.w.Unlock()
		return false
	}
	m.pending = true
	sim.AcqFrom(m.wvc)
	sim.AcqFrom(m.rvc)
	return true
}

func (m *RWMutex) Unlock() {
	if sim.S == nil || sim.Dying() {
		return
	}
	if !m.pending {
		sim.Fatal("sync: Unlock of unlocked RWMutex")
	}
	sim.RelSet(&m.wvc)
	m.pending = false
	q := m.queue
	m.queue = nil
	for _, t := range q {
		if t.Gone() {
			continue
		}
		m.readers++
		sim.S.Ready(t)
	}
	m.w.Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n       int
	waiters []*sim.Task
	vc      []uint32
}

func (g *WaitGroup) Add(d int) {
	if sim.S == nil || sim.Dying() {
		return
	}
	sim.YS()
	if d < 0 {
		sim.RelTo(&g.vc)
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		for _, w := range g.waiters {
			sim.S.Ready(w)
		}
		g.waiters = nil
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	if !sim.Active() {
		return
	}
	sim.YS()
	if g.n > 0 {
		g.waiters = append(g.waiters, sim.Cur())
		sim.Block("waitgroup")
	}
	sim.AcqFrom(g.vc)
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	sim.Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
	vc   []uint32
}

func (o *Once) Do(f func()) {
	sim.YS()
	if o.done {
		sim.AcqFrom(o.vc)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true; sim.RelSet(&o.vc) }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

type Cond struct {
	L       Locker
	waiters []*sim.Task
	vc      []uint32
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	if !sim.Active() {
		return
	}
	t := sim.Cur()
	c.waiters = append(c.waiters, t)
	// registering and releasing are one step for wake-ups: Unlock may reschedule, a signal in between is kept
	t.Parked = true
	c.L.Unlock()
	if t.Parked {
		sim.Block("cond")
	}
	sim.AcqFrom(c.vc)
	c.L.Lock()
}
func (c *Cond) wake(i int) {
	t := c.waiters[i]
	c.waiters = append(c.waiters[:i:i], c.waiters[i+1:]...)
	t.Parked = false
	sim.S.Ready(t)
}
func (c *Cond) Signal() {
	if !sim.Active() {
		return
	}
	sim.YS()
	sim.RelTo(&c.vc)
	if len(c.waiters) > 0 {
		c.wake(0)
	}
}
func (c *Cond) Broadcast() {
	if !sim.Active() {
		return
	}
	sim.YS()
	sim.RelTo(&c.vc)
	for len(c.waiters) > 0 {
		c.wake(0)
	}
}

// Map is a plain map: every method is one atomic step.
type Map struct {
	m     map[any]any
	order []any
	vc    []uint32
}

func (m *Map) step() { sim.YS(); sim.AcqFrom(m.vc); sim.RelTo(&m.vc) }
func (m *Map) Load(k any) (any, bool) {
	m.step()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) put(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.order = append(m.order, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.order {
		if x == k {
			m.order = append(m.order[:i:i], m.order[i+1:]...)
			break
		}
	}
}
func (m *Map) Store(k, v any) { m.step(); m.put(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.step()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.step()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k any) { m.step(); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.step()
	o, ok := m.m[k]
	m.put(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.step()
	if o, ok := m.m[k]; ok && o == old {
		m.m[k] = new
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.step()
	if o, ok := m.m[k]; ok && o == old {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	keys := append([]any{}, m.order...)
	for _, k := range keys {
		m.step()
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { m.step(); m.m = nil; m.order = nil }

// Pool hands objects back last-in first-out, which makes reuse bugs as likely as possible.
type Pool struct {
	New   func() any
	items []any
	vc    []uint32
}

func (p *Pool) Get() any {
	sim.YS()
	sim.AcqFrom(p.vc)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	sim.YS()
	if x == nil {
		return
	}
	sim.RelTo(&p.vc)
	p.items = append(p.items, x)
}
