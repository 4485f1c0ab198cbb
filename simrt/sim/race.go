package sim

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"unsafe"
)

// Happens-before race detection (vector clocks) over the accesses reported by race-mode instrumentation.
// All functions are no-ops unless Sim.RaceOn.

type vclock []uint32

func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func joinClock(a, b vclock) vclock {
	if len(b) > len(a) {
		a = append(append(vclock{}, a...), make(vclock, len(b)-len(a))...)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}
func cloneClock(a vclock) vclock { return append(vclock{}, a...) }

type access struct {
	task int
	clk  uint32
	site uintptr
}
type shadow struct {
	w     access
	hasW  bool
	reads []access
}
type raceIter struct{}
type raceState struct {
	mem   map[uintptr]*shadow
	Found []string
	seen  map[string]bool
	Count uint64
	atom  map[uintptr]*[]uint32
}

var sink unsafe.Pointer

func (t *Task) tick() {
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.ID]++
}

func (s *Sim) inherit(t *Task) {
	if !s.RaceOn {
		return
	}
	if p := s.running; p != nil {
		t.vc = cloneClock(p.vc)
		p.tick()
	}
	t.tick()
}

// relClock returns the current task's clock for a release operation and advances it.
func relClock() vclock {
	s := S
	if s == nil || !s.RaceOn {
		return nil
	}
	t := s.running
	t.tick()
	c := cloneClock(t.vc)
	t.tick()
	return c
}
func acqClock(c vclock) {
	s := S
	if s == nil || !s.RaceOn || c == nil {
		return
	}
	t := s.running
	t.vc = joinClock(t.vc, c)
}

// RelTo merges the current clock into *c (release); AcqFrom joins it (acquire). Used by the sync shims.
func RelTo(c *[]uint32) {
	if S == nil || !S.RaceOn {
		return
	}
	*c = joinClock(vclock(*c), relClock())
}
func RelSet(c *[]uint32) {
	if S == nil || !S.RaceOn {
		return
	}
	*c = relClock()
}
func AcqFrom(c []uint32) { acqClock(vclock(c)) }

// Races are the distinct races found in this run.
func (s *Sim) Races() []string      { return s.races.Found }
func (s *Sim) RaceAccesses() uint64 { return s.races.Count }

func site() uintptr {
	var pc [1]uintptr
	// skip: Callers, site, touch, Rd/Wr wrapper
	if runtime.Callers(4, pc[:]) > 0 {
		return pc[0]
	}
	return 0
}

func siteName(pc uintptr) string {
	f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	fn := f.Function
	if i := strings.Index(fn, "["); i > 0 {
		fn = fn[:i]
	}
	return fn
}

func touch(p unsafe.Pointer, write bool) {
	s := S
	if s == nil || !s.RaceOn {
		return
	}
	t := s.running
	if t.dying || t.Proc == nil {
		return
	}
	s.races.Count++
	if s.races.mem == nil {
		s.races.mem = map[uintptr]*shadow{}
		s.races.seen = map[string]bool{}
	}
	t.tick0()
	a := uintptr(p)
	sh := s.races.mem[a]
	if sh == nil {
		sh = &shadow{}
		s.races.mem[a] = sh
	}
	pc := site()
	me := access{t.ID, t.vc[t.ID], pc}
	if sh.hasW && sh.w.task != t.ID && sh.w.clk > t.vc.get(sh.w.task) {
		s.race(sh.w, me, true, write)
	}
	if write {
		for _, r := range sh.reads {
			if r.task != t.ID && r.clk > t.vc.get(r.task) {
				s.race(r, me, false, true)
			}
		}
		sh.w, sh.hasW = me, true
		sh.reads = sh.reads[:0]
		return
	}
	for i := range sh.reads {
		if sh.reads[i].task == t.ID {
			sh.reads[i] = me
			return
		}
	}
	sh.reads = append(sh.reads, me)
}

func (t *Task) tick0() {
	for len(t.vc) <= t.ID {
		t.vc = append(t.vc, 0)
	}
	if t.vc[t.ID] == 0 {
		t.vc[t.ID] = 1
	}
}

func (s *Sim) race(a, b access, aw, bw bool) {
	k := map[bool]string{true: "write", false: "read"}
	x := k[aw] + " in " + siteName(a.site)
	y := k[bw] + " in " + siteName(b.site)
	if x > y {
		x, y = y, x
	}
	m := fmt.Sprintf("%s / %s", x, y)
	if !s.races.seen[m] {
		s.races.seen[m] = true
		s.races.Found = append(s.races.Found, m)
	}
}

// Rd and Wr report an access to *p and return p.
func Rd[T any](p *T) *T {
	sink = unsafe.Pointer(p)
	Y()
	touch(unsafe.Pointer(p), false)
	return p
}
func Wr[T any](p *T) *T {
	sink = unsafe.Pointer(p)
	Y()
	touch(unsafe.Pointer(p), true)
	return p
}

func mapPtr[M any](m M) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&m)) }

// RMap / WMap report a read / write of a map.
func RMap[M any](m M) M {
	if S != nil && S.RaceOn {
		if p := mapPtr(m); p != nil {
			touch(p, false)
		}
	}
	return m
}
func WMap[M any](m M) M {
	if S != nil && S.RaceOn {
		if p := mapPtr(m); p != nil {
			touch(p, true)
		}
	}
	return m
}

// RSl reports a read of all bytes of a slice; WSl of writing into [len:len+n) or the whole.
func RSl[B ~[]byte](b B) B {
	if S != nil && S.RaceOn && len(b) > 0 {
		sink = unsafe.Pointer(&b[0])
		n := len(b)
		if n > 64 {
			n = 64
		}
		for i := 0; i < n; i++ {
			touch(unsafe.Pointer(&b[i]), false)
		}
	}
	return b
}

// WSlCap reports the write an append of n elements makes into spare capacity.
func WSlCap[B ~[]byte](b B, n int) B {
	if S != nil && S.RaceOn && n > 0 && cap(b)-len(b) >= n {
		e := b[len(b) : len(b)+n]
		sink = unsafe.Pointer(&e[0])
		if n > 64 {
			n = 64
		}
		for i := 0; i < n; i++ {
			touch(unsafe.Pointer(&e[i]), true)
		}
	}
	return b
}

// WSl reports writing a slice (copy destination).
func WSl[B ~[]byte](b B) B {
	if S != nil && S.RaceOn && len(b) > 0 {
		sink = unsafe.Pointer(&b[0])
		n := len(b)
		if n > 64 {
			n = 64
		}
		for i := 0; i < n; i++ {
			touch(unsafe.Pointer(&b[i]), true)
		}
	}
	return b
}

var _ = reflect.TypeOf

// AtomicSync orders all atomic operations on one address.
func AtomicSync(p unsafe.Pointer) {
	s := S
	if s == nil || !s.RaceOn || s.running.dying {
		return
	}
	sink = p
	if s.races.atom == nil {
		s.races.atom = map[uintptr]*[]uint32{}
	}
	c := s.races.atom[uintptr(p)]
	if c == nil {
		c = new([]uint32)
		s.races.atom[uintptr(p)] = c
	}
	AcqFrom(*c)
	RelTo(c)
}
