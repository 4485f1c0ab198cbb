// Package sim is the deterministic simulator core: simulated tasks (real goroutines released one at a
// time), a discrete-event clock, simulated processes, and the recording/replaying of every decision.
package sim

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
)

const (
	stReady = iota
	stBlocked
	stDone
)

// Task is one simulated goroutine.
type Task struct {
	ID       int
	Name     string
	Proc     *Proc
	gate     chan struct{}
	n        uint64 // local decision-point counter
	state    uint8
	zombie   bool // its process died; never scheduled again
	dying    bool // being unwound at the end of the run
	dsteps   int
	Why      string
	children int
	stall    uint64 // not scheduled before that step unless nothing else can run
	prio     int
	decs     []Decision
	di       int
	vc       vclock
	Parked   bool // ssync.Cond
	exited   chan struct{}
	started  bool
	fn       func()
}

// Proc is a simulated OS process.
type Proc struct {
	ID       int
	Name     string
	Dead     bool
	Exited   bool
	ExitCode int
	Crash    string
	CrashAt  string
	onDeath  []func()
	spawned  int
	Waiters  []*Task
}

// Decision is one recorded scheduling decision that differs from the default policy.
type Decision struct {
	T   string `json:"t"`
	N   uint64 `json:"n"`
	To  string `json:"to,omitempty"`
	Adv int64  `json:"adv,omitempty"` // clock advance, nanoseconds
	Sel int    `json:"sel,omitempty"` // select choice (rank among ready cases)
}

// Policy controls the random scheduler of one run.
type Policy struct {
	Kind     string `json:"kind"`   // "seq", "rand", "pct"
	YieldP   int    `json:"yieldp"` // plain yield: preempt with probability 1/YieldP (0: never)
	SyncP    int    `json:"syncp"`  // sync point: preempt with probability SyncP/1000
	AdvP     int    `json:"advp"`   // sync point: advance the clock with probability AdvP/1000
	AdvMaxMs int64  `json:"advmaxms"`
	StallP   int    `json:"stallp,omitempty"` // sync point of the server: stall this task with probability StallP/1000 while others go on
	Changes  int    `json:"changes"`          // pct: number of priority change points
	Span     int    `json:"span"`             // pct: steps over which change points are spread
}

type timer struct {
	at   int64
	seq  uint64
	fn   func()
	dead bool
	idx  int
}
type theap []*timer

func (h theap) Len() int { return len(h) }
func (h theap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h theap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *theap) Push(x interface{}) { *h = append(*h, x.(*timer)) }
func (h *theap) Pop() interface{}   { o := *h; x := o[len(o)-1]; *h = o[:len(o)-1]; return x }

// Sim is one simulated run.
type Sim struct {
	now     int64 // nanoseconds since the unix epoch
	start   int64
	seq     uint64
	timers  theap
	tasks   []*Task
	byName  map[string]*Task
	running *Task
	Steps   uint64
	Limit   uint64
	rng     *Rand
	pol     Policy
	cd      int
	chg     []uint64
	lowPrio int

	explicit bool
	over     bool   // past the first budget
	soft     uint64 // that budget
	decs     map[string][]Decision
	Rec      []Decision
	Switches uint64
	trace    uint64 // rolling hash of every decision point outcome
	syncHash uint64 // rolling hash of (task, sync object op) order

	ended      bool
	Outcome    string // "done", "stuck", "budget"
	done       chan struct{}
	Procs      []*Proc
	chans      map[uintptr]*schan
	clockHist  []clockPoint
	Probes     map[string]int
	RaceOn     bool
	races      raceState
	AllocLimit int64
	NetState   interface{}
	FsState    interface{}
	SigState   interface{}
	readyBuf   []*Task
	EventLog   []string
	LogOn      bool
	ticks      int
	slice      int
}

type clockPoint struct {
	step uint64
	now  int64
}

// S is the current run; nil outside a run.
var S *Sim

// Rand is splitmix64: small, fast, and owned by us.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed*0x9E3779B97F4A7C15 + 0x1234567} }
func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}
func (r *Rand) Chance(num, den int) bool { return r.Intn(den) < num }

const Epoch = int64(1_700_000_000) * 1e9

// New prepares a run. explicit==nil: random scheduling from seed; otherwise the listed decisions over the default policy.
func New(seed uint64, pol Policy, explicit []Decision, isExplicit bool, startNs int64, limit uint64) *Sim {
	s := &Sim{now: startNs, start: startNs, rng: NewRand(seed ^ 0xABCDEF), pol: pol, Limit: limit,
		byName: map[string]*Task{}, done: make(chan struct{}), chans: map[uintptr]*schan{}, Probes: map[string]int{}, AllocLimit: 1 << 30}
	s.explicit = isExplicit
	if isExplicit {
		s.decs = map[string][]Decision{}
		for _, d := range explicit {
			s.decs[d.T] = append(s.decs[d.T], d)
		}
	}
	s.cd = s.nextCd()
	if pol.Kind == "pct" && pol.Span > 0 {
		for i := 0; i < pol.Changes; i++ {
			s.chg = append(s.chg, uint64(s.rng.Intn(pol.Span)))
		}
	}
	s.clockHist = append(s.clockHist, clockPoint{0, s.now})
	return s
}

func (s *Sim) nextCd() int {
	if s.pol.YieldP <= 0 || s.pol.Kind != "rand" {
		return 1 << 30
	}
	return 1 + s.rng.Intn(2*s.pol.YieldP)
}

// Run executes root as the first task and returns when it finishes, everything is stuck or the budget is used up.
func (s *Sim) Run(root func()) {
	S = s
	t := s.newTask("r", nil, root)
	s.running = t
	s.launch(t)
	t.gate <- struct{}{}
	<-s.done
	// unwind everything that is still parked
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.state == stDone || !t.started {
			continue
		}
		t.dying = true
		s.running = t
		t.gate <- struct{}{}
		<-t.exited
	}
	S = nil
}

func (s *Sim) newTask(name string, p *Proc, fn func()) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Proc: p, gate: make(chan struct{}), exited: make(chan struct{}), fn: fn}
	if s.pol.Kind == "pct" && !s.explicit {
		t.prio = 1000 + s.rng.Intn(1000)
	}
	if s.explicit {
		t.decs = s.decs[name]
	}
	s.tasks = append(s.tasks, t)
	s.byName[name] = t
	return t
}

func (s *Sim) launch(t *Task) {
	t.started = true
	go func() {
		defer close(t.exited)
		defer func() {
			r := recover()
			if t.dying {
				t.state = stDone
				return
			}
			if r != nil {
				s.crash(t, fmt.Sprint("panic: ", r), string(debug.Stack()))
			}
			if t.state == stDone { // exited inside exit()
				return
			}
			t.state = stDone
			if s.ended {
				return
			}
			if t.Name == "r" {
				s.end("done")
				return
			}
			s.switchAway(t, true)
		}()
		<-t.gate
		if t.dying {
			return
		}
		t.fn()
	}()
}

// Fatal is an unrecoverable runtime error of the current process (deadlocked unlock, out of memory, ...).
func Fatal(msg string) {
	s := S
	if s == nil {
		panic(msg)
	}
	t := s.running
	if t.dying {
		runtime.Goexit()
	}
	if t.Proc == nil {
		panic("sim: fatal outside a process: " + msg)
	}
	s.killProc(t.Proc, "fatal error: "+msg, string(debug.Stack()))
	s.leave(t)
}

func (s *Sim) crash(t *Task, msg, stack string) {
	if t.Proc == nil {
		// harness bug: make it loud
		fmt.Println("HARNESS PANIC", msg, stack)
		panic(msg)
	}
	s.killProc(t.Proc, msg, stack)
}

func (s *Sim) killProc(p *Proc, why, at string) {
	if p.Dead {
		return
	}
	p.Dead = true
	p.Crash = why
	p.CrashAt = at
	for _, t := range s.tasks {
		if t.Proc == p && t.state != stDone {
			t.zombie = true
		}
	}
	for _, f := range p.onDeath {
		f()
	}
	for _, w := range p.Waiters {
		s.Ready(w)
	}
	p.Waiters = nil
}

// Kill crashes a process from outside (power cut / SIGKILL).
func (s *Sim) Kill(p *Proc, why string) { s.killProc(p, why, "") }

// leave parks the current (zombie) task for good.
func (s *Sim) leave(t *Task) {
	s.switchAway(t, false)
	<-t.gate
	runtime.Goexit()
}

// Exit ends the current process with a status.
func Exit(code int) {
	s := S
	t := s.running
	if t.dying {
		runtime.Goexit()
	}
	p := t.Proc
	if p == nil {
		panic("sim: Exit outside a process")
	}
	s.exitProc(p, code)
	s.leave(t)
}

func (s *Sim) exitProc(p *Proc, code int) {
	if p.Dead {
		return
	}
	p.Exited = true
	p.ExitCode = code
	s.killProc(p, "", "")
}

// StartProc runs fn as the main goroutine of a new simulated process.
func (s *Sim) StartProc(name string, fn func()) *Proc {
	p := &Proc{ID: len(s.Procs), Name: name}
	s.Procs = append(s.Procs, p)
	t := s.newTask(name, p, func() {
		fn()
		if !p.Dead && !s.ended {
			s.exitProc(p, 0)
		}
	})
	s.inherit(t)
	s.launch(t)
	return p
}

func (p *Proc) OnDeath(f func()) { p.onDeath = append(p.onDeath, f) }

// Alive counts live tasks of the process.
func (s *Sim) Alive(p *Proc) int {
	n := 0
	for _, t := range s.tasks {
		if t.Proc == p && t.state != stDone && !t.zombie {
			n++
		}
	}
	return n
}

// AliveList names live tasks and what they wait for.
func (s *Sim) AliveList(p *Proc) []string {
	var r []string
	for _, t := range s.tasks {
		if t.Proc == p && t.state != stDone && !t.zombie {
			w := t.Why
			if t.state == stReady {
				w = "ready"
			}
			r = append(r, t.Name+":"+w)
		}
	}
	return r
}

// Go starts a task; target code's `go` statements become this.
func Go(fn func()) {
	s := S
	if s == nil {
		panic("sim.Go outside a run")
	}
	p := s.running
	if p.dying {
		return
	}
	p.children++
	t := s.newTask(p.Name+"."+strconv.Itoa(p.children-1), p.Proc, fn)
	if p.Proc != nil {
		p.Proc.spawned++
	}
	s.inherit(t)
	s.launch(t)
	YS()
}

// GoNamed starts a harness task with a stable name.
func (s *Sim) GoNamed(name string, fn func()) *Task {
	t := s.newTask(name, nil, fn)
	s.inherit(t)
	s.launch(t)
	return t
}

func (s *Sim) end(outcome string) {
	if s.ended {
		return
	}
	s.ended = true
	s.Outcome = outcome
	close(s.done)
}

func (s *Sim) hash(x uint64) {
	s.trace = (s.trace ^ x) * 0x100000001b3
	s.trace ^= s.trace >> 29
}

// Trace is a hash over the whole sequence of scheduling outcomes.
func (s *Sim) Trace() uint64 { return s.trace }

// SyncHash hashes the order in which tasks passed synchronisation points (a measure of distinct interleavings).
func (s *Sim) SyncHash() uint64 { return s.syncHash }

// Y is a plain yield point, placed before every statement of the code under test.
func Y() {
	s := S
	if s == nil {
		return
	}
	t := s.running
	if t.dying {
		t.dsteps++
		if t.dsteps > 100000 {
			runtime.Goexit()
		}
		return
	}
	t.n++
	s.Steps++
	if s.Steps > s.Limit {
		s.overBudget(t)
	}
	if s.slice++; s.slice > 20000 {
		s.fair(t)
	}
	if s.explicit {
		if t.di < len(t.decs) && t.decs[t.di].N <= t.n {
			s.applyDecision(t)
		}
		return
	}
	s.cd--
	if s.cd <= 0 {
		s.cd = s.nextCd()
		s.preempt(t)
	}
}

// fair hands over after a very long stretch without a switch, as any real scheduler would.
func (s *Sim) fair(t *Task) {
	s.slice = 0
	if u := s.defaultNext(t); u != nil && u != t {
		if s.pol.Kind == "pct" {
			s.lowPrio--
			t.prio = s.lowPrio
		}
		s.switchTo(t, u)
	}
}

// overBudget: the first time, everything is left to finish in peace (no more preemption, clock jumps or stalls), with many
// times the budget: code that is merely slow ends, code that never ends does not.
func (s *Sim) overBudget(t *Task) {
	if !s.over {
		s.over, s.soft = true, s.Limit
		s.Limit *= 60
		if s.Limit > 200000000 {
			s.Limit = 200000000
		}
		s.pol = Policy{Kind: "seq"}
		s.cd = 1 << 30
		for _, u := range s.tasks {
			u.stall = 0
		}
		s.Probes["slow-run"]++
		return
	}
	s.end("budget")
	<-t.gate
	runtime.Goexit()
}

// YS is a yield at a synchronisation point (lock, channel, clock, I/O).
func YS() {
	s := S
	if s == nil {
		return
	}
	t := s.running
	if t.dying {
		return
	}
	t.n++
	s.Steps++
	if s.Steps > s.Limit {
		s.overBudget(t)
	}
	if s.slice++; s.slice > 20000 {
		s.fair(t)
	}
	if t.Proc != nil {
		s.syncHash = (s.syncHash ^ uint64(t.ID+1)) * 0x100000001b3
	}
	if s.explicit {
		if t.di < len(t.decs) && t.decs[t.di].N <= t.n {
			s.applyDecision(t)
		}
		return
	}
	switch s.pol.Kind {
	case "rand":
		if s.pol.AdvP > 0 && s.rng.Intn(1000) < s.pol.AdvP {
			s.randAdvance(t)
		}
		if s.pol.StallP > 0 && t.Proc != nil && s.rng.Intn(1000) < s.pol.StallP {
			t.stall = s.Steps + uint64(10+s.rng.Intn(1<<uint(5+s.rng.Intn(7))))
			s.Probes["fault:stalled-task"]++
			if s.pol.AdvMaxMs > 0 && s.rng.Intn(2) == 0 {
				s.randAdvance(t)
			}
			s.preempt(t)
			return
		}
		if s.pol.SyncP > 0 && s.rng.Intn(1000) < s.pol.SyncP {
			s.preempt(t)
		}
	case "pct":
		if s.pol.AdvP > 0 && s.rng.Intn(1000) < s.pol.AdvP {
			s.randAdvance(t)
		}
		for i, c := range s.chg {
			if c != 0 && s.Steps >= c {
				s.chg[i] = 0
				s.lowPrio--
				t.prio = s.lowPrio
			}
		}
		best := t
		for _, u := range s.tasks {
			if u.state == stReady && !u.zombie && u.prio > best.prio {
				best = u
			}
		}
		if best != t {
			s.record(t, Decision{To: best.Name})
			s.switchTo(t, best)
		}
	}
}

// Calm stops random clock advances and stalls: what is under way may finish.
func (s *Sim) Calm() { s.pol.AdvP = 0; s.pol.AdvMaxMs = 0 }

func (s *Sim) randAdvance(t *Task) {
	max := s.pol.AdvMaxMs
	if max <= 0 {
		max = 1000
	}
	var ms int64
	switch s.rng.Intn(3) {
	case 0:
		ms = 1 + int64(s.rng.Intn(50))
	case 1:
		ms = 100 + int64(s.rng.Intn(1000))
	default:
		ms = 1 + int64(s.rng.Intn(int(max)))
	}
	s.record(t, Decision{Adv: ms * 1e6})
	s.Advance(ms * 1e6)
	s.Probes["fault:clock-advance-inside-command"]++
}

func (s *Sim) record(t *Task, d Decision) {
	d.T = t.Name
	d.N = t.n
	s.Rec = append(s.Rec, d)
}

func (s *Sim) applyDecision(t *Task) {
	for t.di < len(t.decs) && t.decs[t.di].N <= t.n {
		d := t.decs[t.di]
		if d.Sel > 0 && d.N == t.n {
			return // consumed by select
		}
		t.di++
		if d.N < t.n {
			continue
		}
		if d.Adv != 0 {
			s.Advance(d.Adv)
			s.Probes["fault:clock-advance-inside-command"]++
		}
		if d.To != "" {
			if u := s.byName[d.To]; u != nil && u != t && u.state == stReady && !u.zombie {
				s.switchTo(t, u)
				return
			}
		}
	}
}

func (s *Sim) ready() []*Task {
	r := s.readyBuf[:0]
	for _, t := range s.tasks {
		if t.state == stReady && !t.zombie && t.stall <= s.Steps {
			r = append(r, t)
		}
	}
	if len(r) == 0 && s.pol.StallP > 0 {
		for _, t := range s.tasks {
			if t.state == stReady && !t.zombie {
				t.stall = 0
				r = append(r, t)
			}
		}
	}
	s.readyBuf = r
	return r
}

func (s *Sim) preempt(t *Task) {
	r := s.ready()
	if len(r) == 0 || len(r) == 1 && r[0] == t {
		return
	}
	u := r[s.rng.Intn(len(r))]
	if u == t {
		return
	}
	s.record(t, Decision{To: u.Name})
	s.switchTo(t, u)
}

// switchTo hands the token from the running task t (still ready or blocked) to u and waits to be resumed.
func (s *Sim) switchTo(t, u *Task) {
	s.Switches++
	s.slice = 0
	s.hash(uint64(u.ID)<<32 ^ t.n)
	s.running = u
	u.gate <- struct{}{}
	<-t.gate
	if t.dying {
		runtime.Goexit()
	}
}

// defaultNext is the deterministic default policy: next ready task in id order after t.
func (s *Sim) defaultNext(t *Task) *Task {
	k := len(s.tasks)
	for i := 1; i <= k; i++ {
		u := s.tasks[(t.ID+i)%k]
		if u.state == stReady && !u.zombie {
			return u
		}
	}
	return nil
}

// pickNext chooses who runs when t cannot continue. nil: nothing will ever run again.
func (s *Sim) pickNext(t *Task) *Task {
	for {
		def := s.defaultNext(t)
		if def == nil {
			if !s.fireNext() {
				return nil
			}
			continue
		}
		if s.explicit {
			for t.di < len(t.decs) && t.decs[t.di].N < t.n {
				t.di++
			}
			if t.di < len(t.decs) && t.decs[t.di].N == t.n && t.decs[t.di].To != "" {
				d := t.decs[t.di]
				t.di++
				if u := s.byName[d.To]; u != nil && u.state == stReady && !u.zombie {
					return u
				}
			}
			return def
		}
		switch s.pol.Kind {
		case "rand":
			r := s.ready()
			u := r[s.rng.Intn(len(r))]
			if u != def {
				s.record(t, Decision{To: u.Name})
			}
			return u
		case "pct":
			best := def
			for _, u := range s.tasks {
				if u.state == stReady && !u.zombie && u.prio > best.prio {
					best = u
				}
			}
			if best != def {
				s.record(t, Decision{To: best.Name})
			}
			return best
		}
		return def
	}
}

// switchAway is called by a task that is done, blocked or dead: choose a successor and wake it.
func (s *Sim) switchAway(t *Task, finished bool) *Task {
	t.n++
	u := s.pickNext(t)
	if u == nil {
		s.end("stuck")
		return nil
	}
	s.Switches++
	s.slice = 0
	s.hash(uint64(u.ID)<<32 ^ t.n)
	if u == t {
		return u
	}
	s.running = u
	u.gate <- struct{}{}
	return u
}

// Block parks the running task until Ready is called on it.
func Block(why string) {
	s := S
	t := s.running
	if t.dying {
		runtime.Goexit()
	}
	t.state = stBlocked
	t.Why = why
	u := s.switchAway(t, false)
	if u != t {
		<-t.gate
		if t.dying {
			runtime.Goexit()
		}
	}
	s.running = t
	t.Why = ""
}

// Ready makes a blocked task runnable.
func (s *Sim) Ready(t *Task) {
	if t.state == stBlocked {
		t.state = stReady
	}
}

// Cur is the running task.
func Cur() *Task { return S.running }

// Dying reports whether the current task is being unwound (its effects must not count).
func Dying() bool { return S != nil && S.running.dying }

// Active reports whether simulated semantics apply.
func Active() bool { return S != nil && !S.running.dying }

// ---- clock ----

func (s *Sim) setNow(n int64) {
	if n != s.now {
		s.now = n
		s.clockHist = append(s.clockHist, clockPoint{s.Steps, n})
	}
}

// Now is the simulated clock in nanoseconds.
func (s *Sim) Now() int64   { return s.now }
func (s *Sim) Start() int64 { return s.start }

// ClockRange is the smallest and largest clock value between two steps.
func (s *Sim) ClockRange(a, b uint64) (int64, int64) {
	lo, hi := int64(0), int64(0)
	first := true
	for i := len(s.clockHist) - 1; i >= 0; i-- {
		c := s.clockHist[i]
		if c.step > b {
			continue
		}
		if first || c.now < lo {
			lo = c.now
		}
		if first || c.now > hi {
			hi = c.now
		}
		first = false
		if c.step < a {
			break
		}
	}
	return lo, hi
}

// After schedules fn at now+d.
func (s *Sim) After(d int64, fn func()) *timer {
	if d < 0 {
		d = 0
	}
	s.seq++
	t := &timer{at: s.now + d, seq: s.seq, fn: fn}
	heap.Push(&s.timers, t)
	return t
}

// Cancel stops a timer; true if it had not fired.
func (t *timer) Cancel() bool {
	if t == nil || t.dead {
		return false
	}
	t.dead = true
	return true
}

func (s *Sim) fireNext() bool {
	for len(s.timers) > 0 {
		t := heap.Pop(&s.timers).(*timer)
		if t.dead {
			continue
		}
		t.dead = true
		if t.at > s.now {
			s.setNow(t.at)
		}
		t.fn()
		return true
	}
	return false
}

// Advance moves the clock forward while tasks are running (a stalled server, a paused VM).
func (s *Sim) Advance(d int64) {
	target := s.now + d
	for len(s.timers) > 0 && s.timers[0].at <= target {
		t := heap.Pop(&s.timers).(*timer)
		if t.dead {
			continue
		}
		t.dead = true
		if t.at > s.now {
			s.setNow(t.at)
		}
		t.fn()
	}
	s.setNow(target)
}

// Sleep blocks the current task for d nanoseconds.
func Sleep(d int64) {
	s := S
	if s == nil {
		return
	}
	t := s.running
	if t.dying {
		runtime.Goexit()
	}
	if d <= 0 {
		YS()
		return
	}
	s.After(d, func() { s.Ready(t) })
	Block("sleep")
}

// AllocN models the memory limit of the machine: an absurd allocation kills the process, as in Go.
func AllocN[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	if S != nil && !S.running.dying && S.running.Proc != nil {
		if uint64(n) > uint64(S.AllocLimit) && n > 0 && uint64(n) < 1<<46 {
			Fatal("runtime: out of memory (allocation of " + fmt.Sprint(n) + " elements)")
		}
	}
	return n
}

// Zero resets a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Probe counts a rare condition.
func Probe(name string) {
	if S != nil {
		S.Probes[name]++
	}
}

// Log adds a line to the run's event log (only when enabled; never draws randomness).
func (s *Sim) Log(format string, a ...interface{}) {
	if s.LogOn {
		s.EventLog = append(s.EventLog, fmt.Sprintf("%d %d ", s.Steps, (s.now-s.start)/1e6)+fmt.Sprintf(format, a...))
	}
}

// TaskSteps is the number of decision points a task has passed.
func (t *Task) N() uint64 { return t.n }

// Tasks lists all tasks.
func (s *Sim) Tasks() []*Task { return s.tasks }

// Describe lists unfinished tasks.
func (s *Sim) Describe() []string {
	var r []string
	for _, t := range s.tasks {
		if t.state != stDone && !t.zombie {
			w := t.Why
			if t.state == stReady {
				w = "ready"
			}
			r = append(r, t.Name+":"+w)
		}
	}
	return r
}

// Gone reports whether the task can never run again.
func (t *Task) Gone() bool { return t.zombie || t.state == stDone }

// TimerRef is a cancellable timer.
type TimerRef struct{ t *timer }

func (r *TimerRef) Cancel() bool {
	if r == nil || r.t == nil {
		return false
	}
	return r.t.Cancel()
}

// AfterRef schedules fn (a simulator callback) at now+d.
func (s *Sim) AfterRef(d int64, fn func()) *TimerRef { return &TimerRef{s.After(d, fn)} }

// AfterTask runs fn as a new task of the current process at now+d (time.AfterFunc).
func (s *Sim) AfterTask(d int64, fn func()) *TimerRef {
	return s.AfterRef(d, Seed(fn).Launch)
}

// TaskSeed is a task that something other than a task may start later.
type TaskSeed struct {
	p    *Task
	name string
	vc   vclock
	fn   func()
}

func Seed(fn func()) *TaskSeed {
	p := S.running
	p.children++
	return &TaskSeed{p, p.Name + "." + strconv.Itoa(p.children-1), relClock(), fn}
}
func (f *TaskSeed) Launch() {
	if f.p.Proc != nil && f.p.Proc.Dead {
		return
	}
	t := S.newTask(f.name, f.p.Proc, f.fn)
	t.vc = cloneClock(f.vc)
	t.tick0()
	S.launch(t)
}

// CanTick bounds periodic timers: they stop when nothing but periodic timers remains to happen, so that a run
// whose tasks are all blocked is recognised as stuck.
func (s *Sim) CanTick() bool { return s.ticks < 100000 && s.tick() }
func (s *Sim) tick() bool    { s.ticks++; return true }
