package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"gRedis/verifsim/gmain"
	"gRedis/verifsim/sim"
	"gRedis/verifsim/snet"
	"gRedis/verifsim/sos"
	"gRedis/verifsim/srand2"
	"gRedis/verifsim/ssignal"
	"gRedis/verifsim/vreset"
)

// Event is one request of one connection as the client saw it.
type Event struct {
	Cl, Conn, I int
	Name        string
	Args        []string
	DB          int
	Call, Ret   uint64
	C0, C1      int64 // clock in ms
	Reply       *Value
	Done        bool
	Strict      bool
	phase       int
}

func (e *Event) String() string {
	var p []string
	for _, a := range e.Args {
		p = append(p, short(a))
	}
	r := "(no reply)"
	if e.Done {
		r = e.Reply.String()
	}
	ret := "-"
	if e.Done {
		ret = strconv.FormatUint(e.Ret, 10)
	}
	return fmt.Sprintf("%s#%d db%d [%d..%s] t=%d..%dms %s -> %s", e.Name, e.I, e.DB, e.Call, ret, e.C0, e.C1, strings.Join(p, " "), r)
}

// Violation is a broken property.
type Violation struct {
	Class string
	Text  string
}

// Run is one executed plan.
type Run struct {
	P          *Plan
	S          *sim.Sim
	Ev         []*Event
	V          *Violation
	Srv        *sim.Proc
	conns      int
	phase      int
	Unans      []string
	Faults     map[string]int
	Note       map[string]int
	Data       map[string]interface{}
	linUnknown bool
	Text       []string
}

func (r *Run) fail(class, format string, a ...interface{}) {
	if r.V == nil {
		r.V = &Violation{class, fmt.Sprintf(format, a...)}
	}
}

var raceBinary bool

func newSim(p *Plan) *sim.Sim {
	lim := p.Limit
	if lim == 0 {
		lim = 2000000
	}
	s := sim.New(p.Seed, p.Pol, p.Decs, p.Explicit, sim.Epoch+p.StartUs*1000, lim)
	s.AllocLimit = 1 << 33
	s.RaceOn = raceBinary && p.Prop == "C15"
	sim.MapSeed = p.MapSeed
	srand2.Seed(p.MapSeed)
	rand.Seed(int64(p.MapSeed))
	return s
}

// startServer runs the real main() as a simulated process.
func (r *Run) startServer(args []string) *sim.Proc {
	n := 0
	for _, p := range r.S.Procs {
		_ = p
		n++
	}
	a := append([]string{"gredis"}, args...)
	return r.S.StartProc("srv"+strconv.Itoa(n), func() {
		os.Args = a
		flag.CommandLine = flag.NewFlagSet("gredis", flag.PanicOnError)
		vreset.All()
		gmain.Main()
	})
}

// waitUp waits until the server listens; false if it ended first.
func (r *Run) waitUp(p *sim.Proc, port int) bool {
	for i := 0; i < 3000; i++ {
		if p.Dead {
			return false
		}
		if _, ok := snet.N().Listening(port); ok {
			return true
		}
		sim.Sleep(1e6)
	}
	return false
}

func waitDeath(s *sim.Sim, p *sim.Proc, ns int64) bool {
	end := s.Now() + ns
	for !p.Dead && s.Now() < end {
		sim.Sleep(5e6)
	}
	return p.Dead
}

// client is the state of one running harness client.
type client struct {
	r    *Run
	idx  int
	cp   *ClientPlan
	c    *snet.Client
	conn int
	i    int
	out  []*Event
	buf  []byte
	dead bool // connection ended
	fin  bool // client ended its side
}

func (r *Run) newClient(idx int, cp *ClientPlan) *client { return &client{r: r, idx: idx, cp: cp} }

func (k *client) dial() bool {
	c, err := snet.Dial(k.r.P.Port)
	if err != nil {
		k.dead = true
		if !k.cp.Hostile {
			k.r.Note["refused"]++
			k.r.Text = append(k.r.Text, k.cp.Name+": connection refused")
		}
		return false
	}
	k.c = c
	k.conn = k.r.conns
	k.r.conns++
	k.buf = nil
	k.dead, k.fin = false, false
	if k.cp.OutUs > 0 {
		c.SetOutDelay(k.cp.OutUs * 1000)
		sim.Probe("fault:reply-delay")
	}
	if k.cp.FailW > 0 {
		c.FailWriteAt(k.cp.FailW)
	}
	return true
}

func (k *client) sendBytes(b []byte, cut []int, dly []int64) {
	at := 0
	i := 0
	d := func() int64 {
		if i < len(dly) {
			return dly[i] * 1000
		}
		return 0
	}
	for _, c := range cut {
		if c <= at || c >= len(b) {
			continue
		}
		k.c.Send(b[at:c], d())
		sim.Probe("fault:fragment")
		if d() > 0 {
			sim.Probe("fault:delay")
		}
		at = c
		i++
	}
	if at < len(b) {
		if d() > 0 {
			sim.Probe("fault:delay")
		}
		k.c.Send(b[at:], d())
	}
}

// pump reads replies until at most `left` requests are unanswered.
func (k *client) pump(left int) {
	for len(k.out) > left && !k.dead {
		k.read(0)
	}
}

// read takes one piece of data from the connection; false on timeout or end.
func (k *client) read(wait int64) bool {
	max := k.cp.RecvMax
	if max <= 0 {
		max = 1 << 30
	}
	if k.cp.RecvUs > 0 {
		sim.Probe("fault:slow-reader")
		sim.Sleep(k.cp.RecvUs * 1000)
	}
	b, err := k.c.Recv(max, wait)
	if err == snet.ErrTimeout {
		return false
	}
	if err != nil {
		k.dead = true
		if !k.cp.Hostile && !k.cp.Faulty && !k.fin && k.r.Srv != nil && !k.r.Srv.Dead && len(k.r.P.Sigs) == 0 {
			k.r.fail("closed", "%s: the server closed a healthy connection (%v) with %d request(s) unanswered", k.cp.Name, err, len(k.out))
		}
		return false
	}
	if k.cp.Hostile {
		return true
	}
	k.buf = append(k.buf, b...)
	for len(k.buf) > 0 {
		v, n, err := parseValue(k.buf)
		if err == errMore {
			break
		}
		if err != nil {
			k.r.fail("malformed", "%s: malformed reply (%v): %s", k.cp.Name, err, short(string(k.buf)))
			k.dead = true
			return false
		}
		k.buf = k.buf[n:]
		if len(k.out) == 0 {
			k.r.fail("extra", "%s: a reply nobody asked for: %s", k.cp.Name, v)
			k.dead = true
			return false
		}
		e := k.out[0]
		k.out = k.out[1:]
		e.Reply, e.Done, e.Ret = v, true, k.r.S.Steps
	}
	return true
}

func (k *client) run(ops []Op) {
	s := k.r.S
	for oi := range ops {
		op := &ops[oi]
		if k.dead && op.K != "dial" && op.K != "sleep" {
			if op.K == "cmd" {
				continue
			}
			continue
		}
		switch op.K {
		case "cmd":
			e := &Event{Cl: k.idx, Conn: k.conn, I: k.i, Name: k.cp.Name, Args: sargs(op.A), Call: s.Steps, phase: k.r.phase}
			k.i++
			s.Log("%s send %v", k.cp.Name, op.A)
			b := encode(op.A)
			if op.Hold > 0 && op.Hold < len(b) && len(k.out) > 0 {
				// the replies to what was sent before do not depend on the rest of this request
				sim.Probe("fault:held-request")
				k.sendBytes(b[:op.Hold], nil, nil)
				b = b[op.Hold:]
				k.pump(0)
				if k.dead {
					continue
				}
			}
			if !k.cp.Hostile {
				k.r.Ev = append(k.r.Ev, e)
				k.out = append(k.out, e)
			}
			k.sendBytes(b, op.Cut, op.Dly)
			if !op.Pipe && !k.cp.Hostile {
				k.pump(0)
			} else {
				sim.Probe("pipelined")
			}
		case "part":
			b := encode(op.A)
			n := op.N
			if n >= len(b) {
				n = len(b) - 1
			}
			sim.Probe("fault:truncated-request")
			k.sendBytes(b[:n], op.Cut, op.Dly)
		case "raw":
			k.sendBytes([]byte(op.Raw), op.Cut, op.Dly)
		case "sleep":
			sim.Sleep(op.Us * 1000)
		case "half":
			sim.Probe("fault:half-close")
			k.fin = true
			k.c.CloseWrite(0)
			k.pump(0)
		case "drain":
			for !k.dead && k.read(200e6) {
			}
		case "bad", "halfleft":
			// a protocol error or a half close after which the client goes on reading, but never ends the
			// connection: that is up to the server
			sim.Probe("fault:left-to-server")
			if op.K == "bad" {
				k.sendBytes([]byte(op.Raw), op.Cut, op.Dly)
			} else {
				k.c.CloseWrite(0)
			}
			c := k.c
			s.GoNamed("c"+k.cp.Name+".left"+strconv.Itoa(oi), func() {
				for !c.ServerClosed() {
					if _, err := c.Recv(4096, 3600e9); err != nil && err != snet.ErrTimeout {
						return
					}
				}
			})
			k.fin, k.dead, k.out = true, true, nil
		case "close", "reset":
			k.fin = true
			k.dead = true
			if op.K == "close" {
				sim.Probe("fault:close")
				k.c.Close(op.Us * 1000)
			} else {
				sim.Probe("fault:reset")
				k.c.Reset(op.Us * 1000)
			}
			k.out = nil
		case "dial":
			if k.c != nil && !k.fin && !k.dead {
				k.pump(0)
			}
			if k.c != nil && !k.dead {
				k.c.Close(0)
			}
			k.out = nil
			k.dial()
		default:
			panic("op " + op.K)
		}
	}
	if k.c != nil && !k.dead {
		k.pump(0)
		if !k.cp.Hostile && !k.dead {
			k.read(1e6) // nothing more may come
		}
	}
}

type waitGroup struct {
	n int
	t *sim.Task
}

func (w *waitGroup) done() {
	w.n--
	if w.n == 0 && w.t != nil {
		sim.S.Ready(w.t)
	}
}
func (w *waitGroup) wait() {
	for w.n > 0 {
		w.t = sim.Cur()
		sim.Block("wait for clients")
	}
}

// applyEnv installs faults and network parameters of the plan.
func (r *Run) applyEnv() {
	p := r.P
	n := snet.N()
	if p.Window > 0 {
		n.Window = p.Window
	}
	n.Coalesce = !p.NoCoal
	n.RstDrops = p.RstDrop
	n.ListenFaults = p.Listen
	n.AcceptFaults = p.Accept
	f := sos.F()
	for _, x := range p.Disk {
		x.Fired = 0
	}
	f.Faults = p.Disk
	if p.Conf != nil {
		f.Put("/etc/gredis.conf", []byte(*p.Conf))
	}
}

func (r *Run) runClients() {
	p := r.P
	var wg waitGroup
	cl := make([]*client, len(p.Clients))
	for i := range p.Clients {
		cp := &p.Clients[i]
		cl[i] = r.newClient(i, cp)
		if !cp.LateDial {
			if !cl[i].dial() {
				continue
			}
		}
	}
	for i := range p.Clients {
		k := cl[i]
		if k.c == nil && !k.cp.LateDial {
			continue
		}
		wg.n++
		r.S.GoNamed("c"+k.cp.Name, func() {
			if k.cp.LateDial {
				if !k.dial() {
					wg.done()
					return
				}
			}
			k.run(k.cp.Ops)
			if p.Prop == "C12" && k.c != nil && !k.dead { // every client ends its connection
				k.c.Close(0)
			}
			wg.done()
		})
	}
	for i, sg := range p.Sigs {
		sg, target := sg, r.Srv
		r.S.GoNamed(fmt.Sprint("sig", i), func() {
			sim.Sleep(sg.AtUs * 1000)
			for i := 0; i < sg.Spin; i++ {
				sim.YS()
			}
			sim.Probe("fault:signal-" + sg.Sig)
			if !target.Dead {
				r.deliver(target, sg.Sig)
			}
		})
	}
	wg.wait()
}

func (r *Run) deliver(p *sim.Proc, sig string) {
	switch sig {
	case "INT":
		ssignal.Deliver(p, os.Interrupt)
	case "TERM":
		ssignal.Deliver(p, syscall.SIGTERM)
	case "KILL":
		r.S.Kill(p, "killed")
	}
}

// seqClient runs ops on one fresh connection from the current (root) task.
func (r *Run) seqClient(name string, ops []Op) bool {
	cp := &ClientPlan{Name: name}
	k := r.newClient(-1, cp)
	if !k.dial() {
		return false
	}
	k.run(ops)
	if !k.dead {
		k.c.Close(0)
	}
	return true
}

// exec runs a body as the root task of a new simulation and collects what every property wants to know.
func exec(p *Plan, body func(r *Run)) *Run {
	r := &Run{P: p, Faults: map[string]int{}, Note: map[string]int{}, Data: map[string]interface{}{}}
	r.S = newSim(p)
	if r.S.RaceOn {
		debug.SetGCPercent(-1)
	}
	r.S.Run(func() {
		r.applyEnv()
		body(r)
	})
	if r.S.RaceOn {
		debug.SetGCPercent(100)
	}
	for _, e := range r.Ev {
		b := e.Ret
		if !e.Done {
			b = r.S.Steps
		}
		lo, hi := r.S.ClockRange(e.Call, b)
		e.C0, e.C1 = lo/1e6, (hi+999999)/1e6
	}
	r.setDBs()
	return r
}

// setDBs follows SELECT per connection.
func (r *Run) setDBs() {
	by := map[int][]*Event{}
	for _, e := range r.Ev {
		by[e.Conn] = append(by[e.Conn], e)
	}
	for _, l := range by {
		sort.SliceStable(l, func(i, j int) bool { return l[i].I < l[j].I })
		db := 0
		for _, e := range l {
			e.DB = db
			if len(e.Args) == 2 && strings.ToLower(e.Args[0]) == "select" && (!e.Done || pOK()(e.Reply)) {
				if n, err := strconv.Atoi(e.Args[1]); err == nil && n >= 0 && n < r.P.DbNum {
					db = n
				}
			}
		}
	}
}

// health judges how the run ended: crash, stuck, budget.
func (r *Run) health() {
	for _, p := range r.S.Procs {
		if p.Crash != "" && p.Crash != "killed" {
			at := p.CrashAt
			if i := strings.Index(at, "/repo/"); i >= 0 {
				at = at[i:]
				if j := strings.IndexByte(at, '\n'); j >= 0 {
					at = at[:j]
				}
			} else {
				at = ""
			}
			r.fail("crash", "the server process died: %s %s", p.Crash, at)
		}
	}
	switch r.S.Outcome {
	case "stuck":
		r.fail("stuck", "nothing can run any more and %d request(s) are unanswered: %s\n  tasks: %s", r.unanswered(), strings.Join(r.openReqs(), "; "), strings.Join(r.S.Describe(), ", "))
	case "budget":
		r.fail("budget", "no end after %d steps, %d request(s) unanswered: %s", r.S.Limit, r.unanswered(), strings.Join(r.openReqs(), "; "))
	}
}

func (r *Run) unanswered() int { return len(r.openReqs()) }
func (r *Run) openReqs() []string {
	var o []string
	for _, e := range r.Ev {
		if !e.Done {
			o = append(o, e.String())
		}
	}
	return o
}

// standard is the usual run: server, set-up, clients, final reads.
func standard(p *Plan) *Run {
	r := exec(p, func(r *Run) {
		r.Srv = r.startServer(p.Args)
		if !r.waitUp(r.Srv, p.Port) {
			r.fail("start", "the server did not start (exit %v %d %s): %s", r.Srv.Exited, r.Srv.ExitCode, r.Srv.Crash, short(string(sos.F().Stdout)))
			return
		}
		if len(p.Setup) > 0 && !r.seqClient("setup", p.Setup) {
			r.fail("refused", "the set-up connection was refused")
			return
		}
		r.phase = 1
		r.runClients()
		r.phase = 2
		if len(p.Final) > 0 && !r.Srv.Dead {
			if !r.seqClient("final", p.Final) && !r.Srv.Dead {
				r.fail("refused", "a connection was refused although the server runs")
			}
		}
	})
	r.health()
	if r.V == nil && r.Srv != nil && r.Srv.Exited && len(p.Sigs) == 0 {
		r.fail("exit", "the server exited (%d) although nobody asked it to", r.Srv.ExitCode)
	}
	return r
}
