package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"gRedis/config"
	"gRedis/logger"
	"gRedis/verifsim/sim"
	"gRedis/verifsim/snet"
	"gRedis/verifsim/sos"
	"gRedis/verifsim/vreset"
)

func init() {
	reg(&Prop{ID: "C14", Quick: 300000, Rule: "case = one simulated run drawn from a seed: accept failures, signals, listen failures and restarts against client activity; non-trivial = at least one such fault was injected; distinct = different (faults, commands, order of synchronisation)", Exec: execC14, Gen: genC14})
	reg(&Prop{ID: "C18", Quick: 40000, Rule: "case = one command sequence drawn from a seed, executed under several segment and database counts; non-trivial = at least two configurations and four commands; distinct = different (commands, configurations)", Exec: execC18, Gen: genC18})
	reg(&Prop{ID: "C19", Quick: 800000, Rule: "case = one simulated run drawn from a seed: goroutines logging (or a server under traffic) with restarts and failing or short log writes; non-trivial = two goroutines logged, or a fault or restart was injected; distinct = different (messages, faults, order of synchronisation)", Exec: execC19, Gen: genC19})
	reg(&Prop{ID: "C20", Quick: 180000, Rule: "case = one configuration file and command line drawn from a seed with short reads and read errors; non-trivial = the file sets at least one name or a fault was injected; distinct = different (file, flags, faults)", Exec: execC20, Gen: genC20})
}

// ---- C11 ----

var nasty = []string{
	"\r\n", "\n", "\r", "\x00", "PING\r\n", "+OK\r\n", "-ERR x\r\n", ":5\r\n", ":x\r\n", "$3\r\nabc\r\n", "$-1\r\n", "$-2\r\n", "$0\r\n\r\n", "*0\r\n", "*-1\r\n", "*-2\r\n", "*\r\n", "$\r\n", ":\r\n",
	"*x\r\n", "*1.5\r\n", "*99999999999999999999\r\n", "*9223372036854775807\r\n", "*1099511627776\r\n", "*1\r\n$99999999999999999999\r\n", "*1\r\n$9223372036854775807\r\n", "*1\r\n$1099511627776\r\n",
	"*1\r\n$-1\r\n", "*2\r\n$-1\r\n$3\r\nfoo\r\n", "*2\r\n$3\r\nGET\r\n$-1\r\n", "*3\r\n$3\r\nSET\r\n$2\r\nhk\r\n$-1\r\n", "*1\r\n$-5\r\n", "*1\r\n$x\r\n", "*1\r\n$\r\n", "*1\r\n$4\r\nPINGxx", "*1\r\n$4\r\nPING\r\r", "*1\r\n$4\r\nPINGG\r\n",
	"*1\r\n*1\r\n$4\r\nPING\r\n", "*2\r\n*0\r\n*-1\r\n", "*1\r\n+PING\r\n", "*1\r\n:1\r\n", "*2\r\n$3\r\nGET\r\n:1\r\n", "*1\r\n-x\r\n", "*1\r\n!x\r\n", "*1\r\n\r\n", "*1\r\n\n", "*1\n$4\nPING\n", "*1\r$4\r", "*1\r\n$4\r\nPI\r\n", "*2\r\n$3\r\nGET\r\n$0\r\n\r\n",
	"*1\r\n$0\r\n\r\n", "GET / HTTP/1.1\r\nHost: x\r\n\r\n", "\xff\xfe\xfd\r\n", "*+1\r\n$4\r\nPING\r\n", "* 1\r\n$4\r\nPING\r\n", "*01\r\n$04\r\nPING\r\n", "*1\r\n$+4\r\nPING\r\n", "*3\r\n$3\r\nSET\r\n", "$5\r\nhel", "*2\r\n$4\r\nKEYS\r\n$3\r\n[a-\r\n", "*2\r\n$4\r\nKEYS\r\n$1\r\n[\r\n", "*2\r\n$4\r\nKEYS\r\n$2\r\n[^\r\n", "*2\r\n$4\r\nKEYS\r\n$2\r\n[]\r\n", "*2\r\n$4\r\nKEYS\r\n$3\r\n[a\\\r\n",
}

func (g *gen) hostileBytes() string {
	switch g.Intn(8) {
	case 0, 1, 2:
		return g.of(nasty...)
	case 3:
		n := 1 + g.Intn(60)
		b := make([]byte, n)
		for i := range b {
			if g.p(40) {
				b[i] = "*$+-:\r\n0123456789"[g.Intn(17)]
			} else {
				b[i] = byte(g.Intn(256))
			}
		}
		return string(b)
	case 4:
		return strings.Repeat(g.of("*1\r\n", "*2\r\n", "$0\r\n", "\r\n", "\n", "*", "$", "a"), 1+g.Intn(3000))
	}
	// a mutated valid request
	b := []byte(string(encode(toBin(g.anyCmd()))))
	for m := 1 + g.Intn(3); m > 0 && len(b) > 0; m-- {
		i := g.Intn(len(b))
		switch g.Intn(5) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b[i] = byte(g.Intn(256))
		case 2:
			c := "\r\n*$-09"[g.Intn(7)]
			b = append(b[:i:i], append([]byte{c}, b[i:]...)...)
		case 3:
			b[i] = "\r\n*$-09"[g.Intn(7)]
		case 4:
			b = b[:i]
		}
	}
	return string(b)
}

func toBin(a []string) []Bin {
	r := make([]Bin, len(a))
	for i, x := range a {
		r[i] = Bin(x)
	}
	return r
}

// extreme draws commands with extreme numbers and shapes (on the hostile client's own keys).
func (g *gen) extreme() []string {
	k := g.key()
	b := g.of("9223372036854775807", "-9223372036854775808", "-9223372036854775807", "1099511627776", "-1099511627776", "4611686018427387904", "18446744073709551615", "-1", "0", "2147483648", "-2147483649")
	b2 := g.of("9223372036854775807", "-9223372036854775808", "-1", "0", "1099511627776")
	return g.pick2([]string{"getrange", k, b, b2}, []string{"setrange", k, g.of("9223372036854775807", "-9223372036854775808", "1099511627776", "-1", "9223372036854775800"), "abc"}, []string{"lrange", k, b, b2}, []string{"ltrim", k, b, b2}, []string{"lindex", k, b}, []string{"lset", k, b, "x"}, []string{"lpop", k, b}, []string{"rpop", k, b}, []string{"spop", k, b},
		[]string{"srandmember", k, g.big()}, []string{"hrandfield", k, g.big()}, []string{"hrandfield", k, g.big(), "withvalues"}, []string{"expire", k, b}, []string{"expire", k, b, "gt"}, []string{"setex", k, b, "v"}, []string{"set", k, "v", "ex", b}, []string{"set", k, "v", "px", b}, []string{"set", k, "v", "exat", b}, []string{"set", k, "v", "pxat", b},
		[]string{"incrby", k, b}, []string{"decrby", k, b}, []string{"hincrby", k, "f", b}, []string{"incrbyfloat", k, g.of("1e308", "-1e308", "nan", "inf", "-inf", "1e400")}, []string{"hincrbyfloat", k, "f", g.of("1e308", "nan", "inf", "1e400")}, []string{"lpos", k, "a", "rank", b}, []string{"lpos", k, "a", "count", b}, []string{"lpos", k, "a", "maxlen", b}, []string{"lpos", k, "a", "rank", b, "count", b2, "maxlen", b2},
		[]string{"select", b}, []string{"lrem", k, g.of("9223372036854775807", "-9223372036854775807", "1099511627776"), "a"}, []string{"set", k, "v", g.of("ex", "px", "exat", "pxat")}, []string{"set", k, "v", g.of("nx", "xx", "get", "keepttl"), g.of("ex", "px", "exat", "pxat")}, []string{"set", k}, []string{"keys", g.of("[", "[^", "[a-", "*[", "h[", "h[^", "h[a-", "h[k-", "*[^a-", "]", "\\", "[]", "[^]", "[-]", "***", "?[")}, []string{k}, []string{""}, []string{"\x00"}, []string{"rename", k, k}, []string{"lmove", k, k, "left", "left"}, []string{"smove", k, k, "a"})
}

// mangle takes a complete command and spoils its arguments: cut off, dropped, repeated, swapped or replaced.
func (g *gen) mangle() []string {
	k := g.key()
	a := g.pick2(g.anyCmd(), g.anyCmd(), []string{"set", k, "v", "nx", "get", "ex", "10"}, []string{"set", k, "v", "xx", "px", "100"}, []string{"set", k, "v", "exat", "99999999999"}, []string{"set", k, "v", "get", "pxat", "99999999999999"}, []string{"set", k, "v", "keepttl"},
		[]string{"lpos", k, "a", "rank", "1", "count", "2", "maxlen", "3"}, []string{"hrandfield", k, "2", "withvalues"}, []string{"expire", k, "10", "nx"}, []string{"linsert", k, "before", "a", "b"}, []string{"lmove", k, k, "left", "right"}, []string{"hset", k, "f", "v", "g", "w"}, []string{"mset", k, "v", "hj", "w"}, []string{"spop", k, "2"}, []string{"srandmember", k, "-2"}, []string{"getrange", k, "0", "1"}, []string{"setrange", k, "1", "x"}, []string{"select", "0"}, []string{"ping", "x"}, []string{"keys", "*"}, []string{"rename", k, "hj"}, []string{"hincrby", k, "f", "1"}, []string{"lrem", k, "1", "a"}, []string{"ltrim", k, "0", "1"}, []string{"smove", k, "hj", "a"}, []string{"sdiffstore", k, "hj", k})
	for m := 1 + g.Intn(2); m > 0; m-- {
		i := g.Intn(len(a))
		switch g.Intn(6) {
		case 0, 1:
			a = a[:i]
		case 2:
			a = append(a[:i:i], a[i+1:]...)
		case 3:
			a = append(a[:i+1:i+1], a[i:]...)
		case 4:
			a = append([]string(nil), a...)
			j := g.Intn(len(a))
			a[i], a[j] = a[j], a[i]
		case 5:
			a = append([]string(nil), a...)
			a[i] = g.of("", "-1", "0", "\x00", "\xff", "*", "9223372036854775807", "-9223372036854775808", "nx", "ex", "left", "count", k)
		}
		if len(a) == 0 {
			return []string{""}
		}
	}
	return a
}

func (g *gen) big() string {
	return g.of("9223372036854775807", "-9223372036854775807", "-9223372036854775808", "1099511627776", "-1099511627776", "-3", "5", "-1152921504606846976")
}

func genC11(seed uint64, g *gen) *Plan {
	p := g.base("C11", seed)
	p.Kind = "hostile"
	var vk []string
	nv := 1 + g.Intn(2)
	fam := []func() []string{g.strCmd, g.listCmd, g.hashCmd, g.setCmd, g.anyCmd}
	for v := 0; v < nv; v++ {
		g.keys = []string{"victim" + strconv.Itoa(v)}
		if g.p(30) {
			g.keys = append(g.keys, "victim"+strconv.Itoa(v)+"b")
		}
		vk = append(vk, g.keys...)
		for _, k := range g.keys {
			if g.p(60) {
				p.Setup = append(p.Setup, cmd(g.create("slhS"[g.Intn(4)], k)...))
			}
		}
		f := fam[g.Intn(5)]
		cp := ClientPlan{Name: "v" + strconv.Itoa(v)}
		for i := 1 + g.Intn(5); i > 0; i-- {
			a := f()
			for a[0] == "keys" {
				a = f()
			}
			cp.Ops = append(cp.Ops, cmd(a...))
		}
		p.Clients = append(p.Clients, cp)
	}
	// commands whose truncated forms must have no effect
	vcmd := func() []string {
		k := g.of(vk...)
		return g.pick2([]string{"set", k, "TRUNCATED"}, []string{"del", k}, []string{"append", k, "TRUNCATED"}, []string{"lpush", k, "TRUNCATED", "more"}, []string{"hset", k, "f", "TRUNCATED", "g", "more"}, []string{"sadd", k, "TRUNCATED", "more"}, []string{"mset", k, "T", vk[0], "T"}, []string{"rename", k, "hk"}, []string{"expire", k, "1"}, []string{"incr", k}, []string{"del", vk[0], k})
	}
	g.bad = 40
	g.keys = []string{"hk", "hj"}
	nh := 1 + g.Intn(3)
	for h := 0; h < nh; h++ {
		cp := ClientPlan{Name: "h" + strconv.Itoa(h), Hostile: true, Faulty: true, LateDial: g.p(50)}
		for i := 1 + g.Intn(5); i > 0; i-- {
			switch g.Intn(8) {
			case 0, 1, 2:
				cp.Ops = append(cp.Ops, g.frag(Op{K: "raw", Raw: Bin(g.hostileBytes())}))
				if g.p(50) {
					cp.Ops = append(cp.Ops, Op{K: "dial"})
				}
			case 3, 4:
				cp.Ops = append(cp.Ops, cmd(g.extreme()...))
			case 5:
				cp.Ops = append(cp.Ops, cmd(g.failing(g.key())...), cmd(g.mangle()...))
			case 6:
				cp.Ops = append(cp.Ops, cmd(g.create("slhS"[g.Intn(4)], g.key())...), cmd(g.extreme()...), cmd(g.mangle()...))
			case 7:
				a := vcmd()
				n := len(encode(toBin(a)))
				o := Op{K: "part", A: toBin(a), N: 1 + g.Intn(n-1)}
				if g.p(40) {
					o.N = n - 1 - g.Intn(3)
				}
				cp.Ops = append(cp.Ops, g.frag(o))
				switch g.Intn(4) {
				case 0:
					cp.Ops = append(cp.Ops, Op{K: "half"}, Op{K: "drain"})
				case 1:
					cp.Ops = append(cp.Ops, Op{K: "close"})
				case 2:
					cp.Ops = append(cp.Ops, Op{K: "reset"})
				case 3:
					cp.Ops = append(cp.Ops, Op{K: "dial"})
				}
				if g.p(50) {
					cp.Ops = append(cp.Ops, Op{K: "dial"})
				} else {
					i = 0
				}
			}
		}
		switch g.Intn(6) {
		case 0:
			cp.Ops = append(cp.Ops, Op{K: "close"})
		case 1:
			cp.Ops = append(cp.Ops, Op{K: "reset"})
		case 2:
			cp.Ops = append(cp.Ops, Op{K: "half"})
		case 3:
			cp.Ops = append(cp.Ops, Op{K: "drain"})
		}
		if g.p(15) {
			cp.FailW = int64(1 + g.Intn(40))
		}
		p.Clients = append(p.Clients, cp)
	}
	if g.p(25) {
		p.Window = []int{1, 5, 50}[g.Intn(3)] // a client that does not read stalls its handler
	}
	p.RstDrop = g.p(50)
	p.NoCoal = g.p(50)
	p.Final = append([]Op{cmd("ping")}, dump(vk)...)
	p.Final = p.Final[:len(p.Final)-1] // no KEYS: it lists hostile keys as well
	return p
}

func (g *gen) frag(o Op) Op {
	if g.p(40) {
		n := len(o.Raw)
		if o.K == "part" {
			n = o.N
		}
		at := 0
		for at < n && len(o.Cut) < 20 {
			at += 1 + g.Intn(1+n/2)
			o.Cut = append(o.Cut, at)
			o.Dly = append(o.Dly, int64(g.Intn(1000)))
		}
	}
	return o
}

func execC11(p *Plan) *Run { return linExec(p) }

// ---- C12 ----

func genC12(seed uint64, g *gen) *Plan {
	p := g.base("C12", seed)
	p.Kind = "churn"
	g.keys = g.pool(2)
	g.bad = 20
	nc := 1 + g.Intn(5)
	for c := 0; c < nc; c++ {
		cp := ClientPlan{Name: strconv.Itoa(c), Hostile: true, Faulty: true, LateDial: g.p(60)}
		if g.p(20) {
			cp.FailW = int64(1 + g.Intn(30))
		}
		rounds := 1 + g.Intn(3)
		if g.p(2) {
			rounds += g.Intn(60)
		}
		if g.Intn(2000) == 0 {
			rounds += g.Intn(1200)
			p.Limit = 60000000
		}
		for r := 0; r < rounds; r++ {
			if r > 0 {
				cp.Ops = append(cp.Ops, Op{K: "dial"})
			}
			n := g.Intn(4)
			if g.p(1) {
				n = g.Intn(150)
			}
			for i := n; i > 0; i-- {
				o := cmd(g.anyCmd()...)
				if g.p(20) {
					o = cmd(g.pick2([]string{"select", strconv.Itoa(g.Intn(p.DbNum))}, []string{"select", g.of("-1", "99", "x")}, []string{"ping"}, []string{"ping", "x"}, []string{"keys", "*"}, []string{g.of("nosuch", "quit", "exit", "shutdown", "auth", "config", "command"), "x"}, []string{g.of("quit", "QUIT", "command")})...)
				}
				o.Pipe = true
				cp.Ops = append(cp.Ops, o)
				if g.p(20) {
					cp.Ops = append(cp.Ops, sleepUs(int64(g.Intn(3000))))
				}
				if g.p(2) { // a long silence
					cp.Ops = append(cp.Ops, sleepUs([]int64{2000000, 61000000, 301000000, 3700000000, 90000000000}[g.Intn(5)]))
				}
			}
			mid := g.Intn(6)
			switch mid {
			case 0:
				a := toBin(g.anyCmd())
				cp.Ops = append(cp.Ops, g.frag(Op{K: "part", A: a, N: 1 + g.Intn(len(encode(a))-1)}))
			case 1:
				cp.Ops = append(cp.Ops, g.frag(Op{K: "raw", Raw: Bin(g.hostileBytes())}))
			case 2:
				cp.Ops = append(cp.Ops, Op{K: "drain"})
			}
			switch g.Intn(5) {
			case 0, 1:
				cp.Ops = append(cp.Ops, Op{K: "close"})
			case 2:
				cp.Ops = append(cp.Ops, Op{K: "reset"})
			case 3:
				if g.p(50) {
					cp.Ops = append(cp.Ops, Op{K: "halfleft"})
				} else {
					cp.Ops = append(cp.Ops, Op{K: "half"}, Op{K: "drain"})
				}
			case 4:
				// a protocol error: the server has to end the connection by itself
				raw := Bin(g.of("*x\r\n", "*1\r\n$x\r\n", "*1\r\n$-7\r\n"))
				if mid >= 2 && g.p(50) {
					cp.Ops = append(cp.Ops, Op{K: "bad", Raw: raw})
				} else {
					cp.Ops = append(cp.Ops, Op{K: "raw", Raw: raw}, Op{K: "drain"}, Op{K: "close"})
				}
			}
		}
		p.Clients = append(p.Clients, cp)
	}
	if g.p(30) {
		p.Window = []int{1, 5, 50}[g.Intn(3)]
	}
	p.RstDrop = g.p(50)
	p.NoCoal = g.p(50)
	if g.p(20) && p.Pol.Kind == "rand" {
		p.Pol.AdvP, p.Pol.AdvMaxMs = []int{5, 20, 60}[g.Intn(3)], []int64{1500, 10000, 600000}[g.Intn(3)]
	}
	return p
}

func execC12(p *Plan) *Run {
	r := exec(p, func(r *Run) {
		s := r.S
		r.Srv = r.startServer(p.Args)
		if !r.waitUp(r.Srv, p.Port) {
			r.fail("start", "the server did not start")
			return
		}
		for i := 0; i < 2; i++ {
			r.seqClient("warm", ops([]string{"ping"}, []string{"get", "none"}))
			sim.Sleep(1e9)
		}
		base, open := s.Alive(r.Srv), snet.N().OpenConns()
		bl := s.AliveList(r.Srv)
		r.runClients()
		s.Calm()
		sim.Sleep(5e9)
		n, o := s.Alive(r.Srv), snet.N().OpenConns()
		if r.Srv.Dead {
			return
		}
		if o > open {
			r.fail("leak-conn", "%d connection(s) still open on the server's side although every client has ended (before: %d); activities: %s", o, open, strings.Join(s.AliveList(r.Srv), ", "))
		}
		if n > base {
			r.fail("leak-task", "%d activities alive, %d before the connections came: %s; before: %s", n, base, strings.Join(s.AliveList(r.Srv), ", "), strings.Join(bl, ", "))
		}
		r.seqClient("after", ops([]string{"ping"}))
	})
	r.health()
	return r
}

// ---- C14 ----

func genC14(seed uint64, g *gen) *Plan {
	p := g.base("C14", seed)
	g.keys = g.pool(2)
	errs := []string{"EMFILE", "ENFILE", "ECONNABORTED", "EINTR", "ENOBUFS", "ENOMEM", "EPROTO", "EPERM"}
	p.Kind = g.of("accept", "accept", "signal", "signal", "signal", "listen")
	if g.p(6) {
		p.Kind = "early"
		p.Sigs = []Sig{{Sig: g.of("INT", "TERM"), Spin: g.Intn(1 << uint(g.Intn(8)))}}
		return p
	}
	mk := func() {
		nc := 1 + g.Intn(4)
		for c := 0; c < nc; c++ {
			cp := ClientPlan{Name: strconv.Itoa(c), LateDial: g.p(70)}
			if p.Kind == "signal" {
				cp.Faulty = true
			}
			if g.p(30) {
				cp.Ops = append(cp.Ops, sleepUs(int64(g.Intn(5000))))
			}
			for i := 1 + g.Intn(4); i > 0; i-- {
				cp.Ops = append(cp.Ops, cmd(g.anyCmd()...))
				if g.p(15) && p.Kind == "accept" {
					cp.Ops = append(cp.Ops, Op{K: "dial"})
				}
				if g.p(15) {
					cp.Ops = append(cp.Ops, sleepUs(int64(g.Intn(3000))))
				}
			}
			if p.Kind == "signal" && g.p(25) {
				a := toBin(g.anyCmd())
				cp.Ops = append(cp.Ops, Op{K: "part", A: a, N: 1 + g.Intn(len(encode(a))-1)}, Op{K: "drain"})
			}
			if p.Kind == "signal" && g.p(25) {
				cp.Hostile = true // pipelines and never reads
				cp.Ops = append(cp.Ops, Op{K: "sleep", Us: int64(g.Intn(100000))})
			}
			p.Clients = append(p.Clients, cp)
		}
	}
	if g.Intn(800) == 0 { // a crowd, all connected at once
		p.Kind = "accept"
		for c := []int{70, 140, 300, 1100}[g.Intn(4)]; c > 0; c-- {
			cp := ClientPlan{Name: strconv.Itoa(c), LateDial: g.p(70), Ops: []Op{cmd("incr", "n")}}
			if g.p(50) {
				cp.Ops = []Op{cmd("ping")}
			}
			cp.Ops = append(cp.Ops, sleepUs(20000000))
			p.Clients = append(p.Clients, cp)
		}
		p.Limit = 60000000
		p.Final = ops([]string{"ping"}, []string{"exists", "n"})
		return p
	}
	switch p.Kind {
	case "accept":
		p.Accept = map[int]string{}
		switch g.Intn(3) {
		case 0:
			for i := 0; i < g.Intn(30); i++ {
				p.Accept[g.Intn(40)] = g.of(errs...)
			}
		case 1:
			e := g.of(errs...)
			from := g.Intn(4)
			for i := 1 + g.Intn(1+g.Intn(200)); i > 0; i-- {
				p.Accept[from+i] = e
			}
		case 2:
			p.Accept[g.Intn(3)] = g.of(errs...)
		}
		mk()
		if g.p(25) { // the clock runs on while connections are handed over
			p.Pol = sim.Policy{Kind: "rand", YieldP: []int{0, 3, 20, 200}[g.Intn(4)], SyncP: []int{50, 200, 500}[g.Intn(3)], AdvP: []int{5, 20, 60, 200}[g.Intn(4)], AdvMaxMs: []int64{1500, 5000, 60000}[g.Intn(3)]}
		}
		p.Final = ops([]string{"ping"}, []string{"set", "zz", "1"}, []string{"get", "zz"})
	case "signal":
		mk()
		p.Sigs = []Sig{{AtUs: int64(g.Intn(6000)), Sig: g.of("INT", "TERM")}}
		if g.p(20) {
			p.Sigs = append(p.Sigs, Sig{AtUs: int64(g.Intn(8000)), Sig: g.of("INT", "TERM")})
		}
		if g.p(20) {
			p.Accept = map[int]string{1 + g.Intn(5): g.of(errs...), 1 + g.Intn(9): g.of(errs...)}
		}
		if g.p(30) {
			p.Window = 1 + g.Intn(20)
		}
		if g.p(50) { // while the clients arrive
			sg := &p.Sigs[0]
			sg.AtUs, sg.Spin = int64(g.of2(0, g.Intn(5000))), g.Intn(60)
			if g.p(50) {
				for i := range p.Clients {
					if o := p.Clients[i].Ops; len(o) > 0 && o[0].K == "sleep" && g.p(70) {
						o[0].Us = sg.AtUs
					}
				}
			}
		}
		p.Setup = ops([]string{"set", "old", "1"}, []string{"rpush", "oldlist", "a"})
	case "listen":
		p.Listen = map[int]string{0: g.of("EADDRINUSE", "EACCES", "EADDRNOTAVAIL", "EMFILE")}
	}
	return p
}

func execC14(p *Plan) *Run {
	switch p.Kind {
	case "accept":
		r := linExec(p)
		if r.V == nil && r.Note["refused"] > 0 {
			r.fail("refused", "a connection was refused although nobody stopped the server: %s", strings.Join(r.Text, "; "))
		}
		// a failing accept may delay later connections, within reason
		if p.Pol.AdvP == 0 {
			nf := 0
			for k, n := range r.S.Probes {
				if strings.HasPrefix(k, "fault:accept-") {
					nf += n
				}
			}
			lim := 30000 + 5000*nf
			for _, e := range r.Ev {
				if e.Done && int(e.C1-e.C0) > lim {
					r.fail("late", "answered only after %d ms of simulated time, with %d failed accepts: %s", e.C1-e.C0, nf, e)
				}
			}
		}
		return r
	case "listen":
		r := exec(p, func(r *Run) {
			r.Srv = r.startServer(p.Args)
			if !waitDeath(r.S, r.Srv, 30e9) {
				r.fail("listen", "the server could not listen (%v) but keeps running: %v", p.Listen, r.S.AliveList(r.Srv))
				return
			}
			if r.Srv.Crash != "" {
				return
			}
			if r.Srv.ExitCode == 0 {
				r.fail("listen", "the server could not listen (%v) but exited with success", p.Listen)
			}
		})
		r.health()
		return r
	}
	r := exec(p, func(r *Run) {
		s := r.S
		r.Srv = r.startServer(p.Args)
		first := r.Srv
		if p.Kind == "early" { // the signal comes as soon as the port is open
			up := false
			for i := 0; i < 100000 && !up && !first.Dead; i++ {
				sim.Y()
				sim.YS()
				_, up = snet.N().Listening(p.Port)
			}
			for i := 0; i < p.Sigs[0].Spin; i++ {
				sim.Y()
				sim.YS()
			}
			if !up && !r.waitUp(first, p.Port) {
				r.fail("start", "the server did not start")
				return
			}
			if !first.Dead {
				sim.Probe("fault:signal-at-startup")
				r.deliver(first, p.Sigs[0].Sig)
			}
		} else {
			if !r.waitUp(r.Srv, p.Port) {
				r.fail("start", "the server did not start")
				return
			}
			r.seqClient("setup", p.Setup)
			r.phase = 1
			r.runClients()
		}
		if !waitDeath(s, first, 30e9) {
			r.fail("no-exit", "the server still runs 30 s after %v: %s", p.Sigs, strings.Join(s.AliveList(first), ", "))
			return
		}
		if first.Crash != "" {
			return
		}
		if !first.Exited || first.ExitCode != 0 {
			r.fail("exit-code", "after %v the server exited with %d", p.Sigs, first.ExitCode)
			return
		}
		if _, up := snet.N().Listening(p.Port); up {
			r.fail("still-listening", "the address is still bound after the exit")
			return
		}
		// restart on the same address
		r.Ev = nil
		sim.Sleep(1e6)
		p.Sigs, r.Data["sigs"] = nil, p.Sigs
		r.Srv = r.startServer(p.Args)
		if !r.waitUp(r.Srv, p.Port) {
			r.fail("restart", "the server does not start again: exit %v %d %s", r.Srv.Exited, r.Srv.ExitCode, r.Srv.Crash)
			return
		}
		if !r.seqClient("again", ops([]string{"keys", "*"}, []string{"exists", "old", "oldlist"}, []string{"get", "old"}, []string{"set", "old", "2"}, []string{"get", "old"})) {
			r.fail("refused", "the restarted server refuses connections")
		}
	})
	if sg, ok := r.Data["sigs"]; ok {
		p.Sigs = sg.([]Sig)
	}
	r.health()
	if r.V == nil {
		r.checkLin() // only the restarted server's history is left: it starts empty
	}
	return r
}

// ---- C18 ----

func genC18(seed uint64, g *gen) *Plan {
	p := g.base("C18", seed)
	p.Limit = 20000000
	p.Kind = "config"
	p.Pol = sim.Policy{Kind: "seq"}
	g.keys = g.pool(1 + g.Intn(4))
	g.bad = 5
	if g.wide = g.p(12); g.wide && g.p(20) {
		g.large()
	}
	if g.p(40) { // names of many shapes, hence of many hashes
		g.keys = nil
		for i := 1 + g.Intn(8); i > 0; i-- {
			g.keys = append(g.keys, g.name())
		}
	}
	if g.p(20) {
		g.spice()
	}
	cp := ClientPlan{Name: "0"}
	mindb := 1 + g.Intn(3)
	for i := 4 + g.Intn(16); i > 0; i-- {
		var a []string
		for {
			switch g.Intn(5) {
			case 0:
				a = g.multiCmd()
			case 1:
				a = g.pick2([]string{"select", strconv.Itoa(g.Intn(mindb))}, g.read(g.key()), g.write(g.key()))
			default:
				a = g.anyCmd()
			}
			if a[0] != "spop" && a[0] != "srandmember" && a[0] != "hrandfield" {
				break
			}
		}
		cp.Ops = append(cp.Ops, cmd(a...))
		if g.p(8) {
			cp.Ops = append(cp.Ops, sleepUs(g.pauseUs()))
		}
	}
	cp.Ops = append(cp.Ops, dump(g.keys)...)
	p.Clients = []ClientPlan{cp}
	p.SegNums = []int{1, []int{2, 3, 4}[g.Intn(3)], []int{5, 7, 16, 100}[g.Intn(4)], []int{101, 255, 256, 300}[g.Intn(4)]}
	p.DbNums = []int{mindb, mindb + g.Intn(3), mindb + g.Intn(6), mindb + g.Intn(2)}
	if g.p(4) {
		p.SegNums[3] = []int{1000, 4096}[g.Intn(2)]
	}
	if g.p(4) {
		p.DbNums[3] = 16
	}
	if g.p(30) { // several connections: each configuration must allow some order; replies are not compared across them
		p.Kind = "conc"
		p.Pol = g.policy(3000)
		p.Clients = nil
		g.clients(p, 2+g.Intn(2), 5, func() []string {
			if g.p(60) {
				return g.multiCmd()
			}
			return g.anyCmd()
		})
		p.Final = dump(g.keys)
		i, j := g.Intn(2), 2+g.Intn(2)
		p.SegNums = []int{p.SegNums[i], p.SegNums[j]}
		p.DbNums = []int{p.DbNums[i], p.DbNums[j]}
	}
	return p
}

func norm(e *Event) string {
	v := e.Reply
	if v == nil {
		return "(none)"
	}
	if v.T == '-' {
		return "error"
	}
	switch strings.ToLower(e.Args[0]) {
	case "smembers", "sinter", "sunion", "sdiff", "hkeys", "hvals", "keys":
		if l, ok := strs(v); ok {
			sort.Strings(l)
			return fmt.Sprintf("%q", l)
		}
	case "hgetall":
		if l, ok := strs(v); ok && len(l)%2 == 0 {
			var q []string
			for i := 0; i < len(l); i += 2 {
				q = append(q, fmt.Sprintf("%q=%q", l[i], l[i+1]))
			}
			sort.Strings(q)
			return strings.Join(q, ",")
		}
	}
	return v.String()
}

func execC18(p *Plan) *Run {
	var first *Run
	for i := range p.SegNums {
		q := p.clone()
		q.DbNum = p.DbNums[i]
		q.Args = append([]string(nil), p.Args...)
		q.Args[3] = strconv.Itoa(p.SegNums[i])
		q.Args[5] = strconv.Itoa(p.DbNums[i])
		r := linExec(q)
		if first != nil {
			first.Note["configs"]++
			first.Note["more_ns"] += int(r.S.Now() - r.S.Start())
		}
		if r.V != nil {
			r.V.Text = fmt.Sprintf("segnum %d dbnum %d: %s", p.SegNums[i], p.DbNums[i], r.V.Text)
			r.P = p
			return r
		}
		if first == nil {
			first = r
			first.P = p
			continue
		}
		for j := range first.Ev {
			if p.Kind != "conc" && j < len(r.Ev) && norm(first.Ev[j]) != norm(r.Ev[j]) {
				first.fail("differs", "with segnum %d dbnum %d: %s\n  with segnum %d dbnum %d: %s", p.SegNums[0], p.DbNums[0], first.Ev[j], p.SegNums[i], p.DbNums[i], r.Ev[j])
				return first
			}
		}
	}
	return first
}

// ---- C19 ----

var levels = []string{"debug", "info", "warning", "panic", "error"}

func genC19(seed uint64, g *gen) *Plan {
	p := g.base("C19", seed)
	p.Kind = g.of("direct", "direct", "direct", "server")
	p.Level = g.of(levels...)
	n := 0
	mk := func() [][]LogOp {
		var r [][]LogOp
		for t := 1 + g.Intn(4); t > 0; t-- {
			var l []LogOp
			for i := 1 + g.Intn(5); i > 0; i-- {
				n++
				tok := fmt.Sprintf("tok%dz", n)
				if g.p(10) {
					tok += periodic("xyz", 200+g.Intn(3000)) + "z"
				}
				o := LogOp{Lvl: g.Intn(5), Tok: tok}
				if g.p(10) {
					o.Sleep = int64(g.Intn(2000000))
				}
				l = append(l, o)
				for g.p(6) { // the same message again
					l = append(l, LogOp{Lvl: o.Lvl, Tok: o.Tok})
				}
			}
			r = append(r, l)
		}
		return r
	}
	if g.p(50) {
		for i := 1 + g.Intn(3); i > 0; i-- {
			from := g.Intn(12)
			p.Disk = append(p.Disk, &sos.Fault{Op: "write", Path: "/tmp/redis.log", From: from, To: from + 1 + g.Intn(4), Err: g.of("ENOSPC", "EIO", "EDQUOT"), Keep: []int{0, 0, 1, 10, 60}[g.Intn(5)]})
		}
	}
	if g.p(3) { // a log from earlier days
		p.LogPre = []int{100, 5000, 66000, 140000, 1<<20 + 100}[g.Intn(5)]
		if p.LogPre > 1<<17 && g.p(80) {
			p.LogPre = 300
		}
	}
	if p.Kind == "direct" {
		if g.p(25) { // nobody reads the standard output
			from := g.Intn(8)
			p.Disk = append(p.Disk, &sos.Fault{Op: "write", Path: "stdout", From: from, To: from + 1 + g.Intn(20), Err: g.of("EIO", "ENOSPC", "EPIPE", "EAGAIN"), Keep: []int{0, 0, 1, 10}[g.Intn(4)]})
		}
		p.Logs = mk()
		if g.p(50) {
			p.Logs2 = mk()
			p.KillAt = 1 + g.Intn(400) // steps after which the first process is killed
			if g.p(50) {
				p.KillAt = 0 // it ends by itself
			}
		}
		return p
	}
	p.Args[9] = g.of("info", "debug")
	p.Level = p.Args[9]
	g.keys = g.pool(2)
	for c := 0; c < 1+g.Intn(3); c++ {
		cp := ClientPlan{Name: strconv.Itoa(c), LateDial: true}
		for i := 1 + g.Intn(4); i > 0; i-- {
			cp.Ops = append(cp.Ops, cmd(g.anyCmd()...))
		}
		if g.p(40) {
			cp.Ops = append(cp.Ops, Op{K: "raw", Raw: Bin(g.of("*x\r\n", "hello\r\n", "+x\r\n"))}, Op{K: "drain"})
			cp.Faulty = true
		}
		cp.Ops = append(cp.Ops, Op{K: "close"})
		p.Clients = append(p.Clients, cp)
	}
	if g.p(30) {
		p.Disk = append(p.Disk, &sos.Fault{Op: "write", Path: "stdout", From: g.Intn(5), To: 5 + g.Intn(10), Err: "EIO"})
	}
	return p
}

var lvlRe = regexp.MustCompile(`(?i)\b(debug|info|warning|panic|error)\b`)

func (r *Run) logProc(name string, level string, ops [][]LogOp, done *int) *sim.Proc {
	return r.S.StartProc(name, func() {
		vreset.All()
		cfg := &config.Config{LogDir: "/tmp", LogLevel: level, Host: "127.0.0.1", Port: 6379, SegNum: 1, DbNum: 1}
		config.Conf = cfg
		if err := logger.Init(cfg); err != nil {
			r.fail("log-init", "the logger does not start: %v", err)
			return
		}
		left := len(ops)
		me := sim.Cur()
		for _, l := range ops {
			l := l
			sim.Go(func() {
				for _, o := range l {
					if o.Sleep > 0 {
						sim.Sleep(o.Sleep * 1000)
					}
					switch o.Lvl {
					case 0:
						logger.Debug(o.Tok)
					case 1:
						logger.Info(o.Tok)
					case 2:
						logger.Warning(o.Tok)
					case 3:
						logger.Panic(o.Tok)
					case 4:
						logger.Error(o.Tok)
					}
					r.logged(o.Tok)
				}
				left--
				if left == 0 {
					r.S.Ready(me)
				}
			})
		}
		for left > 0 {
			sim.Block("logging goroutines")
		}
		*done = 1
	})
}

func (r *Run) logged(tok string) {
	m, _ := r.Data["logged"].(map[string]int)
	if m == nil {
		m = map[string]int{}
		r.Data["logged"] = m
	}
	m[tok]++
}

func execC19(p *Plan) *Run {
	var before []byte
	var lines string
	old := ""
	if p.LogPre > 0 {
		old = strings.Repeat("[info] 2024/01/02 03:04:05 [an old line]\n", p.LogPre/40)
		before = []byte(old)
	}
	r := exec(p, func(r *Run) {
		s := r.S
		if old != "" {
			sos.F().Put("/tmp/redis.log", []byte(old))
		}
		if p.Kind == "server" {
			r.Srv = r.startServer(p.Args)
			if !r.waitUp(r.Srv, p.Port) {
				r.fail("start", "the server did not start")
				return
			}
			r.runClients()
			sim.Sleep(1e9)
			// the disk recovers: logging resumes
			sos.F().Faults = nil
			d0, _ := sos.F().Get("/tmp/redis.log")
			n0 := len(d0)
			r.seqClient("after", ops([]string{"ping"}))
			sim.Sleep(1e9)
			d1, _ := sos.F().Get("/tmp/redis.log")
			if len(d1) <= n0 {
				r.fail("log-stopped", "nothing is logged any more after the disk recovered")
			}
			// crash and restart: what was there stays
			before = append([]byte(nil), d1...)
			s.Kill(r.Srv, "killed")
			r.Srv = r.startServer(p.Args)
			if !r.waitUp(r.Srv, p.Port) {
				r.fail("restart", "the server does not start again")
				return
			}
			r.seqClient("again", ops([]string{"ping"}))
			sim.Sleep(1e9)
			d2, _ := sos.F().Get("/tmp/redis.log")
			lines = string(d2)
			return
		}
		var d1, d2 int
		pr := r.logProc("log0", p.Level, p.Logs, &d1)
		if p.KillAt > 0 {
			lim := s.Steps + uint64(p.KillAt)
			for !pr.Dead && s.Steps < lim {
				sim.YS()
			}
			if !pr.Dead {
				sim.Probe("fault:kill")
				s.Kill(pr, "killed")
			}
		} else {
			waitDeath(s, pr, 100e9)
		}
		if !pr.Dead {
			r.fail("log-hang", "logging does not finish: %v", s.AliveList(pr))
			return
		}
		if p.Logs2 != nil {
			b, _ := sos.F().Get("/tmp/redis.log")
			before = append([]byte(nil), b...)
			sim.Probe("fault:restart")
			pr2 := r.logProc("log1", p.Level, p.Logs2, &d2)
			waitDeath(s, pr2, 100e9)
			if !pr2.Dead {
				r.fail("log-hang", "logging does not finish: %v", s.AliveList(pr2))
				return
			}
		}
		b, _ := sos.F().Get("/tmp/redis.log")
		lines = string(b)
	})
	r.health()
	if r.V != nil {
		return r
	}
	if !strings.HasPrefix(lines, old) {
		r.fail("log-lost", "lines written on an earlier day are gone or altered: %d bytes were there, now the log is %s", len(old), short(lines))
		return r
	}
	if !strings.HasPrefix(lines, string(before)) {
		r.fail("log-lost", "lines written before the restart are gone or altered: before %s, after %s", short(string(before)), short(lines))
		return r
	}
	faulted := 0
	for _, f := range p.Disk {
		if f.Path != "stdout" { // the file does not depend on the standard output
			faulted += f.Fired
		}
	}
	if p.Kind == "server" {
		if faulted == 0 {
			for _, l := range strings.Split(strings.TrimSuffix(lines, "\n"), "\n") {
				if !lvlRe.MatchString(l) {
					r.fail("log-line", "a line of the log carries no level: %s", short(l))
				}
			}
		}
		return r
	}
	lv := 1
	for i, x := range levels {
		if x == p.Level {
			lv = i
		}
	}
	if p.Kind != "server" {
		lines = strings.TrimPrefix(lines, old)
	}
	done, _ := r.Data["logged"].(map[string]int)
	want := map[string]int{}
	for _, all := range [][][]LogOp{p.Logs, p.Logs2} {
		for _, l := range all {
			for _, o := range l {
				want[o.Tok]++
			}
		}
	}
	if lines != "" && !strings.HasSuffix(lines, "\n") && faulted == 0 {
		r.fail("log-line", "the log ends in the middle of a line: %s", short(lines))
		return r
	}
	ll := strings.Split(lines, "\n")
	where := map[int]int{} // messages on a line
	seen := map[string]bool{}
	check := func(all [][]LogOp) {
		for _, l := range all {
			last := -1
			for _, o := range l {
				if seen[o.Tok] { // judged with the first of its kind
					continue
				}
				seen[o.Tok] = true
				n := 0
				at, end := -1, -1
				for i, x := range ll {
					if c := strings.Count(x, o.Tok); c > 0 {
						n += c
						where[i] += c
						end = i
						if at < 0 {
							at = i
						}
					}
				}
				if o.Lvl < lv {
					if n > 0 {
						r.fail("log-level", "a %s message appears although the level is %s: %s", levels[o.Lvl], p.Level, short(ll[at]))
					}
					continue
				}
				if n > want[o.Tok] {
					r.fail("log-twice", "message %s appears %d times but was logged %d times", short(o.Tok), n, want[o.Tok])
				}
				if n < done[o.Tok] {
					if faulted == 0 {
						r.fail("log-missing", "message %s (%s, level %s) was logged %d times and is in the log %d times", short(o.Tok), levels[o.Lvl], p.Level, done[o.Tok], n)
					}
					r.Note["lost_by_fault"] += done[o.Tok] - n
				}
				if n == 0 {
					continue
				}
				if at < last {
					r.fail("log-order", "message %s appears before an earlier message of the same goroutine", short(o.Tok))
				}
				last = end
				// its own line carries its own level, and no other message
				x := ll[at]
				if faulted > 0 {
					// a short write may leave a fragment in front; judge what follows it
					if i := strings.LastIndex(x[:strings.Index(x, o.Tok)], "["+levels[o.Lvl]+"]"); i > 0 {
						x = x[i:]
					}
				}
				m := lvlRe.FindString(x)
				if strings.ToLower(m) != levels[o.Lvl] {
					r.fail("log-line", "message %s was logged as %s but its line says %q: %s", short(o.Tok), levels[o.Lvl], m, short(x))
				}
			}
		}
	}
	check(p.Logs)
	check(p.Logs2)
	if faulted == 0 {
		for i, x := range ll {
			if i == len(ll)-1 && x == "" {
				break
			}
			if n := where[i]; n != 1 {
				r.fail("log-line", "a line of the log holds %d messages: %s", n, short(x))
			}
		}
	} else if m := r.missingBeyondFaults(p, lines, lv, done, faulted); m != "" {
		r.fail("log-missing", "%s", m)
	}
	return r
}

// missingBeyondFaults: every failed write may cost one message, no more.
func (r *Run) missingBeyondFaults(p *Plan, lines string, lv int, done map[string]int, faulted int) string {
	miss := 0
	seen := map[string]bool{}
	for _, all := range [][][]LogOp{p.Logs, p.Logs2} {
		for _, l := range all {
			for _, o := range l {
				if n := done[o.Tok] - strings.Count(lines, o.Tok); o.Lvl >= lv && n > 0 && !seen[o.Tok] {
					miss += n
				}
				seen[o.Tok] = true
			}
		}
	}
	if miss > faulted {
		return fmt.Sprintf("%d messages are missing although only %d writes failed", miss, faulted)
	}
	return ""
}

// ---- C20 ----

func genC20(seed uint64, g *gen) *Plan {
	p := g.base("C20", seed)
	p.Limit = 20000000
	p.Kind = "conf"
	type kv struct{ k, v string }
	var set []kv
	add := func(k, v string) { set = append(set, kv{k, v}) }
	invalid := g.p(25)
	if g.p(60) {
		add("port", g.of("6380", "7000", "1", "65535", "6379"))
	}
	if g.p(50) {
		add("host", g.of("127.0.0.1", "0.0.0.0", "127.0.0.2", "10.1.2.3"))
	}
	if g.p(50) {
		add("logdir", g.of("/var/log", "/tmp/new", "/tmp", "./", "/tmp/a#1", "/tmp/#x", "/tmp/UPPER", "/tmp/a=b", "/tmp/\"q\""))
	}
	if g.p(50) {
		add("loglevel", g.case_(g.of(levels...)))
	}
	if g.p(50) {
		add("segnum", g.of("1", "2", "100", "1024"))
	}
	if g.p(60) {
		add("dbnum", g.of("1", "2", "5", "16", "40"))
	}
	if g.p(40) {
		add(g.of("maxmemory", "#", "#port", "bind", "appendonly", "ports", "#dbnum"), g.of("1", "x y z", "7001", ""))
	}
	if invalid {
		switch g.Intn(9) {
		case 0:
			set = append(set, kv{"port", g.of("abc", "70000", "-1", "6379x", "", "1.5")})
		case 1:
			set = append(set, kv{"host", g.of("localhost", "300.1.1.1", "", "1.2.3")})
		case 2:
			set = append(set, kv{"segnum", g.of("0", "-1", "x", "", "1.5", "99999999999999999999")})
		case 3:
			set = append(set, kv{"dbnum", g.of("0", "-5", "x", "", "99999999999999999999")})
		case 4:
			set = append(set, kv{"logdir", g.of("", "/no/such/dir")})
		case 5:
			set = append(set, kv{"loglevel", ""})
		}
		// no name twice: keep the last
		seen := map[string]bool{}
		var q []kv
		for i := len(set) - 1; i >= 0; i-- {
			if !seen[set[i].k] {
				seen[set[i].k] = true
				q = append([]kv{set[i]}, q...)
			}
		}
		set = q
	}
	for i := range set {
		j := i + g.Intn(len(set)-i)
		set[i], set[j] = set[j], set[i]
	}
	var b strings.Builder
	nl := g.of("\n", "\n", "\n", "\r\n")
	for i, x := range set {
		for g.p(20) {
			b.WriteString(g.of("", " ", "\t", "   ") + nl)
		}
		name := x.k
		switch g.Intn(4) {
		case 0:
			name = strings.ToUpper(name)
		case 1:
			name = strings.ToUpper(name[:1]) + name[1:]
		}
		b.WriteString(g.of("", "", "", " ", "\t") + name + g.of(" ", " ", "   ", "\t", " \t ") + x.v + g.of("", "", "", " ", "\t"))
		if i < len(set)-1 || g.p(60) {
			b.WriteString(nl)
		}
	}
	for g.p(15) {
		b.WriteString(g.of(" ", "", "\t") + nl)
	}
	if g.p(5) { // a long line, beyond any buffer
		b.WriteString(nl + "# " + periodic("comment ", 5000) + nl)
	}
	c := Bin(b.String())
	p.Conf = &c
	p.Args = []string{"-config", "/etc/gredis.conf"}
	if g.p(40) {
		p.Args = append(p.Args, "-port", g.of("6390", "6379"))
	}
	if g.p(30) {
		p.Args = append(p.Args, "-dbnum", g.of("3", "8"))
	}
	if g.p(30) {
		p.Args = append(p.Args, "-segnum", g.of("3", "8"))
	}
	if g.p(20) {
		p.Args = append(p.Args, "-loglevel", g.of(levels...))
	}
	if g.p(20) {
		p.Args = append(p.Args, "-logdir", g.of("/var", "/tmp"))
	}
	if g.p(20) {
		p.Args = append(p.Args, "-host", g.of("127.0.0.5", "127.0.0.1"))
	}
	if g.p(40) {
		p.Disk = append(p.Disk, &sos.Fault{Op: "shortread", Path: "/etc/gredis.conf", Keep: 1 + g.Intn(20)})
	}
	if g.p(30) {
		p.Disk = append(p.Disk, &sos.Fault{Op: "read", Path: "/etc/gredis.conf", Keep: g.Intn(len(c) + 2), Err: "EIO"})
	}
	if g.p(4) {
		p.Disk = append(p.Disk, &sos.Fault{Op: "open", Path: "/etc/gredis.conf", To: 1, Err: g.of("EACCES", "EMFILE", "ENOENT")})
	}
	return p
}

type want struct {
	host, port, logdir, loglevel string
	dbnum                        int
	bad                          string
}

// refConf is the reference reading of flags and file.
func refConf(p *Plan) want {
	w := map[string]string{"host": "127.0.0.1", "port": "6379", "logdir": "./", "loglevel": "info", "segnum": "100", "dbnum": "16"}
	for i := 0; i+1 < len(p.Args); i += 2 {
		w[p.Args[i][1:]] = p.Args[i+1]
	}
	res := want{}
	for _, l := range strings.Split(string(*p.Conf), "\n") {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		k := strings.ToLower(f[0])
		switch k {
		case "host", "port", "logdir", "loglevel", "segnum", "dbnum":
			if len(f) < 2 {
				res.bad = k + " has no value"
				return res
			}
			w[k] = f[1]
		}
	}
	res.host, res.port, res.logdir, res.loglevel = w["host"], w["port"], w["logdir"], strings.ToLower(w["loglevel"])
	if n, err := strconv.Atoi(w["port"]); err != nil || n < 0 || n > 65535 {
		res.bad = "port"
	}
	if n, err := strconv.Atoi(w["segnum"]); err != nil || n <= 0 {
		res.bad = "segnum"
	}
	n, err := strconv.Atoi(w["dbnum"])
	if err != nil || n <= 0 {
		res.bad = "dbnum"
	}
	res.dbnum = n
	switch w["host"] {
	case "localhost", "300.1.1.1", "1.2.3":
		res.bad = "host"
	}
	if w["logdir"] == "/no/such/dir" {
		res.bad = "logdir"
	}
	return res
}

func execC20(p *Plan) *Run {
	w := refConf(p)
	r := exec(p, func(r *Run) {
		s := r.S
		sos.F().MkdirRaw("/etc")
		r.Srv = r.startServer(p.Args)
		// either it listens somewhere or it ends
		up := false
		for i := 0; i < 3000 && !r.Srv.Dead; i++ {
			if len(snet.N().ListenAddrs()) > 0 {
				up = true
				break
			}
			sim.Sleep(1e6)
		}
		readErr := 0
		openErr := 0
		full := false
		for _, f := range p.Disk {
			if f.Op == "read" {
				readErr += f.Fired
				full = f.Keep >= len(*p.Conf)
			}
			if f.Op == "open" {
				openErr += f.Fired
			}
		}
		if r.Srv.Crash != "" {
			return
		}
		mustFail := w.bad != "" || openErr > 0 || readErr > 0 && !full
		if r.Srv.Dead {
			if r.Srv.ExitCode == 0 {
				r.fail("conf-exit", "the server exited with success at start")
			} else if !mustFail && !(readErr > 0) {
				r.fail("conf-refused", "a valid configuration is refused: %s; output %s", short(string(*p.Conf)), short(string(sos.F().Stdout)))
			}
			return
		}
		if !up {
			r.fail("conf-hang", "the server neither listens nor exits: %v", s.AliveList(r.Srv))
			return
		}
		if mustFail {
			r.fail("conf-partial", "the server started (%v) although the configuration is not usable (%s, read errors %d): %s", snet.N().ListenAddrs(), w.bad, readErr+openErr, short(string(*p.Conf)))
			return
		}
		la := snet.N().ListenAddrs()
		exp := w.host + ":" + w.port
		if len(la) != 1 || la[0] != exp {
			r.fail("conf-addr", "listens on %v instead of %s; file %s args %v", la, exp, short(string(*p.Conf)), p.Args)
			return
		}
		p.Port, _ = strconv.Atoi(w.port)
		p.DbNum = w.dbnum
		if !r.seqClient("probe", ops([]string{"select", strconv.Itoa(w.dbnum - 1)}, []string{"set", "a", "1"}, []string{"get", "a"}, []string{"select", strconv.Itoa(w.dbnum)}, []string{"get", "a"})) {
			r.fail("refused", "connection refused")
			return
		}
		sim.Sleep(1e9)
		lf := strings.TrimSuffix(w.logdir, "/") + "/redis.log"
		d, ok := sos.F().Get(lf)
		if !ok {
			r.fail("conf-log", "no log file %s; files: %v; file %s args %v", lf, sos.F().Files(), short(string(*p.Conf)), p.Args)
			return
		}
		lv := 0
		for i, x := range levels {
			if x == w.loglevel {
				lv = i
			}
		}
		if lv <= 1 && len(d) == 0 {
			r.fail("conf-level", "nothing logged at level %s; file %s args %v", w.loglevel, short(string(*p.Conf)), p.Args)
		}
		if lv >= 2 {
			for _, l := range strings.Split(string(d), "\n") {
				if m := strings.ToLower(lvlRe.FindString(l)); m == "info" || m == "debug" {
					r.fail("conf-level", "level %s but logged: %s", w.loglevel, short(l))
				}
			}
		}
	})
	r.health()
	r.checkLin()
	return r
}

var _ = os.Args
