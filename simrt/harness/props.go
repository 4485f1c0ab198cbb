package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"gRedis/verifsim/sim"
)

// Prop is a property with its workload generator and its oracle.
type Prop struct {
	ID    string
	Gen   func(seed uint64, g *gen) *Plan
	Exec  func(p *Plan) *Run
	Quick int // runs in the quick tier
	Rule  string
	Note  string
}

var props = map[string]*Prop{}

func reg(p *Prop) { props[p.ID] = p }

func linExec(p *Plan) *Run {
	r := standard(p)
	r.checkLin()
	return r
}

const linRule = "case = one simulated run drawn from a seed (configuration, set-up, per-connection commands, scheduling policy); non-trivial = at least two requests of different connections overlapped in time; distinct = different (commands, order in which goroutines passed synchronisation points)"

// typeSetup gives some keys values of mostly type t, sometimes with an expiry.
func (g *gen) typeSetup(p *Plan, t byte, otherPct int) {
	for _, k := range g.keys {
		if g.p(25) {
			continue
		}
		tt := t
		if g.p(otherPct) {
			tt = "slhS"[g.Intn(4)]
		}
		p.Setup = append(p.Setup, cmd(g.create(tt, k)...))
		if g.p(15) {
			p.Setup = append(p.Setup, cmd("expire", k, g.of("1", "2", "100", "1000")))
		}
	}
}

func typeProp(id string, t byte, f func(g *gen) []string, focus func(g *gen, p *Plan) bool) {
	reg(&Prop{ID: id, Quick: 300000, Rule: linRule, Exec: linExec, Gen: func(seed uint64, g *gen) *Plan {
		p := g.base(id, seed)
		g.keys = g.pool(1 + g.Intn(3))
		g.bad = []int{0, 0, 5, 15}[g.Intn(4)]
		if g.p(20) {
			g.spice()
		}
		g.wide = g.p(15)
		if g.wide && g.p(20) {
			g.large()
		}
		f := f
		if f0 := f; g.bad > 0 {
			f = func(g *gen) []string {
				a := f0(g)
				if g.p(3) {
					a = g.misnum(a)
				}
				return a
			}
		}
		g.typeSetup(p, t, g.of2(0, 10))
		if g.wide {
			p.Kind = "wide"
			g.clients(p, 1+g.Intn(2), 24, func() []string { return f(g) })
		} else if g.p(30) && focus(g, p) {
			p.Kind = "focus"
		} else {
			p.Kind = "mix"
			if g.p(15) {
				g.clients(p, 1, 14, func() []string { return f(g) })
			} else {
				g.clients(p, 2+g.Intn(3), 6, func() []string { return f(g) })
			}
		}
		if g.p(15) {
			g.net(p, 30)
		}
		if g.p(10) && p.Pol.Kind != "seq" {
			p.Pol.AdvP, p.Pol.AdvMaxMs = 3, 1500
		}
		p.Final = dump(g.keys)
		return p
	}})
}

func (g *gen) of2(a, b int) int {
	if g.p(50) {
		return a
	}
	return b
}

func init() {
	typeProp("C01", 's', (*gen).strCmd, func(g *gen, p *Plan) bool {
		k := g.key()
		menu := [][][]string{
			{{"incr", k}, {"decr", k}, {"incrby", k, "3"}, {"get", k}, {"incrbyfloat", k, "0.5"}},
			{{"append", k, "x"}, {"append", k, "yy"}, {"strlen", k}, {"get", k}, {"setrange", k, "1", "Q"}, {"getrange", k, "0", "-1"}},
			{{"setnx", k, "A"}, {"setnx", k, "B"}, {"set", k, "C", "nx"}, {"set", k, "D", "xx"}, {"del", k}, {"set", k, "E", "get"}, {"get", k}},
			{{"set", k, "1", "get"}, {"set", k, "2", "get"}, {"set", k, "3", "xx", "get"}, {"set", k, "4", "nx"}, {"del", k}},
			{{"mset", g.keys[0], "1", g.keys[len(g.keys)-1], "1"}, {"mset", g.keys[0], "2", g.keys[len(g.keys)-1], "2"}, {"mget", g.keys[0], g.keys[len(g.keys)-1]}, {"get", k}},
		}[g.Intn(5)]
		g.clients(p, 2+g.Intn(3), 5, func() []string { return menu[g.Intn(len(menu))] })
		return true
	})
	typeProp("C02", 'l', (*gen).listCmd, func(g *gen, p *Plan) bool {
		k := g.key()
		menu := [][][]string{
			{{"lpush", k, "a"}, {"rpush", k, "b"}, {"lpop", k}, {"rpop", k}, {"llen", k}, {"lpop", k, "2"}, {"rpop", k, "2"}, {"lrange", k, "0", "-1"}},
			{{"rpush", k, "a", "b", "c"}, {"lrem", k, "0", "a"}, {"lrem", k, "-1", "b"}, {"lset", k, "0", "z"}, {"lset", k, "-1", "y"}, {"ltrim", k, "1", "-1"}, {"lrange", k, "0", "-1"}, {"llen", k}},
			{{"linsert", k, "before", "a", "N"}, {"linsert", k, "after", "a", "M"}, {"rpush", k, "a"}, {"lpos", k, "a"}, {"lpos", k, "a", "count", "0"}, {"lindex", k, "0"}, {"lindex", k, "-1"}, {"lrange", k, "0", "-1"}},
			{{"lpushx", k, "1"}, {"rpushx", k, "2"}, {"lpop", k}, {"del", k}, {"rpush", k, "a"}, {"lmove", k, k, "left", "right"}, {"lmove", k, k, "right", "left"}, {"lrange", k, "0", "-1"}},
		}[g.Intn(4)]
		g.clients(p, 2+g.Intn(3), 5, func() []string { return menu[g.Intn(len(menu))] })
		return true
	})
	typeProp("C03", 'h', (*gen).hashCmd, func(g *gen, p *Plan) bool {
		k := g.key()
		menu := [][][]string{
			{{"hincrby", k, "f", "1"}, {"hincrby", k, "f", "2"}, {"hincrbyfloat", k, "f", "0.5"}, {"hget", k, "f"}, {"hdel", k, "f"}},
			{{"hset", k, "f", "1", "g", "1"}, {"hset", k, "f", "2", "g", "2"}, {"hmset", k, "g", "3", "f", "3"}, {"hgetall", k}, {"hmget", k, "f", "g"}, {"hvals", k}},
			{{"hsetnx", k, "f", "A"}, {"hsetnx", k, "f", "B"}, {"hdel", k, "f"}, {"hexists", k, "f"}, {"hlen", k}, {"hkeys", k}, {"hstrlen", k, "f"}},
			{{"hset", k, "f", "1"}, {"hdel", k, "f", "g"}, {"hset", k, "g", "2"}, {"hlen", k}, {"del", k}, {"exists", k}, {"hrandfield", k, "2"}},
		}[g.Intn(4)]
		g.clients(p, 2+g.Intn(3), 5, func() []string { return menu[g.Intn(len(menu))] })
		return true
	})
	typeProp("C04", 'S', (*gen).setCmd, func(g *gen, p *Plan) bool {
		k := g.key()
		k2 := g.key()
		menu := [][][]string{
			{{"sadd", k, "a", "b"}, {"spop", k}, {"spop", k, "2"}, {"scard", k}, {"smembers", k}, {"srem", k, "a"}},
			{{"sadd", k, "a"}, {"srem", k, "a"}, {"sismember", k, "a"}, {"scard", k}, {"srandmember", k}, {"sadd", k, "a", "a", "b"}},
			{{"smove", k, k2, "a"}, {"smove", k2, k, "a"}, {"sadd", k, "a"}, {"sinter", k, k2}, {"sunion", k, k2}, {"sdiff", k, k2}, {"smembers", k}},
			{{"sunionstore", k, k2, k}, {"sdiffstore", k, k, k2}, {"sinterstore", k2, k, k2}, {"sadd", k, "a", "c"}, {"sadd", k2, "b", "c"}, {"smembers", k}, {"scard", k2}},
		}[g.Intn(4)]
		g.clients(p, 2+g.Intn(3), 5, func() []string { return menu[g.Intn(len(menu))] })
		return true
	})

	reg(&Prop{ID: "C05", Quick: 300000, Rule: linRule, Exec: linExec, Gen: func(seed uint64, g *gen) *Plan {
		p := g.base("C05", seed)
		g.keys = g.pool(2 + g.Intn(3))
		if g.p(10) {
			g.keys = g.pool(5 + g.Intn(4))
		}
		if g.p(2) { // very many keys in one command
			p.Kind = "many"
			n := []int{17, 33, 65, 101, 130, 260}[g.Intn(6)]
			p.Args[3] = strconv.Itoa([]int{1, 3, 100, 300, 1024}[g.Intn(5)])
			g.keys = nil
			for i := 0; i < n; i++ {
				g.keys = append(g.keys, "n"+strconv.Itoa(i))
			}
			set := g.p(40)
			mk := func(c string, v string) []string {
				a := []string{c}
				o := g.Intn(n)
				for i := range g.keys {
					a = append(a, g.keys[(i+o)%n])
					if v != "" {
						a = append(a, v)
					}
				}
				return a
			}
			var menu [][]string
			if set {
				for _, k := range g.keys {
					if g.p(80) {
						p.Setup = append(p.Setup, cmd("sadd", k, "x"+k, "c"))
					}
				}
				f, l := g.keys[0], g.keys[n-1]
				menu = [][]string{mk("sunion", ""), mk("sinter", ""), mk("sdiff", ""), append([]string{"sunionstore", "dest"}, g.keys...), append([]string{"sdiffstore", f}, g.keys...), mk("del", ""), mk("exists", ""), {"smove", f, l, "x" + f}, {"smove", l, f, "x" + f}, {"smove", g.keys[n/2], f, "x" + g.keys[n/2]}}
			} else {
				p.Setup = append(p.Setup, cmd(mk("mset", "0")...))
				menu = [][]string{mk("mset", "1"), mk("mset", "2"), mk("mget", ""), mk("mget", ""), mk("del", ""), mk("exists", ""), {"rename", g.keys[0], g.keys[n-1]}, {"rename", g.keys[n/2], g.keys[0]}}
			}
			g.clients(p, 2, 3, func() []string { return menu[g.Intn(len(menu))] })
			p.Limit = 20000000
			p.Final = ops(mk("exists", ""), mk("mget", ""), []string{"scard", "dest"}, []string{"keys", "*"})
			return p
		}
		g.wide = g.p(8)
		a, b := g.keys[0], g.keys[1]
		c := g.keys[len(g.keys)-1]
		var menu [][]string
		switch g.Intn(8) {
		case 5: // a STORE form of several sources against other users of its destination
			p.Kind = "stores"
			p.Args[3] = g.of("3", "16", "100")
			src := []string{"s1", "s2", "s3", "s4", "s5"}[:2+g.Intn(4)]
			for i, k := range src {
				if g.p(90) {
					p.Setup = append(p.Setup, cmd("sadd", k, "x", "y", "m"+strconv.Itoa(i)))
				}
			}
			if g.p(70) {
				p.Setup = append(p.Setup, cmd(g.create("SSSl"[g.Intn(4)], a)...))
				if g.p(40) {
					p.Setup = append(p.Setup, cmd("expire", a, "1000"))
				}
			}
			g.keys = append([]string{a, b}, src...)
			st := func() []string { return append([]string{g.of("sunionstore", "sinterstore", "sdiffstore"), a}, src...) }
			use := [][]string{{"rename", a, b}, {"rename", b, a}, {"rename", a, src[0]}, {"set", a, "v", "ex", "500"}, {"set", a, "v"}, {"del", a, b}, {"exists", a, b}, {"ttl", a}, {"type", a}, {"smove", a, b, "x"}, {"smove", src[0], a, "x"}, {"smove", src[len(src)-1], src[0], "y"}, {"sadd", a, "n"}, {"srem", a, "x"}, {"expire", a, "700"}, {"persist", a}, {"sunion", a, src[0]}, {"sunionstore", b, a, src[0]}, {"smembers", a}, {"srem", src[0], "x", "y"}, {"sunionstore", src[0], a, b}, {"sdiff", src[0], a}, {"lpush", a, "e"}, {"spop", a, "9"}}
			g.clients(p, 2+g.Intn(2), 4, func() []string {
				if g.p(40) {
					return st()
				}
				return use[g.Intn(len(use))]
			})
		case 4: // commands over keys that expire meanwhile
			p.Kind = "deadlines"
			t := "slhS"[g.Intn(4)]
			for _, k := range g.keys {
				if g.p(80) {
					p.Setup = append(p.Setup, cmd(g.create(t, k)...))
					if g.p(70) {
						p.Setup = append(p.Setup, cmd("expire", k, g.of("1", "1", "2")))
					}
				}
			}
			for c := 0; c < 2+g.Intn(2); c++ {
				cp := ClientPlan{Name: strconv.Itoa(c), Ops: []Op{sleepUs(1000000 + []int64{-1000, 0, 1, 500000, 999999, 1000000, 1000001}[g.Intn(7)])}}
				for i := 1 + g.Intn(4); i > 0; i-- {
					if g.p(70) {
						cp.Ops = append(cp.Ops, cmd(g.multiCmd()...))
					} else {
						cp.Ops = append(cp.Ops, cmd(g.pick2(g.read(g.key()), g.write(g.key()))...))
					}
				}
				p.Clients = append(p.Clients, cp)
			}
			if g.p(60) {
				p.Pol = sim.Policy{Kind: "rand", YieldP: []int{3, 8, 20, 60}[g.Intn(4)], SyncP: []int{50, 200, 500}[g.Intn(3)], AdvP: []int{0, 5, 20, 60}[g.Intn(4)], AdvMaxMs: 1500}
			}
		case 0: // strings
			p.Kind = "strings"
			p.Setup = ops([]string{"mset", a, "0", b, "0"})
			menu = [][]string{{"mset", a, "1", b, "1"}, {"mset", b, "2", a, "2"}, {"mget", a, b}, {"mget", b, a, c}, {"del", a, b}, {"exists", a, b}, {"exists", b, a}, {"rename", a, b}, {"rename", b, c}, {"get", a}, {"mset", a, "3", b, "3", c, "3"}, {"del", b, c, a}}
		case 1: // lists
			p.Kind = "lists"
			p.Setup = ops([]string{"rpush", a, "1", "2", "3"})
			menu = [][]string{{"lmove", a, b, "left", "right"}, {"lmove", b, a, "right", "left"}, {"lmove", a, c, "right", "left"}, {"lmove", b, b, "left", "right"}, {"lrange", a, "0", "-1"}, {"lrange", b, "0", "-1"}, {"exists", a, b}, {"rename", a, b}, {"rename", b, a}, {"llen", a}}
		case 2: // sets
			p.Kind = "sets"
			p.Setup = ops([]string{"sadd", a, "x", "y"}, []string{"sadd", b, "y", "z"})
			menu = [][]string{{"smove", a, b, "x"}, {"smove", b, a, "x"}, {"smove", b, c, "y"}, {"sunion", a, b}, {"sinter", a, b}, {"sdiff", b, a}, {"sunionstore", c, a, b}, {"sinterstore", a, a, b}, {"sdiffstore", b, a, c}, {"smembers", a}, {"smembers", b}, {"sadd", a, "w"}, {"exists", a, b, c}, {"del", a, b}}
		case 3: // rename and lifetime
			p.Kind = "rename"
			t := "slhS"[g.Intn(4)]
			p.Setup = append(p.Setup, cmd(g.create(t, a)...), cmd("expire", a, g.of("100", "1000")))
			if g.p(50) {
				p.Setup = append(p.Setup, cmd(g.create("slhS"[g.Intn(4)], b)...))
			}
			menu = [][]string{{"rename", a, b}, {"rename", b, a}, {"rename", b, c}, {"ttl", a}, {"ttl", b}, {"type", a}, {"type", b}, {"exists", a, b}, {"persist", b}, {"expire", a, "500"}, {"del", a}, g.create(t, a)}
		}
		if p.Kind == "deadlines" || p.Kind == "stores" {
		} else if menu == nil {
			p.Kind = "mix"
			g.typeSetup(p, "slhS"[g.Intn(4)], 30)
			g.clients(p, 2+g.Intn(3), 5, func() []string {
				if g.p(70) {
					return g.multiCmd()
				}
				return g.anyCmd()
			})
		} else {
			g.clients(p, 2+g.Intn(3), 4, func() []string { return menu[g.Intn(len(menu))] })
		}
		p.Final = dump(g.keys)
		return p
	}})

	reg(&Prop{ID: "C06", Quick: 440000, Rule: "case = one simulated run drawn from a seed (commands of all value types with expiries, pauses between them, clock jumps inside commands); non-trivial = an expiry was set and simulated time passed; distinct = different (commands, pauses, order of synchronisation)", Exec: linExec, Gen: genC06})
	reg(&Prop{ID: "C07", Quick: 320000, Rule: linRule, Exec: linExec, Gen: genC07})

	reg(&Prop{ID: "C08", Quick: 320000, Rule: linRule, Exec: func(p *Plan) *Run {
		r := standard(p)
		return r
	}, Gen: genC08})

	reg(&Prop{ID: "C09", Quick: 190000, Rule: "case = one simulated run drawn from a seed (requests, segment boundaries, delays, pipelining, reader speed, buffer size, payload bytes); non-trivial = some request was fragmented, pipelined or read slowly; distinct = different (requests, segments, order of synchronisation)", Exec: linExec, Gen: genC09})

	reg(&Prop{ID: "C10", Quick: 260000, Rule: linRule, Exec: linExec, Gen: func(seed uint64, g *gen) *Plan {
		p := g.base("C10", seed)
		p.DbNum = []int{1, 2, 3, 4, 16, 16, 17, 33, 66}[g.Intn(9)]
		p.Args[5] = strconv.Itoa(p.DbNum)
		g.keys = g.pool(1 + g.Intn(2))
		g.bad = 3
		g.wide = g.p(8)
		sel := func() []string {
			switch g.Intn(12) {
			case 0:
				return []string{"select", g.of("-1", "x", "", "99", "1.5", "9223372036854775807", "99999999999999999999", "4294967296", "-4294967296", "256", "65536", "-2147483648", "0x1", "1x", "1e0")}
			case 1:
				return []string{"select", strconv.Itoa(p.DbNum)}
			case 2:
				return g.pick2([]string{"select"}, []string{"select", "0", "1"})
			}
			return []string{g.case_("select"), strconv.Itoa(g.Intn(p.DbNum))}
		}
		nc := 2 + g.Intn(3)
		for c := 0; c < nc; c++ {
			cp := ClientPlan{Name: strconv.Itoa(c), LateDial: g.p(30)}
			for i := 2 + g.Intn(7); i > 0; i-- {
				switch {
				case g.p(35):
					cp.Ops = append(cp.Ops, cmd(sel()...))
				case g.p(8):
					if g.p(60) {
						cp.Ops = append(cp.Ops, Op{K: g.of("close", "reset")}, sleepUs(int64(1+g.Intn(5000))))
					}
					cp.Ops = append(cp.Ops, Op{K: "dial"})
				case g.p(25):
					cp.Ops = append(cp.Ops, cmd(g.pick2([]string{"get", g.key()}, []string{"set", g.key(), g.v()}, []string{"keys", "*"}, []string{"exists", g.key()}, []string{"append", g.key(), "z"}, []string{"del", g.key()})...))
				default:
					cp.Ops = append(cp.Ops, cmd(g.anyCmd()...))
				}
			}
			p.Clients = append(p.Clients, cp)
		}
		if g.p(20) {
			g.net(p, 30)
		}
		p.Final = dump(g.keys)
		for d := 1; d < p.DbNum && d < 4; d++ {
			p.Final = append(p.Final, cmd("select", strconv.Itoa(d)))
			p.Final = append(p.Final, dump(g.keys)...)
		}
		for d := 4; d < p.DbNum; d++ {
			p.Final = append(p.Final, cmd("select", strconv.Itoa(d)), cmd("keys", "*"))
		}
		return p
	}})

	reg(&Prop{ID: "C11", Quick: 360000, Rule: "case = one simulated run drawn from a seed: well-behaved clients plus hostile or failing connections; non-trivial = at least one hostile byte stream or connection fault was delivered; distinct = different (byte streams, faults, order of synchronisation)", Exec: execC11, Gen: genC11})
	reg(&Prop{ID: "C12", Quick: 260000, Rule: "case = one simulated run drawn from a seed: a number of connections that end in drawn ways; non-trivial = at least one connection ended otherwise than by an orderly close while idle; distinct = different (requests, ends, order of synchronisation)", Exec: execC12, Gen: genC12})
	reg(&Prop{ID: "C13", Quick: 180000, Rule: linRule + " (KEYS against changes by others)", Exec: execC13, Gen: genC13})
	reg(&Prop{ID: "C15", Quick: 80000, Rule: linRule, Exec: execC15, Gen: genC15})

	reg(&Prop{ID: "C16", Quick: 300000, Rule: "case = one simulated run drawn from a seed: failing commands against keys of every type, with full reads around them; non-trivial = at least one command was answered with an error; distinct = different (commands, order of synchronisation)", Exec: linExec, Gen: genC16})
	reg(&Prop{ID: "C17", Quick: 260000, Rule: "case = one simulated run drawn from a seed: commands that remove elements of small collections, with existence probes; non-trivial = at least two clients or at least four commands on collections; distinct = different (commands, order of synchronisation)", Exec: linExec, Gen: genC17})
}

func (g *gen) pick2(l ...[]string) []string     { return l[g.Intn(len(l))] }
func (g *gen) pick3(l ...[][]string) [][]string { return l[g.Intn(len(l))] }

// ---- C06: expiry over time ----

func (g *gen) read(k string) []string {
	return g.pick2([]string{"get", k}, []string{"ttl", k}, []string{"exists", k}, []string{"type", k}, []string{"strlen", k}, []string{"llen", k}, []string{"lrange", k, "0", "-1"}, []string{"hgetall", k},
		[]string{"hlen", k}, []string{"smembers", k}, []string{"scard", k}, []string{"keys", "*"}, []string{"mget", k}, []string{"hget", k, "f"}, []string{"lindex", k, "0"}, []string{"sismember", k, "a"}, []string{"getrange", k, "0", "-1"},
		[]string{"sunion", k}, []string{"srandmember", k}, []string{"hmget", k, "f"}, []string{"hkeys", k}, []string{"hvals", k}, []string{"hexists", k, "f"}, []string{"hstrlen", k, "f"}, []string{"hrandfield", k}, []string{"lpos", k, "a"}, []string{"sdiff", k}, []string{"sinter", k, k})
}

// write draws a command that changes k in a way that depends on its presence.
func (g *gen) write(k string) []string {
	return g.pick2([]string{"append", k, g.of("z", "z", "0123456789abcdefghij")}, []string{"incr", k}, []string{"setnx", k, g.v()}, []string{"set", k, g.v(), "nx"}, []string{"set", k, g.v(), "xx"}, []string{"set", k, g.v(), "get"}, []string{"set", k, g.v(), "keepttl"}, []string{"set", k, g.v()},
		[]string{"setrange", k, "1", "Q"}, []string{"lpush", k, g.val()}, []string{"rpush", k, g.val()}, []string{"rpushx", k, "x"}, []string{"lpushx", k, "x"}, []string{"lpop", k}, []string{"rpop", k, "2"}, []string{"lset", k, "0", "n"}, []string{"lrem", k, "0", "a"}, []string{"ltrim", k, "0", "0"}, []string{"linsert", k, "before", "a", "n"},
		[]string{"hset", k, "f", g.v()}, []string{"hsetnx", k, "f", "n"}, []string{"hincrby", k, "n", "2"}, []string{"hdel", k, "f"}, []string{"hincrbyfloat", k, "n", "0.5"}, []string{"sadd", k, g.of(g.mem...)}, []string{"srem", k, "a"}, []string{"spop", k}, []string{"del", k},
		[]string{"persist", k}, []string{"mset", k, g.v()}, []string{"incrbyfloat", k, "0.5"}, []string{"decr", k}, []string{"incrby", k, "4"}, []string{"decrby", k, "2"}, []string{"hmset", k, "f", "1", "g", "2"})
}

// expiryCmd draws a command that gives or changes a lifetime.
func (g *gen) expiryCmd(k string, nowMs int64) []string {
	s := g.of("1", "1", "2", "2", "3", "5")
	ms := g.of("1", "300", "999", "1000", "1001", "1500", "2000", "2750")
	d := []int64{-1000, 0, 1, 500, 1000, 1500, 2000, 3000, 6000}[g.Intn(9)]
	if g.scale > 0 && g.p(70) {
		n := int64(1+g.Intn(3)) * g.scale
		s = strconv.FormatInt(n, 10)
		ms = strconv.FormatInt(n*1000+[]int64{0, 1, 500, -1}[g.Intn(4)], 10)
		d += n * 1000
	}
	switch g.Intn(12) {
	case 0, 1:
		return []string{"set", k, g.v(), "ex", s}
	case 2, 3:
		return []string{"set", k, g.v(), "px", ms}
	case 4:
		return []string{"set", k, g.v(), "exat", strconv.FormatInt((nowMs+d)/1000, 10)}
	case 5:
		return []string{"set", k, g.v(), "pxat", strconv.FormatInt(nowMs+d, 10)}
	case 6:
		return []string{"setex", k, s, g.v()}
	case 7, 8, 9:
		return []string{"expire", k, s}
	case 10:
		return []string{"expire", k, g.of("0", "-1", "100", "1000000", "9000000000", "-5")}
	case 11:
		if g.p(60) {
			break
		}
		h := g.of("9223372036854775807", "-9223372036854775808", "9223372036854775", "9223372036854775000", "-3", "0", "4000000000", "100000000000")
		return g.pick2([]string{"set", k, g.v(), "ex", h}, []string{"set", k, g.v(), "px", h}, []string{"set", k, g.v(), "exat", g.of("4000000000", "4294967296", "100000000000", "100000000001", "1000000000000", "9000000000000", "1", "0", "-1")}, []string{"set", k, g.v(), "pxat", g.of("4000000000000", "100000000000000", "1000000000000001", "9000000000000000", "1", "0", "-1")}, []string{"setex", k, h, g.v()}, []string{"expire", k, h}, []string{"expire", k, h, g.of("nx", "xx", "gt", "lt")})
	}
	return []string{"expire", k, s, g.of("nx", "xx", "gt", "lt", "GT", "LT")}
}

func (g *gen) pauseUs() int64 {
	if g.scale > 0 && g.p(60) {
		return int64(1+g.Intn(2))*g.scale*1000000 + []int64{-2000000, -1001000, -1000000, -500000, -1, 0, 1, 500000, 999999, 1000000, 1000001, 1500000}[g.Intn(12)]
	}
	return []int64{1, 1000, 10000, 250000, 499000, 500000, 700000, 999000, 999999, 1000000, 1000001, 1001000, 1300000, 1999000, 2000000, 2001000, 2500000, 3000000, 4100000}[g.Intn(19)]
}

func genC06(seed uint64, g *gen) *Plan {
	p := g.base("C06", seed)
	if g.p(40) {
		p.StartUs = []int64{0, 1, 999, 500000, 999000, 999999, 1000000}[g.Intn(7)]
	}
	g.keys = g.pool(1 + g.Intn(3))
	g.bad = g.of2(0, 6)
	g.wide = g.p(15)
	p.Kind = "time"
	if g.p(20) { // minutes, hours, days, months
		p.Kind = "long"
		g.scale = []int64{10, 60, 3600, 86400, 30 * 86400, 600 * 86400}[g.Intn(6)]
	}
	now := (sim.Epoch/1000 + p.StartUs) / 1000
	nc := 1
	if g.p(40) {
		nc = 2
	}
	for c := 0; c < nc; c++ {
		cp := ClientPlan{Name: strconv.Itoa(c)}
		t := now
		for i := 3 + g.Intn(10); i > 0; i-- {
			k := g.key()
			switch g.Intn(10) {
			case 0, 1:
				cp.Ops = append(cp.Ops, cmd(g.expiryCmd(k, t)...))
			case 2:
				cp.Ops = append(cp.Ops, cmd(g.create("slhS"[g.Intn(4)], k)...), cmd(g.expiryCmd(k, t)...))
			case 3, 4:
				us := g.pauseUs()
				t += us / 1000
				cp.Ops = append(cp.Ops, sleepUs(us))
			case 5, 6:
				cp.Ops = append(cp.Ops, cmd(g.read(k)...))
			case 7:
				switch g.Intn(4) {
				case 0:
					cp.Ops = append(cp.Ops, cmd(g.anyCmd()...))
				case 1:
					cp.Ops = append(cp.Ops, cmd(g.multiCmd()...))
				default:
					cp.Ops = append(cp.Ops, cmd(g.write(k)...))
				}
			case 8:
				cp.Ops = append(cp.Ops, cmd(g.pick2([]string{"rename", k, g.key()}, []string{"persist", k}, []string{"set", k, "n", "keepttl"}, []string{"ttl", k}, []string{"lmove", k, g.key(), "left", "right"}, []string{"smove", k, g.key(), "a"}, []string{"sunionstore", g.key(), k}, []string{"del", k})...))
			case 9:
				us := g.pauseUs()
				t += us / 1000
				cp.Ops = append(cp.Ops, sleepUs(us), cmd(g.read(k)...), cmd("ttl", k))
			}
		}
		p.Clients = append(p.Clients, cp)
	}
	if g.p(30) {
		p.Pol = sim.Policy{Kind: "rand", YieldP: 50, SyncP: 100, AdvP: []int{5, 20, 60}[g.Intn(3)], AdvMaxMs: 2500}
	} else if p.Pol.StallP > 0 {
		p.Pol.AdvMaxMs = 2500
	}
	if g.p(50) {
		p.Final = append(p.Final, sleepUs(g.pauseUs()))
	}
	p.Final = append(p.Final, dump(g.keys)...)
	if g.p(50) {
		p.Final = append(p.Final, sleepUs(6000000))
		p.Final = append(p.Final, dump(g.keys)...)
	}
	return p
}

// ---- C07: expiry against concurrent writers ----

func genC07(seed uint64, g *gen) *Plan {
	p := g.base("C07", seed)
	g.keys = g.pool(1)
	k := g.keys[0]
	other := "other"
	t := "slhS"[g.Intn(4)]
	g.vals = []string{"a", "b"}
	g.wide = g.p(6)
	life := int64(1 + g.Intn(2))
	frac := []int64{0, 1, 500000, 999000, 999999}[g.Intn(5)]
	p.StartUs = frac
	p.Setup = ops(g.create(t, k), []string{"expire", k, strconv.FormatInt(life, 10)})
	if t == 's' && g.p(50) {
		p.Setup = ops([]string{"set", k, "old", g.of("ex", "EX"), strconv.FormatInt(life, 10)})
	}
	if g.p(30) {
		p.Setup = append(p.Setup, cmd(g.create(t, other)...))
		if g.p(50) { // a second deadline, at or near the first
			p.Setup = append(p.Setup, cmd("expire", other, strconv.FormatInt(life, 10)))
		}
	}
	nc := 2 + g.Intn(3)
	// everything happens around the deadline
	base := life * 1000000
	wr := func() []string {
		switch g.Intn(10) {
		case 0, 1, 2, 3:
			return g.write(k)
		case 4:
			return g.create("slhS"[g.Intn(4)], k)
		case 5:
			return g.pick2([]string{"rename", k, other}, []string{"rename", other, k}, []string{"sunionstore", k, other}, []string{"smove", other, k, "a"}, []string{"lmove", other, k, "left", "left"}, []string{"sunionstore", other, k}, []string{"lmove", k, other, "left", "left"},
				[]string{"mset", k, g.v(), other, g.v()}, []string{"mget", other, k}, []string{"del", other, k}, []string{"exists", k, other}, []string{"sinter", k, other}, []string{"smove", k, other, "a"}, []string{"sdiffstore", k, k, other}, []string{"set", other, g.v()}, []string{"ttl", other})
		}
		return g.pick2([]string{"set", k, g.v()}, []string{"set", k, g.v(), "ex", "100"}, []string{"rpush", k, g.val()}, []string{"hset", k, "f", g.v()}, []string{"sadd", k, g.of(g.mem...)}, []string{"expire", k, g.of("1", "50", "100")}, []string{"setex", k, "100", g.v()})
	}
	if g.p(40) {
		// one type only: the re-created value is of the same type
		wr = func() []string {
			switch t {
			case 's':
				return g.pick2([]string{"set", k, g.v()}, []string{"append", k, "z"}, []string{"incr", k}, []string{"setnx", k, g.v()}, []string{"set", k, g.v(), "nx"}, []string{"setrange", k, "0", "Z"}, []string{"mset", k, g.v()})
			case 'l':
				return g.pick2([]string{"rpush", k, g.val()}, []string{"lpush", k, g.val()}, []string{"lpop", k}, []string{"rpushx", k, "x"}, []string{"lmove", k, k, "left", "right"})
			case 'h':
				return g.pick2([]string{"hset", k, "f", g.v()}, []string{"hincrby", k, "n", "1"}, []string{"hsetnx", k, "f", g.v()}, []string{"hdel", k, "f"})
			}
			return g.pick2([]string{"sadd", k, g.of(g.mem...)}, []string{"srem", k, "a"}, []string{"spop", k})
		}
	}
	for c := 0; c < nc; c++ {
		cp := ClientPlan{Name: strconv.Itoa(c)}
		d := []int64{-2000, -1, 0, 0, 1, 1000, 500000, 999999, 1000000, 1000001}[g.Intn(10)]
		cp.Ops = append(cp.Ops, sleepUs(base+d))
		for i := 1 + g.Intn(4); i > 0; i-- {
			if g.p(45) {
				cp.Ops = append(cp.Ops, cmd(g.read(k)...))
			} else {
				cp.Ops = append(cp.Ops, cmd(wr()...))
			}
			if g.p(10) {
				cp.Ops = append(cp.Ops, sleepUs([]int64{1, 1000, 400000, 1000000}[g.Intn(4)]))
			}
		}
		p.Clients = append(p.Clients, cp)
	}
	if g.p(60) {
		p.Pol = sim.Policy{Kind: "rand", YieldP: []int{3, 8, 20, 60}[g.Intn(4)], SyncP: []int{50, 200, 500}[g.Intn(3)], AdvP: []int{5, 20, 60, 120}[g.Intn(4)], AdvMaxMs: 1500}
		if g.p(50) {
			p.Pol.AdvP, p.Pol.StallP = 0, []int{2, 5, 15, 40}[g.Intn(4)]
		}
	} else if p.Pol.Kind == "seq" {
		p.Pol = g.policy(3000)
	}
	p.Final = dump([]string{k, other})
	if g.p(50) {
		p.Final = append(p.Final, sleepUs(3000000))
		p.Final = append(p.Final, dump([]string{k, other})...)
	}
	return p
}

// ---- C08 ----

func genC08(seed uint64, g *gen) *Plan {
	p := g.base("C08", seed)
	p.Args[3] = strconv.Itoa([]int{1, 1, 2, 2, 3, 100}[g.Intn(6)])
	g.keys = g.pool(2 + g.Intn(3))
	if g.p(15) {
		g.keys = g.pool(5 + g.Intn(4))
	}
	if g.p(5) {
		g.wide = true
		g.large()
	}
	g.bad = g.of2(0, 5)
	if g.p(20) { // lifetimes that end inside commands
		return g.deadlineC08(p)
	}
	g.typeSetup(p, "slhS"[g.Intn(4)], 40)
	if g.p(30) {
		for i := range p.Setup {
			if string(p.Setup[i].A[0]) == "expire" {
				p.Setup[i].A[2] = "1"
			}
		}
		p.Setup = append(p.Setup, sleepUs(2100000))
	}
	nc := 2 + g.Intn(4)
	many := func(name string, tail ...string) []string {
		a := []string{name}
		for i := 2 + g.Intn(3); i > 0; i-- {
			a = append(a, g.key())
		}
		return append(a, tail...)
	}
	g.clients(p, nc, 6, func() []string {
		switch g.Intn(10) {
		case 0, 1:
			return many(g.of("mget", "del", "exists", "sinter", "sunion", "sdiff", "sinterstore", "sunionstore", "sdiffstore"))
		case 2, 3, 4, 5:
			return g.multiCmd()
		case 6:
			if g.p(30) {
				return []string{"keys", g.of("*", "*?*", "*a*a*a*a*a*b", "[a-", "[", "[^", "[a", "k[", "k[^", "k[a-", "k[1-", "k[1", "[]", "[^]", "[a-]", "k[]", "k[^]", "\\", "k\\", "k[1-4]", "[^a]*", "**********b", "")}
			}
			return []string{"keys", "*"}
		}
		return g.anyCmd()
	})
	if g.p(10) {
		long := strings.Repeat("a", 40)
		p.Setup = append(p.Setup, cmd("set", long, "x"), cmd("set", long+"c", "x"))
		p.Clients[0].Ops = append(p.Clients[0].Ops, cmd("keys", "*a*a*a*a*a*a*a*a*b"))
	}
	if g.p(15) {
		a := []string{"rpush", g.keys[0]}
		for i := 0; i < 60; i++ {
			a = append(a, g.of(g.vals...))
		}
		p.Setup = append(p.Setup, cmd("del", g.keys[0]), cmd(a...))
	}
	if g.p(15) {
		g.net(p, 40)
	}
	if g.p(10) && p.Pol.Kind == "rand" {
		p.Pol.AdvP, p.Pol.AdvMaxMs = 20, 2000
	}
	if g.p(6) { // a client that asks and never reads its replies
		cp := ClientPlan{Name: "s", Hostile: true, Faulty: true}
		for i := 2 + g.Intn(8); i > 0; i-- {
			cp.Ops = append(cp.Ops, cmd(g.pick2([]string{"ping", "0123456789"}, many("mget"), g.read(g.key()), many("exists"), many("sunion"))...))
		}
		p.Clients = append(p.Clients, cp)
		p.Window = []int{1, 5, 50}[g.Intn(3)]
	}
	// after the dust has settled everything must still be reachable
	for _, k := range g.keys {
		p.Final = append(p.Final, cmd("del", k))
	}
	p.Final = append(p.Final, cmd(append([]string{"exists"}, g.keys...)...), cmd("keys", "*"))
	return p
}

func (g *gen) deadlineC08(p *Plan) *Plan {
	p.Kind = "deadlines"
	t := "slhS"[g.Intn(4)]
	for _, k := range g.keys {
		if g.p(10) {
			t = "slhS"[g.Intn(4)]
		}
		p.Setup = append(p.Setup, cmd(g.create(t, k)...), cmd("expire", k, g.of("1", "1", "1", "2")))
	}
	for c := 1 + g.Intn(3); c > 0; c-- {
		cp := ClientPlan{Name: strconv.Itoa(c), Ops: []Op{sleepUs(1000000 + []int64{-1000, 0, 500000, 990000, 999000, 999990, 1000000}[g.Intn(7)])}}
		for i := 1 + g.Intn(4); i > 0; i-- {
			switch k := g.key(); g.Intn(6) {
			case 0, 1:
				cp.Ops = append(cp.Ops, cmd(g.read(k)...))
			case 2:
				cp.Ops = append(cp.Ops, cmd(g.write(k)...))
			case 3:
				cp.Ops = append(cp.Ops, cmd(g.multiCmd()...))
			case 4:
				cp.Ops = append(cp.Ops, cmd(g.anyCmd()...))
			case 5:
				cp.Ops = append(cp.Ops, cmd(g.typed(t, k)...))
			}
		}
		p.Clients = append(p.Clients, cp)
	}
	p.Pol = sim.Policy{Kind: "rand", YieldP: []int{0, 3, 8, 20}[g.Intn(4)], SyncP: []int{0, 50, 200}[g.Intn(3)], AdvP: []int{10, 30, 80}[g.Intn(3)], AdvMaxMs: []int64{20, 600, 1500}[g.Intn(3)]}
	for _, k := range g.keys {
		p.Final = append(p.Final, cmd("del", k))
	}
	p.Final = append(p.Final, cmd(append([]string{"exists"}, g.keys...)...), cmd("keys", "*"))
	return p
}

// typed draws a command of the given type on k.
func (g *gen) typed(t byte, k string) []string {
	ks := g.keys
	g.keys = []string{k}
	defer func() { g.keys = ks }()
	switch t {
	case 's':
		return g.strCmd()
	case 'l':
		return g.listCmd()
	case 'h':
		return g.hashCmd()
	}
	return g.setCmd()
}

// ---- C09 ----

func (g *gen) blob() string {
	switch g.Intn(12) {
	case 0:
		return ""
	case 1:
		return "\r\n"
	case 2:
		return "$-1\r\n"
	case 3:
		return "*2\r\n$3\r\nGET\r\n$1\r\na\r\n"
	case 4:
		return "\x00\xff\x80\n\r\x00"
	case 5:
		return "+OK\r\n-ERR x\r\n:1\r\n"
	case 6:
		return " \t lead and trail \r"
	case 7:
		return "\n"
	}
	n := g.Intn(40)
	if g.p(15) {
		n = 40 + g.Intn(400)
		if g.p(20) {
			n = 400 + g.Intn(4000)
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.Intn(256))
		if g.p(20) {
			b[i] = "\r\n$*"[g.Intn(4)]
		}
	}
	return string(b)
}

func genC09(seed uint64, g *gen) *Plan {
	p := g.base("C09", seed)
	p.Kind = "bytes"
	nc := 1 + g.Intn(3)
	big := g.p(6)
	var all []string
	for c := 0; c < nc; c++ {
		cp := ClientPlan{Name: strconv.Itoa(c)}
		pre := strconv.Itoa(c)
		ks := []string{pre + "k", pre + g.blob(), pre + "\r\n"}
		if g.p(8) { // names alike for a long way, and to the last byte
			x := pre + g.long()
			ks = append(ks, x, x+"1", x+"2")
		} else if g.p(8) {
			ks = append(ks, pre+"k\x00", pre+"k ", pre+"K", " "+pre+"k")
		}
		all = append(all, ks...)
		burst := !big && g.p(5) // many requests at once
		cnt := 3 + g.Intn(12)
		if burst {
			cnt = 20 + g.Intn(150)
			if g.p(4) {
				cnt = 260 + g.Intn(800)
				p.Limit = 60000000
			}
		}
		if g.Intn(60000) == 0 { // a long-lived connection
			for i := 0; i < 66000; i++ {
				o := cmd("ping", strconv.Itoa(i))
				o.Pipe = i%50 != 0
				cp.Ops = append(cp.Ops, o)
			}
			p.Limit = 60000000
			cnt = 0
		}
		for i := cnt; i > 0; i-- {
			k := g.of(ks...)
			v := g.blob()
			if g.p(3) {
				v = g.long() + g.of("", "1", "2")
			}
			if burst && len(v) > 30 {
				v = v[:30]
			}
			if big && g.p(25) {
				n := []int{4094, 4095, 4096, 4097, 8192, 16384, 65535, 65536, 100000, 1 << 20, 1<<20 + 1, 2100000}[g.Intn(12)]
				v = periodic(g.of("abcdefg", "\r\n", "x\r", "\x00\xff\n"), n)
			}
			var a []string
			switch g.Intn(20) {
			case 0, 1, 2:
				a = []string{"set", k, v}
			case 3, 4, 5:
				a = []string{"get", k}
			case 6:
				a = []string{"append", k, v}
			case 7:
				a = []string{"rpush", k, v, g.blob()}
				if g.p(30) {
					for i := g.Intn(30); i > 0; i-- {
						a = append(a, g.blob())
					}
				}
				if big && g.p(20) {
					for i := []int{130, 1030, 4100}[g.Intn(3)]; i > 0; i-- {
						a = append(a, strconv.Itoa(i))
					}
				}
			case 8:
				a = []string{"lrange", k, "0", "-1"}
			case 9:
				a = []string{"hset", k, v, g.blob()}
				for g.p(30) {
					a = append(a, g.blob(), g.blob())
				}
			case 10:
				a = []string{"hgetall", k}
			case 11:
				a = []string{"sadd", k, v, "m"}
			case 12:
				a = []string{"smembers", k}
			case 13:
				a = []string{"del", k}
			case 14:
				a = []string{"ping", v}
				if g.p(50) {
					a = a[:1]
				}
			case 15:
				if g.p(50) {
					a = []string{"no\r\n+OK\r\nsuch" + g.blob(), v}
				} else {
					a = []string{"nosuch", v}
				}
				if a[0] == "" {
					a[0] = "x"
				}
			case 16:
				a = []string{"set", k}
			case 17:
				a = []string{"mget", k, g.of(ks...)}
				for g.p(60) {
					a = append(a, g.of(append(ks, pre+"none")...))
				}
				if g.p(30) {
					a = []string{"hmget", k, v, g.blob(), "m", g.blob(), "none", v}
					a = a[:3+g.Intn(5)]
				}
			case 18:
				a = g.pick2([]string{"getrange", k, "0", "-1"}, []string{"lpop", k, "3"}, []string{"spop", k}, []string{"spop", k, "9"}, []string{"hrandfield", k, "5", "withvalues"}, []string{"hvals", k}, []string{"lindex", k, "0"}, []string{"srandmember", k, "4"}, []string{"strlen", k}, []string{"hget", k, v})
			case 19:
				a = g.pick2([]string{"type", k}, []string{"set", k, v, "get"}, []string{"rename", k, g.of(ks...)}, []string{"setrange", k, "3", v}, []string{"incr", k}, []string{"ttl", k}, []string{"expire", k, "100000000"})
			}
			o := cmd(a...)
			n := len(encode(o.A))
			switch g.Intn(5) {
			case 0:
				if n < 200 {
					for x := 1; x < n; x++ {
						o.Cut = append(o.Cut, x)
					}
				}
			case 1, 2:
				at := 0
				for at < n && len(o.Cut) < 30 {
					at += 1 + g.Intn(1+n/2)
					o.Cut = append(o.Cut, at)
					o.Dly = append(o.Dly, []int64{0, 0, 1, 700, 100000}[g.Intn(5)])
				}
			}
			o.Pipe = g.p(50)
			if burst {
				o.Pipe = g.p(97)
			} else if len(o.Cut) > 0 && g.p(3) { // a request that takes minutes or hours to arrive
				o.Dly = append(o.Dly, 0)
				o.Dly[g.Intn(len(o.Dly))] = []int64{31e6, 61e6, 301e6, 3601e6, 86401e6}[g.Intn(5)]
			}
			if g.p(6) {
				o.Hold = 1 + g.Intn(n)
			}
			cp.Ops = append(cp.Ops, o)
			if g.p(3) { // an empty request: nothing to answer
				cp.Ops = append(cp.Ops, Op{K: "raw", Raw: Bin(g.of("*0\r\n", "*-1\r\n"))})
			}
			if g.p(5) && !burst {
				cp.Ops = append(cp.Ops, sleepUs(int64(g.Intn(200000))))
				if g.p(20) {
					cp.Ops = append(cp.Ops, sleepUs([]int64{31e6, 61e6, 301e6, 3601e6, 86401e6}[g.Intn(5)]))
				}
			}
		}
		if g.p(30) {
			cp.OutUs = int64(1 + g.Intn(100000))
		}
		if g.p(40) && !big {
			cp.RecvMax = 1 + g.Intn(40)
			cp.RecvUs = int64(g.Intn(2000))
		}
		if g.p(25) {
			cp.Ops = append(cp.Ops, Op{K: "half"})
		}
		p.Clients = append(p.Clients, cp)
	}
	if g.p(50) {
		if big {
			p.Window = 8192
		} else {
			p.Window = []int{1, 7, 64, 500, 3000}[g.Intn(5)]
		}
	}
	p.NoCoal = g.p(50)
	if p.Limit < 4000000 {
		p.Limit = 4000000
	}
	return p
}

// ---- C13 ----

func genC13(seed uint64, g *gen) *Plan {
	p := g.base("C13", seed)
	p.Args[3] = strconv.Itoa([]int{1, 1, 2, 3, 16, 100, 1000}[g.Intn(7)])
	nk := 2 + g.Intn(2)
	pats := []string{"*", "*", "*", "?:*", "a:*", "[ab]:*", "[^a]:*", "*:1", "*:[0-1]", "a:1", "zz", "a:?", "*a*", "[a-c]:[^0]", ""}
	owners := 1 + g.Intn(3)
	var all []string
	if g.p(4) { // a large keyspace
		nk = 30 + g.Intn(200)
		if g.p(10) {
			nk += 500
		}
		if g.Intn(60) == 0 {
			nk += 2500
		}
		p.Limit = 60000000
		owners = 1 + g.Intn(2)
	}
	for c := 0; c < owners; c++ {
		pre := string(rune('a'+c)) + ":"
		var ks []string
		for i := 0; i < nk; i++ {
			ks = append(ks, pre+strconv.Itoa(i))
		}
		if g.p(15) {
			ks = append(ks, pre+g.of("*", "[x]", "?", "", "\r\n"))
		}
		if g.p(15) {
			ks = append(ks, pre+g.of("\x80", "\xff", "\u00e9", "\u6f22z", "A", "Z\xc3", "\x01"))
		}
		if c == 0 && g.p(12) {
			ks = append(ks, "")
		}
		all = append(all, ks...)
		g.keys = ks
		if nk > 10 {
			a := []string{"mset"}
			for _, k := range ks {
				if g.p(90) {
					a = append(a, k, "x")
				}
			}
			p.Setup = append(p.Setup, cmd(a...))
		}
		for _, k := range ks {
			if nk > 10 && g.p(98) {
				continue
			}
			if g.p(60) {
				p.Setup = append(p.Setup, cmd(g.create("slhS"[g.Intn(4)], k)...))
				if g.p(20) {
					p.Setup = append(p.Setup, cmd("expire", k, g.of("1", "2", "100")))
				}
			}
		}
		cp := ClientPlan{Name: strconv.Itoa(c)}
		for i := 1 + g.Intn(6); i > 0; i-- {
			k := g.key()
			switch g.Intn(10) {
			case 8:
				cp.Ops = append(cp.Ops, cmd(g.pick2([]string{"lpop", k}, []string{"spop", k}, []string{"hdel", k, "f", "g", "h"}, []string{"lmove", k, g.key(), "left", "left"}, []string{"smove", k, g.key(), "a"}, []string{"sunionstore", k, g.key()}, []string{"sdiffstore", k, g.key(), k}, []string{"ltrim", k, "1", "0"}, []string{"srem", k, "a", "b", "c", "d"}, []string{"lrem", k, "0", "a"}, []string{"mset", k, "1", g.key(), "2"}, []string{"del", k, g.key()})...))
			case 9:
				cp.Ops = append(cp.Ops, cmd(g.pick2(g.write(k), g.expiryCmd(k, (sim.Epoch/1000+p.StartUs)/1000), []string{"setex", k, "1", "v"}, []string{"set", k, "v", "px", "800"}, []string{"persist", k})...))
			case 0, 1, 2:
				cp.Ops = append(cp.Ops, cmd(g.create("slhS"[g.Intn(4)], k)...))
			case 3, 4:
				cp.Ops = append(cp.Ops, cmd("del", k))
			case 5:
				cp.Ops = append(cp.Ops, cmd("rename", k, g.key()))
			case 6:
				cp.Ops = append(cp.Ops, cmd("expire", k, g.of("1", "1", "2", "0")))
			case 7:
				cp.Ops = append(cp.Ops, sleepUs([]int64{1000, 500000, 1000000, 2100000}[g.Intn(4)]))
			}
		}
		p.Clients = append(p.Clients, cp)
	}
	pat := func() string {
		if g.p(50) {
			return g.of(pats...)
		}
		return g.globFor(all[g.Intn(len(all))])
	}
	for c := 0; c < 1+g.Intn(2); c++ {
		cp := ClientPlan{Name: "k" + strconv.Itoa(c)}
		for i := 1 + g.Intn(4); i > 0; i-- {
			if g.p(25) {
				cp.Ops = append(cp.Ops, sleepUs([]int64{1000, 500000, 1000000, 1999000}[g.Intn(4)]))
			}
			cp.Ops = append(cp.Ops, cmd(g.case_("keys"), pat()))
		}
		p.Clients = append(p.Clients, cp)
	}
	if g.p(25) && p.Pol.Kind == "rand" {
		p.Pol.AdvP, p.Pol.AdvMaxMs = []int{5, 30}[g.Intn(2)], 1500
	}
	p.Final = append(p.Final, cmd("keys", "*"), cmd("keys", pat()), cmd("keys", pat()), sleepUs(3100000), cmd("keys", "*"))
	for _, k := range all {
		if nk > 10 && g.p(90) {
			continue
		}
		p.Final = append(p.Final, cmd("exists", k))
	}
	p.Final = append(p.Final, cmd("keys", "*"))
	return p
}

func ch(c byte) string { return string([]byte{c}) }

// globFor draws a well-formed pattern near key: mostly one that matches it.
func (g *gen) globFor(key string) string {
	var b strings.Builder
	for i := 0; i < len(key); i++ {
		c := key[i]
		if g.p(8) { // something else
			c = "ab:019z"[g.Intn(7)]
		}
		if c == '\r' || c == '\n' || strings.IndexByte("*?[]^-\\", c) >= 0 {
			b.WriteByte('?')
			continue
		}
		switch g.Intn(10) {
		case 0:
			b.WriteByte('?')
		case 1:
			b.WriteByte('*')
		case 2:
			b.WriteByte('*')
			i--
			if g.p(70) {
				i++
				b.WriteByte(c)
			}
			if i < 0 || b.Len() > 30 {
				i++
			}
		case 3:
			b.WriteString("[" + ch(c) + g.of("", "x", "1", "ab") + "]")
		case 4:
			b.WriteString("[" + g.of("x", "0", "z:") + ch(c) + "]")
		case 5:
			lo, hi := c-1, c+1
			if g.p(30) {
				lo, hi = 'A', 0xfe
			}
			b.WriteString("[" + ch(lo) + "-" + ch(hi) + "]")
		case 6:
			b.WriteString("[^" + g.of("x", "y-z", "A-Z", ch(c), "0-1", "\x80-\xff", "Z-\xc0") + "]")
		default:
			b.WriteByte(c)
		}
	}
	if g.p(10) {
		b.WriteString(g.of("*", "?", "**", "a", "*?"))
	}
	return b.String()
}

// lane is the owner of a key (the empty key belongs to the first one).
func lane(k string) string {
	if k == "" {
		return "a"
	}
	return k[:1]
}

func execC13(p *Plan) *Run {
	r := standard(p)
	if r.V != nil {
		return r
	}
	// Histories of the owners are sequential, so the model gives, for every key, what is certain and what is possible.
	type point struct {
		from, to uint64 // the change happened in [from, to]
		st       []*State
	}
	lanes := map[string][]*Event{} // per owner letter, in order
	var keysEv []*Event
	for _, e := range r.Ev {
		if strings.ToLower(e.Args[0]) == "keys" {
			keysEv = append(keysEv, e)
			continue
		}
		o := lane(e.Args[1])
		lanes[o] = append(lanes[o], e)
	}
	tl := map[string][]point{}
	for o, l := range lanes {
		sort.SliceStable(l, func(i, j int) bool { return l[i].Call < l[j].Call })
		cur := []*State{newState()}
		pts := []point{{0, 0, cur}}
		for _, e := range l {
			if !e.Done {
				return r
			}
			var nx []*State
			seen := map[string]bool{}
			for _, s := range cur {
				for _, t := range apply(s, e.Args, 0, e.Reply, e.C0, e.C1, false, p.DbNum) {
					if !seen[t.Key()] {
						seen[t.Key()] = true
						nx = append(nx, t)
					}
				}
			}
			if len(nx) == 0 {
				r.fail("history", "reply not explained even for the owner of the key: %s", e)
				return r
			}
			cur = nx
			pts = append(pts, point{e.Call, e.Ret, cur})
		}
		tl[o] = pts
	}
	var universe []string
	uni := map[string]bool{}
	for _, l := range lanes {
		for _, e := range l {
			for _, k := range keysOf(lowerFirst(e.Args)) {
				if !uni[k] {
					uni[k] = true
					universe = append(universe, k)
				}
			}
		}
	}
	sort.Strings(universe)
	for _, e := range keysEv {
		if !e.Done {
			return r
		}
		got, ok := strs(e.Reply)
		if !ok && !(e.Reply.T == '*' && len(e.Reply.A) == 0) {
			r.fail("keys", "KEYS reply is not a list of keys: %s", e)
			return r
		}
		listed := map[string]bool{}
		for _, k := range got {
			if listed[k] {
				r.fail("keys-twice", "key %q is listed twice: %s", k, e)
				return r
			}
			listed[k] = true
			if !uni[k] {
				r.fail("keys-ghost", "%q was never a key: %s", k, e)
				return r
			}
		}
		for _, k := range universe {
			match := glob(e.Args[1], k)
			if !match {
				if listed[k] {
					r.fail("keys-nomatch", "%q does not match the pattern: %s", k, e)
					return r
				}
				continue
			}
			// all points whose state may hold at some time during the call
			possible, certain := false, true
			pts := tl[lane(k)]
			for i, pt := range pts {
				// state i holds from (pt.from..pt.to) until (next.from..next.to)
				if pt.from > e.Ret {
					break
				}
				end := ^uint64(0)
				if i+1 < len(pts) {
					end = pts[i+1].to
				}
				if end < e.Call {
					continue
				}
				for _, st := range pt.st {
					ent, ok := st.m["0/"+k]
					if ok && (!ent.Exp || e.C0 < ent.Hi+1000) {
						possible = true
					}
					if !ok || ent.Exp && e.C1 >= ent.Lo {
						certain = false
					}
				}
			}
			if listed[k] && !possible {
				r.fail("keys-stale", "%q is listed but did not exist at any time during the call: %s", k, e)
				return r
			}
			if !listed[k] && certain {
				r.fail("keys-missing", "%q existed throughout the call but is not listed: %s", k, e)
				return r
			}
		}
	}
	return r
}

func lowerFirst(a []string) []string {
	b := append([]string(nil), a...)
	b[0] = strings.ToLower(b[0])
	return b
}

// ---- C15 ----

func genC15(seed uint64, g *gen) *Plan {
	p := g.base("C15", seed)
	p.Args[9] = g.of("debug", "info", "info", "error")
	g.keys = g.pool(1 + g.Intn(3))
	g.bad = 5
	g.typeSetup(p, "slhS"[g.Intn(4)], 40)
	nc := 2 + g.Intn(3)
	fam := g.Intn(6)
	for c := 0; c < nc; c++ {
		cp := ClientPlan{Name: strconv.Itoa(c), LateDial: g.p(40)}
		for i := 1 + g.Intn(6); i > 0; i-- {
			var a []string
			switch fam {
			case 0:
				a = g.strCmd()
			case 1:
				a = g.listCmd()
			case 2:
				a = g.hashCmd()
			case 3:
				a = g.setCmd()
			case 4:
				a = g.anyCmd()
			case 5:
				a = g.pick2(g.anyCmd(), []string{"select", strconv.Itoa(g.Intn(p.DbNum))}, []string{"keys", "*"}, g.read(g.key()), g.write(g.key()))
			}
			cp.Ops = append(cp.Ops, cmd(a...))
			if g.p(6) {
				cp.Ops = append(cp.Ops, sleepUs(1100000))
			}
			if g.p(6) {
				cp.Ops = append(cp.Ops, Op{K: "dial"})
			}
		}
		switch g.Intn(8) {
		case 0:
			cp.Ops = append(cp.Ops, Op{K: "reset"})
		case 1:
			cp.Ops = append(cp.Ops, Op{K: "raw", Raw: "bad\r\n"}, Op{K: "drain"})
			cp.Faulty = true
		}
		p.Clients = append(p.Clients, cp)
	}
	if g.p(30) {
		g.net(p, 30)
	}
	if p.Pol.Kind == "seq" {
		p.Pol = g.policy(3000)
	}
	if g.p(30) && p.Pol.Kind == "rand" {
		p.Pol.AdvP, p.Pol.AdvMaxMs = 20, 1500
	}
	return p
}

func execC15(p *Plan) *Run {
	r := standard(p)
	r.V = nil // only races count here
	r.Note["accesses"] = int(r.S.RaceAccesses())
	if l := r.S.Races(); len(l) > 0 {
		sort.Strings(l)
		r.fail("race", "unsynchronised accesses: %s", strings.Join(l, "; "))
	}
	for _, pr := range r.S.Procs {
		if strings.Contains(pr.Crash, "concurrent map") {
			r.fail("race", "%s", pr.Crash)
		}
	}
	return r
}

// ---- C16 ----

// failing draws commands that are (nearly always) answered with an error.
func (g *gen) failing(k string) []string {
	x := g.key()
	switch g.Intn(7) {
	case 0: // wrong number of arguments
		if g.p(40) {
			return g.misnum(g.pick2(g.anyCmd(), g.read(k), g.write(k)))
		}
		return g.pick2([]string{"get"}, []string{"get", k, k}, []string{"set", k}, []string{"append", k}, []string{"lpush", k}, []string{"hset", k, "f"}, []string{"hset", k, "f", "1", "g"}, []string{"sadd", k}, []string{"rename", k}, []string{"mset", k, "1", x}, []string{"setex", k, "5"}, []string{"lset", k, "0"},
			[]string{"linsert", k, "before", "a"}, []string{"expire", k}, []string{"incr", k, "1"}, []string{"lpop", k, "1", "2"}, []string{"rpop", k, "1", "2"}, []string{"del"}, []string{"smove", k, x}, []string{"lmove", k, x, "left"}, []string{"hincrby", k, "f"}, []string{"sunionstore", k}, []string{"ttl"}, []string{"persist", k, k}, []string{"hmset", k, "f", "1", "g"}, []string{"spop"}, []string{"keys"}, []string{"select"}, []string{"setnx", k}, []string{"ltrim", k, "0"}, []string{"setrange", k, "0"})
	case 1: // bad numbers
		b := g.of("x", "", "1.5", "9223372036854775808", "99999999999999999999")
		return g.pick2([]string{"incrby", k, b}, []string{"decrby", k, b}, []string{"expire", k, b}, []string{"setex", k, b, "n"}, []string{"set", k, "n", "ex", b}, []string{"set", k, "n", "px", b}, []string{"lset", k, b, "n"}, []string{"ltrim", k, b, "0"}, []string{"lrem", k, b, "a"}, []string{"hincrby", k, "f", b}, []string{"lpop", k, b}, []string{"spop", k, b}, []string{"setrange", k, b, "n"}, []string{"lindex", k, b}, []string{"lrange", k, "0", b},
			[]string{"hincrbyfloat", k, "f", g.of("x", "", "1..5", "1e400")}, []string{"incrbyfloat", k, g.of("x", "", "1..5", "1e400")}, []string{"getrange", k, b, "1"}, []string{"set", k, "n", "exat", b}, []string{"set", k, "n", "pxat", b}, []string{"ltrim", k, "0", b}, []string{"lpos", k, "a", "rank", b}, []string{"hrandfield", k, b}, []string{"srandmember", k, b})
	case 2: // out of range
		return g.pick2([]string{"incrby", k, "9223372036854775807"}, []string{"decrby", k, "9223372036854775807"}, []string{"hincrby", k, "f", "9223372036854775807"}, []string{"hincrby", k, "f", "-9223372036854775807"}, []string{"lset", k, "99", "n"}, []string{"lset", k, "-99", "n"}, []string{"setrange", k, "-1", "n"}, []string{"setrange", k, "1099511627776", "n"}, []string{"lpop", k, "-1"}, []string{"rpop", k, "-1"}, []string{"spop", k, "-1"},
			[]string{"lpos", k, "a", "rank", "0"}, []string{"lpos", k, "a", "count", "-1"}, []string{"set", k, "n", "ex", "0"}, []string{"set", k, "n", "px", "-5"}, []string{"setex", k, "0", "n"}, []string{"setex", k, "-1", "n"}, []string{"setex", k, "9223372036854775807", "n"}, []string{"set", k, "n", "ex", "9223372036854775807"}, []string{"expire", k, "9223372036854775807"})
	case 3: // bad options
		if g.p(20) { // two lifetimes at once
			l := [][]string{{"ex", "50"}, {"px", "50000"}, {"exat", "1800000000"}, {"pxat", "1800000000000"}, {"keepttl"}}
			i := g.Intn(len(l))
			j := (i + 1 + g.Intn(len(l)-1)) % len(l)
			return append(append([]string{"set", k, "n"}, l[i]...), l[j]...)
		}
		if g.p(40) { // nearly right
			so := []string{"nx", "xx", "ex", "px", "exat", "pxat", "get", "keepttl"}
			return g.pick2([]string{"set", k, "n", g.near(so...)}, []string{"set", k, "n", g.near(so...), "5"}, []string{"set", k, "n", g.of(so...), g.near(so...)}, []string{"expire", k, "5", g.near("nx", "xx", "gt", "lt")}, []string{"linsert", k, g.near("before", "after"), "a", "n"}, []string{"lmove", k, x, g.near("left", "right"), "left"}, []string{"lmove", k, x, "left", g.near("left", "right")}, []string{"lpos", k, "a", g.near("rank", "count", "maxlen"), "1"}, []string{"hrandfield", k, "1", g.near("withvalues")})
		}
		return g.pick2([]string{"set", k, "n", "bogus"}, []string{"set", k, "n", "nx", "xx"}, []string{"set", k, "n", "ex"}, []string{"set", k, "n", "ex", "5", "px", "5"}, []string{"set", k, "n", "keepttl", "ex", "5"}, []string{"expire", k, "5", "bogus"}, []string{"linsert", k, "beside", "a", "n"}, []string{"lmove", k, x, "up", "left"}, []string{"lmove", k, x, "left", "down"}, []string{"lpos", k, "a", "rank"}, []string{"lpos", k, "a", "bogus", "1"}, []string{"hrandfield", k, "1", "bogus"}, []string{"set", k, "n", "nx", "get", "bogus"})
	case 4: // unknown command
		if g.p(50) {
			return append([]string{g.near("get", "set", "del", "append", "incr", "lpush", "rpop", "lset", "hset", "hdel", "sadd", "srem", "spop", "expire", "persist", "rename", "mset", "setex", "type", "keys", "select", "ping")}, g.pick2([]string{}, []string{k}, []string{k, "1"}, []string{k, "1", "2"})...)
		}
		return g.pick2([]string{"flushall"}, []string{"nosuch", k}, []string{"get\r\n", k}, []string{" set", k, "n"}, []string{"", k}, []string{"set ", k, "n"})
	}
	// wrong type: commands of another family
	f := g.Intn(4)
	sv := g.keys
	g.keys = []string{k}
	if g.p(40) {
		g.keys = sv
	}
	defer func() { g.keys = sv }()
	switch f {
	case 0:
		return g.strCmd()
	case 1:
		return g.listCmd()
	case 2:
		return g.hashCmd()
	}
	return g.setCmd()
}

// misnum takes words off a command or puts one too many on it.
func (g *gen) misnum(a []string) []string {
	if g.p(60) && len(a) > 1 {
		return a[:1+g.Intn(len(a)-1)]
	}
	return append(append([]string{}, a...), g.of("x", "1", "0", "a", "", g.key()))
}

func genC16(seed uint64, g *gen) *Plan {
	p := g.base("C16", seed)
	g.keys = g.pool(2 + g.Intn(2))
	g.bad = 20
	if g.p(20) {
		g.spice()
	}
	g.wide = g.p(10)
	for _, k := range g.keys {
		if g.p(80) {
			p.Setup = append(p.Setup, cmd(g.create("slhS"[g.Intn(4)], k)...))
			if g.p(40) {
				p.Setup = append(p.Setup, cmd("expire", k, g.of("100", "1000")))
			}
		}
	}
	if g.p(25) {
		p.Setup = append(p.Setup, cmd("set", g.keys[0], g.of("9223372036854775800", "-9223372036854775800", "1e308", "abc")))
	}
	if g.p(15) {
		p.Setup = append(p.Setup, cmd("del", g.keys[0]), cmd("hset", g.keys[0], "f", g.of("9223372036854775800", "-9223372036854775800", "abc")))
	}
	nc := 1 + g.Intn(3)
	for c := 0; c < nc; c++ {
		cp := ClientPlan{Name: strconv.Itoa(c)}
		for i := 1 + g.Intn(5); i > 0; i-- {
			k := g.key()
			cp.Ops = append(cp.Ops, cmd(g.failing(k)...))
			if g.p(40) {
				cp.Ops = append(cp.Ops, cmd(g.read(k)...))
			}
			if g.p(15) {
				cp.Ops = append(cp.Ops, cmd(g.anyCmd()...))
			}
		}
		p.Clients = append(p.Clients, cp)
	}
	p.Final = dump(g.keys)
	return p
}

// ---- C17 ----

// emptied: a collection of many elements loses them all, in one command or several, while others look on.
func (g *gen) emptied(p *Plan, t byte) *Plan {
	p.Kind = "emptied"
	p.Limit = 20000000
	k, n := g.keys[0], []int{5, 9, 17, 33, 65, 129, 257}[g.Intn(7)]
	var all []string
	same := t == 'l' && g.p(50)
	for i := 0; i < n; i++ {
		x := "m" + strconv.Itoa(i)
		if same {
			x = "a"
		}
		all = append(all, x)
	}
	mk := func(c string, l []string) []string { return append([]string{c, k}, l...) }
	fill := mk(map[byte]string{'l': g.of("rpush", "lpush"), 'S': "sadd"}[t], all)
	if t == 'h' {
		fill = []string{"hset", k}
		for _, x := range all {
			fill = append(fill, x, g.of("1", "", "v"))
		}
	}
	p.Setup = append(p.Setup, cmd(fill...))
	if g.p(60) {
		p.Setup = append(p.Setup, cmd("expire", k, g.of("100", "1000")))
	}
	var seq [][]string
	h := g.Intn(n + 1)
	nn := strconv.Itoa(n)
	switch t {
	case 'l':
		if same {
			seq = g.pick3([][]string{{"lrem", k, "0", "a"}}, [][]string{{"lrem", k, nn, "a"}}, [][]string{{"lrem", k, "-" + nn, "a"}}, [][]string{{"lrem", k, strconv.Itoa(h), "a"}, {"lrem", k, "0", "a"}}, [][]string{{"lpop", k, strconv.Itoa(h + 1)}, {"lrem", k, "0", "a"}})
		} else {
			seq = g.pick3([][]string{{"ltrim", k, nn, "-1"}}, [][]string{{"ltrim", k, "1", "0"}}, [][]string{{"lpop", k, nn}}, [][]string{{"rpop", k, nn}}, [][]string{{"lpop", k, strconv.Itoa(h + 1)}, {"rpop", k, nn}}, [][]string{{"ltrim", k, strconv.Itoa(h), "-1"}, {"ltrim", k, nn, nn}}, [][]string{{"ltrim", k, "-1", "-1"}, {"lmove", k, "other", "left", "right"}})
			if g.p(20) {
				seq = nil
				for i := 0; i < n; i++ {
					seq = append(seq, g.pick2([]string{"lmove", k, "other", g.of("left", "right"), g.of("left", "right")}, []string{g.of("lpop", "rpop"), k}))
				}
			}
		}
	case 'h':
		seq = g.pick3([][]string{mk("hdel", all)}, [][]string{mk("hdel", all[:h]), mk("hdel", all)}, [][]string{mk("hdel", all[:n-1]), mk("hdel", all[n-1:])}, [][]string{mk("hdel", all[h:]), mk("hdel", append([]string{"none"}, all[:h]...))})
	default:
		seq = g.pick3([][]string{mk("srem", all)}, [][]string{mk("srem", all[:h]), mk("srem", all)}, [][]string{{"spop", k, nn}}, [][]string{{"spop", k, strconv.Itoa(h + 1)}, {"spop", k, nn}}, [][]string{mk("srem", all[1:]), {"smove", k, "other", "m0"}}, [][]string{{"sunionstore", "other", k}, {"sdiffstore", k, k, "other"}}, [][]string{{"sinterstore", k, k, "none"}})
	}
	cp := ClientPlan{Name: "0"}
	for _, a := range seq {
		if len(a) > 1 {
			cp.Ops = append(cp.Ops, cmd(a...))
		}
	}
	after := g.pick3([][]string{{"lpushx", k, "b"}, {"hsetnx", k, "f", "1"}}, [][]string{{"setnx", k, "s"}}, [][]string{{"rpush", k, "b"}}, [][]string{{"sadd", k, "b"}}, [][]string{{"hset", k, "f", "1"}})
	cp.Ops = append(cp.Ops, cmd("exists", k), cmd("type", k), cmd("ttl", k))
	cp.Ops = append(cp.Ops, ops(after...)...)
	cp.Ops = append(cp.Ops, cmd("ttl", k))
	p.Clients = append(p.Clients, cp)
	if g.p(50) {
		o := ClientPlan{Name: "1"}
		for i := 1 + g.Intn(4); i > 0; i-- {
			o.Ops = append(o.Ops, cmd(g.pick2([]string{"exists", k}, []string{"type", k}, []string{"llen", k}, []string{"scard", k}, []string{"hlen", k}, []string{"keys", "*"}, []string{"ttl", k}, []string{"expire", k, "500"}, []string{"persist", k})...))
		}
		p.Clients = append(p.Clients, o)
	}
	p.Final = dump([]string{k, "other"})
	return p
}

func genC17(seed uint64, g *gen) *Plan {
	p := g.base("C17", seed)
	g.keys = g.pool(1 + g.Intn(2))
	t := "lhS"[g.Intn(3)]
	g.mem = []string{"a", "b"}
	g.flds = []string{"f", "g"}
	g.vals = []string{"a"}
	if g.p(4) {
		return g.emptied(p, t)
	}
	for _, k := range g.keys {
		if g.p(80) {
			tt := t
			if g.p(8) {
				tt = "slhS"[g.Intn(4)]
			}
			p.Setup = append(p.Setup, cmd(g.create(tt, k)...))
			if g.p(60) {
				p.Setup = append(p.Setup, cmd("expire", k, g.of("100", "1000", "2")))
			}
		}
	}
	probe := func(k string) []string {
		return g.pick2([]string{"exists", k}, []string{"type", k}, []string{"ttl", k}, []string{"keys", "*"}, []string{"llen", k}, []string{"hlen", k}, []string{"scard", k}, []string{"get", k}, []string{"rename", k, g.key()}, []string{"setnx", k, "s"}, []string{"lpushx", k, "a"}, []string{"set", k, "v", "nx"}, []string{"set", k, "v", "xx"}, []string{"persist", k}, []string{"expire", k, "50"}, []string{"rpush", k, "a"}, []string{"hset", k, "f", "1"}, []string{"sadd", k, "a"}, []string{"append", k, "x"})
	}
	remove := func(k string) []string {
		x := g.key()
		switch t {
		case 'l':
			return g.pick2([]string{"lpop", k}, []string{"rpop", k}, []string{"lpop", k, g.of("1", "2", "9")}, []string{"rpop", k, g.of("1", "2", "9")}, []string{"ltrim", k, "5", "9"}, []string{"ltrim", k, "1", "0"}, []string{"ltrim", k, "1", "-1"}, []string{"ltrim", k, "-1", "-5"}, []string{"lrem", k, "0", "a"}, []string{"lrem", k, "1", "a"}, []string{"lrem", k, "-1", "a"}, []string{"lmove", k, x, "left", "right"}, []string{"lmove", k, x, "right", "left"}, []string{"lmove", k, k, "left", "left"}, []string{"rpushx", k, "a"}, []string{"rpush", k, "a"}, []string{"lset", k, "0", "a"}, []string{"linsert", k, "before", "a", "a"}, []string{"lpop", k, "0"})
		case 'h':
			return g.pick2([]string{"hdel", k, "f"}, []string{"hdel", k, "g"}, []string{"hdel", k, "f", "g"}, []string{"hdel", k, "f", "f"}, []string{"hset", k, "f", "1"}, []string{"hincrby", k, "f", g.of("1", "x")}, []string{"hincrbyfloat", k, "g", g.of("0.5", "x")}, []string{"hsetnx", k, "f", "2"}, []string{"hset", k, "f", "1", "g"}, []string{"hdel", k, "none"})
		}
		return g.pick2([]string{"srem", k, "a"}, []string{"srem", k, "b"}, []string{"srem", k, "a", "b"}, []string{"spop", k}, []string{"spop", k, g.of("1", "2", "9", "0")}, []string{"smove", k, x, "a"}, []string{"smove", k, x, "b"}, []string{"smove", k, k, "a"}, []string{"sinterstore", k, k, x}, []string{"sdiffstore", k, k, k}, []string{"sdiffstore", k, k, x}, []string{"sunionstore", k, "none", "none2"}, []string{"sunionstore", k, x}, []string{"sadd", k, "a"}, []string{"sinterstore", x, k, "none"}, []string{"srem", k, "zz"})
	}
	nc := 1 + g.Intn(3)
	for c := 0; c < nc; c++ {
		cp := ClientPlan{Name: strconv.Itoa(c)}
		for i := 2 + g.Intn(6); i > 0; i-- {
			k := g.key()
			if g.p(60) {
				cp.Ops = append(cp.Ops, cmd(remove(k)...))
			} else {
				cp.Ops = append(cp.Ops, cmd(probe(k)...))
			}
		}
		p.Clients = append(p.Clients, cp)
	}
	p.Final = dump(g.keys)
	for _, k := range g.keys {
		if g.p(50) {
			p.Final = append(p.Final, cmd(g.create(t, k)...), cmd("ttl", k))
		}
	}
	p.Final = append(p.Final, dump(g.keys)...)
	return p
}

var _ = fmt.Sprint
