package main

import (
	"strconv"
	"strings"

	"gRedis/verifsim/sim"
)

// gen draws commands. All randomness of a plan comes from one seeded source.
type gen struct {
	*sim.Rand
	keys  []string // key pool
	tk    map[byte][]string
	uniq  int
	bad   int // percent of deliberately bad arguments
	flds  []string
	vals  []string
	mem   []string
	bulk  int   // elements in the collections created (0: a few)
	scale int64 // lifetimes and pauses are that many times longer (0: seconds)
	wide  bool  // larger collections, wider ranges, extreme numbers, long values
}

// spice puts unusual elements into the pools: empty, binary and long ones, and many of them.
func (g *gen) spice() {
	for _, l := range []*[]string{&g.flds, &g.vals, &g.mem} {
		switch g.Intn(8) {
		case 6: // elements that differ in one byte at the end
			x := g.of("a", "b", "f", "")
			*l = append(*l, x, x+"\x00", x+" ", x+"\n", " "+x, "\x00"+x, strings.ToUpper(x))
		case 7: // and far into them
			x := g.long()
			*l = append(*l, x, x+"1", x+"2", "1"+x)
		case 4:
			*l = append(*l, "h\u00e9\u6f22", "\u00c9", "H\u00e9\u6f22")
		case 0:
			*l = append(*l, "")
		case 1:
			*l = append(*l, "\r\n\x00\xff")
		case 2:
			*l = append(*l, strings.Repeat("long", 40+g.Intn(200)))
		case 3:
			for i := 0; i < 12; i++ {
				*l = append(*l, "x"+strconv.Itoa(i))
			}
		}
	}
}

// long draws a long string, often as long as a limit someone might have put in.
func (g *gen) long() string {
	n := []int{15, 31, 63, 127, 255, 256, 511, 512, 600, 1023, 1024}[g.Intn(11)]
	if g.p(8) {
		n = []int{2048, 4096, 16384, 65535, 65536}[g.Intn(5)]
	}
	return strings.Repeat(g.of("k", "x", "\x00", "7"), n)
}

// large makes the collections large.
func (g *gen) large() {
	g.bulk = []int{20, 40, 70, 140, 270}[g.Intn(5)]
	if g.p(6) {
		g.bulk = []int{520, 1030, 2050}[g.Intn(3)]
	}
	for i := 0; i < g.bulk+10; i++ {
		x := "m" + strconv.Itoa(i)
		g.flds, g.mem = append(g.flds, x), append(g.mem, x)
	}
}

func newGen(seed uint64) *gen {
	g := &gen{Rand: sim.NewRand(seed)}
	g.flds = []string{"f", "g", "h"}
	g.vals = []string{"a", "b", "c"}
	g.mem = []string{"a", "b", "c", "d"}
	return g
}

func (g *gen) of(l ...string) string { return l[g.Intn(len(l))] }
func (g *gen) p(pct int) bool        { return g.Intn(100) < pct }
func (g *gen) key() string           { return g.keys[g.Intn(len(g.keys))] }
func (g *gen) v() string {
	g.uniq++
	if g.wide && g.p(25) {
		return g.of("9223372036854775807", "-9223372036854775808", "9223372036854775805", "-9223372036854775806", "", "0", "-1", "007", "+5", "1e3", "0.1", "3.75", "-0.5", " 12", "12 ", strings.Repeat("w", 300), "inf", "nan", "1e308", "-1e308", "abc\x00def", "4611686018427387904", "h\u00e9\u6f22", "\xc3(", "Abc", "aBC")
	}
	switch g.Intn(4) {
	case 0:
		return strconv.Itoa(g.Intn(20) - 5)
	case 1:
		return g.of(g.vals...)
	}
	return "v" + strconv.Itoa(g.uniq)
}
func (g *gen) val() string { // for lists: some repetition, mostly distinct
	if g.p(40) {
		return g.of(g.vals...)
	}
	g.uniq++
	return "e" + strconv.Itoa(g.uniq)
}
func (g *gen) int() string {
	if g.p(g.bad) {
		return g.badInt()
	}
	if g.wide {
		if g.p(8) {
			return g.of("9223372036854775807", "-9223372036854775807", "4611686018427387904", "-4611686018427387904", "2147483647", "-2147483649", "100", "-100", "1000")
		}
		if g.bulk > 0 {
			return strconv.Itoa(g.Intn(2*g.bulk+20) - g.bulk - 10)
		}
		return strconv.Itoa(g.Intn(61) - 30)
	}
	return strconv.Itoa(g.Intn(9) - 4)
}
func (g *gen) delta() string {
	if g.wide && g.p(6) {
		return "-9223372036854775808"
	}
	return g.int()
}
func (g *gen) pos() string {
	if g.p(g.bad) {
		return g.badInt()
	}
	if g.bulk > 0 {
		return strconv.Itoa(g.Intn(g.bulk + 20))
	}
	if g.wide {
		return strconv.Itoa(g.Intn(30))
	}
	return strconv.Itoa(g.Intn(5))
}
func (g *gen) badInt() string {
	return g.of("x", "", "1.5", "9223372036854775808", "9223372036854775807", "-9223372036854775807", "99999999999999999999", " 1", "0x10", "1e2")
}
func (g *gen) case_(s string) string {
	switch g.Intn(8) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

func (g *gen) float() string {
	if g.p(g.bad) {
		return g.of("x", "", "1..2", "--1", "1e400", "0x", "one", "inf", "-inf", "+Infinity", "nan", "NaN")
	}
	if g.wide && g.p(25) {
		return g.of("1e308", "-1e308", "1.7e308", "-1.7e308", "1e3", "0", "-0.5", "1048576.25", "5e-1")
	}
	return g.of("0.5", "1", "-0.25", "2.5", "10", "-3", "0.125")
}

// strCmd draws a string command.
func (g *gen) strCmd() []string {
	k := g.key()
	switch g.Intn(24) {
	case 0, 1, 2:
		a := []string{"set", k, g.v()}
		if g.p(50) {
			a = append(a, g.setOpts()...)
		}
		return a
	case 3, 4:
		return []string{"get", k}
	case 5:
		return []string{"getrange", k, g.int(), g.int()}
	case 6:
		o := strconv.Itoa(g.Intn(6))
		if g.wide {
			o = strconv.Itoa(g.Intn(40))
			if g.p(3) {
				o = g.of("1000", "4096", "70000")
			}
		}
		if g.p(g.bad) {
			o = g.of("-1", "x", "9223372036854775807", "1099511627776", "-9223372036854775807")
		}
		return []string{"setrange", k, o, g.of("", "Z", "YY", "XXX", "\u00e9")}
	case 7, 8:
		if g.wide && g.p(10) {
			return []string{"append", k, strings.Repeat(g.of("A", "bc"), []int{60, 130, 600, 5000}[g.Intn(4)])}
		}
		return []string{"append", k, g.of("", "1", "p", "q", "rs", "\u00e9")}
	case 9:
		return []string{"strlen", k}
	case 10, 11:
		return []string{"setnx", k, g.v()}
	case 12:
		return []string{"setex", k, g.lifeS(), g.v()}
	case 13:
		return []string{"incr", k}
	case 14:
		return []string{"decr", k}
	case 15:
		return []string{"incrby", k, g.delta()}
	case 16:
		return []string{"decrby", k, g.delta()}
	case 17:
		return []string{"incrbyfloat", k, g.float()}
	case 18, 19:
		a := []string{"mget"}
		for i := 1 + g.Intn(3); i > 0; i-- {
			a = append(a, g.key())
		}
		return a
	case 20, 21:
		a := []string{"mset"}
		for i := 1 + g.Intn(3); i > 0; i-- {
			a = append(a, g.key(), g.v())
		}
		if g.p(g.bad) {
			a = a[:len(a)-1]
		}
		return a
	case 22:
		return []string{"set", k, strconv.Itoa(g.Intn(30))}
	}
	return g.keyCmd(k)
}

func (g *gen) setOpts() []string {
	var a []string
	if g.p(35) {
		a = append(a, g.case_(g.of("nx", "xx")))
	}
	if g.p(30) {
		a = append(a, g.case_("get"))
	}
	switch g.Intn(8) {
	case 0:
		a = append(a, "keepttl")
	case 1:
		a = append(a, "ex", g.lifeS())
	case 2:
		a = append(a, "px", g.lifeMs())
	case 3:
		if g.p(50) {
			a = append(a, g.of("EX", "px"), g.of("100", "1000000"))
		}
	}
	if g.p(g.bad) {
		a = append(a, g.of("bogus", "nx", "ex", "xx", "px", "exat", "pxat", "get", "", "1", "keepttl", g.near("nx", "xx", "ex", "px", "exat", "pxat", "get", "keepttl")))
	}
	return a
}

func (g *gen) lifeS() string {
	if g.p(g.bad) {
		return g.of("x", "", "1.5", "9223372036854775808", "0", "-1", "-9223372036854775808", "9223372036854775807", "-100")
	}
	return g.of("1", "2", "3", "10", "100")
}
func (g *gen) lifeMs() string {
	if g.p(g.bad) {
		return g.of("x", "", "1.5", "9223372036854775808", "0", "-1", "-9223372036854775808", "9223372036854775807", "-100000")
	}
	return g.of("1", "10", "500", "1000", "1500", "2500", "100000")
}

// keyCmd draws a type independent command.
func (g *gen) keyCmd(k string) []string {
	switch g.Intn(10) {
	case 0, 1:
		a := []string{"del", k}
		for g.p(30) {
			a = append(a, g.key())
		}
		return a
	case 2, 3:
		a := []string{"exists", k}
		for g.p(30) {
			a = append(a, g.key())
		}
		return a
	case 4:
		return []string{"type", k}
	case 5:
		return []string{"ttl", k}
	case 6:
		return []string{"persist", k}
	case 7:
		a := []string{"expire", k, g.lifeS()}
		if g.p(50) {
			a = append(a, g.case_(g.of("nx", "xx", "gt", "lt")))
		}
		if g.p(g.bad) {
			a = append(a, g.of("nx", "zz", g.near("nx", "xx", "gt", "lt")))
		}
		return a
	case 8:
		return []string{"rename", k, g.key()}
	}
	return []string{"keys", g.of("*", "*", "?", "k*", "[a-z]*")}
}

func (g *gen) listCmd() []string {
	k := g.key()
	switch g.Intn(26) {
	case 0, 1, 2:
		a := []string{g.of("lpush", "rpush"), k, g.val()}
		for g.p(30) {
			a = append(a, g.val())
		}
		return a
	case 3, 4:
		return []string{"rpush", k, g.val()}
	case 5:
		a := []string{g.of("lpushx", "rpushx"), k, g.val()}
		for g.p(45) {
			a = append(a, g.val())
		}
		return a
	case 6, 7, 8, 9:
		a := []string{g.of("lpop", "rpop"), k}
		if g.p(30) {
			a = append(a, g.pos())
		}
		if g.p(g.bad) {
			a = append(a, "1", "2")
		}
		return a
	case 10, 11:
		return []string{"lindex", k, g.int()}
	case 12, 13:
		return []string{"linsert", k, g.case_(g.badOr("before", "after")), g.of(g.vals...), g.val()}
	case 14:
		return []string{"llen", k}
	case 15, 16:
		a := []string{"lpos", k, g.of(g.vals...)}
		if g.p(40) {
			a = append(a, g.case_("rank"), g.of("1", "2", "-1", "-2", "3"))
			if g.p(g.bad) {
				a[len(a)-1] = g.of("0", "x")
			}
		}
		if g.p(40) {
			a = append(a, "count", g.of("0", "1", "2", "5"))
			if g.p(g.bad) {
				a[len(a)-1] = g.of("-1", "x")
			}
		}
		if g.p(30) {
			a = append(a, "MAXLEN", g.of("0", "1", "2", "10", "40", "100"))
			if g.p(g.bad) {
				a[len(a)-1] = g.of("-1", "x")
			}
		}
		if g.p(g.bad) {
			a = append(a, "rank")
		}
		return a
	case 17, 18:
		return []string{"lrange", k, g.int(), g.int()}
	case 19:
		return []string{"lrange", k, "0", "-1"}
	case 20:
		n := g.of("0", "1", "2", "-1", "-2", "3", "-3")
		if g.p(g.bad) {
			n = g.of("x", "", "9223372036854775807", "-9223372036854775807")
		}
		return []string{"lrem", k, n, g.of(g.vals...)}
	case 21:
		return []string{"lset", k, g.int(), g.val()}
	case 22:
		return []string{"ltrim", k, g.int(), g.int()}
	case 23, 24:
		return []string{"lmove", k, g.key(), g.case_(g.badOr("left", "right")), g.of("left", "right", "LEFT")}
	}
	return g.keyCmd(k)
}

func (g *gen) badOr(l ...string) string {
	if g.p(g.bad) {
		if g.p(70) {
			return g.near(l...)
		}
		return "nowhere"
	}
	return g.of(l...)
}

// near draws a word that is nearly one of those.
func (g *gen) near(l ...string) string {
	w := g.of(l...)
	switch g.Intn(8) {
	case 0:
		if len(w) > 1 {
			return w[:1+g.Intn(len(w)-1)]
		}
	case 1:
		return w + g.of("x", "s", "e", w, w[:1], w[len(w)-1:])
	case 2:
		return g.of(" ", "-", "\x00") + w
	case 3:
		return w + g.of(" ", "\x00", "\n")
	case 4:
		if len(w) > 1 {
			i := g.Intn(len(w) - 1)
			return w[:i] + w[i+1:i+2] + w[i:i+1] + w[i+2:]
		}
	case 5:
		return w[len(w)-1:]
	case 6:
		i := g.Intn(len(w))
		return w[:i] + g.of("x", "n", "q") + w[i+1:]
	}
	return w[:1] + g.of(l...)
}

func (g *gen) hashCmd() []string {
	k := g.key()
	f := func() string { return g.of(g.flds...) }
	switch g.Intn(24) {
	case 0, 1, 2, 3:
		a := []string{g.of("hset", "hset", "hmset"), k, f(), g.v()}
		for g.p(40) {
			a = append(a, f(), g.v())
		}
		if g.p(g.bad) {
			a = append(a, f())
		}
		return a
	case 4, 5:
		return []string{"hsetnx", k, f(), g.v()}
	case 6:
		return []string{"hget", k, f()}
	case 7, 8:
		a := []string{"hmget", k, f()}
		for g.p(50) {
			a = append(a, f())
		}
		return a
	case 9, 10:
		return []string{"hgetall", k}
	case 11:
		return []string{g.of("hkeys", "hvals"), k}
	case 12:
		return []string{"hlen", k}
	case 13:
		return []string{"hexists", k, f()}
	case 14:
		return []string{"hstrlen", k, f()}
	case 15, 16, 17:
		a := []string{"hdel", k, f()}
		for g.p(40) {
			a = append(a, f())
		}
		return a
	case 18, 19:
		n := g.delta()
		return []string{"hincrby", k, f(), n}
	case 20:
		return []string{"hincrbyfloat", k, f(), g.float()}
	case 21, 22:
		a := []string{"hrandfield", k}
		if g.p(70) {
			a = append(a, g.of("1", "2", "3", "-1", "-2", "-4", "0"))
			if g.bulk > 0 {
				a[2] = g.int()
			}
			if g.p(g.bad) {
				a[2] = g.of("x", "-9223372036854775807", "-1099511627776", "9223372036854775807", "1099511627776")
			}
			if g.p(40) {
				a = append(a, g.case_("withvalues"))
				if g.p(g.bad) {
					a[3] = g.of("withvalue", g.near("withvalues"))
				}
			}
		}
		return a
	}
	return g.keyCmd(k)
}

func (g *gen) setCmd() []string {
	k := g.key()
	m := func() string { return g.of(g.mem...) }
	switch g.Intn(24) {
	case 0, 1, 2, 3:
		a := []string{"sadd", k, m()}
		for g.p(40) {
			a = append(a, m())
		}
		return a
	case 4, 5, 6:
		a := []string{"srem", k, m()}
		for g.p(40) {
			a = append(a, m())
		}
		return a
	case 7:
		return []string{"scard", k}
	case 8:
		return []string{"sismember", k, m()}
	case 9, 10:
		return []string{"smembers", k}
	case 11, 12, 13:
		a := []string{"spop", k}
		if g.p(40) {
			a = append(a, g.of("0", "1", "2", "3", "9"))
			if g.bulk > 0 {
				a[2] = g.pos()
			}
			if g.p(g.bad) {
				a[2] = g.of("x", "-1", "9223372036854775807", "1099511627776", "-9223372036854775807")
			}
		}
		return a
	case 14:
		a := []string{"srandmember", k}
		if g.p(60) {
			a = append(a, g.of("0", "1", "2", "-2", "-5", "9"))
			if g.bulk > 0 {
				a[2] = g.int()
			}
			if g.p(g.bad) {
				a[2] = g.of("x", "9223372036854775807", "-1099511627776", "1099511627776", "-9223372036854775807")
			}
		}
		return a
	case 15, 16, 17:
		return []string{"smove", k, g.key(), m()}
	case 18, 19:
		a := []string{g.of("sinter", "sunion", "sdiff"), k}
		for g.p(60) {
			a = append(a, g.key())
		}
		return a
	case 20, 21, 22:
		a := []string{g.of("sinterstore", "sunionstore", "sdiffstore"), k, g.key()}
		for g.p(50) {
			a = append(a, g.key())
		}
		return a
	}
	return g.keyCmd(k)
}

// multiCmd draws commands that name several keys.
func (g *gen) multiCmd() []string {
	ks := func(n int) []string {
		var r []string
		if n != 2 && g.p(20) {
			n += g.Intn(10)
		}
		for i := 0; i < n; i++ {
			r = append(r, g.key())
		}
		return r
	}
	switch g.Intn(14) {
	case 0, 1:
		a := []string{"mset"}
		v := g.v()
		for _, k := range ks(2 + g.Intn(2)) {
			a = append(a, k, v)
		}
		return a
	case 2, 3:
		return append([]string{"mget"}, ks(2+g.Intn(3))...)
	case 4:
		return append([]string{"del"}, ks(2+g.Intn(3))...)
	case 5:
		return append([]string{"exists"}, ks(2+g.Intn(3))...)
	case 6, 7:
		return append([]string{"rename"}, ks(2)...)
	case 8, 9:
		return append(append([]string{"lmove"}, ks(2)...), g.of("left", "right"), g.of("left", "right"))
	case 10, 11:
		return append(append([]string{"smove"}, ks(2)...), g.of(g.mem...))
	case 12:
		return append([]string{g.of("sinter", "sunion", "sdiff")}, ks(2+g.Intn(3))...)
	}
	return append([]string{g.of("sinterstore", "sunionstore", "sdiffstore")}, ks(2+g.Intn(3))...)
}

// anyCmd draws from every family.
func (g *gen) anyCmd() []string {
	switch g.Intn(5) {
	case 0:
		return g.strCmd()
	case 1:
		return g.listCmd()
	case 2:
		return g.hashCmd()
	case 3:
		return g.setCmd()
	}
	return g.multiCmd()
}

// create draws a command that gives key k a value of type t.
func (g *gen) create(t byte, k string) []string {
	switch t {
	case 's':
		return []string{"set", k, g.of("0", "7", "abc", "hello", "-3", "2.5", "")}
	case 'l':
		a := []string{"rpush", k}
		n := 1 + g.Intn(4)
		if g.wide {
			n = 1 + g.Intn(25)
		}
		if g.bulk > 0 {
			n = g.bulk + g.Intn(10)
		}
		for i := n; i > 0; i-- {
			if g.bulk > 0 && g.p(5) {
				a = append(a, g.v())
				continue
			}
			a = append(a, g.val())
		}
		return a
	case 'h':
		a := []string{"hset", k}
		for i := 0; i < g.bulk; i++ {
			v := strconv.Itoa(i)
			if g.p(10) {
				v = g.v()
			}
			a = append(a, "m"+strconv.Itoa(i), v)
		}
		for i := 1 + g.Intn(3); i > 0; i-- {
			a = append(a, g.of(g.flds...), g.of("1", "5", "x", "", "2.5", "-7"))
		}
		return a
	}
	a := []string{"sadd", k}
	if o := g.Intn(10); g.bulk > 0 {
		for i := 0; i < g.bulk; i++ {
			a = append(a, "m"+strconv.Itoa(i+o))
		}
	}
	for i := 1 + g.Intn(4); i > 0; i-- {
		a = append(a, g.of(g.mem...))
	}
	return a
}

// dump reads everything about the keys.
func dump(keys []string, extra ...string) []Op {
	var o []Op
	for _, k := range keys {
		o = append(o, cmd("type", k), cmd("ttl", k), cmd("exists", k), cmd("get", k), cmd("lrange", k, "0", "-1"), cmd("llen", k), cmd("hgetall", k), cmd("hlen", k), cmd("smembers", k), cmd("scard", k))
	}
	o = append(o, cmd("keys", "*"))
	return o
}

func ops(a ...[]string) []Op {
	var o []Op
	for _, x := range a {
		o = append(o, cmd(x...))
	}
	return o
}

// policy draws a scheduling policy.
func (g *gen) policy(span int) sim.Policy {
	switch g.Intn(10) {
	case 0, 1, 2:
		return sim.Policy{Kind: "pct", Changes: 1 + g.Intn(5), Span: span}
	case 3:
		return sim.Policy{Kind: "rand", SyncP: []int{30, 100, 300, 600}[g.Intn(4)]}
	case 4:
		return sim.Policy{Kind: "seq"}
	case 5, 6:
		return sim.Policy{Kind: "rand", YieldP: []int{0, 30, 200}[g.Intn(3)], SyncP: []int{0, 50, 200}[g.Intn(3)], StallP: []int{2, 5, 15, 40}[g.Intn(4)]}
	}
	return sim.Policy{Kind: "rand", YieldP: []int{3, 8, 20, 60, 200}[g.Intn(5)], SyncP: []int{0, 50, 200, 500}[g.Intn(4)]}
}

// base makes an empty plan with a drawn configuration.
func (g *gen) base(prop string, seed uint64) *Plan {
	p := &Plan{Prop: prop, Seed: seed, Port: 6379, MapSeed: g.Uint64(), StartUs: int64(g.Intn(5000000)), Limit: 2000000}
	seg := []int{1, 1, 2, 2, 3, 7, 16, 100}[g.Intn(8)]
	p.DbNum = []int{1, 2, 3, 16}[g.Intn(4)]
	p.Args = []string{"-port", "6379", "-segnum", strconv.Itoa(seg), "-dbnum", strconv.Itoa(p.DbNum), "-logdir", "/tmp", "-loglevel", g.of("error", "info", "debug", "warning", "panic")}
	p.Pol = g.policy(3000)
	return p
}

func (g *gen) pool(n int) []string {
	all := []string{"k1", "k2", "k3", "k4", "a", "b", "key:5", "zz"}
	// partial shuffle
	for i := range all {
		j := i + g.Intn(len(all)-i)
		all[i], all[j] = all[j], all[i]
	}
	if n > 1 && g.p(4) { // two names alike
		all[1] = g.of(all[0]+"\x00", all[0]+" ", " "+all[0], strings.ToUpper(all[0]), all[0]+"\n", all[0]+all[0])
		if g.p(25) {
			all[0] = g.long()
			all[1] = all[0] + "1"
		}
	}
	return all[:n]
}

// name draws a key name of any shape.
func (g *gen) name() string {
	switch g.Intn(7) {
	case 6:
		if g.p(30) {
			return g.long() + g.of("", "1", "2")
		}
		x := g.of("a", "k", "")
		return g.of(x, x+"\x00", x+" ", " "+x, x+"\n", strings.ToUpper(x))
	case 0:
		return g.of("", "0", "user:", "Ω", "\xff\xfe", " ", "a b", "{tag}x", "{tag}y", "\r\n")
	case 1:
		return strings.Repeat(g.of("k", "long-key-", "\x00"), 1+g.Intn(60))
	case 2:
		return "user:" + strconv.Itoa(g.Intn(100000))
	}
	b := make([]byte, 1+g.Intn(12))
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz0123456789:_-."[g.Intn(40)]
	}
	return string(b)
}

// typed makes clients each running n commands drawn by f.
func (g *gen) clients(p *Plan, nc, no int, f func() []string) {
	for c := 0; c < nc; c++ {
		cp := ClientPlan{Name: strconv.Itoa(c)}
		n := 1 + g.Intn(no)
		for i := 0; i < n; i++ {
			cp.Ops = append(cp.Ops, cmd(f()...))
		}
		p.Clients = append(p.Clients, cp)
	}
}

// net adds benign network behaviour (fragmentation, delays, slow readers, pipelining) to some clients.
func (g *gen) net(p *Plan, pct int) {
	for i := range p.Clients {
		cp := &p.Clients[i]
		if g.p(pct) {
			cp.OutUs = int64(g.Intn(3000))
		}
		for j := range cp.Ops {
			o := &cp.Ops[j]
			if o.K != "cmd" {
				continue
			}
			if g.p(pct) {
				n := len(encode(o.A))
				at := 0
				for at < n {
					at += 1 + g.Intn(n)
					o.Cut = append(o.Cut, at)
					o.Dly = append(o.Dly, int64(g.Intn(2000)))
				}
			}
			if g.p(pct) {
				o.Pipe = true
			}
			if g.p(pct / 5) {
				o.Hold = 1 + g.Intn(len(encode(o.A)))
			}
		}
	}
}
