package main

import (
	"math"
	"sort"
	"strconv"
	"strings"
)

// The reference model: what each command does when commands run one at a time, over time intervals.
// Deadlines are kept as intervals because the model only knows that a command executed between its
// call and its return; a key is certainly alive before lo, certainly gone from hi+1000 ms on.

type Val struct {
	T byte // 's' string, 'l' list, 'h' hash, 'S' set
	S string
	L []string
	H map[string]string
	M map[string]bool
}

type Ent struct {
	V      *Val
	Exp    bool
	Lo, Hi int64 // ms
}

type State struct {
	m   map[string]Ent
	key string
}

func newState() *State { return &State{m: map[string]Ent{}} }

func (s *State) clone() *State {
	n := &State{m: make(map[string]Ent, len(s.m)+1)}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

func (v *Val) str() string {
	switch v.T {
	case 's':
		return "s" + strconv.Itoa(len(v.S)) + ":" + v.S
	case 'l':
		b := []byte("l")
		for _, x := range v.L {
			b = strconv.AppendInt(b, int64(len(x)), 10)
			b = append(b, ':')
			b = append(b, x...)
		}
		return string(b)
	case 'h':
		ks := make([]string, 0, len(v.H))
		for k := range v.H {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b := []byte("h")
		for _, k := range ks {
			for _, x := range []string{k, v.H[k]} {
				b = strconv.AppendInt(b, int64(len(x)), 10)
				b = append(b, ':')
				b = append(b, x...)
			}
		}
		return string(b)
	}
	ks := make([]string, 0, len(v.M))
	for k := range v.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	b := []byte("S")
	for _, x := range ks {
		b = strconv.AppendInt(b, int64(len(x)), 10)
		b = append(b, ':')
		b = append(b, x...)
	}
	return string(b)
}

// Key is a canonical rendering, for memoisation.
func (s *State) Key() string {
	if s.key == "" {
		ks := make([]string, 0, len(s.m))
		for k := range s.m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var b strings.Builder
		b.WriteByte('#')
		for _, k := range ks {
			e := s.m[k]
			b.WriteString(strconv.Itoa(len(k)))
			b.WriteByte(':')
			b.WriteString(k)
			b.WriteByte('=')
			b.WriteString(e.V.str())
			if e.Exp {
				b.WriteByte('@')
				b.WriteString(strconv.FormatInt(e.Lo, 10))
				b.WriteByte('-')
				b.WriteString(strconv.FormatInt(e.Hi, 10))
			}
			b.WriteByte(';')
		}
		s.key = b.String()
	}
	return s.key
}

func (s *State) Show() string {
	ks := make([]string, 0, len(s.m))
	for k := range s.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		e := s.m[k]
		t := strconv.Quote(k) + "=" + short(e.V.str())
		if e.Exp {
			t += "@[" + strconv.FormatInt(e.Lo, 10) + "," + strconv.FormatInt(e.Hi, 10) + "]"
		}
		p = append(p, t)
	}
	return strings.Join(p, " ")
}

// ---- reply patterns ----

type Pat func(v *Value) bool

func pInt(n int64) Pat { return func(v *Value) bool { return v.T == ':' && v.N == n } }
func pIntRange(a, b int64) Pat {
	return func(v *Value) bool { return v.T == ':' && v.N >= a && v.N <= b }
}
func pBulk(s string) Pat { return func(v *Value) bool { return v.T == '$' && !v.Nil && v.S == s } }
func pNil() Pat          { return func(v *Value) bool { return (v.T == '$' || v.T == '*') && v.Nil } }
func pNilOrEmpty() Pat {
	return func(v *Value) bool { return (v.T == '$' && v.Nil) || (v.T == '*' && len(v.A) == 0) }
}
func pErr() Pat { return func(v *Value) bool { return v.T == '-' } }
func pOK() Pat {
	return func(v *Value) bool { return (v.T == '+' || v.T == '$') && !v.Nil && v.S == "OK" }
}
func pSimple(s string) Pat {
	return func(v *Value) bool { return (v.T == '+' || v.T == '$') && !v.Nil && v.S == s }
}
func pAny() Pat { return func(v *Value) bool { return true } }
func strs(v *Value) ([]string, bool) {
	if v.T != '*' {
		return nil, false
	}
	r := make([]string, 0, len(v.A))
	for _, e := range v.A {
		if e.T != '$' || e.Nil {
			return nil, false
		}
		r = append(r, e.S)
	}
	return r, true
}
func pArr(want []string) Pat {
	return func(v *Value) bool {
		if len(want) == 0 {
			return v.T == '*' && len(v.A) == 0
		}
		g, ok := strs(v)
		if !ok || len(g) != len(want) {
			return false
		}
		for i := range g {
			if g[i] != want[i] {
				return false
			}
		}
		return true
	}
}
func pMulti(want []string) Pat {
	w := append([]string(nil), want...)
	sort.Strings(w)
	return func(v *Value) bool {
		if len(w) == 0 {
			return v.T == '*' && len(v.A) == 0
		}
		g, ok := strs(v)
		if !ok || len(g) != len(w) {
			return false
		}
		g = append([]string(nil), g...)
		sort.Strings(g)
		for i := range g {
			if g[i] != w[i] {
				return false
			}
		}
		return true
	}
}
func pInts(want []int64) Pat {
	return func(v *Value) bool {
		if v.T != '*' || len(v.A) != len(want) {
			return false
		}
		for i, e := range v.A {
			if e.T != ':' || e.N != want[i] {
				return false
			}
		}
		return true
	}
}

// pOpt is an array of bulk strings or nils.
func pOpt(want []*string) Pat {
	return func(v *Value) bool {
		if v.T != '*' || len(v.A) != len(want) {
			return false
		}
		for i, e := range v.A {
			if e.T != '$' {
				return false
			}
			if want[i] == nil {
				if !e.Nil {
					return false
				}
			} else if e.Nil || e.S != *want[i] {
				return false
			}
		}
		return true
	}
}
func pPairs(h map[string]string) Pat {
	return func(v *Value) bool {
		g, ok := strs(v)
		if len(h) == 0 {
			return v.T == '*' && len(v.A) == 0
		}
		if !ok || len(g) != 2*len(h) {
			return false
		}
		seen := map[string]bool{}
		for i := 0; i < len(g); i += 2 {
			x, ok := h[g[i]]
			if !ok || x != g[i+1] || seen[g[i]] {
				return false
			}
			seen[g[i]] = true
		}
		return true
	}
}
func pOr(ps ...Pat) Pat {
	return func(v *Value) bool {
		for _, p := range ps {
			if p(v) {
				return true
			}
		}
		return false
	}
}

// Out is one possible outcome.
type Out struct {
	P  Pat
	St *State
}

type ctx struct {
	st     *State
	a      []string // arguments, a[0] lower case
	c0, c1 int64    // clock at call and return, ms
	reply  *Value   // nil: unknown
	pre    string   // database prefix
	dead   bool     // a key of the command may just have expired and been dropped in this branch
	out    []Out
	strict bool // KEYS overlaps nothing
}

func (c *ctx) add(p Pat, st *State) { c.out = append(c.out, Out{p, st}) }
func (c *ctx) same(p Pat)           { c.out = append(c.out, Out{p, c.st}) }
func (c *ctx) get(k string) (Ent, bool) {
	e, ok := c.st.m[c.pre+k]
	return e, ok
}
func (c *ctx) put(k string, e Ent) *State {
	n := c.st.clone()
	putE(n, c.pre+k, e)
	return n
}
func putE(n *State, k string, e Ent) {
	empty := false
	switch e.V.T {
	case 'l':
		empty = len(e.V.L) == 0
	case 'h':
		empty = len(e.V.H) == 0
	case 'S':
		empty = len(e.V.M) == 0
	}
	if empty {
		delete(n.m, k)
	} else {
		n.m[k] = e
	}
}
func (c *ctx) del(k string) *State {
	n := c.st.clone()
	delete(n.m, c.pre+k)
	return n
}

// argErr: the arguments are bad. An error is required, except that a key which has just expired may
// make the command answer as for a missing key before it looks at them.
func (c *ctx) argErr() {
	c.same(pErr())
	if c.dead {
		c.same(pAny())
	}
}

func isInt(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

// canon: integer literal as Redis writes it
func canon(s string) bool {
	n, ok := isInt(s)
	return ok && strconv.FormatInt(n, 10) == s
}

func str1(s string) *Val { return &Val{T: 's', S: s} }

// keysOf lists the keys a command names (for expiry), nil if none.
func keysOf(a []string) []string {
	if len(a) < 2 {
		return nil
	}
	switch a[0] {
	case "ping", "keys", "select":
		return nil
	case "del", "exists", "mget", "sinter", "sunion", "sdiff", "sinterstore", "sunionstore", "sdiffstore":
		return a[1:]
	case "mset":
		var r []string
		for i := 1; i < len(a); i += 2 {
			r = append(r, a[i])
		}
		return r
	case "rename", "lmove", "smove":
		if len(a) >= 3 {
			return a[1:3]
		}
	}
	if _, ok := cmds[a[0]]; !ok {
		return nil
	}
	return a[1:2]
}

// arity: minimum and maximum number of words (0: no maximum)
var cmds = map[string][2]int{
	"ping": {1, 2}, "del": {2, 0}, "exists": {2, 0}, "keys": {2, 2}, "expire": {3, 4}, "persist": {2, 2}, "ttl": {2, 2}, "rename": {3, 3}, "type": {2, 2},
	"select": {2, 2},
	"set":    {3, 0}, "get": {2, 2}, "getrange": {4, 4}, "setrange": {4, 4}, "mget": {2, 0}, "mset": {3, 0}, "setex": {4, 4}, "setnx": {3, 3}, "strlen": {2, 2},
	"incr": {2, 2}, "incrby": {3, 3}, "decr": {2, 2}, "decrby": {3, 3}, "incrbyfloat": {3, 3}, "append": {3, 3},
	"lindex": {3, 3}, "linsert": {5, 5}, "llen": {2, 2}, "lmove": {5, 5}, "lpop": {2, 3}, "rpop": {2, 3}, "lpos": {3, 9}, "lpush": {3, 0}, "rpush": {3, 0},
	"lpushx": {3, 0}, "rpushx": {3, 0}, "lrange": {4, 4}, "lrem": {4, 4}, "lset": {4, 4}, "ltrim": {4, 4},
	"hdel": {3, 0}, "hexists": {3, 3}, "hget": {3, 3}, "hgetall": {2, 2}, "hincrby": {4, 4}, "hincrbyfloat": {4, 4}, "hkeys": {2, 2}, "hlen": {2, 2},
	"hmget": {3, 0}, "hmset": {4, 0}, "hset": {4, 0}, "hsetnx": {4, 4}, "hvals": {2, 2}, "hstrlen": {3, 3}, "hrandfield": {2, 4},
	"sadd": {3, 0}, "scard": {2, 2}, "sdiff": {2, 0}, "sdiffstore": {3, 0}, "sinter": {2, 0}, "sinterstore": {3, 0}, "sismember": {3, 3}, "smembers": {2, 2},
	"smove": {4, 4}, "spop": {2, 3}, "srandmember": {2, 3}, "srem": {3, 0}, "sunion": {2, 0}, "sunionstore": {3, 0},
}

// apply returns every state the command can lead to, given its reply (nil: unknown) and when it ran.
func apply(st *State, a []string, db int, reply *Value, c0, c1 int64, strictKeys bool, dbnum int) []*State {
	var outs []*State
	lc := make([]string, len(a))
	copy(lc, a)
	lc[0] = strings.ToLower(a[0])
	pre := strconv.Itoa(db) + "/"
	ar, known := cmds[lc[0]]
	bad := !known || len(a) < ar[0] || ar[1] > 0 && len(a) > ar[1]
	type br struct {
		st   *State
		dead bool
	}
	brs := []br{{st, false}}
	if !bad {
		seen := map[string]bool{}
		for _, k := range keysOf(lc) {
			k = pre + k
			if seen[k] {
				continue
			}
			seen[k] = true
			e, ok := st.m[k]
			if !ok || !e.Exp || c1 < e.Lo {
				continue
			}
			certain := c0 >= e.Hi+1000
			var nb []br
			for _, b := range brs {
				n := b.st.clone()
				delete(n.m, k)
				nb = append(nb, br{n, true})
				if !certain {
					nb = append(nb, b)
				}
			}
			brs = nb
		}
	}
	for _, b := range brs {
		c := &ctx{st: b.st, a: lc, c0: c0, c1: c1, reply: reply, pre: pre, dead: b.dead, strict: strictKeys}
		if bad {
			c.same(pErr())
		} else if lc[0] == "select" {
			n, err := strconv.Atoi(a[1])
			if err == nil && n >= 0 && n < dbnum {
				if canon(a[1]) {
					c.same(pOK())
				} else {
					c.same(pOr(pOK(), pErr()))
				}
			} else {
				c.same(pErr())
			}
		} else {
			c.exec()
		}
		for _, o := range c.out {
			if reply == nil || o.P(reply) {
				outs = append(outs, o.St)
			}
		}
	}
	return outs
}

func (c *ctx) wrongType(k string, t byte) bool {
	e, ok := c.get(k)
	return ok && e.V.T != t
}

const farMs = int64(1) << 60

func (c *ctx) exec() {
	a := c.a
	switch a[0] {
	case "ping":
		if len(a) == 1 {
			c.same(pSimple("PONG"))
		} else {
			c.same(pSimple2(a[1]))
		}
	case "del":
		n := c.st.clone()
		k := int64(0)
		for _, x := range a[1:] {
			if _, ok := n.m[c.pre+x]; ok {
				k++
				delete(n.m, c.pre+x)
			}
		}
		c.add(pInt(k), n)
	case "exists":
		k := int64(0)
		for _, x := range a[1:] {
			if _, ok := c.get(x); ok {
				k++
			}
		}
		c.same(pInt(k))
	case "type":
		e, ok := c.get(a[1])
		if !ok {
			c.same(pSimple("none"))
			return
		}
		c.same(pSimple(map[byte]string{'s': "string", 'l': "list", 'h': "hash", 'S': "set"}[e.V.T]))
	case "rename":
		e, ok := c.get(a[1])
		if !ok {
			c.same(pErr())
			return
		}
		n := c.st.clone()
		delete(n.m, c.pre+a[1])
		n.m[c.pre+a[2]] = e
		c.add(pOK(), n)
	case "ttl":
		e, ok := c.get(a[1])
		if !ok {
			c.same(pInt(-2))
			return
		}
		if !e.Exp {
			c.same(pInt(-1))
			return
		}
		lo, hi := e.Lo-c.c1-1000, e.Hi-c.c0+1000
		lo, hi = ceilDiv(lo, 1000), floorDiv(hi, 1000)
		if lo < 0 {
			lo = 0
		}
		if hi < 0 {
			hi = 0
		}
		c.same(pIntRange(lo, hi))
	case "persist":
		e, ok := c.get(a[1])
		if !ok || !e.Exp {
			c.same(pInt(0))
			return
		}
		e.Exp, e.Lo, e.Hi = false, 0, 0
		c.add(pInt(1), c.put(a[1], e))
	case "expire":
		c.expire()
	case "keys":
		c.keys()
	case "set":
		c.set()
	case "get":
		if c.wrongType(a[1], 's') {
			c.same(pErr())
			return
		}
		if e, ok := c.get(a[1]); ok {
			c.same(pBulk(e.V.S))
		} else {
			c.same(pNil())
		}
	case "strlen":
		if c.wrongType(a[1], 's') {
			c.same(pErr())
			return
		}
		e, ok := c.get(a[1])
		if ok {
			c.same(pInt(int64(len(e.V.S))))
		} else {
			c.same(pInt(0))
		}
	case "getrange":
		s, ok1 := isInt(a[2])
		e, ok2 := isInt(a[3])
		if !ok1 || !ok2 {
			c.argErr()
			return
		}
		if c.wrongType(a[1], 's') {
			c.same(pErr())
			return
		}
		ent, ok := c.get(a[1])
		if !ok {
			c.same(pBulk(""))
			return
		}
		v := ent.V.S
		l := int64(len(v))
		if l == 0 || s < 0 && e < 0 && s > e {
			c.same(pBulk(""))
			return
		}
		lenient := e < 0 && e < -l
		if s < 0 {
			if s = l + s; s < 0 {
				s = 0
			}
		}
		if e < 0 {
			if e = l + e; e < 0 {
				e = 0
			}
		}
		if e >= l {
			e = l - 1
		}
		r := ""
		if s <= e {
			r = v[s : e+1]
		}
		if lenient {
			c.same(pOr(pBulk(r), pBulk("")))
		} else {
			c.same(pBulk(r))
		}
	case "setrange":
		off, ok := isInt(a[2])
		if !ok || off < 0 || off+int64(len(a[3])) < 0 || off+int64(len(a[3])) > 512<<20 {
			c.argErr()
			return
		}
		if c.wrongType(a[1], 's') {
			c.same(pErr())
			return
		}
		e, ok := c.get(a[1])
		old := ""
		if ok {
			old = e.V.S
		}
		if len(a[3]) == 0 {
			c.same(pInt(int64(len(old))))
			return
		}
		b := []byte(old)
		for int64(len(b)) < off+int64(len(a[3])) {
			b = append(b, 0)
		}
		copy(b[off:], a[3])
		e.V = str1(string(b))
		c.add(pInt(int64(len(b))), c.put(a[1], e))
	case "append":
		if c.wrongType(a[1], 's') {
			c.same(pErr())
			return
		}
		e, ok := c.get(a[1])
		old := ""
		if ok {
			old = e.V.S
		}
		e.V = str1(old + a[2])
		c.add(pInt(int64(len(e.V.S))), c.put(a[1], e))
	case "mget":
		var w []*string
		for _, k := range a[1:] {
			if e, ok := c.get(k); ok && e.V.T == 's' {
				s := e.V.S
				w = append(w, &s)
			} else {
				w = append(w, nil)
			}
		}
		c.same(pOpt(w))
	case "mset":
		if len(a)%2 != 1 {
			c.argErr()
			return
		}
		n := c.st.clone()
		for i := 1; i < len(a); i += 2 {
			n.m[c.pre+a[i]] = Ent{V: str1(a[i+1])}
		}
		c.add(pOK(), n)
	case "setnx":
		if _, ok := c.get(a[1]); ok {
			c.same(pInt(0))
			return
		}
		c.add(pInt(1), c.put(a[1], Ent{V: str1(a[2])}))
	case "setex":
		n, ok := isInt(a[2])
		if !ok {
			c.argErr()
			return
		}
		c.withExpiry(a[1], a[3], n, 1000, pOK())
	case "incr":
		c.incr(a[1], 1, true)
	case "decr":
		c.incr(a[1], -1, true)
	case "incrby", "decrby":
		n, ok := isInt(a[2])
		if !ok {
			c.argErr()
			return
		}
		if !canon(a[2]) {
			c.same(pErr())
		}
		if a[0] == "decrby" {
			if n == math.MinInt64 {
				c.same(pErr())
				if e, ok := c.get(a[1]); ok && e.V.T == 's' {
					if v, ok := isInt(e.V.S); ok && v < 0 {
						x := v - n
						e.V = str1(strconv.FormatInt(x, 10))
						c.add(pInt(x), c.put(a[1], e))
					}
				}
				return
			}
			n = -n
		}
		c.incr(a[1], n, true)
	case "incrbyfloat":
		f, ok := isFloat(a[2])
		if !ok {
			c.argErr()
			return
		}
		if c.wrongType(a[1], 's') {
			c.same(pErr())
			return
		}
		e, ok := c.get(a[1])
		v := 0.0
		if ok {
			if v, ok = isFloat(e.V.S); !ok {
				c.same(pErr())
				return
			}
		}
		v += f
		if math.IsInf(v, 0) || math.IsNaN(v) {
			c.same(pErr())
			return
		}
		s := fmtFloat(v)
		e.V = str1(s)
		c.add(pBulk(s), c.put(a[1], e))
	default:
		switch a[0][0] {
		case 'l', 'r':
			c.list()
		case 'h':
			c.hash()
		case 's':
			c.sets()
		default:
			panic("model: " + a[0])
		}
	}
}

func pSimple2(s string) Pat {
	return func(v *Value) bool { return (v.T == '$' || v.T == '+') && !v.Nil && v.S == s }
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

func isFloat(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	return f, err == nil && !math.IsNaN(f) && !math.IsInf(f, 0)
}
func fmtFloat(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

// withExpiry stores a string with a relative lifetime of n units.
func (c *ctx) withExpiry(k, v string, n, unit int64, p Pat) {
	if n <= 0 {
		c.same(pErr()) // refused, or stored and gone at once
	}
	if n > 1<<50 || n < -(1<<50) {
		c.same(pErr())
		if n > 0 && n > 1<<52 {
			return
		}
		if n < 0 {
			c.add(p, c.del(k))
			return
		}
	}
	d := n * unit
	c.add(p, c.put(k, Ent{V: str1(v), Exp: true, Lo: c.c0 + d, Hi: c.c1 + d}))
}

func (c *ctx) expire() {
	a := c.a
	n, ok := isInt(a[2])
	if !ok {
		c.argErr()
		return
	}
	opt := ""
	if len(a) == 4 {
		opt = strings.ToLower(a[3])
		if opt != "nx" && opt != "xx" && opt != "gt" && opt != "lt" {
			c.argErr()
			return
		}
	}
	if n > 1<<50 || n < -(1<<50) {
		c.same(pErr())
		if c.dead {
			c.same(pInt(0))
		}
		if _, ok := c.get(a[1]); !ok {
			c.same(pInt(0))
		}
		return
	}
	e, ok := c.get(a[1])
	if !ok {
		c.same(pInt(0))
		return
	}
	lo, hi := c.c0+n*1000, c.c1+n*1000
	yes, no := true, false
	switch opt {
	case "nx":
		yes, no = !e.Exp, e.Exp
	case "xx":
		yes, no = e.Exp, !e.Exp
	case "gt":
		if !e.Exp {
			yes, no = false, true
		} else {
			// new > old, at a resolution of one second
			yes = hi > e.Lo
			no = lo < e.Hi+1000
		}
	case "lt":
		if e.Exp {
			yes = lo < e.Hi
			no = hi > e.Lo-1000
		}
	}
	if yes {
		e2 := e
		e2.Exp, e2.Lo, e2.Hi = true, lo, hi
		c.add(pInt(1), c.put(a[1], e2))
	}
	if no {
		c.same(pInt(0))
	}
}

func (c *ctx) keys() {
	if c.reply == nil || !c.strict {
		c.same(func(v *Value) bool { _, ok := strs(v); return ok || v.T == '*' && len(v.A) == 0 })
		return
	}
	g, ok := strs(c.reply)
	if !ok && !(c.reply.T == '*' && len(c.reply.A) == 0) {
		return
	}
	listed := map[string]bool{}
	for _, k := range g {
		if listed[k] {
			return // twice
		}
		listed[k] = true
	}
	n := c.st.clone()
	for k, e := range c.st.m {
		if !strings.HasPrefix(k, c.pre) {
			continue
		}
		name := k[len(c.pre):]
		in := listed[name]
		delete(listed, name)
		match := glob(c.a[1], name)
		if in && !match {
			return
		}
		may := !e.Exp || !(c.c0 >= e.Hi+1000) // may be alive
		must := !e.Exp || c.c1 < e.Lo
		if in && !may || !in && match && must {
			return
		}
		if match && !in {
			delete(n.m, k)
		} else if !may {
			delete(n.m, k)
		}
	}
	if len(listed) > 0 {
		return
	}
	c.add(pAny(), n)
}

// glob is the reference matcher: ? * [set] [^set] [a-z], as documented in util.go.
func glob(p, s string) bool {
	if p == "" {
		return s == ""
	}
	if p[0] == '*' {
		for i := 0; i <= len(s); i++ {
			if glob(p[1:], s[i:]) {
				return true
			}
		}
		return false
	}
	if s == "" {
		return false
	}
	switch p[0] {
	case '?':
		return glob(p[1:], s[1:])
	case '[':
		end := strings.IndexByte(p, ']')
		if end < 0 {
			return false
		}
		set := p[1:end]
		not := false
		if set != "" && set[0] == '^' {
			not = true
			set = set[1:]
		}
		m := false
		for i := 0; i < len(set); i++ {
			if i+2 < len(set) && set[i+1] == '-' {
				if s[0] >= set[i] && s[0] <= set[i+2] {
					m = true
				}
				i += 2
			} else if set[i] == s[0] {
				m = true
			}
		}
		if m == not {
			return false
		}
		return glob(p[end+1:], s[1:])
	}
	return p[0] == s[0] && glob(p[1:], s[1:])
}

func (c *ctx) set() {
	a := c.a
	var nx, xx, get, keep bool
	ttl := ""
	var n int64
	cnt := 0
	for i := 3; i < len(a); i++ {
		switch o := strings.ToLower(a[i]); o {
		case "nx":
			nx = true
		case "xx":
			xx = true
		case "get":
			get = true
		case "keepttl":
			keep = true
			cnt++
		case "ex", "px", "exat", "pxat":
			ttl = o
			cnt++
			i++
			if i >= len(a) {
				c.argErr()
				return
			}
			v, ok := isInt(a[i])
			if !ok {
				c.argErr()
				return
			}
			n = v
		default:
			c.argErr()
			return
		}
	}
	if nx && xx || cnt > 1 {
		c.argErr()
		return
	}
	e, ok := c.get(a[1])
	if get && ok && e.V.T != 's' {
		c.same(pErr())
		return
	}
	big := n > 1<<50
	if ttl == "px" || ttl == "pxat" {
		big = n > 1<<60
	}
	if big {
		c.same(pErr())
	}
	if ttl != "" && n <= 0 {
		c.same(pErr())
	}
	var rep Pat = pOK()
	if get {
		if ok {
			rep = pBulk(e.V.S)
		} else {
			rep = pNil()
		}
	}
	if nx && ok || xx && !ok {
		if !get {
			rep = pNil()
		}
		c.same(rep)
		return
	}
	ne := Ent{V: str1(a[2])}
	if keep && ok {
		ne.Exp, ne.Lo, ne.Hi = e.Exp, e.Lo, e.Hi
	}
	lim := func(x int64) int64 {
		if x > farMs {
			return farMs
		}
		if x < -farMs {
			return -farMs
		}
		return x
	}
	switch ttl {
	case "ex", "px":
		u := int64(1)
		if ttl == "ex" {
			u = 1000
		}
		if n > farMs/u/4 || n < -farMs/u/4 {
			if n > 0 {
				c.same(pErr())
				return // refused
			}
			n = -farMs / u / 4
		}
		ne.Exp, ne.Lo, ne.Hi = true, c.c0+n*u, c.c1+n*u
	case "exat", "pxat":
		u := int64(1)
		if ttl == "exat" {
			u = 1000
		}
		var d int64
		if n > farMs/u {
			d = farMs
		} else if n < -farMs/u {
			d = -farMs
		} else {
			d = n * u
		}
		ne.Exp, ne.Lo, ne.Hi = true, lim(d), lim(d)
	}
	c.add(rep, c.put(a[1], ne))
}

func (c *ctx) incr(k string, by int64, _ bool) {
	if c.wrongType(k, 's') {
		c.same(pErr())
		return
	}
	e, ok := c.get(k)
	var v int64
	if ok {
		n, isn := isInt(e.V.S)
		if !isn {
			c.same(pErr())
			return
		}
		if !canon(e.V.S) {
			c.same(pErr())
		}
		v = n
	}
	s := v + by
	if by > 0 && s < v || by < 0 && s > v {
		c.same(pErr())
		return
	}
	e.V = str1(strconv.FormatInt(s, 10))
	c.add(pInt(s), c.put(k, e))
}
