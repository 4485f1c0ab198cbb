package main

import (
	"math"
	"sort"
	"strconv"
	"strings"
)

// ---- lists ----

func (c *ctx) list() {
	a := c.a
	k := a[1]
	lst := func() ([]string, Ent, bool) {
		e, ok := c.get(k)
		if !ok {
			return nil, Ent{}, false
		}
		return e.V.L, e, true
	}
	store := func(e Ent, l []string) *State {
		e.V = &Val{T: 'l', L: l}
		return c.put(k, e)
	}
	switch a[0] {
	case "lpush", "rpush", "lpushx", "rpushx":
		if c.wrongType(k, 'l') {
			c.same(pErr())
			return
		}
		l, e, ok := lst()
		if !ok && a[0][len(a[0])-1] == 'x' {
			c.same(pInt(0))
			return
		}
		l = append([]string(nil), l...)
		for _, x := range a[2:] {
			if a[0][0] == 'l' {
				l = append([]string{x}, l...)
			} else {
				l = append(l, x)
			}
		}
		c.add(pInt(int64(len(l))), store(e, l))
	case "lpop", "rpop":
		n := int64(1)
		if len(a) == 3 {
			v, ok := isInt(a[2])
			if !ok || v < 0 {
				c.argErr()
				return
			}
			n = v
		}
		if c.wrongType(k, 'l') {
			c.same(pErr())
			return
		}
		l, e, ok := lst()
		if !ok {
			c.same(pNilOrEmpty())
			if n == 0 {
				c.same(pErr())
			}
			return
		}
		if n == 0 {
			c.same(pOr(pErr(), pNilOrEmpty()))
			return
		}
		if n > int64(len(l)) {
			n = int64(len(l))
		}
		var got, rest []string
		if a[0] == "lpop" {
			got, rest = l[:n], l[n:]
		} else {
			for i := len(l) - 1; i >= len(l)-int(n); i-- {
				got = append(got, l[i])
			}
			rest = l[:len(l)-int(n)]
		}
		var p Pat
		if len(a) == 2 {
			p = pBulk(got[0])
		} else {
			p = pArr(got)
			if a[2] == "1" || canonEq1(a[2]) {
				p = pOr(p, pBulk(got[0]))
			}
		}
		c.add(p, store(e, append([]string(nil), rest...)))
	case "llen":
		if c.wrongType(k, 'l') {
			c.same(pErr())
			return
		}
		l, _, _ := lst()
		c.same(pInt(int64(len(l))))
	case "lindex":
		i, ok := isInt(a[2])
		if !ok {
			c.argErr()
			return
		}
		if c.wrongType(k, 'l') {
			c.same(pErr())
			return
		}
		l, _, _ := lst()
		if i < 0 {
			i += int64(len(l))
		}
		if i < 0 || i >= int64(len(l)) {
			c.same(pNil())
		} else {
			c.same(pBulk(l[i]))
		}
	case "lset":
		i, ok := isInt(a[2])
		if !ok {
			c.argErr()
			return
		}
		if c.wrongType(k, 'l') {
			c.same(pErr())
			return
		}
		l, e, ok := lst()
		if ok && i < 0 {
			i += int64(len(l))
		}
		if !ok || i < 0 || i >= int64(len(l)) {
			c.same(pErr())
			return
		}
		l = append([]string(nil), l...)
		l[i] = a[3]
		c.add(pOK(), store(e, l))
	case "lrange", "ltrim":
		s, ok1 := isInt(a[2])
		t, ok2 := isInt(a[3])
		if !ok1 || !ok2 {
			c.argErr()
			return
		}
		if c.wrongType(k, 'l') {
			c.same(pErr())
			return
		}
		l, e, ok := lst()
		if !ok {
			if a[0] == "ltrim" {
				c.same(pOK())
			} else {
				c.same(pNilOrEmpty())
			}
			return
		}
		n := int64(len(l))
		if s < 0 {
			s += n
		}
		if t < 0 {
			t += n
		}
		if s < 0 {
			s = 0
		}
		if t >= n {
			t = n - 1
		}
		var r []string
		if s <= t && s < n {
			r = append(r, l[s:t+1]...)
		}
		if a[0] == "ltrim" {
			c.add(pOK(), store(e, r))
		} else if len(r) == 0 {
			c.same(pNilOrEmpty())
		} else {
			c.same(pArr(r))
		}
	case "lrem":
		n, ok := isInt(a[2])
		if !ok {
			c.argErr()
			return
		}
		if c.wrongType(k, 'l') {
			c.same(pErr())
			return
		}
		l, e, ok := lst()
		if !ok {
			c.same(pInt(0))
			return
		}
		rm := make([]bool, len(l))
		cnt := int64(0)
		if n >= 0 {
			for i := range l {
				if l[i] == a[3] && (n == 0 || cnt < n) {
					rm[i] = true
					cnt++
				}
			}
		} else {
			for i := len(l) - 1; i >= 0; i-- {
				if l[i] == a[3] && cnt < -n {
					rm[i] = true
					cnt++
				}
			}
		}
		var r []string
		for i := range l {
			if !rm[i] {
				r = append(r, l[i])
			}
		}
		c.add(pInt(cnt), store(e, r))
	case "linsert":
		w := strings.ToLower(a[2])
		if w != "before" && w != "after" {
			c.argErr()
			return
		}
		if c.wrongType(k, 'l') {
			c.same(pErr())
			return
		}
		l, e, ok := lst()
		if !ok {
			c.same(pInt(0))
			return
		}
		for i := range l {
			if l[i] == a[3] {
				if w == "after" {
					i++
				}
				r := append([]string(nil), l[:i]...)
				r = append(r, a[4])
				r = append(r, l[i:]...)
				c.add(pInt(int64(len(r))), store(e, r))
				return
			}
		}
		c.same(pInt(-1))
	case "lpos":
		c.lpos()
	case "lmove":
		f, t := strings.ToLower(a[3]), strings.ToLower(a[4])
		if f != "left" && f != "right" || t != "left" && t != "right" {
			c.argErr()
			return
		}
		se, ok := c.get(a[1])
		if !ok {
			c.same(pNil())
			return
		}
		if se.V.T != 'l' || c.wrongType(a[2], 'l') {
			c.same(pErr())
			return
		}
		n := c.st.clone()
		l := se.V.L
		var x string
		if f == "left" {
			x, l = l[0], l[1:]
		} else {
			x, l = l[len(l)-1], l[:len(l)-1]
		}
		se.V = &Val{T: 'l', L: append([]string(nil), l...)}
		if a[1] == a[2] {
			n.m[c.pre+a[1]] = se
		} else {
			putE(n, c.pre+a[1], se)
		}
		de := n.m[c.pre+a[2]]
		var dl []string
		if de.V != nil {
			dl = de.V.L
		}
		if t == "left" {
			dl = append([]string{x}, dl...)
		} else {
			dl = append(append([]string(nil), dl...), x)
		}
		de.V = &Val{T: 'l', L: dl}
		n.m[c.pre+a[2]] = de
		c.add(pBulk(x), n)
	default:
		panic("model: " + a[0])
	}
}

func canonEq1(s string) bool { n, ok := isInt(s); return ok && n == 1 }

func (c *ctx) lpos() {
	a := c.a
	if len(a)%2 != 1 {
		c.argErr()
		return
	}
	rank, count, maxlen := int64(1), int64(-1), int64(0)
	for i := 3; i < len(a); i += 2 {
		n, ok := isInt(a[i+1])
		if !ok {
			c.argErr()
			return
		}
		switch strings.ToLower(a[i]) {
		case "rank":
			if n == 0 || n == math.MinInt64 {
				c.argErr()
				if n == math.MinInt64 {
					c.same(pNilOrEmpty())
				}
				return
			}
			rank = n
		case "count":
			if n < 0 {
				c.argErr()
				return
			}
			count = n
		case "maxlen":
			if n < 0 {
				c.argErr()
				return
			}
			maxlen = n
		default:
			c.argErr()
			return
		}
	}
	if c.wrongType(a[1], 'l') {
		c.same(pErr())
		return
	}
	e, ok := c.get(a[1])
	if !ok {
		c.same(pNilOrEmpty())
		return
	}
	l := e.V.L
	var hits []int64
	skip := rank
	if skip < 0 {
		skip = -skip
	}
	skip--
	for j := 0; j < len(l); j++ {
		if maxlen > 0 && int64(j) >= maxlen {
			break
		}
		i := j
		if rank < 0 {
			i = len(l) - 1 - j
		}
		if l[i] == a[2] {
			if skip > 0 {
				skip--
				continue
			}
			hits = append(hits, int64(i))
			if count == -1 || count > 0 && int64(len(hits)) >= count {
				break
			}
		}
	}
	if len(hits) == 0 {
		c.same(pNilOrEmpty())
	} else if count == -1 {
		c.same(pInt(hits[0]))
	} else {
		c.same(pInts(hits))
	}
}

// ---- hashes ----

func (c *ctx) hash() {
	a := c.a
	k := a[1]
	if c.wrongType(k, 'h') {
		// bad arguments are errors as well
		c.same(pErr())
		return
	}
	e, exists := c.get(k)
	h := map[string]string{}
	if exists {
		h = e.V.H
	}
	store := func(n map[string]string) *State {
		e2 := e
		e2.V = &Val{T: 'h', H: n}
		return c.put(k, e2)
	}
	cp := func() map[string]string {
		n := make(map[string]string, len(h)+1)
		for f, v := range h {
			n[f] = v
		}
		return n
	}
	switch a[0] {
	case "hset", "hmset":
		if len(a)%2 != 0 {
			c.argErr()
			return
		}
		n := cp()
		add := int64(0)
		for i := 2; i < len(a); i += 2 {
			if _, ok := n[a[i]]; !ok {
				add++
			}
			n[a[i]] = a[i+1]
		}
		if a[0] == "hset" {
			c.add(pInt(add), store(n))
		} else {
			c.add(pOK(), store(n))
		}
	case "hsetnx":
		if _, ok := h[a[2]]; ok {
			c.same(pInt(0))
			return
		}
		n := cp()
		n[a[2]] = a[3]
		c.add(pInt(1), store(n))
	case "hget":
		if v, ok := h[a[2]]; ok {
			c.same(pBulk(v))
		} else {
			c.same(pNil())
		}
	case "hmget":
		var w []*string
		for _, f := range a[2:] {
			if v, ok := h[f]; ok {
				v := v
				w = append(w, &v)
			} else {
				w = append(w, nil)
			}
		}
		c.same(pOpt(w))
	case "hgetall":
		c.same(pPairs(h))
	case "hkeys":
		var w []string
		for f := range h {
			w = append(w, f)
		}
		c.same(pMulti(w))
	case "hvals":
		var w []string
		for _, v := range h {
			w = append(w, v)
		}
		c.same(pMulti(w))
	case "hlen":
		c.same(pInt(int64(len(h))))
	case "hexists":
		if _, ok := h[a[2]]; ok {
			c.same(pInt(1))
		} else {
			c.same(pInt(0))
		}
	case "hstrlen":
		c.same(pInt(int64(len(h[a[2]]))))
	case "hdel":
		n := cp()
		d := int64(0)
		for _, f := range a[2:] {
			if _, ok := n[f]; ok {
				d++
				delete(n, f)
			}
		}
		if exists {
			c.add(pInt(d), store(n))
		} else {
			c.same(pInt(0))
		}
	case "hincrby":
		by, ok := isInt(a[3])
		if !ok {
			c.argErr()
			return
		}
		if !canon(a[3]) {
			c.same(pErr())
		}
		v := int64(0)
		if s, ok := h[a[2]]; ok {
			x, ok := isInt(s)
			if !ok {
				c.same(pErr())
				return
			}
			if !canon(s) {
				c.same(pErr())
			}
			v = x
		}
		t := v + by
		if by > 0 && t < v || by < 0 && t > v {
			c.same(pErr())
			return
		}
		n := cp()
		n[a[2]] = strconv.FormatInt(t, 10)
		c.add(pInt(t), store(n))
	case "hincrbyfloat":
		by, ok := isFloat(a[3])
		if !ok {
			c.argErr()
			return
		}
		v := 0.0
		if s, ok := h[a[2]]; ok {
			if v, ok = isFloat(s); !ok {
				c.same(pErr())
				return
			}
		}
		v += by
		if math.IsInf(v, 0) || math.IsNaN(v) {
			c.same(pErr())
			return
		}
		n := cp()
		n[a[2]] = fmtFloat(v)
		c.add(pBulk(fmtFloat(v)), store(n))
	case "hrandfield":
		if len(a) == 2 {
			if !exists {
				c.same(pNilOrEmpty())
				return
			}
			c.same(func(v *Value) bool {
				if v.T != '$' || v.Nil {
					return false
				}
				_, ok := h[v.S]
				return ok
			})
			return
		}
		n, ok := isInt(a[2])
		if !ok {
			c.argErr()
			return
		}
		wv := false
		if len(a) == 4 {
			if strings.ToLower(a[3]) != "withvalues" {
				c.argErr()
				return
			}
			wv = true
		}
		if n < -(1 << 22) {
			c.same(pErr())
			if exists {
				return
			}
		}
		if !exists || n == 0 {
			c.same(pNilOrEmpty())
			return
		}
		c.same(func(v *Value) bool {
			g, ok := strs(v)
			if !ok {
				return false
			}
			if wv {
				if len(g)%2 != 0 {
					return false
				}
				var f []string
				for i := 0; i < len(g); i += 2 {
					if x, ok := h[g[i]]; !ok || x != g[i+1] {
						return false
					}
					f = append(f, g[i])
				}
				g = f
			}
			return pick(g, n, func(f string) bool { _, ok := h[f]; return ok }, len(h))
		})
	default:
		panic("model: " + a[0])
	}
}

// pick: g is a legal random choice of n elements among size ones
func pick(g []string, n int64, in func(string) bool, size int) bool {
	seen := map[string]bool{}
	for _, f := range g {
		if !in(f) {
			return false
		}
		if n > 0 && seen[f] {
			return false
		}
		seen[f] = true
	}
	if n < 0 {
		return int64(len(g)) == -n
	}
	if n > int64(size) {
		n = int64(size)
	}
	return int64(len(g)) == n
}

// ---- sets ----

func (c *ctx) sets() {
	a := c.a
	k := a[1]
	mem := func(k string) (map[string]bool, bool) {
		e, ok := c.get(k)
		if !ok {
			return map[string]bool{}, false
		}
		return e.V.M, true
	}
	cp := func(m map[string]bool) map[string]bool {
		n := make(map[string]bool, len(m)+1)
		for x := range m {
			n[x] = true
		}
		return n
	}
	store := func(m map[string]bool) *State {
		e, _ := c.get(k)
		e.V = &Val{T: 'S', M: m}
		return c.put(k, e)
	}
	switch a[0] {
	case "sinter", "sunion", "sdiff", "sinterstore", "sunionstore", "sdiffstore":
		st := strings.HasSuffix(a[0], "store")
		ops := a[1:]
		if st {
			ops = a[2:]
		}
		for _, x := range ops {
			if c.wrongType(x, 'S') {
				c.same(pErr())
				return
			}
		}
		first, _ := mem(ops[0])
		r := cp(first)
		for _, x := range ops[1:] {
			m, _ := mem(x)
			switch a[0][1] {
			case 'i':
				for f := range r {
					if !m[f] {
						delete(r, f)
					}
				}
			case 'u':
				for f := range m {
					r[f] = true
				}
			case 'd':
				for f := range m {
					delete(r, f)
				}
			}
		}
		if st {
			n := c.st.clone()
			delete(n.m, c.pre+k)
			putE(n, c.pre+k, Ent{V: &Val{T: 'S', M: r}})
			c.add(pInt(int64(len(r))), n)
		} else {
			c.same(pMulti(setList(r)))
		}
		return
	case "smove":
		se, ok := c.get(a[1])
		if !ok {
			c.same(pInt(0))
			return
		}
		if se.V.T != 'S' || c.wrongType(a[2], 'S') {
			c.same(pErr())
			return
		}
		if !se.V.M[a[3]] {
			c.same(pInt(0))
			return
		}
		if a[1] == a[2] {
			c.same(pInt(1))
			return
		}
		n := c.st.clone()
		m := cp(se.V.M)
		delete(m, a[3])
		se.V = &Val{T: 'S', M: m}
		putE(n, c.pre+a[1], se)
		de := n.m[c.pre+a[2]]
		d := map[string]bool{}
		if de.V != nil {
			d = cp(de.V.M)
		}
		d[a[3]] = true
		de.V = &Val{T: 'S', M: d}
		n.m[c.pre+a[2]] = de
		c.add(pInt(1), n)
		return
	}
	if c.wrongType(k, 'S') {
		c.same(pErr())
		if (a[0] == "srandmember") && len(a) == 3 && a[2] == "0" {
			c.same(pNilOrEmpty())
		}
		return
	}
	m, exists := mem(k)
	switch a[0] {
	case "sadd":
		n := cp(m)
		d := int64(0)
		for _, x := range a[2:] {
			if !n[x] {
				n[x] = true
				d++
			}
		}
		c.add(pInt(d), store(n))
	case "srem":
		n := cp(m)
		d := int64(0)
		for _, x := range a[2:] {
			if n[x] {
				delete(n, x)
				d++
			}
		}
		if exists {
			c.add(pInt(d), store(n))
		} else {
			c.same(pInt(0))
		}
	case "scard":
		c.same(pInt(int64(len(m))))
	case "sismember":
		if m[a[2]] {
			c.same(pInt(1))
		} else {
			c.same(pInt(0))
		}
	case "smembers":
		if !exists {
			c.same(pNilOrEmpty())
		} else {
			c.same(pMulti(setList(m)))
		}
	case "srandmember":
		if len(a) == 2 {
			if !exists {
				c.same(pNilOrEmpty())
				return
			}
			c.same(func(v *Value) bool { return v.T == '$' && !v.Nil && m[v.S] })
			return
		}
		n, ok := isInt(a[2])
		if !ok {
			c.argErr()
			return
		}
		if n < -(1 << 22) {
			c.same(pErr())
			if exists {
				return
			}
		}
		if !exists || n == 0 {
			c.same(pNilOrEmpty())
			return
		}
		c.same(func(v *Value) bool {
			g, ok := strs(v)
			return ok && pick(g, n, func(x string) bool { return m[x] }, len(m))
		})
	case "spop":
		if len(a) == 2 {
			if !exists {
				c.same(pNilOrEmpty())
				return
			}
			for _, x := range setList(m) {
				n := cp(m)
				delete(n, x)
				c.add(pBulk(x), store(n))
			}
			return
		}
		n, ok := isInt(a[2])
		if !ok || n < 0 {
			c.argErr()
			return
		}
		if n == 0 {
			c.same(pOr(pErr(), pNilOrEmpty()))
			return
		}
		if !exists {
			c.same(pNilOrEmpty())
			return
		}
		if n >= int64(len(m)) {
			c.add(pMulti(setList(m)), c.del(k))
			return
		}
		if c.reply != nil {
			g, ok := strs(c.reply)
			if !ok || !pick(g, n, func(x string) bool { return m[x] }, len(m)) {
				return
			}
			r := cp(m)
			for _, x := range g {
				delete(r, x)
			}
			c.add(pAny(), store(r))
			return
		}
		// unknown reply: every choice
		l := setList(m)
		var rec func(i int, left int64, cur map[string]bool)
		rec = func(i int, left int64, cur map[string]bool) {
			if left == 0 {
				c.add(pAny(), store(cp(cur)))
				return
			}
			if i >= len(l) {
				return
			}
			rec(i+1, left, cur)
			delete(cur, l[i])
			rec(i+1, left-1, cur)
			cur[l[i]] = true
		}
		rec(0, n, cp(m))
	default:
		panic("model: " + a[0])
	}
}

func setList(m map[string]bool) []string {
	r := make([]string, 0, len(m))
	for x := range m {
		r = append(r, x)
	}
	sort.Strings(r)
	return r
}
