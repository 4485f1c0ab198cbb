package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// linearize decides whether the recorded history is explained by the sequential model: Wing & Gong search over
// the set of (position per connection, model state), memoised. Requests without a reply may or may not have
// taken effect. Returns "" if explained, otherwise the explanation of the failure; unknown if the search was cut.
func linearize(evs []*Event, dbnum int, init *State, maxNodes int) (why string, unknown bool) {
	if init == nil {
		init = newState()
	}
	by := map[int][]*Event{}
	var order []int
	for _, e := range evs {
		if _, ok := by[e.Conn]; !ok {
			order = append(order, e.Conn)
		}
		by[e.Conn] = append(by[e.Conn], e)
	}
	sort.Ints(order)
	var lanes [][]*Event
	for _, c := range order {
		l := by[c]
		sort.SliceStable(l, func(i, j int) bool { return l[i].I < l[j].I })
		lanes = append(lanes, l)
	}
	// KEYS is a snapshot only when nothing overlaps it
	for _, e := range evs {
		if strings.ToLower(e.Args[0]) != "keys" {
			continue
		}
		e.Strict = e.Done
		for _, f := range evs {
			if f == e || f.Conn == e.Conn {
				continue
			}
			fr := f.Ret
			if !f.Done {
				fr = math.MaxUint64
			}
			if f.Call <= e.Ret && fr >= e.Call {
				e.Strict = false
				break
			}
		}
	}
	n := len(lanes)
	pos := make([]uint16, n)
	ret := func(e *Event) uint64 {
		if e.Done {
			return e.Ret
		}
		return math.MaxUint64
	}
	need := 0
	for _, e := range evs {
		if e.Done {
			need++
		}
	}
	type memoKey struct {
		p string
		s string
	}
	seen := map[memoKey]bool{}
	nodes := 0
	best := -1
	var bestPos []uint16
	var bestSt *State
	pk := func() string {
		b := make([]byte, 2*n)
		for i, x := range pos {
			b[2*i] = byte(x)
			b[2*i+1] = byte(x >> 8)
		}
		return string(b)
	}
	cut := false
	var rec func(st *State, done int) bool
	rec = func(st *State, done int) bool {
		if done == need {
			return true
		}
		k := memoKey{pk(), st.Key()}
		if seen[k] {
			return false
		}
		seen[k] = true
		nodes++
		if nodes > maxNodes {
			cut = true
			return false
		}
		if done > best {
			best = done
			bestPos = append([]uint16(nil), pos...)
			bestSt = st
		}
		// the earliest return among the next operations limits what may come next
		minRet := uint64(math.MaxUint64)
		minLane := -1
		second := uint64(math.MaxUint64)
		for i := 0; i < n; i++ {
			if int(pos[i]) < len(lanes[i]) {
				x := ret(lanes[i][pos[i]])
				if x < minRet {
					second = minRet
					minRet, minLane = x, i
				} else if x < second {
					second = x
				}
			}
		}
		var cand []int
		for i := 0; i < n; i++ {
			if int(pos[i]) >= len(lanes[i]) {
				continue
			}
			e := lanes[i][pos[i]]
			lim := minRet
			if i == minLane {
				lim = second
			}
			if lim < e.Call {
				continue
			}
			cand = append(cand, i)
		}
		sort.SliceStable(cand, func(a, b int) bool {
			return ret(lanes[cand[a]][pos[cand[a]]]) < ret(lanes[cand[b]][pos[cand[b]]])
		})
		for _, i := range cand {
			e := lanes[i][pos[i]]
			rp := e.Reply
			if !e.Done {
				rp = nil
			}
			nx := apply(st, e.Args, e.DB, rp, e.C0, e.C1, e.Strict, dbnum)
			pos[i]++
			d := done
			if e.Done {
				d++
			}
			for _, s2 := range nx {
				if rec(s2, d) {
					pos[i]--
					return true
				}
				if cut {
					pos[i]--
					return false
				}
			}
			pos[i]--
		}
		return false
	}
	if rec(init, 0) {
		return "", false
	}
	if cut {
		return "", true
	}
	var b strings.Builder
	fmt.Fprintf(&b, "no one-at-a-time order explains the replies; best explanation covers %d of %d answered requests.\n", best, need)
	if bestSt != nil {
		fmt.Fprintf(&b, "  model state there: %s\n  cannot be explained next:\n", bestSt.Show())
		for i := 0; i < n; i++ {
			if int(bestPos[i]) < len(lanes[i]) {
				fmt.Fprintf(&b, "    %s\n", lanes[i][bestPos[i]])
			}
		}
	}
	return b.String(), false
}

// checkLin applies the linearizability oracle to a run.
func (r *Run) checkLin() {
	if r.V != nil {
		return
	}
	why, unknown := linearize(r.Ev, r.P.DbNum, nil, 60000)
	if unknown {
		r.linUnknown = true
		return
	}
	if why != "" {
		r.fail("history", "%s", why)
	}
}
