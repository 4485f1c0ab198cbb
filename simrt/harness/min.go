package main

import (
	"fmt"
	"os"
	"time"

	"gRedis/verifsim/sim"
)

var devNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

func runPlan(p *Plan) *Run {
	// what the code under test prints by way of fmt is not part of the check's own output
	out := os.Stdout
	os.Stdout = devNull
	defer func() { os.Stdout = out }()
	return props[p.Prop].Exec(p)
}

// explicitOf turns the recorded decisions of a run into an explicit plan.
func explicitOf(p *Plan, r *Run) *Plan {
	q := p.clone()
	q.Explicit = true
	q.Decs = append([]sim.Decision(nil), r.S.Rec...)
	return q
}

type minimizer struct {
	class string
	best  *Plan
	end   time.Time
	tries int
}

func (m *minimizer) out() bool { return time.Now().After(m.end) }

// accept tries a candidate: with the decisions kept, with none, and with a few fresh schedules.
func (m *minimizer) accept(c *Plan, fresh int) bool {
	if m.out() {
		return false
	}
	m.tries++
	if m.test(c) {
		m.best = c
		return true
	}
	if len(c.Decs) > 0 {
		d := c.clone()
		d.Decs = nil
		if m.test(d) {
			m.best = d
			return true
		}
	}
	for i := 0; i < fresh && !m.out(); i++ {
		d := c.clone()
		d.Explicit = false
		d.Decs = nil
		d.Seed = uint64(i)*7919 + 13
		if d.Pol.Kind == "seq" {
			d.Pol = sim.Policy{Kind: "rand", YieldP: 20, SyncP: 200, AdvP: d.Pol.AdvP, AdvMaxMs: d.Pol.AdvMaxMs}
		}
		r := runPlan(d)
		if r.V != nil && r.V.Class == m.class {
			e := explicitOf(d, r)
			if m.test(e) {
				m.best = e
				return true
			}
		}
	}
	return false
}

func (m *minimizer) test(c *Plan) bool {
	r := runPlan(c.clone())
	return r.V != nil && r.V.Class == m.class
}

// reduce removes chunks of a list of n items; del builds the candidate without items [i,j).
func (m *minimizer) reduce(n func() int, del func(p *Plan, i, j int), fresh int) {
	size := n()
	for size > 0 && !m.out() {
		for i := 0; i < n() && !m.out(); {
			j := i + size
			if j > n() {
				j = n()
			}
			c := m.best.clone()
			del(c, i, j)
			if !m.accept(c, fresh) {
				i = j
			}
		}
		size /= 2
	}
}

func minimise(p *Plan, class string, budget time.Duration) *Plan {
	m := &minimizer{class: class, best: p, end: time.Now().Add(budget)}
	for round := 0; round < 3 && !m.out(); round++ {
		before := m.size()
		m.reduce(func() int { return len(m.best.Clients) }, func(c *Plan, i, j int) { c.Clients = append(c.Clients[:i:i], c.Clients[j:]...) }, 25)
		m.reduce(func() int { return len(m.best.Disk) }, func(c *Plan, i, j int) { c.Disk = append(c.Disk[:i:i], c.Disk[j:]...) }, 5)
		m.reduce(func() int { return len(m.best.Sigs) }, func(c *Plan, i, j int) { c.Sigs = append(c.Sigs[:i:i], c.Sigs[j:]...) }, 5)
		if len(m.best.Accept) > 0 {
			c := m.best.clone()
			c.Accept = nil
			if !m.accept(c, 5) {
				for k := range m.best.clone().Accept {
					c := m.best.clone()
					delete(c.Accept, k)
					m.accept(c, 0)
				}
			}
		}
		m.reduce(func() int { return len(m.best.Final) }, func(c *Plan, i, j int) { c.Final = append(c.Final[:i:i], c.Final[j:]...) }, 3)
		for ci := 0; ci < len(m.best.Clients); ci++ {
			m.reduce(func() int { return len(m.best.Clients[ci].Ops) }, func(c *Plan, i, j int) {
				o := c.Clients[ci].Ops
				c.Clients[ci].Ops = append(o[:i:i], o[j:]...)
			}, 15)
		}
		m.reduce(func() int { return len(m.best.Setup) }, func(c *Plan, i, j int) { c.Setup = append(c.Setup[:i:i], c.Setup[j:]...) }, 10)
		m.reduce(func() int { return len(m.best.Logs) }, func(c *Plan, i, j int) { c.Logs = append(c.Logs[:i:i], c.Logs[j:]...) }, 10)
		m.reduce(func() int { return len(m.best.Logs2) }, func(c *Plan, i, j int) { c.Logs2 = append(c.Logs2[:i:i], c.Logs2[j:]...) }, 10)
		// simpler network
		c := m.best.clone()
		for i := range c.Clients {
			for j := range c.Clients[i].Ops {
				o := &c.Clients[i].Ops[j]
				o.Cut, o.Dly, o.Hold = nil, nil, 0
			}
			c.Clients[i].OutUs, c.Clients[i].RecvMax, c.Clients[i].RecvUs = 0, 0, 0
		}
		m.accept(c, 10)
		c = m.best.clone()
		for i := range c.Clients {
			for j := range c.Clients[i].Ops {
				c.Clients[i].Ops[j].Pipe = false
			}
		}
		m.accept(c, 10)
		c = m.best.clone()
		c.Window, c.NoCoal, c.RstDrop = 0, false, false
		m.accept(c, 10)
		m.reduce(func() int { return len(m.best.Decs) }, func(c *Plan, i, j int) { c.Decs = append(c.Decs[:i:i], c.Decs[j:]...) }, 0)
		if m.size() == before {
			break
		}
	}
	return m.best
}

func (m *minimizer) size() int {
	n := len(m.best.Decs) + len(m.best.Setup) + len(m.best.Final) + len(m.best.Disk)
	for _, c := range m.best.Clients {
		n += 1 + len(c.Ops)
	}
	return n
}

// finish runs the plan once more and writes what it shows into it.
func finish(p *Plan) *Run {
	r := runPlan(p.clone())
	if r.V != nil {
		p.Want, p.Text = r.V.Class, r.V.Text
	}
	p.Hash = fmt.Sprintf("%016x", r.S.Trace())
	return r
}
