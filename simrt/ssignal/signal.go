// Package ssignal replaces os/signal inside the simulation.
package ssignal

import (
	"context"
	"os"

	"gRedis/verifsim/scontext"
	"gRedis/verifsim/sim"
)

type reg struct {
	ch   chan<- os.Signal
	sigs []os.Signal
	proc *sim.Proc
}
type state struct {
	regs    []*reg
	ignored map[string]bool
}

func st() *state {
	if sim.S.SigState == nil {
		sim.S.SigState = &state{ignored: map[string]bool{}}
	}
	return sim.S.SigState.(*state)
}

func Notify(ch chan<- os.Signal, sigs ...os.Signal) {
	if sim.S == nil {
		return
	}
	sim.YS()
	st().regs = append(st().regs, &reg{ch, sigs, sim.Cur().Proc})
}
func Stop(ch chan<- os.Signal) {
	if sim.S == nil {
		return
	}
	sim.YS()
	s := st()
	var r []*reg
	for _, x := range s.regs {
		if x.ch != ch {
			r = append(r, x)
		}
	}
	s.regs = r
}
func Reset(sigs ...os.Signal) {
	if sim.S != nil {
		st().regs = nil
	}
}
func Ignore(sigs ...os.Signal) {
	if sim.S == nil {
		return
	}
	for _, s := range sigs {
		st().ignored[s.String()] = true
	}
}
func Ignored(s os.Signal) bool { return sim.S != nil && st().ignored[s.String()] }
func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := scontext.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sigs...)
	sim.Go(func() {
		i := sim.Select(false, sim.RecvCase[os.Signal](ch), sim.RecvCase[struct{}](ctx.Done()))
		if i == 0 {
			cancel()
		}
	})
	return ctx, func() { cancel(); Stop(ch) }
}

// Deliver sends a signal to a process, with the default action when nobody asked for it.
func Deliver(p *sim.Proc, sig os.Signal) (handled bool) {
	s := st()
	for _, r := range s.regs {
		if r.proc != p {
			continue
		}
		want := len(r.sigs) == 0
		for _, x := range r.sigs {
			if x == sig {
				want = true
			}
		}
		if want {
			handled = true
			sim.TryPost(r.ch, sig)
		}
	}
	if !handled && !s.ignored[sig.String()] && !p.Dead {
		sim.S.Kill(p, "signal: "+sig.String())
	}
	return handled
}
