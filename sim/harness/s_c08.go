package main

import (
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// miniInterrupt runs a program like miniCheck, but interrupts its inputs after
// the steps listed in at (scheduling points; a fraction, in 1/1000, of what the
// input takes by itself, plus an offset).  After an interrupt the state must be
// one the reference passes through; the program then starts over.
func miniInterrupt(l *Lane, p *mprog, at []int64, r *Report) bool {
	q := stateQuery()
	base := p.model()
	setup := func() bool {
		for _, s := range p.setup() {
			l.top(s)
		}
		l.takeOut()
		return true
	}
	setup()
	// How long each input takes.
	var steps []int64
	for _, x := range p.In {
		s := x.src()
		s0 := simrt.Steps()
		l.top(s)
		steps = append(steps, int64(simrt.Steps()-s0))
	}
	l.takeOut()
	ex := p.expects()
	for k, a := range at {
		i := k % len(p.In)
		// Bring the session to the state in front of input i.
		setup()
		m := p.model()
		for j := 0; j < i; j++ {
			l.top(p.In[j].src())
			m.fuel = 4000
			m.ev(p.In[j], nil)
		}
		l.takeOut()
		m.keep, m.snaps, m.nsnap, m.fuel, m.out = true, map[string]int{}, 0, 4000, nil
		m.effects = 0
		first := m.state()
		m.snaps[first] = -1
		m.ev(p.In[i], nil)
		in := p.In[i].src()
		off := a * steps[i] / 1000
		if off < 1 {
			off = 1
		}
		got, fired := interrupted(l, []int64{off}, true, func() string { return l.top(in) })
		prt := l.takeOut()
		r.inc("inputs", 1)
		r.mix(got + prt)
		if fired == 0 {
			r.inc("ended-before-interrupt", 1)
			continue
		}
		r.inc("interrupts", 1)
		where := func() string { return in + "; set-up: " + strings.Join(p.setup(), " ; ") }
		st := l.top(q)
		l.takeOut()
		if got == "$Aborted" {
			r.Nontriv = true
			r.inc("aborted", 1)
			n, ok := m.snaps[st]
			if !ok {
				r.viol("state", "", "interrupted after %d of %d steps, the variables %s are %s, which the computation never passes through (from %s to %s): %s", off, steps[i], q, st, first, m.state(), where())
				return false
			}
			if n > 0 && st != m.state() {
				r.inc("interrupts-in-the-middle-of-effects", 1)
			}
			r.mark(mix64(strHash(st), strHash(in)))
			want := ""
			for _, o := range m.out {
				want += o + "\n"
			}
			if !strings.HasPrefix(want, noDiagnosis(prt)) {
				r.viol("output", "", "interrupted after %d of %d steps, it printed %q, not a prefix of %q: %s", off, steps[i], prt, want, where())
				return false
			}
		} else {
			// It came too late for the evaluation.
			if got != ex[i].out || prt != ex[i].prt || st != ex[i].st {
				r.viol("late", "", "an interrupt after %d of %d steps leads to %s, printed %q and variables %s; without, %s, %q and %s: %s", off, steps[i], got, prt, st, ex[i].out, ex[i].prt, ex[i].st, where())
				return false
			}
			r.inc("too-late", 1)
		}
		// What follows is as if nothing had happened.
		if o := l.top(`Catch[Throw[Sum[kk9, {kk9, 3}]]]`) + l.takeOut(); o != "6" {
			r.viol("next", "", "after an interrupt, Catch[Throw[Sum[kk9, {kk9, 3}]]] answers %q: %s", o, where())
			return false
		}
	}
	_ = base
	return miniCheck(l, p, r, "after interrupts")
}

func init() {
	register(&Scenario{
		Prop: "C08",
		Rule: "an evaluation was ended by an interrupt before it was complete",
		Real: realCore, Stub: stubCore,
		Quick: 220, Thor: 60000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "mini", Plan: g.plan()}
			c.Plan.Max = 400_000_000
			var o []Op
			for k := 0; k < 6; k++ {
				q := g.newMgen()
				q.throws, q.prints = g.P(0.4), g.P(0.4)
				q.par = g.P(0.25)
				q.rets = g.P(0.3)
				p := q.prog(g.Between(1, 3), g.Between(2, 4), func(d int) *X { return q.block(d) })
				var at []int64
				for i := 0; i < 8; i++ {
					at = append(at, int64(g.N(1001)))
				}
				o = append(o, Op{K: "mini", S: p.json(), A: at})
			}
			c.Lanes = [][]Op{o}
			return c
		},
		Exec: func(c *Case, r *Report) {
			res := r.mainSim(&c.Plan, func() []simrt.Spec {
				l := &Lane{Es: newSession()}
				return []simrt.Spec{{Data: l, Fn: func() {
					for _, o := range c.Lanes[0] {
						if !miniInterrupt(l, progOf(o.S), o.A, r) {
							return
						}
					}
				}}}
			})
			r.status(res)
		},
	})
}

// noDiagnosis drops the lines that say what was being evaluated when the
// interrupt came.  What programs print has no brackets.
func noDiagnosis(s string) string {
	if !strings.Contains(s, "[") {
		return s
	}
	out := ""
	for _, l := range strings.SplitAfter(s, "\n") {
		if !strings.Contains(l, "[") {
			out += l
		}
	}
	return out
}

// status turns an execution that did not end well into a violation.
func (r *Report) status(res *simrt.Result) {
	switch {
	case intState.late && res.Status == "aborted":
		r.viol("late", "", "the evaluation goes on more than %d steps after the interrupt", lateSteps)
	case res.Status == "deadlock":
		r.viol("hang", "", "the execution never ends: %v", res.Stuck)
	case res.Status == "budget":
		r.viol("endless", "", "the execution takes more than %d steps", res.Steps)
	}
}
