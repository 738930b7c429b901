package main

import (
	"fmt"
	"github.com/corywalker/expreduce/verifsim/simrt"
	"strings"
)

// C01: sessions do not influence one another.
func init() {
	register(&Scenario{
		Prop:  "C01",
		Rule:  "at least two sessions evaluated at least 6 inputs each and the processor changed hands at least 4 times while more than one was unfinished",
		Real:  []string{"evaluator", "parser", "matcher", "built-in functions and their .m definitions", "definition map", "logging", "stream manager"},
		Stub:  []string{"goroutine scheduler", "clocks", "map iteration order", "standard output and error", "signals"},
		Quick: 300, Thor: 60000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "lanes", Plan: g.plan()}
			inTask := g.P(0.15)
			n := 2
			if g.P(0.3) {
				n = 3
			}
			if c.Plan.Quantum < 300 && g.P(0.9) {
				inTask = false
			}
			c.Plan.Max *= 4   // the reference has the usual limit for every session
			same := g.P(0.25) // the same program in every lane, with different numbers
			seed := g.R.Next()
			var rivals [][]string
			if g.P(0.55) {
				same = false
				rivals = g.rivals(n, progOpt{Segs: g.Between(2, 4), Corpus: 0.25, Max: 150_000})
			}
			for i := 0; i < n; i++ {
				gg := *g
				if same {
					gg.R = simrt.NewRand(seed)
				}
				var o []Op
				if inTask || (i > 0 && g.P(0.07)) {
					o = append(o, Op{K: "new"})
				}
				kind := "raw"
				if g.P(0.5) {
					kind = "top"
				}
				if rivals != nil {
					o = append(o, ops(kind, rivals[i])...)
				} else {
					o = append(o, ops(kind, gg.program(progOpt{Segs: g.Between(2, 4), Corpus: 0.4, Max: 150_000}))...)
				}
				if !same {
					g.R = gg.R
				}
				if g.P(0.05) {
					o = append(o, Op{K: "clearall"}, Op{K: kind, S: "{x, y, f[1], $Context}"})
				}
				o = append(o, ops(kind, []string{`{x, y, f[1], o[c, a], $Context, $ContextPath, fib[3]}`, `Names["Global` + "`" + `*"]`})...)
				c.Lanes = append(c.Lanes, o)
			}
			return c
		},
		Exec: func(c *Case, r *Report) { execIsolation(c, r) },
	})
}

func execIsolation(c *Case, r *Report) {
	ref, err := inFresh("solo", c)
	if err != nil {
		r.Err = err.Error()
		return
	}
	var ls []*Lane
	res := r.mainSim(&c.Plan, lanesSetup(c.Lanes, false, &ls, nil))
	r.inc("sessions", int64(len(ls)))
	compareLogs(r, c, ref, ls, res.Status)
	r.Nontriv = len(ls) > 1 && len(res.Switches) >= 4
}

// compareLogs demands that each lane observed exactly what it observes alone.
func compareLogs(r *Report, c *Case, ref [][]string, ls []*Lane, status string) {
	for _, log := range ref {
		if n := len(log); n > 0 && strings.HasPrefix(log[n-1], "STATUS ") && status == "budget" {
			r.inc("undecided.budget", 1)
			return
		}
	}
	for i, l := range ls {
		r.mix(fmt.Sprint(l.Log))
		for j := range c.Lanes[i] {
			r.inc("inputs", 1)
			want, got := "(none)", "(no answer: "+status+")"
			if j < len(ref[i]) {
				want = ref[i][j]
			}
			if j < len(l.Log) {
				got = l.Log[j]
			}
			if strings.HasPrefix(want, "STATUS ") {
				r.inc("undecided.budget", 1)
				return
			}
			if want != got && want != "(none)" {
				r.viol("differs", c.Lanes[i][j].K, "session %d, input %d (%s): alone it answers %q, beside the others %q", i, j, c.Lanes[i][j].S, want, got)
				return
			}
		}
	}
}
