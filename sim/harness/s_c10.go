package main

import "github.com/corywalker/expreduce/verifsim/simrt"

// C10: Throw and Catch against the reference interpreter, several programs one
// after the other in the same session.
func init() {
	register(&Scenario{
		Prop: "C10",
		Rule: "at least one exception was thrown",
		Real: realCore, Stub: stubCore,
		Quick: 300, Thor: 60000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "mini", Plan: g.plan()}
			n := 1
			if g.P(0.2) {
				n = 2
			}
			for i := 0; i < n; i++ {
				var o []Op
				for k := 0; k < 12; k++ {
					q := g.newMgen()
					q.throws, q.prints = true, true
					q.par = g.P(0.3)
					q.rets = g.P(0.5)
					p := q.prog(g.Between(2, 4), g.Between(2, 4), func(d int) *X {
						if g.P(0.3) {
							return q.intX(d)
						}
						return q.block(d)
					})
					o = append(o, Op{K: "mini", S: p.json()})
				}
				c.Lanes = append(c.Lanes, o)
			}
			return c
		},
		Exec: func(c *Case, r *Report) {
			r.mainSim(&c.Plan, func() []simrt.Spec { return r.miniLanes(c) })
			for _, l := range c.Lanes {
				for _, o := range l {
					u := map[string]int{}
					for _, x := range progOf(o.S).In {
						x.uses(u)
					}
					r.inc("throws", int64(u["throw"]))
					r.inc("catches", int64(u["catch"]))
					r.Nontriv = r.Nontriv || u["throw"] > 0
				}
			}
		},
	})
}

var realCore = []string{"evaluator", "parser", "matcher", "built-in functions and their .m definitions", "definition map", "logging", "stream manager"}
var stubCore = []string{"goroutine scheduler", "clocks", "map iteration order", "standard output and error", "signals"}

// miniLanes makes a session for every lane and checks its programs there.
func (r *Report) miniLanes(c *Case) []simrt.Spec {
	var specs []simrt.Spec
	for i, ops := range c.Lanes {
		l := &Lane{ID: i, Es: newSession()}
		ops := ops
		specs = append(specs, simrt.Spec{Data: l, Fn: func() {
			for _, o := range ops {
				if !miniCheck(l, progOf(o.S), r, o.K) {
					return
				}
			}
		}})
	}
	return specs
}
