package main

import (
	"fmt"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C20: a session that was reset behaves like a new one.  Pre is what happens
// before (A: interrupted after so many steps), Post what follows the reset and
// is compared with what a new session in a new process answers.

// upsets change what a session starts with.
var upsets = []string{
	`Unprotect[Plus]; Clear[Plus]`, `Attributes[Plus] = {}`, `SetAttributes[Sin, {HoldAll}]`, `ClearAttributes[Times, {Orderless}]`, `Unprotect[Sin]; Sin[0] = 7`, `Sin[myarg] = 3`,
	`$ModuleNumber = 50`, `Module[{t}, t]; Unique[]`, `$Context = "Other` + "`" + `"`, `BeginPackage["Pkg` + "`" + `"]; pkv = 1`, `Begin["Sub` + "`" + `"]`, `$ContextPath = {"System` + "`" + `"}`, `$PrePrint = wrapped`, `$Line = 40`,
	`Throw[4]`, `Reap[Throw[3]]`, `Reap[Sow[1]; 1 + `, `Trace[1 + 1]; Throw[2]`, `SeedRandom[3]; RandomReal[]`, `AddTo`, `x = 5; y := x; f[x_] := x; f[1] = 2`, `Attributes[x] = {Protected}`, `SetAttributes[y, {Locked, Protected}]`,
	`Plus[myarg, 1] = 4`, `Unprotect[Length]; Length[x_] := 9`, `Clear[Map]`, `ClearAll["Global` + "`" + `*"]`, `Unprotect[List]; List[1, 2] = 12`, `Default[Plus] = 3`, `Unprotect[Print]; Print[x_] := 5`, `Protect[x, y, f]`,
	`Hold[n1, n2, ctx` + "`" + `n3]`, `Sum[1/i, {i, 20}]`, `ParallelTable[pv[i] = i, {i, 5}]`, `ParallelTable[If[i == 2, Throw[i]], {i, 4}]`, `Table[Module[{t}, t = i], {i, 4}]`, `1 + `, `1 + 1`, `Out[1]; In[1]; %`, `x = .`, `Print["q"]`,
	`a1; a2; a3`, `System` + "`" + `newsym = 4`, `Private` + "`" + `pq = 2`, `Unprotect[$MaxPrecision]; Pi = 3`, `Unprotect[Pi]; Pi = 3`, `Unprotect[True]; True = 0`, `Unprotect[I]; I = 4`, `Unprotect[E]; E = 3`, `x::usage = "use"`, `Plus::usage`, `Unprotect[Plus]; Plus::usage = "none"`,
	`Unprotect[Table]; Table[x__] := 0`, `Unprotect[D]; D[q, q] = 2`, `Unprotect[Power]; Power[q, 2] = 3`, `SetAttributes[List, {Orderless}]`, `Attributes[Hold] = {}`, `Unprotect[Set]; SetAttributes[Set, {}]; Attributes[Set] = {}`, `ExpreduceMaskNonConditional`,
}

// probes show what a session starts with.
var probes = []string{
	`{$Context, $ContextPath, $ModuleNumber, $Line}`, `Names["Global` + "`" + `*"]`, `Length[Names["System` + "`" + `*"]]`, `Length[Names["*"]]`, `Module[{t}, t]`, `Unique[]`, `{Sin[0], Length[{1, 2, 3}], Plus[myarg, 1], Sin[myarg]}`, `{x, y, f[1], f[7], pv[2], pkv, inner}`,
	`Attributes[Plus]`, `Attributes[Times]`, `Attributes[Sin]`, `Attributes[x]`, `{Head[Out[1]], Head[Out[2]]}`, `DownValues[In]`, `{$PrePrint, Pi, E, I, True}`, `Map[f, {1, 2}]`, `b + a + 1`, `{q^2, D[q, q], Table[i, {i, 3}]}`, `Plus::usage`, `x::usage`,
	`Reap[Sow[2]; 3]`, `Sow[1]`, `Trace[1 + 1]`, `Catch[5]`, `1 + 1`, `Throw[9]`, `2 + 2`, `Print["p"]`, `{2, 1}`, `Hold[1 + 1]`, `x = 3`, `x`, `Definition[Sin]`, `Definition[f]`, `SeedRandom[5]; {RandomReal[], RandomReal[10]}`, `z[a_, b_.] := {a, b}; z[1]`, `Default[Plus]`,
	`MatchQ[a, x_. + a]`, `BeginPackage["Pkg` + "`" + `"]`, `{$Context, $ContextPath}`, `EndPackage[]`, `{$Context, $ContextPath}`, `Begin["Q` + "`" + `"]`, `$Context`, `End[]`, `$Context`, `Sum[i, {i, n}]`, `D[Sin[x^2], x]`, `Expand[(a + b)^2]`, `3.5 + 1/2`, `1 + `, `%`, `$Line`, `{v1, v2}`, `Names["v*"]`,
	`ParallelTable[i^2, {i, 4}]`, `Range[3]`, `SetAttributes[g, {Flat}]; g[g[1], 2]`, `Unprotect[Sin]; Attributes[Sin]`, `newsym`, `pq`,
}

func init() {
	register(&Scenario{
		Prop: "C20",
		Rule: "something was changed that a new session starts with, or an evaluation was interrupted, before the reset",
		Real: realCore, Stub: stubCore,
		Quick: 200, Thor: 60000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "reset", Plan: g.plan()}
			c.Plan.Max = 80_000_000
			kind := func() string { return g.Pick("top", "top", "raw") }
			for i := g.Between(1, 3); i > 0; i-- {
				switch g.N(4) {
				case 0:
					c.Pre = append(c.Pre, ops(kind(), g.program(progOpt{Segs: 1, Corpus: 0.5, Max: 100_000, Avoid: "x"}))...)
				default:
					for j := g.Between(1, 4); j > 0; j-- {
						c.Pre = append(c.Pre, Op{K: kind(), S: upsets[g.N(len(upsets))]})
					}
				}
			}
			for i := range c.Pre {
				if g.P(0.2) {
					c.Pre[i].A = []int64{int64(g.logN(20000))}
				}
			}
			if g.P(0.15) {
				c.Pre = append(c.Pre, Op{K: "top", S: g.Pick("While[True, hz = 1]", "Do[hz = i, {i, 10^9}]", "Table[i, {i, 10^8}]", "ParallelTable[While[True, 1], {i, 3}]", "Reap[While[True, Sow[1]]]", "Module[{t}, While[True, t = 1]]"), A: []int64{int64(g.logN(20000))}, T: "loop"})
			}
			if g.P(0.08) {
				c.Opt = map[string]int64{"profile": int64(g.Between(1, 2))}
			}
			k := kind()
			for i := g.Between(8, 25); i > 0; i-- {
				c.Post = append(c.Post, Op{K: k, S: probes[g.N(len(probes))]})
			}
			if g.P(0.4) {
				c.Post = append(c.Post, ops(k, g.program(progOpt{Segs: 1, Corpus: 0.5, Max: 100_000, Avoid: "xr"}))...)
			}
			return c
		},
		Exec: execC20,
	})
	freshFns["new"] = func(c *Case) [][]string {
		var ls []*Lane
		res := simrt.Run(serialPlan(c.Plan), lanesSetup([][]Op{c.Post}, false, &ls, nil))
		log := ls[0].Log
		if res.Status != "ok" {
			log = append(log, "STATUS "+res.Status)
		}
		return [][]string{log}
	}
}

func execC20(c *Case, r *Report) {
	ref, err := inFresh("new", c)
	if err != nil {
		r.Err = err.Error()
		return
	}
	done := false
	l := &Lane{ID: 0}
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		l.Es = newSession()
		return []simrt.Spec{{Data: l, Fn: func() {
			inLane(0, func() {
				if c.Opt["profile"] != 0 { // evaluations are counted before and during the reset
					l.raw("ExpreduceSetLogging[True, Notice]")
					l.raw("zprofiled[Pause[1000]]")
					l.raw("ExpreduceSetLogging[False, Notice]")
				}
				for _, o := range c.Pre {
					r.inc("inputs-before", 1)
					if len(o.A) > 0 {
						_, fired := interrupted(l, o.A, false, func() string { return l.do(o) })
						r.inc("interrupts", int64(fired))
						if fired > 0 {
							r.Nontriv = true
						}
					} else {
						r.mix(l.do(o))
						for _, u := range upsets {
							r.Nontriv = r.Nontriv || u == o.S
						}
					}
				}
				if c.Opt["profile"] > 1 {
					l.raw("ExpreduceSetLogging[True, Notice]")
				}
				l.Es.ClearAll()
				l.takeOut()
				if c.Opt["profile"] != 0 {
					l.raw("ExpreduceSetLogging[False, Notice]")
					l.takeOut()
					l.raw("ExpreduceDefinitionTimes[]")
					r.inc("profiles", 1)
					r.Nontriv = true
					if out := l.takeOut(); strings.Contains(out, "zprofiled") {
						r.viol("profile", "", "after a reset the profile shows what was evaluated before it: %q", out)
						return
					}
				}
				done = true
				l.run(c.Post)
			})
		}}}
	})
	if !done { // what comes before may need more than there is
		r.inc("undecided.budget", 1)
		return
	}
	r.mix(fmt.Sprint(l.Log))
	for i, o := range c.Post {
		r.inc("inputs", 1)
		want, got := "(none)", "(no answer: "+res.Status+")"
		if i < len(ref[0]) {
			want = ref[0][i]
		}
		if i < len(l.Log) {
			got = l.Log[i]
		}
		if strings.HasPrefix(want, "STATUS ") {
			r.inc("undecided.budget", 1)
			return
		}
		if got != want && want != "(none)" {
			var before []string
			for _, p := range c.Pre {
				before = append(before, p.S)
			}
			r.viol("differs", "", "after %q and a reset, %s answers %q; in a new session %q", before, o.S, got, want)
			return
		}
	}
	r.mark(strHash(fmt.Sprint(c.Pre)))
}
