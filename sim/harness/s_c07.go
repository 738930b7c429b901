package main

import (
	"fmt"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// endless draws an evaluation that does not end by itself.  q draws harmless
// code to put into it.
func endless(g *Gen, q *mgen, d int) string {
	if d > 0 && g.P(0.75) {
		e := endless(g, q, d-1)
		i := fmt.Sprint("v", g.N(1000))
		w := []string{
			`({1, 2, ~ + 1}[[1]] + 3)`, `(ga = ~)`, `(~ ; mk = 1)`, `(gb = 3; ~)`, `{1, ~, 2}`, `ff[1, ~, zz]`, `If[True, ~, 2]`, `If[~ === 1, 2, 3]`,
			`Which[False, 1, True, ~]`, `Switch[~, 1, 2, _, 3]`, `Switch[3, 3, ~, _, 1]`, `Catch[~]`, `Catch[Throw[~]]`, `Module[{@ = 3}, ~]`, `Module[{@ = ~}, @]`,
			`With[{@ = 3}, ~]`, `Block[{@ = 3}, ~]`, `Table[~, {@, 3}]`, `Do[~, {@, 5}]`, `Sum[~, {@, 3}]`, `Product[~, {@, 3}]`, `Map[Function[@, ~], {1, 2, 3}]`,
			`Scan[Function[@, ~], {1, 2, 3}]`, `Select[{1, 2, 3}, Function[@, ~]]`, `Fold[(~ + #1 + #2) &, 0, {1, 2}]`, `Nest[Function[@, ~], 0, 3]`, `FixedPoint[Function[@, ~], 0]`,
			`({1, 2} /. @_Integer :> ~)`, `(f[1, 2] //. f[@_, y_] :> ~)`, `MatchQ[3, @_ /; (~; True)]`, `Cases[{1, 2}, @_ :> ~]`, `(~ + 1)`, `(2*~)`, `(~ && True)`, `(False || ~; 1)`,
			`And[True, ~]`, `Or[False, ~]`, `ToString[~]`, `Length[{~}]`, `Apply[List, {~, 1}]`, `Reap[Sow[1]; ~]`, `Reap[Sow[~]]`, `Sort[{3, ~, 1}]`, `Print[~]`,
			`ParallelTable[~, {@, 3}]`, `ParallelTable[If[@ == 2, ~, @], {@, 3}]`, `While[~, 1]`, `For[@ = 0, ~, @++, 1]`, `Timing[~]`, `Quiet[~]`, `Return[~]`, `Evaluate[~]`,
			`AppendTo[la, ~]`, `Append[{1}, ~]`, `StringJoin["a", ~]`, `Identity[~]`, `(@ := ~; @)`, `(hh[@_] := ~; hh[1])`, `(hh[@_] := 1 /; (~; True); hh[1])`, `(hh[@_] := hh[@] = ~; hh[3])`, `(~ === 3)`, `(~ == 3)`, `(~ < 3)`,
			`Array[Function[@, ~], 3]`, `FoldList[(~ + #1 + #2) &, 0, {1, 2}]`, `NestList[Function[@, ~], 0, 3]`, `Table[1, {@, ~}]`, `Do[~, {@, {1, 2, 3}}]`, `Function[@, ~ + @][3]`, `Replace[3, @_ :> ~]`, `MatchQ[5, _?(Function[@, ~; True])]`,
			`Part[{1, ~}, 2]`, `Sequence[1, ~]`, `Rule[a, ~]`, `Plus[~, ~]`, `Throw[~]`, `Hold[Evaluate[~]]`, `Position[{1, ~}, 1]`, `(@ = 1; ~ @)`, `(~ &)[1]`, `((~; # + 1) &)[1]`,
		}
		t := w[g.N(len(w))]
		t = strings.ReplaceAll(t, "@", i)
		return strings.ReplaceAll(t, "~", e)
	}
	body := q.block(g.N(3)).src()
	i := g.Pick("i", "j", "zz1")
	c := []string{
		`While[True, ~]`, `While[~; True, 1]`, `While[True, Do[~, {@, 2}]]`, `Do[~, {@, 1000000000}]`, `Do[~, {@, 1, 1000000000, 3}]`, `For[zc = 0, zc >= 0, zc++, ~]`, `For[zc = 0, True, ~, zc++]`,
		`Sum[(~; @), {@, 1000000000}]`, `Product[(~; 1), {@, 1000000000}]`, `Table[~, {@, 1000000000}]`, `Table[~, {@, 1000000}, {j2, 1000000}]`, `Do[~, {@, 1000000}, {j2, @, 1000000}]`,
		`(rr[n_] := (~; rr[n + 1]); rr[1])`, `(rr[n_] := rr[n + 1]; rr[1])`, `(rr[n_] := 1 + rr[n + 1]; rr[1])`, `(rr[n_] := ss[n + 1]; ss[n_] := rr[n - 1] + 1; rr[1])`, `(rr[n_] := If[n > 0, ~; rr[n + 1], 0]; rr[1])`,
		`FixedPoint[Function[n, n + 1], 1]`, `FixedPointList[Function[n, n + 1], 1]`, `NestWhile[Function[n, n + 1], 1, Function[n, n > 0]]`, `NestWhileList[Function[n, n + 1], 1, Function[n, n > 0]]`,
		`(1 //. n_Integer :> n + 1)`, `(q[1] //. q[n_] :> q[n + 1])`, `({1, 2} //. {a_, b_} :> {b, a})`, `Catch[While[True, Catch[~; Throw[1]]]]`,
		`Pause[#p]`, `Pause[#p]`, `While[True, Pause[0.01]]`, `Do[Pause[0.5], {@, 100000}]`, `Table[Pause[#p]; @, {@, 10}]`, `Table[Pause[1]; @, {@, 100000}]`, `ParallelTable[Pause[#p]; @, {@, 4}]`,
		`ParallelTable[While[True, @ + 1], {@, 4}]`, `ParallelTable[If[@ > 2, While[True, 1], @], {@, 4}]`, `ParallelTable[Do[j2*@, {j2, 100000000}], {@, 3}]`, `ParallelTable[rq[@], {@, 3}]`,
		`Reap[While[True, Sow[1]]]`, `While[True, Reap[Sow[1]]]`, `While[True, Print["tick"]]`, `While[True, Module[{t = 1}, ~]]`, `Module[{t = 1}, While[True, t++]]`, `Module[{t = 1}, While[t > 0, t++; ~]]`,
		`Map[Function[n, Do[n + k2, {k2, 10000000}]], {1, 2, 3, 4, 5}]`, `Select[{1, 2, 3}, Function[n, While[True, ~]; True]]`, `MatchQ[1, n_ /; While[True, ~]]`, `Sort[{2, 1, 3}, (While[True, 1]; #1 < #2) &]`,
		`Scan[Function[n, While[True, ~]], {1, 2}]`, `While[True, Throw2[1]; {1, 2} /. 1 -> 2]`, `While[MatchQ[{1, 2, 3}, {___, 3}], ~]`, `While[True, If[EvenQ[ga], ga++, ga += 3]]`, `While[True, StringJoin["a", ToString[ga]]]`,
		`While[True, Names["Global` + "`" + `g*"]]`, `While[True, la = {}; AppendTo[la, 1]]`, `While[True, fa[1] = fa[1] + 1; fa[1] = 1]`, `(aa[n_] := bb[n] /; n > 0; bb[n_] := aa[n] /; True; aa[1])`, `Trace[While[True, ga]]`, `Timing[While[True, ~]]`,
		`Fold[(While[True, ~]; #1 + #2) &, 0, {1, 2}]`, `Nest[Function[n, n + 1], 1, 100000000]`, `NestList[Function[n, n + 1], 1, 100000000]`, `Array[Function[n, While[True, ~]], 3]`, `Get["/sim/endless.m"]`, `Get["/sim/many.m"]`,
		`ReplaceRepeated[w[0], w[n_] :> w[n + 1]]`, `While[Catch[Throw[True]], ~]`, `Cases[{1, 2}, n_ /; While[True, ~]]`, `Switch[1, n_ /; While[True, 1], 2]`, `Count[{1, 2}, n_ /; While[True, ~]]`,
	}
	t := c[g.N(len(c))]
	t = strings.ReplaceAll(t, "#p", fmt.Sprint(g.PickI(100000, 1000000, 1000000000000)))
	return strings.ReplaceAll(strings.ReplaceAll(t, "@", i), "~", body)
}

// Files of endless work.
func manyFile() string {
	var b strings.Builder
	for i := 0; i < 3000; i++ {
		fmt.Fprintf(&b, "Do[zq = k3, {k3, 200}];\n")
	}
	return b.String()
}

// logN draws from 1..max, small values as often as large ones.
func (g *Gen) logN(max int64) int64 {
	k := int64(1)
	for k*4 <= max && g.P(0.85) {
		k *= 4
	}
	return k + int64(g.R.Next()%uint64(3*k))
}

func init() {
	register(&Scenario{
		Prop: "C07",
		Rule: "an interrupt was delivered during an evaluation that does not end by itself",
		Real: append(realCore, "file reading"), Stub: append(stubCore, "disk"),
		Quick: 900, Thor: 150000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "interrupt", Plan: g.plan()}
			c.Plan.Max = 400_000_000
			var o []Op
			for k := 0; k < 30; k++ {
				q := g.newMgen()
				q.maxN = 3
				q.prints = g.P(0.2)
				in := endless(g, q, g.PickI2(0, 0, 1, 1, 2, 3))
				var at int64
				if strings.Contains(in, "Pause[") {
					at = -g.logN(400_000_000_000)
					if strings.Contains(in, "Pause[0.01]") || g.P(0.2) {
						at = -g.logN(1_000_000_000)
					}
				} else {
					at = g.logN(60_000)
					if g.P(0.02) {
						at = g.logN(2_000_000)
					}
				}
				o = append(o, Op{K: g.Pick("top", "top", "raw"), S: in, A: []int64{at}})
			}
			c.Lanes = [][]Op{o}
			return c
		},
		Exec: execInterrupt,
	})
}

func (g *Gen) PickI2(a ...int) int { return a[g.N(len(a))] }

func execInterrupt(c *Case, r *Report) {
	l := &Lane{Disk: newDisk()}
	defer l.Disk.remove()
	l.Disk.seedFile("endless.m", []byte("zq = 1\nWhile[True, zq++]\nzq = -1\n"))
	l.Disk.seedFile("many.m", []byte(manyFile()))
	cur := ""
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		l.Es = newSession()
		return []simrt.Spec{{Data: l, Fn: func() {
			for _, o := range c.Lanes[0] {
				l.top(`Clear[ga, gb, gc, la, lb, zq, rr, ss, aa, bb, mk, hh, fa, fb, zc]; ga = 1; gb = 2; gc = 3; la = {1}; lb = {2}; mk = 0; rq[n_] := rq[n + 1]`)
				l.takeOut()
				in := strings.ReplaceAll(o.S, "/sim/", l.Disk.Dir+"/")
				cur = o.S
				got, fired := interrupted(l, o.A, true, func() string {
					if o.K == "raw" {
						return l.raw(in)
					}
					return l.top(in)
				})
				d := simrt.Steps() - intState.at
				prt := l.takeOut()
				r.inc("inputs", 1)
				r.inc("interrupts", int64(fired))
				r.mix(got + fmt.Sprint(d))
				if fired == 0 {
					r.inc("ended-by-itself", 1)
					continue
				}
				r.Nontriv = true
				r.mark(mix64(strHash(o.S), uint64(o.A[0])))
				r.inc("steps-from-interrupt-to-answer", int64(d))
				if got != "$Aborted" {
					// Was it endless at all?
					if _, f := interrupted(l, []int64{o.A[0] + 300_000}, true, func() string { return l.top(in) }); f == 0 && o.A[0] > 0 {
						r.inc("ended-by-itself", 1)
						continue
					}
					r.viol("answer", "", "%s interrupted after %d answers %s (printed %s), not $Aborted", o.S, o.A[0], clip(got, 300), clip(prt, 300))
					return
				}
				if m := l.top(`{mk, 1 + 1}`); m != "{0, 2}" {
					r.viol("after", "", "after %s interrupted after %d, {mk, 1 + 1} answers %s, not {0, 2}", o.S, o.A[0], m)
					return
				}
				l.takeOut()
			}
		}}}
	})
	cur = clip(cur, 600)
	switch {
	case intState.late:
		r.viol("late", "", "%s goes on more than %d steps (or %d ms) after the interrupt", cur, lateSteps, lateNs/1_000_000)
	case res.Status == "deadlock":
		r.viol("hang", "", "%s never ends after an interrupt: %v", cur, res.Stuck)
	case res.Status == "budget":
		r.inc("undecided.budget", 1)
	}
}
