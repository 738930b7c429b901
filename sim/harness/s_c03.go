package main

import (
	"fmt"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C03: parallel tables, against the reference interpreter and against Table.

// elements of tables over k (and j, where the specification has it).
var elements = []string{
	`Expand[(x + k)^2]`, `Sort[{3, k, 1, a}]`, `Cases[{1, k, a, 2}, _Integer]`, `{k, a + b} /. a -> k`, `StringJoin["z", ToString[k]]`,
	`Module[{t = 1}, Do[t = t*2 + q, {q, 3}]; {t, k}]`, `Select[Range[12], PrimeQ]`, `MatchQ[{k, 1, 2}, {__Integer}]`, `pf1[k]`, `pf1[{k, 1}]`,
	`Catch[Do[If[q > 2, Throw[{q, k}]], {q, 9}]]`, `Sum[q^2, {q, 5}]`, `{Product[q + 1, {q, 4}], k}`, `D[x^3 + k, x]`, `FactorInteger[360]`,
	`Permutations[{k, a, b}]`, `Table[{k, q}, {q, 3}]`, `Table[Table[{q, w, k}, {w, q}], {q, 3}]`, `ReplaceList[{a, k, c}, {x__, y__} -> {{x}, {y}}]`,
	`po[c, k, b, a]`, `pl[{k, 1}]`, `{k, Hold[a, 1 + 1]}`, `With[{t = k}, {t, t}]`, `Nest[pg, k, 3]`, `NestList[(2*#)&, 3, 4]`, `FoldList[Plus, 0, {1, 2, 3}]`,
	`pfib[7]`, `pc[k]`, `pc[-3]`, `pd[k]`, `pd[k, 5]`, `f[k, a, b] /. f[x_, y__] -> {y, x}`, `Switch[k, 1, one, 2, two, _, other]`, `{pv, k}`, `pv + q`,
	`Module[{pfl}, pfl[x_] := x^2; {pfl[k], pfl[3]}]`, `ParallelTable[{k, q}, {q, 3}]`, `Sum[ParallelTable[w*q, {w, 3}][[2]], {q, 3}]`, `Array[pg, 3]`,
	`Map[Function[v, v^2], {1, 2, k}]`, `Scan[Identity, {k}]`, `Which[MatchQ[k, _Integer], int, True, no]`, `StringLength["abc"]`, `pif[k]`, `pw`,
	`Module[{t = 0}, While[t < 4, t = t + 1; If[t == 3, Break[]]]; {t, k}]`, `Module[{t = {}}, Do[AppendTo[t, {q, k}], {q, 3}]; t]`, `{q, w}`, `k`,
	`Union[{k, 1, 2, 1}]`, `{1, 2, k} /. n_Integer :> n + 1`, `ff[ff[k]] //. ff[x_] :> gg[x]`, `Tally[{a, k, a}]`, `Flatten[{k, {1, {2}}}]`, `Reverse[{k, 1, 2}]`,
	`pk`, `{pk, k}`, `pkf[3]`, `pkf[k]`, `pkc[1]`, `Do[Sow[{pk, q}], {q, 2}]; pk`, `ParallelTable[{pk, q}, {q, 2}]`, `Module[{t = pk}, {t, pkf[t]}]`, `Catch[Do[If[q > 1, Throw[pk]], {q, 3}]]`, `pkp`, `Map[pkf, {1, a}]`, `Hold[pk] /. pk -> 1`, `{1, 2} /. x_Integer :> pkf[x]`, `pkm[2]`, `{pk, pkm[1], pk}`,
	`Attributes[po]`, `Length[DownValues[pc]]`, `Catch[{k, Throw[k]}]`, `Throw[{k, a}]`, `Sow[k]; k`, `Do[Sow[{q, k}], {q, 2}]; k`, `a == k`, `{Mod[17, 5], k}`,
}

var tableSpecs = []string{`{k, 4}`, `{k, 2, 5}`, `{k, 1, 7, 2}`, `{k, {a, 2, "s", x^2}}`, `{k, 5, 1, -2}`, `{k, 0}`, `{k, 1/2, 3}`, `{k, 6}`, `{k, 3}, {j, 2}`, `{k, 3}, {j, 2, 4}`, `{k, {1, 2}}, {j, {a, b}}`, `{k, 8}`, `{k, 1}`, `{k, x, x + 3}`, `{k, 0.5, 2.5}`}

const elementDefs = `pf1[x_Integer] := {int, x}; pf1[x_List] := Map[pf1, x]; pf1[x_] := {any, x}; SetAttributes[po, {Orderless}]; SetAttributes[pl, {Listable}]; ` +
	`pfib[0] = 0; pfib[1] = 1; pfib[n_] := pfib[n - 1] + pfib[n - 2]; pc[x_] := pos[x] /; x > 0; pc[x_] := neg[x] /; x <= 0; pd[x_, y_: 7] := {x, y}; pv = {1, 2, pu}; pu := 3; q = 77; pif[x_] := Module[{q = x}, Do[q = {q}, {e, 2}]; q]; pw := Sum[q*w2, {q, 3}]; w2 = 5; pk := {k, pu}; pkf[x_] := {x, k}; pkc[x_] := big /; MatchQ[k, 2 | 3 | a]; pkc[x_] := {small, k}; pkp := Table[{k, q}, {q, 2}]; pkm[x_] := pkm2[x - 1, k]; pkm2[x_, y_] := {x, y, k}`

func init() {
	register(&Scenario{
		Prop: "C03",
		Rule: "at least two elements of a parallel table were unfinished at the same time and the processor changed hands at least 4 times",
		Real: realCore, Stub: stubCore,
		Quick: 160, Thor: 60000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "mini", Plan: g.plan()}
			n := 1
			if g.P(0.15) {
				n = 2
			}
			for i := 0; i < n; i++ {
				var o []Op
				for k := 0; k < 6; k++ {
					q := g.newMgen()
					q.par = true
					q.throws = g.P(0.5)
					q.sows = g.P(0.5)
					q.inReap = q.sows
					q.rets = g.P(0.4)
					p := q.prog(g.Between(2, 4), g.Between(2, 4), func(d int) *X {
						x := q.ptable(d)
						switch g.N(5) {
						case 0:
							x = xn("seq", "", 0, q.stmt(d-1), x)
						case 1:
							x = xn("list", "", 0, x, q.blockI(d-1), q.ptable(d-1))
						case 2:
							x = q.block(d)
						case 3:
							if q.throws {
								x = xn("catch", "", 0, x)
							}
						}
						if q.sows {
							x = xn("reap", "", 0, x)
						}
						return x
					})
					o = append(o, Op{K: "mini", S: p.json()})
					for t := 0; t < 5; t++ {
						e := g.Pick(elements...)
						if g.P(0.3) {
							e = "{" + e + ", " + g.Pick(elements...) + "}"
						}
						o = append(o, Op{K: "table", S: e, T: g.Pick(tableSpecs...)})
					}
				}
				c.Lanes = append(c.Lanes, o)
			}
			return c
		},
		Exec: func(c *Case, r *Report) {
			res := r.mainSim(&c.Plan, func() []simrt.Spec {
				var specs []simrt.Spec
				for i, ops := range c.Lanes {
					l := &Lane{ID: i, Es: newSession()}
					ops := ops
					specs = append(specs, simrt.Spec{Data: l, Fn: func() {
						for _, o := range ops {
							if o.K == "mini" {
								if !miniCheck(l, progOf(o.S), r, o.K) {
									return
								}
							} else if !tableCheck(l, o.S, o.T, r) {
								return
							}
						}
					}})
				}
				return specs
			})
			r.status(res)
			r.Nontriv = len(res.Switches) >= 4
			r.inc("tasks", int64(res.Tasks))
		},
	})
}

// tableCheck compares a parallel table with the sequential one.
func tableCheck(l *Lane, e, spec string, r *Report) bool {
	const clear = `Clear[pk, pkf, pkc, pkp, pkm, pkm2, pf1, po, pl, pfib, pc, pd, pv, pu, pif, pw, w2, q, k, j]; ` + elementDefs
	ask := func(h string) string {
		l.top(clear)
		l.takeOut()
		in := fmt.Sprintf("Reap[Catch[%s[%s, %s]]]", h, e, spec)
		got := l.top(in) + l.takeOut()
		r.inc("inputs", 1)
		st := l.top(`{q, k, j, w, t, pv, pfib[3], po[b, a], DownValues[pfib], DownValues[q], DownValues[k], Attributes[q]}`)
		return got + " and then " + st + l.takeOut()
	}
	seq := ask("Table")
	par := ask("ParallelTable")
	r.mix(par)
	if strings.ReplaceAll(seq, "ParallelTable", "Table") != strings.ReplaceAll(par, "ParallelTable", "Table") {
		r.viol("differs", "", "Reap[Catch[ParallelTable[%s, %s]]] gives %s; with Table, %s", e, spec, par, seq)
		return false
	}
	r.mark(mix64(strHash(e), strHash(spec)))
	return !strings.HasPrefix(par, "PANIC")
}
