package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C23: stored expressions stay as they are.  Ops: set (S an assignment, T the
// name assigned), eval (S uses what is stored; A: interrupted after so many
// steps), par (S, T and further expressions separated by \x01 evaluated by
// concurrent elements), check (everything stored keeps its form).

func (g *Gen) storedAtom() string {
	return g.Pick("p", "q", "r", "1", "2", "7", "-3", "0", "3/4", "-5/6", "2.5", "12345678901234567890", "3 + 4*I", "1/2 + I", `"str"`, "Pi", "True", "Null", "{}", "x", "y")
}

// assignable are the names that inputs assign.
var assignable = regexp.MustCompile(`\b([sdh][0-9]|f[0-9]|x|y|zt)\b`)

// stored is an expression to keep.
func (g *Gen) stored(d int) string {
	if d == 0 || g.P(0.2) {
		return g.storedAtom()
	}
	a := func() string { return g.stored(d - 1) }
	switch g.N(12) {
	case 0, 1, 2:
		return "{" + a() + ", " + a() + ", " + a() + "}"
	case 3, 4:
		return g.Pick("f", "g", "k") + "[" + a() + ", " + a() + "]"
	case 5:
		return "(" + g.Pick("p", "q", "f[p]") + " + " + g.Pick("r", "2", "3/4", "q*2", "f[r]") + ")"
	case 6:
		return "(" + g.Pick("p", "q", "f[p]") + "*" + g.Pick("r", "2", "3/4", "f[r]") + ")"
	case 7:
		return g.Pick("p", "q", "r") + "^" + g.Pick("2", "q", "(1/2)")
	case 8:
		return "Hold[" + a() + ", " + g.Pick("1 + 1", "x + 1", "Sort[{3, 1, 2}]", "Length[{p, q}]", "{x, y}") + "]"
	case 9:
		return "(" + a() + " -> " + a() + ")"
	case 10:
		return "{" + a() + ", {" + a() + ", " + a() + "}}"
	}
	return "{" + g.Pick("3, 1, 2", "c, a, b", "2, 3/4, I", "1, {2, {3}}", "1.5, 2, Pi", "f[2], f[1]") + "}"
}

// use is an expression over what is stored.
func (g *Gen) use(d int) string {
	v := func() string {
		if d > 0 && g.P(0.35) {
			return g.use(d - 1)
		}
		return g.Pick("s1", "s2", "s3", "s4", "d1", "d2", "h1", "s1", "s2", "f1[s1]", "f1[2]", "f2[s2]", "f2[1 + 1]", "{s1, s2}", "x", "s5")
	}
	n := func() string { return fmt.Sprint(g.Between(1, 3)) }
	switch g.N(46) {
	case 0:
		return v() + " + " + v()
	case 1:
		return v() + "*" + g.Pick("2", "x", "1/2", "I", v())
	case 2:
		return "(" + v() + ")^2"
	case 3:
		return "-(" + v() + ")"
	case 4:
		return "(" + v() + " == " + v() + ")"
	case 5:
		return "Sort[" + v() + "]"
	case 6:
		return "Reverse[" + v() + "]"
	case 7:
		return "Join[{zz}, {" + v() + "}, {" + v() + "}]"
	case 8:
		return g.Pick("Append", "Prepend") + "[{" + v() + "}, 9]"
	case 9:
		return "{" + v() + ", " + v() + ", 3}[[" + n() + "]]"
	case 10:
		return "ReplacePart[{" + v() + ", 2, " + v() + "}, " + n() + " -> zz]"
	case 11:
		return "Map[w, {" + v() + ", " + v() + "}]"
	case 12:
		return "Map[Function[v, {v, x}], {" + v() + "}]"
	case 13:
		return "(" + v() + " /. p -> 3)"
	case 14:
		return "({" + v() + "} /. {q -> x, f[a_, b_] :> f[b, a], 2 -> two})"
	case 15:
		return "({" + v() + "} //. {p -> q, q -> 5})"
	case 16:
		return "Apply[w, {" + v() + ", " + v() + "}]"
	case 17:
		return "Flatten[{" + v() + ", {" + v() + "}}]"
	case 18:
		return "Union[{" + v() + ", " + v() + "}]"
	case 19:
		return "DeleteCases[{" + v() + ", p, 2}, p]"
	case 20:
		return "Select[{" + v() + ", 2, p}, NumberQ]"
	case 21:
		return "Take[{" + v() + ", " + v() + ", 3}, 2]"
	case 22:
		return "Total[{" + v() + ", 2, p}]"
	case 23:
		return "Table[" + v() + ", {p, 2}]"
	case 24:
		return "Table[{" + v() + ", x}, {x, 2}]"
	case 25:
		return "Do[zt = " + v() + ", {p, 2}]"
	case 26:
		return "Module[{zt = {" + v() + "}}, AppendTo[zt, x]; PrependTo[zt, " + v() + "]; zt]"
	case 27:
		return "With[{v = " + v() + "}, {v, p}]"
	case 28:
		return "Catch[{1, Throw[" + v() + "]}]"
	case 29:
		return "Reap[Sow[" + v() + "]; 1]"
	case 30:
		return "N[" + v() + "]"
	case 31:
		return "MatchQ[" + v() + ", _List]"
	case 32:
		return "ReplaceList[{" + v() + ", b, c}, {a__, e__} -> {{a}, {e}}]"
	case 33:
		return "Cases[{" + v() + ", 2, q}, _Integer]"
	case 34:
		return "{Length[" + v() + "], MemberQ[{" + v() + "}, p], FreeQ[" + v() + ", q]}"
	case 35:
		return "First[{" + v() + "}]"
	case 36:
		return "Module[{x = 40}, " + v() + "]"
	case 37:
		return "Thread[w[{p, q}, " + v() + "]]"
	case 38:
		return "ToString[" + v() + "]"
	case 39:
		return "Fold[w, " + v() + ", {1, " + v() + "}]"
	case 40:
		return "h1[[" + g.Pick("1", "2") + "]]"
	case 41:
		return "(" + v() + " === " + v() + ")"
	case 42:
		return "ParallelTable[{" + v() + ", zk}, {zk, 2}]"
	case 43:
		return "D[{" + v() + ", p^2}, p]"
	case 44:
		return "If[" + v() + " === 1, a, " + v() + "]"
	}
	return "Sum[" + g.Pick("s1", "s4", "x", "p") + ", {p, 2}]"
}

var storedNames = []string{"s1", "s2", "s3", "s4", "s5", "d1", "d2", "h1", "f1", "f2", "x", "y", "s6"}

func (g *Gen) setOp(name string) Op {
	s := ""
	switch name {
	case "d1", "d2":
		s = name + " := " + g.Pick("{x, y, 1 + 1}", "x + p", "{Sort[{3, 1, 2}], s1}", "Table[x, {zi, 2}]", "f1[x]", "Module[{t = x}, t^2]", "{s1, s2, x}", "Hold[x, 1 + 1]", "Map[w, {x, p}]")
	case "h1":
		s = "h1 = Hold[" + g.Pick("1 + 1", "x + 1", "{3, 2*2}", "Sort[{c, a}]", "2/4", "1 + I*I", "2^10", "s1") + ", " + g.Pick("p", "x", "f[1 + 2]", "Length[{x, y}]", "{2, 1, 1 + 0}", "-(-3)") + "]"
	case "f1":
		s = g.Pick("f1[a_] := {a, x, 1 + 1}", "f1[2] = {p, 2, 3/4}", "f1[a_List] := Reverse[a]", "f1[a_] := a /; x == 5", "f1[a_] := Module[{t = a}, {t, x}]", "f1[2] := x + 1", "f1[a_] := {s1, a}")
	case "f2":
		s = g.Pick("SetAttributes[f2, HoldAll]; f2[a_] := Hold[a, x]", "f2[a_, b___] := {b, a, x}", "f2[a_] := f2v[a, 2*3]", "f2[{a__}] := w[a]")
	case "x", "y":
		s = name + " = " + g.Pick("5", "6", "{1, p}", "p", "3/4", "f[1]", "-2", "I", `"xs"`, "{y}")
		if name == "y" {
			s = "y = " + g.Pick("7", "{2, q}", "q", "1/3", "f[2]")
		}
	case "s5":
		s = "s5 = " + g.Pick("s1", "{s1, s2}", "f[s2, s1]", "s1")
	case "s6":
		s = g.Pick("s6 = s2; AppendTo[s6, 3]", "s6 = {s1}; PrependTo[s6, s1]", "s6 = d1", "s6 = s4; s6 += 1", "s6 = {s2, h1}")
	default:
		s = name + " = " + g.stored(g.Between(1, 3))
	}
	return Op{K: "set", S: s, T: name}
}

func init() {
	register(&Scenario{
		Prop: "C23",
		Rule: "stored expressions were used by interrupted or by concurrent evaluations, or variables in them changed between uses",
		Real: realCore, Stub: stubCore,
		Quick: 400, Thor: 120000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "stored", Plan: g.plan()}
			c.Plan.Max = 400_000_000
			lanes := 1
			if g.P(0.1) {
				lanes = 2
			}
			for ; lanes > 0; lanes-- {
				var o []Op
				for _, n := range storedNames {
					if g.P(0.75) && n != "s6" && (n != "y" && n != "x" || g.P(0.4)) {
						o = append(o, g.setOp(n))
					}
				}
				for j := g.Between(5, 14); j > 0; j-- {
					switch g.N(10) {
					case 0, 1:
						o = append(o, g.setOp(g.Pick("x", "y", "x", "s6", storedNames[g.N(len(storedNames))])))
					case 2, 3:
						var es []string
						for k := g.Between(2, 4); k > 0; k-- {
							es = append(es, g.use(1))
						}
						o = append(o, Op{K: "par", S: strings.Join(es, "\x01")})
					case 4:
						o = append(o, Op{K: "check"})
					default:
						o = append(o, Op{K: "eval", S: g.use(2)})
						if g.P(0.3) {
							o = append(o, o[len(o)-1])
						}
					}
					if x := &o[len(o)-1]; (x.K == "eval" || x.K == "par") && g.P(0.3) {
						x.A = []int64{int64(g.logN(30000))}
					}
				}
				c.Lanes = append(c.Lanes, append(o, Op{K: "check"}))
			}
			return c
		},
		Exec: execC23,
	})
	freshFns["stored"] = func(c *Case) [][]string {
		var out [][]string
		for _, ops := range c.Lanes {
			log := make([]string, len(ops))
			status := "ok"
			run := func(f func(l *Lane)) {
				l := &Lane{}
				res := simrt.Run(serialPlan(c.Plan), func() []simrt.Spec {
					return []simrt.Spec{{Data: l, Fn: func() { l.Es = newSession(); f(l) }}}
				})
				if res.Status != "ok" {
					status = res.Status
				}
			}
			// What is stored where nothing but assignments is done.
			run(func(l *Lane) {
				for i, o := range ops {
					switch o.K {
					case "set":
						log[i] = l.top(o.S)
					case "check":
						var ans []string
						for _, in := range checkInputs() {
							ans = append(ans, l.raw(in))
						}
						log[i] = strings.Join(ans, "\x00")
					}
				}
			})
			// The uses between two assignments in reverse order.
			run(func(l *Lane) {
				for i := 0; i < len(ops); {
					j := i
					for j < len(ops) && ops[j].K != "set" {
						j++
					}
					for k := j - 1; k >= i; k-- {
						switch ops[k].K {
						case "eval":
							log[k] = l.top(ops[k].S)
						case "par":
							var ans []string
							for _, e := range strings.Split(ops[k].S, "\x01") {
								v := l.top("{" + e + "}")
								ans = append(ans, strings.TrimSuffix(strings.TrimPrefix(v, "{"), "}"))
							}
							log[k] = strings.Join(ans, "\x00")
						}
					}
					if j < len(ops) {
						l.top(ops[j].S)
					}
					i = j + 1
				}
			})
			if status != "ok" {
				log[0] = "STATUS " + status
			}
			out = append(out, log)
		}
		return out
	}
}

// checkInputs show what is stored.
func checkInputs() []string {
	var in []string
	for _, n := range storedNames {
		in = append(in, "Definition["+n+"]")
	}
	return append(in, "{s1, s2, s3, s4, s5, s6}", "h1", "{d1, d2, x, y}")
}

func execC23(c *Case, r *Report) {
	ref, err := inFresh("stored", c)
	if err != nil {
		r.Err = err.Error()
		return
	}
	solo := len(c.Lanes) == 1
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		var specs []simrt.Spec
		for i, ops := range c.Lanes {
			l := &Lane{ID: i, Es: newSession()}
			i, ops := i, ops
			specs = append(specs, simrt.Spec{Data: l, Fn: func() { inLane(i, func() { r.useStored(l, ops, ref[i], solo) }) }})
		}
		return specs
	})
	r.status(res)
}

func (r *Report) useStored(l *Lane, ops []Op, ref []string, ints bool) {
	var vals []string // Out
	var past []string
	top := func(s string) string {
		return l.top(s)
	}
	used := false
	if len(ops) == 0 || strings.HasPrefix(ref[0], "STATUS ") {
		r.inc("undecided.budget", 1)
		return
	}
	for i, o := range ops {
		want := strings.Split(ref[i], "\x00")
		src, w := o.S, want[0]
		switch o.K {
		case "par":
			src = "ParallelTable[Which["
			for j, e := range strings.Split(o.S, "\x01") {
				src += fmt.Sprintf("zi == %d, %s, ", j+1, e)
			}
			src += fmt.Sprintf("True, 0], {zi, %d}]", len(want))
			w = "{" + strings.Join(want, ", ") + "}"
			r.Nontriv = true
		case "check":
			for j, in := range checkInputs() {
				got := l.raw(in)
				if got != want[j] {
					r.viol("changed", "", "%s is %s and should be %s, after %q", in, clip(got, 300), clip(want[j], 300), past)
					return
				}
			}
			for j, v := range vals {
				if got := l.raw(fmt.Sprintf("Out[%d]", j+1)); got != v && v != "$Aborted" && !assignable.MatchString(v) {
					r.viol("out", "", "Out[%d] is %s and was %s, after %q", j+1, clip(got, 300), clip(v, 300), past)
					return
				}
			}
			r.inc("checks", 1)
			l.takeOut()
			continue
		case "set":
			r.Nontriv = r.Nontriv || used
		}
		fired := 0
		var got string
		if len(o.A) > 0 && ints && o.K != "set" {
			got, fired = interrupted(l, o.A, false, func() string { return top(src) })
			r.inc("interrupts", int64(fired))
			if fired > 0 {
				r.Nontriv = true
				src += " (interrupted)"
			}
		} else {
			got = top(src)
		}
		vals = append(vals, l.raw(fmt.Sprintf("Out[%d]", len(vals)+1)))
		l.takeOut()
		used = used || o.K != "set"
		past = append(past, src)
		r.mix(got)
		r.inc("inputs", 1)
		if got != w && !(fired > 0 && got == "$Aborted") {
			r.viol("answer", "", "%s answers %s and should answer %s, after %q", src, clip(got, 300), clip(w, 300), past[:len(past)-1])
			return
		}
		r.mark(strHash(src))
	}
}
