package main

import (
	"fmt"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C09: programs that change their variables only where those are iterated over
// or local, so that everything must be as before however they end.

var scopeVars = []string{"va", "vb", "vc", "vd"}

type sgen struct {
	*Gen
	bound []string // may be assigned to
	exits bool
	inFn  bool
	pars  bool
}

func (q *sgen) v() string { return q.Pick(scopeVars...) }

// ex draws an expression; no bound variable: reads only.
func (q *sgen) ex(d int) string {
	if d <= 0 {
		switch q.N(4) {
		case 0:
			return itoa(q.Between(1, 9))
		case 1:
			return q.v() + "[" + itoa(q.Between(1, 3)) + "]"
		}
		// Never a bare symbol: v[1] = 2 would then define something else.
		return "w[" + q.v() + "]"
	}
	switch q.N(12) {
	case 0, 1:
		return "(" + q.ex(d-1) + " + " + q.ex(d-1) + ")"
	case 2:
		return "{" + q.ex(d-1) + ", " + q.ex(d-1) + "}"
	case 3, 4, 5, 6:
		return q.scoped(d)
	case 7:
		return "(" + q.st(d-1) + "; " + q.ex(d-1) + ")"
	case 8:
		return "Map[Function[pp, " + q.ex(d-1) + "], {1, 2}]"
	case 9:
		if q.exits && q.P(0.5) {
			return "Catch[" + q.ex(d-1) + "]"
		}
		return "peek[" + itoa(q.N(9)) + "]"
	case 10:
		return "(" + q.ex(d-1) + " /. " + itoa(q.Between(1, 9)) + " -> " + q.ex(0) + ")"
	}
	return "If[" + q.ex(0) + " === " + itoa(q.Between(1, 3)) + ", " + q.ex(d-1) + ", " + q.ex(d-1) + "]"
}

func (q *sgen) spec(v string) string {
	switch q.N(6) {
	case 0:
		return fmt.Sprintf("{%s, %d, %d}", v, q.Between(1, 2), q.Between(2, 4))
	case 1:
		return fmt.Sprintf("{%s, {\"s\", %d, {1, 2}}}", v, q.N(9))
	case 2:
		return fmt.Sprintf("{%s, 5, 1, -2}", v)
	}
	return fmt.Sprintf("{%s, %d}", v, q.Between(1, 3))
}

// scoped draws a construct that binds variables.
func (q *sgen) scoped(d int) string {
	v := q.v()
	old := q.bound
	defer func() { q.bound = old }()
	bind := func(s string) { q.bound = append(append([]string{}, q.bound...), s) }
	switch q.N(11) {
	case 0, 1, 2:
		s := q.spec(v)
		bind(v)
		return q.Pick("Table", "Sum", "Product") + "[" + q.body(d-1) + ", " + s + "]"
	case 3, 4:
		s := q.spec(v)
		bind(v)
		return "Do[" + q.body(d-1) + ", " + s + "]"
	case 5, 6:
		i := q.ex(0)
		bind(v)
		return q.Pick("Module", "Module", "Block") + "[{" + v + " = " + i + "}, " + q.body(d-1) + "]"
	case 7:
		w := q.v()
		for w == v {
			w = q.v()
		}
		s := q.spec(v) + ", " + q.spec(w)
		bind(v)
		bind(w)
		return q.Pick("Table", "Do", "Sum") + "[" + q.body(d-1) + ", " + s + "]"
	case 8:
		// The variable of a parallel table is replaced.  Its elements may
		// change nothing that another one sees.
		if !q.pars {
			return q.ex(d - 1)
		}
		q.bound = nil
		return "ParallelTable[" + q.ex(d-1) + ", {pn, " + itoa(q.Between(2, 4)) + "}]"
	case 9:
		i := itoa(q.Between(1, 9))
		bind(v)
		return fmt.Sprintf("Module[{%s = %s, cn = 0}, While[cn < 3, cn = cn + 1; %s]; %s]", v, i, q.body(d-1), q.ex(0))
	}
	w := q.v()
	for w == v {
		w = q.v()
	}
	bind(v)
	bind(w)
	return "Module[{" + v + ", " + w + " = 2}, " + q.body(d-1) + "]"
}

func (q *sgen) body(d int) string {
	if q.P(0.4) {
		return q.ex(d)
	}
	s := q.st(d)
	if q.P(0.5) {
		s += "; " + q.st(d)
	}
	return "(" + s + "; " + q.ex(d) + ")"
}

// st draws a statement that changes a bound variable, or leaves.
func (q *sgen) st(d int) string {
	if q.exits && q.P(0.15) {
		x := "Throw[" + q.ex(0) + "]"
		if q.inFn && q.P(0.4) {
			x = "Return[" + q.ex(0) + "]"
		}
		if q.P(0.7) {
			return "If[" + q.Pick("MemberQ[{2, 3, \"s\"}, "+q.v()+"]", "EvenQ["+q.v()+"]", "True") + ", " + x + "]"
		}
		return x
	}
	if len(q.bound) == 0 {
		return q.ex(d)
	}
	v := q.bound[q.N(len(q.bound))]
	switch q.N(11) {
	case 0, 1:
		// No value refers to a variable: that could be endless.
		return v + " = (" + q.ex(d) + "; " + itoa(q.N(9)) + ")"
	case 2:
		return v + "[" + itoa(q.Between(1, 3)) + "] = " + itoa(q.N(9))
	case 3:
		return v + "[x_] := {x, " + itoa(q.N(9)) + "}"
	case 4:
		return "Clear[" + v + "]"
	case 5:
		return "Attributes[" + v + "] = {" + q.Pick("Listable", "Flat", "Orderless", "") + "}"
	case 6:
		return "If[MatchQ[" + v + ", _Integer], " + q.Pick(v+"++", "--"+v, v+" += 2", v+" = "+v+" + 1") + "]"
	case 7:
		return v + " := {1, 2}"
	case 8:
		return "Scan[Function[pp, " + v + " = pp], {1, 2}]"
	case 9:
		return v + " = {1, 2}; AppendTo[" + v + ", 3]"
	}
	return q.scoped(d)
}

// pre draws what a variable is before.
func (g *Gen) pre(v string) string {
	switch g.N(8) {
	case 0:
		return ""
	case 1:
		return v + " = " + itoa(g.Between(10, 99))
	case 2:
		return v + " := 3 + 4"
	case 3:
		return v + "[1] = one; " + v + "[x_] := any[x]"
	case 4:
		return "Attributes[" + v + "] = {Listable}; " + v + " = {a, b}"
	case 5:
		return v + "[1] = one; " + v + "[2] = two; Attributes[" + v + "] = {Orderless}"
	case 6:
		return "Default[" + v + "] = 5; " + v + "[x_, y_.] := {x, y}"
	}
	return "Attributes[" + v + "] = {Flat}"
}

func init() {
	register(&Scenario{
		Prop: "C09",
		Rule: "a scope was left by an exception, a return or an interrupt",
		Real: realCore, Stub: stubCore,
		Quick: 300, Thor: 100000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "scopes", Plan: g.plan()}
			c.Plan.Max = 400_000_000
			var o []Op
			for k := 0; k < 15; k++ {
				q := &sgen{Gen: g, exits: g.P(0.8), pars: g.P(0.3)}
				var pre []string
				for _, v := range scopeVars {
					if p := g.pre(v); p != "" {
						pre = append(pre, p)
					}
				}
				var s string
				for {
					q.inFn = g.P(0.3)
					s = q.scoped(g.Between(2, 4))
					if q.inFn {
						// The function does what the program did.
						s = "(hx[] := " + s + "; {hx[], 1})"
					}
					switch g.N(4) {
					case 0:
						s = "Catch[" + s + "]"
					case 1:
						s = "{1, " + s + "}"
					}
					if len(s) < 700 {
						break
					}
				}
				var at []int64
				for i := g.N(5); i > 0; i-- {
					at = append(at, int64(g.N(1001)))
				}
				o = append(o, Op{K: "top", S: s, T: strings.Join(pre, "; "), A: at})
			}
			c.Lanes = [][]Op{o}
			return c
		},
		Exec: execC09,
	})
}

const scopeState = `{DownValues[va], DownValues[vb], DownValues[vc], DownValues[vd], Attributes[va], Attributes[vb], Attributes[vc], Attributes[vd], va, vb, vc, vd, va[1], vb[1], vc[2], vd[7], va[1, 2], Default[va], Default[vb], cn, pn, pp, DownValues[peek]}`

func execC09(c *Case, r *Report) {
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		l := &Lane{Es: newSession()}
		return []simrt.Spec{{Data: l, Fn: func() {
			for _, o := range c.Lanes[0] {
				reset := func() string {
					l.top(`Clear[va, vb, vc, vd, hx, peek]; Attributes[va] = {}; Attributes[vb] = {}; Attributes[vc] = {}; Attributes[vd] = {}; peek[x_] := {x, va, vb, vc, vd}`)
					l.top(o.T)
					s := l.top(scopeState)
					l.takeOut()
					return s
				}
				before := reset()
				s0 := simrt.Steps()
				intState.bound = false
				got := l.top(o.S)
				n := int64(simrt.Steps() - s0)
				out := l.takeOut()
				r.mix(got)
				r.inc("inputs", 1)
				check := func(how string) bool {
					after := l.top(scopeState)
					l.takeOut()
					if before != after {
						r.viol("changed", "", "%s leaves %s as %s; before, it was %s (%s; before that, %s)", o.S, scopeState, after, before, how, o.T)
						return false
					}
					return true
				}
				how := "it answers " + clip(got, 200)
				if strings.Contains(out, "Throw::nocatch") {
					r.inc("left-by-exception", 1)
					r.Nontriv = true
				}
				if !check(how) {
					return
				}
				if strings.HasPrefix(got, "PANIC") {
					r.viol("panic", "", "%s answers %s", o.S, got)
					return
				}
				for _, a := range o.A {
					before = reset()
					got, fired := interrupted(l, []int64{a * n / 1000}, true, func() string { return l.top(o.S) })
					l.takeOut()
					if fired > 0 && got == "$Aborted" {
						r.inc("left-by-interrupt", 1)
						r.Nontriv = true
					}
					if !check(fmt.Sprintf("interrupted after %d of %d steps, it answers %s", a*n/1000, n, clip(got, 200))) {
						return
					}
				}
				r.mark(mix64(strHash(o.S), strHash(o.T)))
			}
		}}}
	})
	r.status(res)
}
