package main

import (
	"fmt"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C11: the history of a session against a model.  Every op is an input of the
// kind T; A holds the points (1/1000 of its steps) at which it is interrupted.

type hist struct {
	ops   []Op
	vals  []string // Out
	hx    int
	out   string // printed
	depth int
}

// ev is what the input does when evaluated at the given line; ok is false where
// the model does not say.
func (h *hist) ev(o Op, line int) (string, bool) {
	h.depth++
	defer func() { h.depth-- }()
	if h.depth > 20 {
		return "", false
	}
	get := func(k int) string {
		if k >= 1 && k < line && k <= len(h.vals) {
			return h.vals[k-1]
		}
		return fmt.Sprintf("Out[%d]", k)
	}
	switch o.T {
	case "lit":
		return strings.SplitN(o.S, " (* = ", 2)[1][:len(strings.SplitN(o.S, " (* = ", 2)[1])-3], true
	case "cnt":
		h.hx++
		return itoa(h.hx), true
	case "rd":
		return itoa(h.hx), true
	case "out":
		return get(int(o.N)), true
	case "pct":
		return get(line - 1), true
	case "pct2":
		return get(line - 2), true
	case "pctl":
		return "{" + get(line-1) + ", 5}", true
	case "line":
		return itoa(line), true
	case "in":
		k := int(o.N)
		if k < 1 || k > len(h.vals) {
			return fmt.Sprintf("In[%d]", k), true
		}
		return h.ev(h.ops[k-1], line)
	case "thr":
		h.out += fmt.Sprintf("Throw::nocatch: Throw[%d] returned to top level but uncaught.\n\n", o.N)
		return fmt.Sprintf("Hold[Throw[%d]]", o.N), true
	case "cthr":
		return fmt.Sprint(o.N), true
	case "prn":
		h.out += fmt.Sprintf("p%d\n", o.N)
		return "Null", true
	case "syn":
		return "Null", true
	}
	return "", false
}

func (o Op) histSrc() string {
	switch o.T {
	case "lit":
		return strings.SplitN(o.S, " (* = ", 2)[0]
	case "cnt":
		return "hx = hx + 1"
	case "rd":
		return "hx"
	case "out":
		return fmt.Sprintf("Out[%d]", o.N)
	case "pct":
		return "%"
	case "pct2":
		return "%%"
	case "pctl":
		return "{%, 5}"
	case "line":
		return "$Line"
	case "in":
		return fmt.Sprintf("In[%d]", o.N)
	case "thr":
		return fmt.Sprintf("{1, Throw[%d]}", o.N)
	case "cthr":
		return fmt.Sprintf("Catch[{1, Throw[%d]}]", o.N)
	case "prn":
		return fmt.Sprintf(`Print["p%d"]`, o.N)
	}
	return o.S
}

var histLits = []string{
	"3 + 4 (* = 7 *)", "{1, 1 + 1} (* = {1, 2} *)", "Hold[1 + 1] (* = Hold[1 + 1] *)", "f[g] (* = f[g] *)", "Sum[i, {i, 4}] (* = 10 *)", `"str" (* = "str" *)`,
	"a1; 2 (* = 2 *)", "3; (* = Null *)", "Table[i, {i, 3}] (* = {1, 2, 3} *)", "Module[{t = 5}, t] (* = 5 *)", "u1 (* = u1 *)", "If[1 == 1, yes, no] (* = yes *)", "5! (* = 120 *)",
	"ParallelTable[i, {i, 3}] (* = {1, 2, 3} *)", "Reap[Sow[1]] (* = {1, {{1}}} *)", "Null (* = Null *)", "Sort[{3, 1, 2}] (* = {1, 2, 3} *)",
}

func init() {
	register(&Scenario{
		Prop: "C11",
		Rule: "an input was interrupted, threw an exception or was malformed, and the history was read afterwards",
		Real: realCore, Stub: stubCore,
		Quick: 350, Thor: 80000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "history", Plan: g.plan()}
			c.Plan.Max = 200_000_000
			n := 1
			if g.P(0.15) {
				n = 2
			}
			for i := 0; i < n; i++ {
				var o []Op
				add := func(x Op) {
					x.K = "in"
					if x.T != "loop" && g.P(0.2) {
						x.A = []int64{int64(g.N(1001))}
						if g.P(0.3) {
							x.A = append(x.A, int64(g.N(1001)))
						}
					}
					o = append(o, x)
				}
				for j := g.Between(15, 40); j > 0; j-- {
					k := int64(g.N(len(o) + 2))
					switch g.N(20) {
					case 0, 1, 2, 3:
						add(Op{T: "lit", S: g.Pick(histLits...)})
					case 4, 5:
						add(Op{T: "cnt"})
					case 6:
						add(Op{T: "rd"})
					case 7, 8:
						add(Op{T: "out", N: k})
					case 9, 10:
						add(Op{T: "in", N: k})
					case 11:
						add(Op{T: g.Pick("pct", "pctl")})
					case 12:
						add(Op{T: "pct2"})
					case 13:
						add(Op{T: "line"})
					case 14, 15:
						add(Op{T: "thr", N: int64(g.N(50))})
					case 16:
						add(Op{T: g.Pick("prn", "cthr"), N: int64(g.N(50))})
					case 17:
						add(Op{T: "syn", S: g.Pick("1 + ", "{1, 2", "f[x", `"unterminated`, "%3 + 1", "]", "1 = = 2", "x /. {", "a1 =.")})
					case 18:
						add(Op{T: "loop", S: g.Pick("While[True, hz = 1]", "Do[hz = i, {i, 10^9}]", "rq[1]", "Table[hz, {i, 10^8}]"), A: []int64{int64(g.logN(30000))}})
					case 19:
						add(Op{T: "raw", S: g.Pick("hx", "hx; 17", "Throw[3]", "1 + ", "%")})
					}
				}
				c.Lanes = append(c.Lanes, o)
			}
			return c
		},
		Exec: execC11,
	})
}

func execC11(c *Case, r *Report) {
	if len(c.Lanes) > 1 { // interrupts go to every session
		for i := range c.Lanes {
			var o []Op
			for _, x := range c.Lanes[i] {
				if x.T != "loop" {
					x.A = nil
					o = append(o, x)
				}
			}
			c.Lanes[i] = o
		}
	}
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		var specs []simrt.Spec
		for i, ops := range c.Lanes {
			l := &Lane{ID: i, Es: newSession()}
			ops := ops
			specs = append(specs, simrt.Spec{Data: l, Fn: func() { inLane(i, func() { histRun(l, ops, r, len(c.Lanes) == 1) }) }})
		}
		return specs
	})
	r.status(res)
}

func histRun(l *Lane, ops []Op, r *Report, ints bool) {
	l.raw("hx = 0; rq[n_] := rq[n + 1]")
	l.takeOut()
	h := &hist{}
	bad := func(class, f string, a ...any) {
		var s []string
		for _, o := range h.ops {
			s = append(s, o.histSrc())
		}
		r.viol(class, "", "%s; the inputs were %s", fmt.Sprintf(f, a...), strings.Join(s, " ; "))
	}
	for _, o := range ops {
		line := len(h.vals) + 1
		src := o.histSrc()
		r.inc("inputs", 1)
		if o.T == "raw" { // not part of the history
			if !(o.S == "%" && line == 1) {
				l.raw(o.S)
			}
			l.takeOut()
			continue
		}
		hx := h.hx
		h.out = ""
		if o.T == "in" && int(o.N) == line {
			o.N++ // In[n] is the input itself only afterwards
			src = o.histSrc()
		}
		want, ok := h.ev(o, line)
		if o.T != "loop" && !ok {
			continue
		}
		wantHx := h.hx
		var got string
		fired := 0
		if len(o.A) > 0 {
			at := o.A
			if o.T != "loop" {
				// How long it takes: much the same every time.
				at = nil
				for _, a := range o.A {
					at = append(at, a*histCost(line)/1000)
				}
			}
			intState.bound = true
			got, fired = interrupted(l, at, true, func() string { return l.top(src) })
		} else {
			if ints {
				l.begin()
			}
			got = l.top(src)
		}
		out := l.takeOut()
		r.mix(got + out)
		h.ops = append(h.ops, o)
		h.vals = append(h.vals, got)
		if fired > 0 {
			r.Nontriv = true
			r.inc("interrupts", int64(fired))
		}
		if o.T == "thr" || o.T == "syn" {
			r.Nontriv = true
		}
		switch {
		case got == "$Aborted" && fired > 0:
			r.inc("aborted", 1)
			now := l.raw("hx")
			l.takeOut()
			if now != itoa(hx) && now != itoa(wantHx) {
				bad("effect", "line %d (%s) interrupted leaves hx %s, which was %d", line, src, now, hx)
				return
			}
			fmt.Sscan(now, &h.hx)
		case o.T == "loop":
			if fired == 0 {
				bad("answer", "line %d (%s) answers %s", line, src, got)
			} else {
				bad("answer", "line %d (%s) interrupted answers %s, not $Aborted", line, src, got)
			}
			return
		default:
			if got != want {
				bad("answer", "line %d (%s) answers %s, not %s (interrupts: %d)", line, src, got, want, fired)
				return
			}
			if o.T != "syn" && !strings.Contains(out, "Syntax::") && noDiagnosis(out) != noDiagnosis(h.out) {
				bad("output", "line %d (%s) prints %q, not %q", line, src, out, h.out)
				return
			}
		}
		if n := l.raw("$Line"); n != itoa(line+1) {
			bad("line", "after line %d (%s, which answered %s, %d interrupts) $Line is %s", line, src, got, fired, n)
			return
		}
		l.takeOut()
		r.mark(mix64(strHash(src), uint64(line), strHash(got)))
	}
	for k, v := range h.vals {
		if got := l.raw(fmt.Sprintf("Out[%d]", k+1)); got != v {
			bad("out", "Out[%d] is %s; the answer was %s", k+1, got, v)
			return
		}
	}
	if n := l.raw(fmt.Sprintf("{Length[DownValues[Out]], Length[DownValues[In]], Out[%d]}", len(h.vals)+1)); n != fmt.Sprintf("{%d, %d, Out[%d]}", len(h.vals), len(h.vals), len(h.vals)+1) {
		bad("count", "after %d inputs {Length[DownValues[Out]], Length[DownValues[In]], Out[%d]} is %s", len(h.vals), len(h.vals)+1, n)
	}
	l.takeOut()
}

// histCost is about how many steps an input takes at that line.
func histCost(line int) int64 { return 2500 + 450*int64(line) }
