package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C21: debug logging.  Ops: log (S level or "off"), in (an input), new, clearall.

var (
	logIdRe  = regexp.MustCompile(`▶ [0-9a-f]+`)
	inLaneRe = regexp.MustCompile(`inLane[0-9]+`)
	logPreRe = regexp.MustCompile(`(?m)^(\x1b\[[0-9;]*m)?[0-9]{2}:[0-9]{2}:[0-9]{2}\.[0-9]+ .*?▶ [0-9a-f]+`)
)

// logInputs touch the parts that log: definitions, replacement, evaluation.
var logInputs = []string{
	"1 + x", "ff[1]", "ff[z_] := {z, 2}", "ff[2]", "gg[1] = 5", "gg[1]", "x = 4", "x^2", "Clear[x]", "a //. a -> b", "f[f[a]] //. f[q_] :> q", "{1, 2} /. 1 -> 3", "Table[i^2, {i, 2}]", "Module[{t = 1}, t]", "Catch[Throw[2]]", "Throw[3]",
	"MatchQ[a + b, p_ + b]", "Sort[{3, 1}]", "Sum[i, {i, 3}]", "ParallelTable[ff[i], {i, 3}]", "ParallelTable[i //. 2 -> 3, {i, 3}]", "SetAttributes[hh, Flat]; hh[hh[1]]", "{1, 2}[[1]]", "$Context", `Print["p"]`, "1 + ",
}

func init() {
	register(&Scenario{
		Prop: "C21",
		Rule: "logging was switched in one session while another was logging or was created, and the processor changed hands in between",
		Real: append([]string{"logging with its formatting and levels"}, realCore...), Stub: stubCore,
		Quick: 260, Thor: 100000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "log", Plan: g.plan(), Opt: map[string]int64{}}
			c.Plan.Max = 400_000_000
			n := g.Between(2, 3)
			for i := 0; i < n; i++ {
				var o []Op
				if i > 0 && g.P(0.1) && c.Plan.Quantum >= 300 {
					o = append(o, Op{K: "new"})
				}
				for j := g.Between(6, 16); j > 0; j-- {
					switch {
					case g.P(0.3):
						o = append(o, Op{K: "log", S: g.Pick("Debug", "Debug", "Info", "Notice", "off", "off")})
					case g.P(0.015) && c.Plan.Quantum >= 300:
						o = append(o, Op{K: g.Pick("new", "clearall")})
					default:
						o = append(o, Op{K: "in", S: logInputs[g.N(len(logInputs))]})
					}
				}
				c.Lanes = append(c.Lanes, o)
			}
			if g.P(0.2) { // writing the log fails
				for i := g.Between(1, 20); i > 0; i-- {
					c.Faults = append(c.Faults, Fault{Op: "write", N: int64(g.Between(1, 60)), How: g.Pick("eio", "enospc", "short", "eintr"), Arg: int64(g.N(40))})
				}
			}
			return c
		},
		Exec: execC21,
	})
	freshFns["logsolo"] = func(c *Case) [][]string {
		var out [][]string
		for _, quiet := range []bool{false, true} {
			for _, ops := range c.Lanes {
				l := &Lane{}
				res := simrt.Run(serialPlan(c.Plan), logSetup(c, [][]Op{ops}, quiet, &[]*Lane{l}, nil))
				if res.Status != "ok" {
					l.Log = append(l.Log, "STATUS "+res.Status)
				}
				out = append(out, l.Log)
			}
		}
		return out
	}
}

// logSetup runs the lanes; quiet leaves logging alone.  Lanes that exist are used.
func logSetup(c *Case, lanes [][]Op, quiet bool, ls *[]*Lane, strm func() *Streams) func() []simrt.Spec {
	return func() []simrt.Spec {
		var specs []simrt.Spec
		for i, ops := range lanes {
			if i >= len(*ls) {
				*ls = append(*ls, &Lane{})
			}
			l, ops := (*ls)[i], ops
			l.ID = i
			if len(ops) == 0 || ops[0].K != "new" {
				l.Es = newSession()
			}
			if strm != nil {
				l.Strm = strm()
			}
			specs = append(specs, simrt.Spec{Data: l, Fn: func() {
				inLane(l.ID, func() {
					for _, o := range ops {
						l.Log = append(l.Log, l.logDo(o, quiet))
					}
				})
			}})
		}
		return specs
	}
}

// logDo gives the answer, what was printed and the sorted log lines, separated
// by \x00, without what says when a line was written.
func (l *Lane) logDo(o Op, quiet bool) string {
	ans := ""
	switch o.K {
	case "log":
		src := "ExpreduceSetLogging[True, " + o.S + "]"
		if o.S == "off" {
			src = "ExpreduceSetLogging[False, Notice]"
		}
		if quiet {
			src = "Null"
		}
		ans = l.top(src)
	case "in":
		ans = l.top(o.S)
	case "new":
		l.Es = newSession()
	case "clearall":
		l.Es.ClearAll()
	}
	lines := logLines(string(l.Err))
	sort.Strings(lines)
	out := string(l.Out)
	l.Out, l.Err = l.Out[:0], l.Err[:0]
	return ans + "\x00" + out + "\x00" + strings.Join(lines, "\n")
}

// logLines are the lines logged, without time and number; where they come from
// is left in.
func logLines(s string) []string {
	var out []string
	for _, line := range strings.Split(s, "\n") {
		if line == "" {
			continue
		}
		if m := logPreRe.FindString(line); m != "" {
			at := strings.Index(m, " ")
			line = inLaneRe.ReplaceAllString(logIdRe.ReplaceAllString(m[at+1:], "▶"), "inLane") + line[len(m):]
		}
		out = append(out, line)
	}
	return out
}

func execC21(c *Case, r *Report) {
	ref, err := inFresh("logsolo", c)
	if err != nil {
		r.Err = err.Error()
		return
	}
	n := len(c.Lanes)
	var ls []*Lane
	var strm func() *Streams
	fired := map[string]int{}
	if len(c.Faults) > 0 {
		strm = func() *Streams { return &Streams{Faults: c.Faults, Fired: fired, Only: 2} }
	}
	res := r.mainSim(&c.Plan, logSetup(c, c.Lanes, false, &ls, strm))
	r.status(res)
	for k, v := range fired {
		r.inc("fault."+k, int64(v))
	}
	switched := 0
	for i, l := range ls {
		level := "off"
		for j, o := range c.Lanes[i] {
			r.inc("inputs", 1)
			if j >= len(l.Log) || j >= len(ref[i]) || j >= len(ref[n+i]) || strings.HasPrefix(ref[i][j], "STATUS") || strings.HasPrefix(ref[n+i][j], "STATUS") {
				break
			}
			got, want, quiet := strings.SplitN(l.Log[j], "\x00", 3), strings.SplitN(ref[i][j], "\x00", 3), strings.SplitN(ref[n+i][j], "\x00", 3)
			r.mix(l.Log[j])
			bad := func(class, f string, a ...any) {
				r.viol(class, "", "session %d, input %d (%s %s), logging %s: %s", i, j, o.K, o.S, level, fmt.Sprintf(f, a...))
			}
			was := level
			switch o.K {
			case "log":
				level = o.S
				switched++
			case "new":
				level = "off"
			}
			if o.K != "log" && (got[0] != quiet[0] || len(c.Faults) == 0 && got[1] != quiet[1]) {
				bad("value", "it answers %q and prints %q; with logging never switched %q and %q", got[0], got[1], quiet[0], quiet[1])
				return
			}
			if len(c.Faults) > 0 {
				continue
			}
			if got[2] != want[2] {
				bad("lines", "it logs\n%s\nand alone\n%s", clip(linesFrom(got[2], want[2]), 500), clip(linesFrom(want[2], got[2]), 500))
				return
			}
			r.inc("log-lines", int64(len(logLines(got[2]))))
			if o.K == "log" {
				continue // the switching itself is logged as before or as from now on
			}
			quietLevel := was == "off" || was == "Notice"
			if quietLevel && got[2] != "" {
				bad("level", "it logs %s", clip(got[2], 500))
				return
			}
			if o.K != "in" {
				continue
			}
			if was == "Info" && strings.Contains(got[2], "Inside ") {
				bad("level", "it logs debug messages: %s", clip(got[2], 500))
				return
			}
			if was == "Debug" && !strings.Contains(got[2], "Inside ") && o.S != "1 + " {
				bad("level", "it logs no debug messages, but %q", clip(got[2], 500))
				return
			}
		}
	}
	r.Nontriv = switched > 0 && len(res.Switches) >= 4
}

// linesFrom is a from where it differs from b.
func linesFrom(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return strings.Join(x[i:], "\n")
		}
	}
	return ""
}
