package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/corywalker/expreduce/expreduce/timecounter"
	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C18: profiling.  Kind api: concurrent tasks record to shared groups, print
// them and merge their own into them.  Kind lang: sessions are profiled while they
// evaluate expressions whose numbers of evaluations are known.

const tableRows = 25 // rows a table shows

func init() {
	register(&Scenario{
		Prop: "C18",
		Rule: "two threads recorded to the same tables and the processor changed hands at least twice while they did",
		Real: append([]string{"timecounter"}, realCore...), Stub: stubCore,
		Quick: 900, Thor: 300000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "api", Plan: g.plan(), Opt: map[string]int64{}}
			c.Plan.Max = 200_000_000
			if g.P(0.4) {
				c.Kind = "lang"
				genProfiled(g, c)
				return c
			}
			keys := g.Between(2, 40)
			for i := g.Between(2, 4); i > 0; i-- {
				var o []Op
				for j := g.Between(3, 30); j > 0; j-- {
					switch g.N(12) {
					case 0:
						o = append(o, Op{K: "print"})
					case 1:
						o = append(o, Op{K: "merge"})
					case 2, 3, 4:
						o = append(o, Op{K: "own", S: keyOf(g.N(keys)), N: int64(g.N(4)), M: 1})
					default:
						o = append(o, Op{K: "add", S: keyOf(g.N(keys)), N: int64(g.N(4)), M: 1})
					}
				}
				c.Lanes = append(c.Lanes, o)
			}
			return c
		},
		Exec: func(c *Case, r *Report) {
			if c.Kind == "lang" {
				execProfiled(c, r)
				return
			}
			execCounters(c, r)
		},
	})
}

// row is a line of a table.
type row struct {
	t float64
	n int64
	k string
}

// tables takes a printed group apart.  Keys must not contain newlines.
func tables(s string) (out [4][]row, err error) {
	// An empty table prints as one empty line.
	i := 0
	for _, line := range strings.Split(s, "\n") {
		if line == "" {
			i++
			continue
		}
		if i > 3 {
			return out, fmt.Errorf("more than four tables in %q", s)
		}
		f := strings.SplitN(line, ", ", 3)
		if len(f) != 3 {
			return out, fmt.Errorf("strange line %q", line)
		}
		t, e1 := strconv.ParseFloat(f[0], 64)
		n, e2 := strconv.ParseInt(f[1], 10, 64)
		if e1 != nil || e2 != nil {
			return out, fmt.Errorf("strange line %q", line)
		}
		out[i] = append(out[i], row{t, n, f[2]})
	}
	if i < 4 {
		return out, fmt.Errorf("fewer than four tables in %q", s)
	}
	return out, nil
}

// sortedRows says where rows are not in order.
func sortedRows(rs []row) string {
	if len(rs) > tableRows {
		return fmt.Sprintf("the table has %d rows", len(rs))
	}
	for i := 1; i < len(rs); i++ {
		if rs[i].t > rs[i-1].t || rs[i].t == rs[i-1].t && rs[i].k <= rs[i-1].k {
			return fmt.Sprintf("the rows %v and %v are not in order", rs[i-1], rs[i])
		}
	}
	return ""
}

// unitOf is the time recorded for every evaluation with a key: a sum of powers of
// two, so that sums are exact.
func unitOf(key string) float64 {
	n, _ := strconv.Atoi(strings.Trim(key, "k, []\"x"))
	return []float64{1. / 1024, 2. / 1024, 0, 3. / 1024, 1 << 20, 1. / (1 << 40), 7. / 1024, 4. / 1024, 1 + 1./1024}[n%9]
}

// keyOf is the n-th key.
func keyOf(n int) string {
	switch n % 5 {
	case 3:
		return fmt.Sprintf("k[x, %d]", n)
	case 4:
		return fmt.Sprintf("\"%d, k\"", n)
	}
	return fmt.Sprint("k", n)
}

func execCounters(c *Case, r *Report) {
	shared := &timecounter.Group{}
	want := [4]map[string]int64{{}, {}, {}, {}}
	add := func(g *timecounter.Group, o Op) {
		switch o.N {
		case 0:
			g.AddTime(timecounter.CounterGroupDefTime, o.S, unitOf(o.S))
		case 1:
			g.AddTime(timecounter.CounterGroupLHSDefTime, o.S, unitOf(o.S))
		case 2:
			g.AddTime(timecounter.CounterGroupEvalTime, o.S, unitOf(o.S))
		default:
			g.AddTime(timecounter.CounterGroupHeadEvalTime, o.S, unitOf(o.S))
		}
	}
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		shared.Init()
		var specs []simrt.Spec
		for i, ops := range c.Lanes {
			i, ops := i, ops
			l := &Lane{ID: i}
			specs = append(specs, simrt.Spec{Data: l, Fn: func() {
				own := &timecounter.Group{}
				own.Init()
				mine := [4]map[string]int64{{}, {}, {}, {}} // recorded to the shared tables by this task
				pend := [4]map[string]int64{{}, {}, {}, {}}
				for _, o := range ops {
					switch o.K {
					case "add":
						add(shared, o)
						want[o.N][o.S]++
						mine[o.N][o.S]++
					case "own":
						add(own, o)
						pend[o.N][o.S]++
					case "merge":
						shared.Update(own)
						own.Init()
						for t := range pend {
							for k, n := range pend[t] {
								want[t][k] += n
								mine[t][k] += n
							}
							pend[t] = map[string]int64{}
						}
					case "print":
						s := shared.String()
						ts, err := tables(s)
						if err != nil {
							r.viol("table", "", "%v", err)
							return
						}
						for t := range ts {
							seen := map[string]bool{}
							for _, x := range ts[t] {
								seen[x.k] = true
								if x.t != float64(x.n)*unitOf(x.k) || x.n < mine[t][x.k] {
									r.viol("row", "", "table %d has %v while others record; every evaluation takes %v and %d were recorded by this thread before", t, x, unitOf(x.k), mine[t][x.k])
									return
								}
							}
							if e := sortedRows(ts[t]); e != "" {
								r.viol("order", "", "%s, while others record", e)
								return
							}
							for k := range mine[t] {
								if !seen[k] && len(ts[t]) < tableRows {
									r.viol("lost", "", "table %d does not have %s, which was recorded before", t, k)
									return
								}
							}
						}
						r.inc("tables-read-while-recording", 4)
					}
				}
			}})
		}
		return specs
	})
	r.status(res)
	r.Nontriv = len(c.Lanes) > 1 && len(res.Switches) >= 2+len(c.Lanes)
	if res.Status != "ok" || len(r.Viols) > 0 {
		return
	}
	got := shared.String()
	r.mix(got)
	exp := ""
	for t := range want {
		var rs []row
		for k, n := range want[t] {
			rs = append(rs, row{float64(n) * unitOf(k), n, k})
			r.inc("recorded", n)
		}
		sort.Slice(rs, func(i, j int) bool {
			if rs[i].t != rs[j].t {
				return rs[i].t > rs[j].t
			}
			return rs[i].k < rs[j].k
		})
		if len(rs) > tableRows {
			rs = rs[:tableRows]
		}
		for _, x := range rs {
			exp += fmt.Sprintf("%v, %v, %v\n", x.t, x.n, x.k)
		}
		exp += "\n"
	}
	if got != exp {
		r.viol("sum", "", "in the end the tables are\n%s, and should be\n%s", got, exp)
	}
}

// Profiled programs.  Ops: eval (S input, T the heads whose evaluations it
// counts for, with A their numbers), jump.

var profHeads = []string{"ha", "hb", "hc", "hf", "hg", "Pause"}

func genProfiled(g *Gen, c *Case) {
	if g.P(0.25) { // a clock that stands still for most evaluations
		c.Plan.Grain = []int64{1e3, 1e6, 16e6}[g.N(3)]
	}
	for i := g.Between(1, 3); i > 0; i-- {
		var o []Op
		for j := g.Between(2, 7); j > 0; j-- {
			if g.P(0.2) {
				o = append(o, Op{K: "jump", N: g.PickI(-1, 1) * g.PickI(1e9, 3600e9, 86400e9) * int64(g.Between(1, 9)), M: int64(g.N(3000)) * c.Plan.Tick})
			}
			h := g.Pick("ha", "hb", "hc", "hf", "hg")
			p := 0
			body := h + "[" + g.Pick("1", "2", "s") + "]"
			if g.P(0.1) {
				h, p = "Pause", g.Between(1, 3)
				body = fmt.Sprintf("Pause[%d]", p)
			}
			n := g.Between(2, 6)
			k := g.Pick("Table", "ParallelTable", "ParallelTable", "ParallelTable", "Do", "one", "Nest", "list")
			e := Op{K: "eval", T: h, A: []int64{int64(n), int64(p)}}
			switch k {
			case "one":
				e.S, e.A[0] = body, 1
			case "list":
				e.S, e.A[0] = "{"+body+", q["+body+"]}", 2
			case "Nest":
				e.S = fmt.Sprintf("Catch[Do[If[zi > 1, %s], {zi, %d}]; Throw[2]]", body, n)
				e.A[0] = int64(n - 1)
			default:
				e.S = fmt.Sprintf("%s[%s, {zi, %d}]", k, body, n)
			}
			o = append(o, e)
			if g.P(0.2) {
				o = append(o, Op{K: "print"})
			}
		}
		c.Lanes = append(c.Lanes, append(o, Op{K: "print"}))
	}
}

func execProfiled(c *Case, r *Report) {
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		var specs []simrt.Spec
		for i, ops := range c.Lanes {
			l := &Lane{ID: i, Es: newSession()}
			ops := ops
			l.top("hf[x_] := {x, r[x]}; hg[1] = 5; hg[x_] := x")
			specs = append(specs, simrt.Spec{Data: l, Fn: func() { r.profiled(l, ops, c) }})
		}
		return specs
	})
	r.status(res)
	par := false
	for _, ops := range c.Lanes {
		for _, o := range ops {
			par = par || strings.HasPrefix(o.S, "ParallelTable")
		}
	}
	r.Nontriv = par && len(res.Switches) >= 4
}

func (r *Report) profiled(l *Lane, ops []Op, c *Case) {
	l.takeOut()
	start, grain := simrt.Mono(), float64(c.Plan.Grain)/1e9
	want := map[string]int64{}
	paused := int64(0)
	l.top("ExpreduceSetLogging[True, Notice]")
	var did []string
	for _, o := range ops {
		switch o.K {
		case "jump":
			simrt.AfterTime(o.M, simrt.Event{Kind: "jump", Arg: o.N})
		case "eval":
			r.mix(l.top(o.S))
			did = append(did, o.S)
			want[o.T] += o.A[0]
			paused += o.A[0] * o.A[1] * 1e9
			r.inc("inputs", 1)
		case "print":
			l.top("ExpreduceSetLogging[False, Notice]")
			elapsed := float64(simrt.Mono()-start) / 1e9
			l.takeOut()
			l.top("ExpreduceDefinitionTimes[]")
			out := l.takeOut()
			l.top("ExpreduceSetLogging[True, Notice]")
			ts, err := tables(strings.TrimSuffix(out, "\n"))
			if err != nil {
				r.viol("table", "", "%v, after %q", err, did)
				return
			}
			for t, rs := range ts {
				if e := sortedRows(rs); e != "" {
					r.viol("order", "", "%s, after %q", e, did)
					return
				}
				for _, x := range rs {
					if x.t < 0 || x.t > float64(x.n)*(elapsed+grain)*(1+1e-9)+1e-9 || x.n < 1 {
						r.viol("time", "", "table %d has the row %v after %.6f s of profiling (%q)", t, x, elapsed, did)
						return
					}
					r.inc("rows", 1)
				}
			}
			for _, h := range profHeads {
				n, t := int64(0), 0.0
				for _, x := range ts[3] {
					if x.k == h {
						n, t = x.n, x.t
					}
				}
				if n != want[h] && !(n == 0 && len(ts[3]) == tableRows) {
					r.viol("count", "", "%d evaluations of %s are counted, and there were %d, in %q", n, h, want[h], did)
					return
				}
				if h == "Pause" && n > 0 && t*1e9 < float64(paused)*(1-1e-9)-float64(n)*grain*1e9 {
					r.viol("time", "", "%.6f s are recorded for Pause, which took %.6f s, in %q", t, float64(paused)/1e9, did)
					return
				}
				// The same evaluations by the whole expression.
				sum := int64(0)
				for _, x := range ts[2] {
					if strings.HasPrefix(x.k, h+"[") {
						sum += x.n
					}
				}
				if sum != want[h] && (sum > want[h] || len(ts[2]) < tableRows) {
					r.viol("count", "", "%d evaluations of expressions with head %s are counted, and there were %d, in %q", sum, h, want[h], did)
					return
				}
			}
			// The rule of hf is tried once for every evaluation.
			n := int64(0)
			for _, x := range ts[0] {
				if strings.Contains(x.k, "hf[x_]") {
					n = x.n
				}
			}
			if n != want["hf"] && len(ts[0]) < tableRows {
				r.viol("count", "", "the rule of hf is counted %d times, and was used %d times, in %q", n, want["hf"], did)
				return
			}
		}
		l.takeOut()
	}
}
