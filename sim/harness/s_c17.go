package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C17: clock functions against the simulated clocks.
//
// Ops: eval (S: input, A: the pauses in it in ns and what the numbers in its
// answer are, see timeForm), jump (the wall clock moves by N when M ns have
// passed), stall (the machine stands still for N when M ns have passed).

// What a number in an answer is; a pause is its length.
const (
	tUnix  = -1 // a time
	tBegin = -2 // a measured duration; what is measured follows
	tEnd   = -3
	tSkip  = -4 // something else
)

func (g *Gen) pauseText() (string, int64) {
	switch g.N(12) {
	case 0:
		return g.Pick("0", "-1", "-2.5", "0."), 0
	case 1:
		n := g.Between(1, 999)
		return fmt.Sprintf("0.%03d", n), int64(n) * 1e6
	case 2:
		n := g.Between(1, 99)
		return fmt.Sprintf("0.0000%02d", n), int64(n) * 1e3
	case 3:
		n := g.Between(30, 900)
		return fmt.Sprint(n), int64(n) * 1e9
	case 4:
		n := g.Between(1, 9)
		return fmt.Sprintf("%d + 1/2 + 0.", n), int64(n)*1e9 + 5e8
	case 5:
		n := g.Between(1, 5)
		return fmt.Sprintf("(%d; %d)", n+3, n), int64(n) * 1e9
	case 6, 7:
		n, m := g.Between(0, 60), g.Between(0, 99)
		return fmt.Sprintf("%d.%02d", n, m), int64(n)*1e9 + int64(m)*1e7
	}
	n := g.Between(1, 20)
	return fmt.Sprint(n), int64(n) * 1e9
}

// timeForm draws an expression whose value has the numbers described.
func (g *Gen) timeForm(d int) (string, []int64) {
	p, ns := g.pauseText()
	switch g.N(13) {
	case 0, 1:
		return "UnixTime[]", []int64{tUnix}
	case 2:
		return "Pause[" + p + "]", []int64{ns}
	case 3:
		return "(Pause[" + p + "]; UnixTime[])", []int64{ns, tUnix}
	case 4:
		return "Timing[Pause[" + p + "]]", []int64{tBegin, ns, tEnd}
	case 5:
		return "Timing[Pause[" + p + "]; 17]", []int64{tBegin, ns, tEnd, tSkip}
	case 6:
		n := g.Between(2, 4)
		return fmt.Sprintf("Timing[Do[Pause[%s], {tq, %d}]]", p, n), []int64{tBegin, ns * int64(n), tEnd}
	case 7:
		n := g.Between(2, 30)
		return fmt.Sprintf("Timing[Sum[tq^2, {tq, %d}]]", n), []int64{tBegin, tEnd, tSkip}
	case 8:
		n := g.Between(2, 4)
		a := []int64{}
		for i := 0; i < n; i++ {
			a = append(a, ns, tUnix)
		}
		return fmt.Sprintf("Table[Pause[%s]; UnixTime[], {tq, %d}]", p, n), a
	case 9:
		return "(ts = UnixTime[]; Pause[" + p + "]; ts)", []int64{tUnix, ns}
	case 10:
		return "Catch[Timing[Pause[" + p + "]; Throw[UnixTime[]]]]", []int64{ns, tUnix}
	}
	if d <= 0 {
		return "UnixTime[]", []int64{tUnix}
	}
	if g.P(0.5) {
		s, a := g.timeForm(d - 1)
		return "Timing[" + s + "]", append(append([]int64{tBegin}, a...), tEndIn(a)...)
	}
	s, a := g.timeForm(d - 1)
	t, b := g.timeForm(d - 1)
	return "{" + s + ", " + t + "}", append(append([]int64{}, a...), b...)
}

// tEndIn ends the measurement of what a describes.
func tEndIn([]int64) []int64 { return []int64{tEnd} }

func init() {
	register(&Scenario{
		Prop: "C17",
		Rule: "a duration was measured or a pause made while another session ran or a clock jumped",
		Real: realCore, Stub: stubCore,
		Quick: 700, Thor: 200000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "clock", Plan: g.plan()}
			c.Plan.Tick = g.PickI(1, 100, 1000)
			c.Plan.Epoch = g.PickI(1_700_000_000_000_000_000, 1, 999_999_999, 4_000_000_000_000_000_000, 1_230_768_000_500_000_000) + int64(g.N(1_000_000_000))
			c.Plan.Max = 200_000_000
			for i := g.Between(1, 3); i > 0; i-- {
				var o []Op
				for j := g.Between(3, 10); j > 0; j-- {
					if g.P(0.3) {
						o = append(o, Op{K: "jump", N: g.PickI(-1, 1) * g.PickI(1e6, 1e9, 3600e9, 86400e9*400) * int64(g.Between(1, 9)), M: int64(g.N(20)) * 1e9 / 2})
					}
					if g.P(0.1) {
						o = append(o, Op{K: "stall", N: g.PickI(1e6, 1e9, 600e9) * int64(g.Between(1, 9)), M: int64(g.N(20)) * 1e9 / 2})
					}
					switch g.N(10) {
					case 0:
						o = append(o, Op{K: "other", S: g.Pick("Pause[a]", "Pause[]", "Pause[1, 2]", "UnixTime[3]", "Timing[]", "Timing[1, 2]", "Pause[\"1\"]", "Pause[1/2]", "Pause[{1}]", "Pause[2 I]")})
					case 1:
						n := g.Between(2, 4)
						p, ns := g.pauseText()
						o = append(o, Op{K: "par", S: fmt.Sprintf("Timing[ParallelTable[Pause[%s]; UnixTime[], {tq, %d}]]", p, n), A: []int64{ns, int64(n)}})
					default:
						s, a := g.timeForm(3)
						o = append(o, Op{K: "eval", S: s, A: a})
					}
				}
				if len(c.Lanes) == 0 && g.P(0.1) {
					o = append(o, Op{K: "long", S: g.Pick("Pause[10^30]", "Pause[10^12]", "Pause[9223372036.9]", "Pause[9300000000]", "Pause[2.^400]"), N: int64(g.Between(1, 2000)) * 1e9})
					c.Lanes = append(c.Lanes, o)
					break
				}
				c.Lanes = append(c.Lanes, o)
			}
			return c
		},
		Exec: execC17,
	})
}

var timeRe = regexp.MustCompile(`-?[0-9]+(?:\.[0-9]*)?(?:e[-+]?[0-9]+\.?)?`)

type clockAt struct {
	mono, wall, stall int64
	steps             uint64
	jumps             int
}

func clockNow() clockAt {
	return clockAt{simrt.Mono(), simrt.Wall(), stalled, simrt.Steps(), len(clockLog)}
}

// possible says if u is the second of a moment between the two.
func possible(u int64, a, b clockAt) bool {
	from := a.wall
	fl := func(ns int64) int64 { return int64(math.Floor(float64(ns/1e9) + float64(ns%1e9)/1e9)) }
	for _, j := range clockLog[a.jumps:b.jumps] {
		if u >= fl(from) && u <= fl(j.from) {
			return true
		}
		from = j.to
	}
	return u >= fl(from) && u <= fl(b.wall)
}

func execC17(c *Case, r *Report) {
	clockLog, stalled = nil, 0
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		var specs []simrt.Spec
		for i, ops := range c.Lanes {
			l := &Lane{ID: i, Es: newSession()}
			ops := ops
			specs = append(specs, simrt.Spec{Data: l, Fn: func() {
				for _, o := range ops {
					if !r.clockOp(l, o, c) {
						return
					}
				}
			}})
		}
		return specs
	})
	r.status(res)
	r.Nontriv = r.Count["durations"]+r.Count["pauses"] > 0 && (len(c.Lanes) > 1 || len(clockLog) > 0 || stalled > 0)
}

func (r *Report) clockOp(l *Lane, o Op, c *Case) bool {
	switch o.K {
	case "jump":
		simrt.AfterTime(o.M, simrt.Event{Kind: "jump", Arg: o.N})
		return true
	case "stall":
		simrt.AfterTime(o.M, simrt.Event{Kind: "advance", Arg: o.N})
		return true
	case "long":
		a := clockNow()
		out, _ := interrupted(l, []int64{-o.N}, false, func() string { return l.top(o.S) })
		b := clockNow()
		r.mix(out)
		if out != "$Aborted" || b.mono-a.mono < o.N {
			r.viol("short", "", "%s, interrupted after %.3f s, answers %s after %.3f s", o.S, float64(o.N)/1e9, out, float64(b.mono-a.mono)/1e9)
			return false
		}
		r.inc("long-pauses", 1)
		return true
	}
	a := clockNow()
	out := l.top(o.S)
	b := clockNow()
	r.mix(out + l.takeOut())
	r.inc("inputs", 1)
	elapsed := b.mono - a.mono
	// What may pass besides the pauses: the work of all sessions, and the time for
	// which the machine stood still.
	slack := int64(b.steps-a.steps)*c.Plan.Tick + (b.stall - a.stall) + 100e6
	where := func() string {
		return fmt.Sprintf("%s answers %s, taking %.6f s, of which %.6f s are work of all sessions or standstill; the wall clock went from %.6f to %.6f with %d jumps", o.S, out, float64(elapsed)/1e9, float64(slack-100e6)/1e9, float64(a.wall)/1e9, float64(b.wall)/1e9, b.jumps-a.jumps)
	}
	var nums []string
	if o.K != "other" {
		nums = timeRe.FindAllString(strings.ReplaceAll(out, "*^", "e"), -1)
	}
	num := func() (float64, bool) {
		if len(nums) == 0 {
			return 0, false
		}
		v, err := strconv.ParseFloat(strings.TrimSuffix(nums[0], "."), 64)
		nums = nums[1:]
		return v, err == nil
	}
	duration := func(t float64, min int64) bool {
		r.inc("durations", 1)
		ns := t * 1e9
		if ns < float64(min)*(1-1e-4) || ns > float64(elapsed)*(1+1e-4)+1 || ns > (float64(min)+float64(slack))*(1+1e-4) {
			r.viol("duration", "", "a duration of %.6f s is measured for what pauses %.6f s: %s", t, float64(min)/1e9, where())
			return false
		}
		return true
	}
	total := int64(0)
	switch o.K {
	case "other":
		total = 0
	case "par":
		total = o.A[0]
		t, ok := num()
		if !ok {
			r.viol("answer", "", "unexpected answer: %s", where())
			return false
		}
		slack += total * (o.A[1] - 1)
		if !duration(t, total) {
			return false
		}
		for i := int64(0); i < o.A[1]; i++ {
			if u, ok := num(); !ok || !possible(int64(u), a, b) {
				r.viol("time", "", "not a time of the evaluation: %s", where())
				return false
			}
		}
	case "eval":
		// The numbers in the order they appear: a duration stands before
		// what was measured.
		type span struct {
			t   float64
			sum int64
		}
		var open []span
		lastU, since := int64(-1<<62), int64(0)
		for _, k := range o.A {
			switch k {
			case tUnix:
				v, ok := num()
				u := int64(v)
				if !ok || !possible(u, a, b) {
					r.viol("time", "", "not a time of the evaluation: %s", where())
					return false
				}
				r.inc("times", 1)
				if b.jumps == a.jumps && lastU > -1<<62 && float64(u-lastU) <= float64(since)/1e9-1 {
					r.viol("time", "", "the times are less apart than the pauses between them: %s", where())
					return false
				}
				lastU, since = u, 0
			case tSkip:
				num()
			case tBegin:
				t, ok := num()
				if !ok {
					r.viol("answer", "", "unexpected answer: %s", where())
					return false
				}
				open = append(open, span{t: t})
			case tEnd:
				s := open[len(open)-1]
				open = open[:len(open)-1]
				if !duration(s.t, s.sum) {
					return false
				}
			default:
				r.inc("pauses", 1)
				total += k
				since += k
				for i := range open {
					open[i].sum += k
				}
			}
		}
		if len(nums) > 0 {
			r.viol("answer", "", "unexpected answer: %s", where())
			return false
		}
	}
	if elapsed < total || elapsed > total+slack {
		r.viol("pause", "", "the pauses together are %.6f s: %s", float64(total)/1e9, where())
		return false
	}
	return true
}
