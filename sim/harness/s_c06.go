package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C06: seeded sequences, against one another.  A draw is normalised to [0, 1]
// by the range asked for; a sequence drawn after a seed must agree with
// every other one drawn after that seed, by whatever session.

var numberRe = regexp.MustCompile(`-?[0-9]+\.?[0-9]*(?:e[-+]?[0-9]+)?`)

// drawForms are inputs that draw, with the ranges in 1/1000.
func (g *Gen) drawForm() Op {
	rng := func() (string, []int64) {
		switch g.N(12) {
		case 6:
			b := int64(g.Between(-9, 9))
			a := b + int64(g.Between(2, 40))
			return fmt.Sprintf("{%d, %d}", a, b), []int64{a * 1000, b * 1000}
		case 7:
			b := int64(g.Between(-500, -1))
			return fmt.Sprint(b), []int64{0, b * 1000}
		case 8:
			b := int64(g.Between(1000, 2000000000))
			return fmt.Sprintf("{-%d, %d}", b, b), []int64{-b * 1000, b * 1000}
		case 9:
			a := int64(g.Between(-2000, 2000))
			b := a + int64(g.Between(1, 2))
			return fmt.Sprintf("{%d, %d}", a, b), []int64{a * 1000, b * 1000}
		case 10:
			return "{0, 1/1000}", []int64{0, 1}
		case 0, 1, 11:
			return "", []int64{0, 1000}
		case 2:
			b := int64(g.Between(1, 500))
			return fmt.Sprint(b), []int64{0, b * 1000}
		case 3:
			a := int64(g.Between(-9, 9))
			b := a + int64(g.Between(2, 40))
			return fmt.Sprintf("{%d, %d}", a, b), []int64{a * 1000, b * 1000}
		case 4:
			b := int64(g.Between(1, 9))
			return fmt.Sprintf("{%d/4, %d/2}", b, b), []int64{b * 250, b * 500}
		}
		return "2.5", []int64{0, 2500}
	}
	s, a := rng()
	d := "RandomReal[" + s + "]"
	o := Op{K: "draw"}
	rep := func(n int) {
		for i := 0; i < n; i++ {
			o.A = append(o.A, a...)
		}
	}
	switch g.N(12) {
	case 8:
		lo, hi := a[0], a[1]
		if lo > hi {
			lo, hi = hi, lo
		}
		o.S = fmt.Sprintf("dr = %s; {dr, %d/1000 <= dr, dr <= %d/1000}", d, lo, hi)
		rep(1)
	case 0:
		n := g.Between(2, 5)
		if g.P(0.1) {
			n = g.Between(50, 700)
		}
		o.S = fmt.Sprintf("Table[%s, {dk, %d}]", d, n)
		rep(n)
	case 1:
		s2, a2 := rng()
		o.S = "{" + d + ", RandomReal[" + s2 + "]}"
		o.A = append(append([]int64{}, a...), a2...)
	case 2:
		n := g.Between(2, 4)
		o.S = fmt.Sprintf("ParallelTable[%s, {dk, %d}]", d, n)
		rep(n)
		o.M = 1
	case 3:
		o.S = "dr = " + d + "; dr"
		rep(1)
	case 4:
		o.S = "Map[(RandomReal[{0, #}])&, {1, 2, 3}]"
		o.A = []int64{0, 1000, 0, 2000, 0, 3000}
	case 5:
		o.S = "Catch[{Throw[" + d + "], 3}]"
		rep(1)
	case 6:
		o.S = "Module[{t = " + d + "}, {t, " + d + "}]"
		rep(2)
	case 7:
		o.S = "da = {}; Do[AppendTo[da, " + d + "], {dk, 3}]; da"
		rep(3)
	default:
		o.S = d
		rep(1)
	}
	return o
}

func init() {
	register(&Scenario{
		Prop: "C06",
		Rule: "at least two sequences were drawn after the same seed, and the processor changed hands at least 4 times",
		Real: realCore, Stub: stubCore,
		Quick: 300, Thor: 100000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "random", Plan: g.plan()}
			if c.Plan.Quantum > 300 {
				c.Plan.Quantum = 300
			}
			c.Plan.Max = 200_000_000
			n := g.Between(2, 3)
			var seeds []string
			for i := 0; i < 2; i++ {
				switch g.N(5) {
				case 0:
					seeds = append(seeds, "-"+itoa(g.Between(1, 1000)))
				case 1:
					seeds = append(seeds, g.Pick("2^70", "2^63", "2^31", "2^31 - 1", "-2^63", "10^40", "0 * 2")+" + "+itoa(g.N(100)))
				default:
					seeds = append(seeds, itoa(g.N(100000)))
				}
			}
			for i := 0; i < n; i++ {
				var o []Op
				if g.P(0.04) && c.Plan.Quantum > 30 {
					o = append(o, Op{K: "new"})
				}
				for j := g.Between(8, 30); j > 0; j-- {
					switch g.N(12) {
					case 0, 1:
						o = append(o, Op{K: "seed", S: g.Pick(seeds...)})
					case 2, 3:
						for _, s := range g.program(progOpt{Segs: 1, Avoid: "roxg", Few: true}) {
							o = append(o, Op{K: "other", S: s})
						}
					case 4:
						o = append(o, Op{K: "other", S: g.Pick("SeedRandom[1.5]", "SeedRandom[zzq]", "SeedRandom[]", "SeedRandom[1, 2]", "RandomReal[1, 2, 3]", "UnixTime[]", "Unique[]", "Pause[0.001]", "Pause[1.5]", "Pause[40]")})
					case 5:
						if g.P(0.1) {
							o = append(o, Op{K: "reset"})
						}
					default:
						o = append(o, g.drawForm())
					}
				}
				c.Lanes = append(c.Lanes, o)
			}
			return c
		},
		Exec: execRandom,
	})
}

type drawn struct {
	key  string
	u    []float64
	eps  []float64
	bag  []int // draws of one parallel table have the same number; 0: in order
	bags int
	desc string
}

func execRandom(c *Case, r *Report) {
	var all []*drawn
	starts := map[string][2]int64{} // of sessions that were not seeded
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		var specs []simrt.Spec
		for i, ops := range c.Lanes {
			i, ops := i, ops
			l := &Lane{ID: i}
			cur := &drawn{}
			gen := 0
			wall := func() int64 { return simrt.Wall() / 1_000_000_000 }
			begin := func(f func()) {
				gen++
				t0 := wall()
				f()
				cur = &drawn{key: fmt.Sprintf("unseeded %d.%d", i, gen), desc: "not seeded"}
				all = append(all, cur)
				starts[cur.key] = [2]int64{t0, wall()}
			}
			if len(ops) == 0 || ops[0].K != "new" {
				inLane(i, func() { begin(func() { l.Es = newSession() }) })
			}
			specs = append(specs, simrt.Spec{Data: l, Fn: func() {
				inLane(i, func() {
					for _, o := range ops {
						switch o.K {
						case "new":
							begin(func() { l.Es = newSession() })
						case "reset":
							begin(func() { l.Es.ClearAll() })
						case "seed":
							if a := l.top("SeedRandom[" + o.S + "]"); a != "Null" {
								r.viol("seed", "", "SeedRandom[%s] answers %s", o.S, a)
								return
							}
							cur = &drawn{key: "seed " + o.S, desc: fmt.Sprintf("session %d, %d draws before", i, len(all))}
							all = append(all, cur)
						case "other":
							r.mix(l.top(o.S))
						case "draw":
							a := l.top(o.S)
							r.mix(a)
							r.inc("inputs", 1)
							if !drawCheck(cur, o, a, r) {
								return
							}
						}
						l.takeOut()
					}
				})
			}})
		}
		return specs
	})
	r.status(res)
	// Equal seeds, equal sequences.  Draws of concurrent elements may come in any
	// order, but together are the same.
	truth := map[string]map[int]*drawn{}
	pairs := 0
	longest := map[string]*drawn{}
	for _, d := range all {
		r.inc("draws", int64(len(d.u)))
		t := truth[d.key]
		if t == nil {
			t = map[int]*drawn{}
			truth[d.key] = t
		} else if len(d.u) > 0 {
			pairs++
		}
		for j := range d.u {
			if d.bag[j] > 0 {
				continue
			}
			if o := t[j]; o == nil {
				t[j] = d
			} else if math.Abs(d.u[j]-o.u[j]) > d.eps[j]+o.eps[j] {
				r.viol("differs", "", "draw %d after %s is %.6f of the range (%s) and %.6f of it (%s)", j, d.key, o.u[j], o.desc, d.u[j], d.desc)
				return
			}
		}
		if l := longest[d.key]; l == nil || len(l.u) < len(d.u) {
			longest[d.key] = d
		}
	}
	for _, d := range all {
		t := truth[d.key]
		for j := 0; j < len(d.u); j++ {
			if d.bag[j] == 0 {
				continue
			}
			n := j
			for n < len(d.u) && d.bag[n] == d.bag[j] {
				n++
			}
			var want []float64
			eps := 0.0
			for k := j; k < n; k++ {
				if t[k] != nil {
					want = append(want, t[k].u[k])
					eps = math.Max(eps, t[k].eps[k])
				}
				eps = math.Max(eps, d.eps[k])
			}
			if len(want) == n-j {
				got := append([]float64{}, d.u[j:n]...)
				sort.Float64s(got)
				sort.Float64s(want)
				r.inc("concurrent-draws-compared", 1)
				for k := range got {
					if math.Abs(got[k]-want[k]) > 2*eps {
						r.viol("differs", "", "draws %d to %d after %s are %v of the range, in some order (%s), and %v when made by concurrent elements (%s)", j, n-1, d.key, want, t[j].desc, got, d.desc)
						return
					}
				}
			}
			j = n - 1
		}
	}
	r.inc("sequences-compared", int64(pairs))
	r.Nontriv = pairs > 0 && len(res.Switches) >= 4
	keys := sortedKeys(longest)
	for x := range keys {
		for y := x + 1; y < len(keys); y++ {
			a, b := longest[keys[x]], longest[keys[y]]
			sa, ua := starts[keys[x]]
			sb, ub := starts[keys[y]]
			if ua && ub && sa[0] <= sb[1] && sb[0] <= sa[1] {
				continue // perhaps started in the same second
			}
			if !ua || !ub {
				continue // different seeds may be equivalent for the generator
			}
			same := 0
			for j := 0; j < len(a.u) && j < len(b.u); j++ {
				if math.Abs(a.u[j]-b.u[j]) <= a.eps[j]+b.eps[j] {
					same++
				} else {
					same = -1000
				}
			}
			if same >= 4 {
				r.viol("same", "", "%q and %q draw the same sequence %v", a.key, b.key, a.u[:same])
				return
			}
		}
	}
}

// drawCheck takes the numbers of a draw down, demanding that they are in range.
func drawCheck(d *drawn, o Op, a string, r *Report) bool {
	if strings.Contains(a, "False") {
		r.viol("range", "", "%s answers %s", o.S, a)
		return false
	}
	var v []float64
	for _, s := range numberRe.FindAllString(a, -1) {
		x, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return true
		}
		v = append(v, x)
	}
	if len(v) != len(o.A)/2 {
		r.viol("draw", "", "%s answers %s", o.S, a)
		return false
	}
	type ue struct{ u, e float64 }
	var us []ue
	for i, x := range v {
		lo, hi := float64(o.A[2*i])/1000, float64(o.A[2*i+1])/1000
		eps := 1e-5 * (math.Abs(lo) + math.Abs(hi)) / math.Abs(hi-lo)
		u := (x - lo) / (hi - lo)
		if u < -eps || u > 1+eps {
			r.viol("range", "", "%s answers %s: %g is not between %g and %g", o.S, a, x, lo, hi)
			return false
		}
		us = append(us, ue{u, eps})
	}
	if o.M == 1 {
		d.bags++
	}
	for _, x := range us {
		if o.M == 1 {
			d.bag = append(d.bag, d.bags)
		} else {
			d.bag = append(d.bag, 0)
		}
		d.u = append(d.u, x.u)
		d.eps = append(d.eps, x.e)
	}
	return true
}
