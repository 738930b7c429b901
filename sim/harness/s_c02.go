package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C02: sessions share no memory without synchronisation.  The oracle is the
// race detector, which sees the happens-before order of the program under test
// only (the scheduler's own hand-overs are hidden from it).
func init() {
	register(&Scenario{
		Prop: "C02", Race: true, Fresh: true,
		Rule:  "at least two sessions were live at once and each evaluated at least 6 inputs under the race detector",
		Real:  []string{"evaluator", "parser", "matcher", "built-in functions and their .m definitions", "definition map", "logging", "stream manager"},
		Stub:  []string{"goroutine scheduler", "clocks", "map iteration order", "standard output and error", "signals"},
		Quick: 56, Thor: 4000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "race", Plan: g.plan()}
			inTask := g.P(0.6)
			// Mostly both sessions use the same functions, for what these share
			// cannot be seen when one session uses them alone.
			o := progOpt{Segs: g.Between(8, 14), Corpus: 0.4, Max: 60_000}
			progs := g.rivals(2, o)
			if g.P(0.2) {
				progs[1] = g.program(o)
			}
			for i := 0; i < 2; i++ {
				var o []Op
				if inTask {
					o = append(o, Op{K: "new"})
				}
				kind := "raw"
				if g.P(0.5) {
					kind = "top"
				}
				o = append(o, ops(kind, progs[i])...)
				c.Lanes = append(c.Lanes, o)
			}
			return c
		},
		Exec: func(c *Case, r *Report) {
			var ls []*Lane
			before := simrt.RaceErrors()
			res := r.mainSim(&c.Plan, lanesSetup(c.Lanes, false, &ls, func(l *Lane) { l.Quiet = true }))
			r.Nontriv = len(ls) > 1 && len(res.Switches) >= 2
			r.inc("sessions", int64(len(ls)))
			raceViols(r, before, true)
		},
	})
}

// raceLog is what the race detector of this process wrote.
func raceLog() string {
	for _, kv := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(kv, "log_path=") {
			b, _ := os.ReadFile(strings.TrimPrefix(kv, "log_path=") + "." + itoa(os.Getpid()))
			return string(b)
		}
	}
	return ""
}

var (
	accSplit  = regexp.MustCompile(`(?m)^(?:Read|Write|Previous read|Previous write|Atomic read|Atomic write|Previous atomic read|Previous atomic write) at 0x[0-9a-f]+ by (?:goroutine (\d+)|main goroutine):`)
	laneFrame = regexp.MustCompile(`main\.inLane(\d+)\(`)
	anyFrame  = regexp.MustCompile(`(?m)^  ([^\s(][^\n]*)\(\)\n\s+(\S+):\d+`)
)

// raceViols turns the reports made since before into violations.  cross keeps
// only races between tasks that descend from different harness tasks.
func raceViols(r *Report, before int, cross bool) {
	n := simrt.RaceErrors() - before
	if n <= 0 {
		return
	}
	txt := raceLog()
	seen := 0
	for _, rep := range strings.Split(txt, "==================") {
		if !strings.Contains(rep, "WARNING: DATA RACE") {
			continue
		}
		seen++
		loc := accSplit.FindAllStringSubmatchIndex(rep, -1)
		var acc, who []string
		ours := false
		for i, m := range loc {
			end := len(rep)
			if i+1 < len(loc) {
				end = loc[i+1][0]
			}
			part := rep[m[1]:end]
			if k := strings.Index(part, "\n\n"); k >= 0 {
				part = part[:k]
			}
			// Which session did it: by its own stack, or else by the stack that
			// started the goroutine.
			root := ""
			if f := laneFrame.FindStringSubmatch(part); f != nil {
				root = f[1]
			} else if m[2] >= 0 {
				if k := strings.Index(rep, "Goroutine "+rep[m[2]:m[3]]+" ("); k >= 0 {
					made := rep[k:]
					if e := strings.Index(made, "\n\n"); e >= 0 {
						made = made[:e]
					}
					if f := laneFrame.FindStringSubmatch(made); f != nil {
						root = f[1]
					}
				}
			}
			who = append(who, root)
			// The innermost frame in the repository; a frame of the simulator
			// further in means that the simulator made the access.
			name := "?"
			for _, f := range anyFrame.FindAllStringSubmatch(part, -1) {
				if strings.Contains(f[1], "verifsim/simrt") {
					if name == "?" {
						ours = true
					}
					break
				}
				if strings.Contains(f[1], "verifsim/") {
					break
				}
				if strings.HasPrefix(f[1], "github.com/corywalker/expreduce/") {
					name = f[1][strings.LastIndex(f[1], "/")+1:]
					break
				}
			}
			acc = append(acc, name)
		}
		if ours {
			r.inc("races.simulator", 1)
			continue
		}
		if cross && len(who) == 2 && who[0] == who[1] && who[0] != "" {
			r.inc("races.same-session", 1)
			continue
		}
		if cross && (len(who) != 2 || who[0] == "" || who[1] == "") {
			r.inc("races.not-attributed", 1)
			continue
		}
		sort.Strings(acc)
		r.viol("data-race", strings.Join(acc, " and "), "unsynchronised accesses to the same memory: %s", clip(oneLine(rep), 1200))
	}
	if seen == 0 {
		r.Err = fmt.Sprintf("the race detector reported %d races but its log is missing", n)
	}
}

// The name of the function says which lane a stack belongs to.
func inLane(i int, f func()) {
	switch i {
	case 0:
		inLane0(f)
	case 1:
		inLane1(f)
	case 2:
		inLane2(f)
	default:
		inLane3(f)
	}
}

//go:noinline
func inLane0(f func()) { f() }

//go:noinline
func inLane1(f func()) { f() }

//go:noinline
func inLane2(f func()) { f() }

//go:noinline
func inLane3(f func()) { f() }
