package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C13: definitions saved over an existing file, and the machine stops.

func init() {
	register(&Scenario{
		Prop: "C13",
		Rule: "the process or the machine stopped while the file was being saved",
		Real: append([]string{"os, io, compress/zlib, encoding/gob down to the system call"}, realCore...), Stub: append([]string{"the disk: a scratch directory, a log of what is durable, and what a power failure leaves of it"}, stubCore...),
		Quick: 90, Thor: 40000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "crash", Plan: g.plan(), Opt: map[string]int64{}}
			c.Plan.Max = 200_000_000
			st := g.defs(g.Between(2, 4))
			if g.P(0.3) {
				st.in = append(st.in, "da = Table[fq[i, i^"+itoa(g.Between(2, 40))+"], {i, "+itoa(g.Between(20, 200))+"}]")
				st.names = append(st.names, "Global`da")
			}
			st.rdef = append(st.rdef, g.Pick("x1 = 1", strings.TrimPrefix(st.names[0], "Global`")+" = changed"))
			st.pack(c)
			if g.P(0.3) {
				c.Faults = g.transientFaults(g.Between(1, 2), "write", "write", "open", "fsync")
			}
			if g.P(0.15) {
				c.Opt["none"] = 1 // no file before
			}
			c.Opt["torn"] = int64(g.N(1 << 30))
			c.Opt["loss"] = int64(g.N(1 << 30))
			return c
		},
		Exec: execC13,
	})
}

// loadFrom loads the file from a disk with the given contents in a new session.
func (r *Report) loadFrom(plan simrt.Plan, files map[string][]byte, probes []string) (answer, state string) {
	d := newDisk()
	defer d.remove()
	for _, n := range sortedKeys(files) {
		d.seedFile(n, files[n])
	}
	res := r.one(&plan, d, func(l *Lane) {
		answer = l.raw(`Get["` + d.Dir + `/defs.exprs"]`)
		if o := l.takeOut(); o != "" {
			answer += " printing " + oneLine(strings.ReplaceAll(o, d.Dir, ""))
		}
		state = l.texts(probes)
	})
	if res.Status != "ok" {
		answer += " and then " + res.Status
	}
	return
}

func execC13(c *Case, r *Report) {
	st := unpack(c)
	what := nameList(st.names)
	save := func(d *Disk) string { return `Save["` + d.Dir + `/defs.exprs", ` + what + `]` }
	// What each version looks like.
	var vers [2][]byte
	var want [2]string
	var saved *Disk
	for v := 0; v < 2; v++ {
		d := newDisk()
		defer d.remove()
		if v == 1 && vers[0] != nil && c.Opt["none"] == 0 {
			d.seedFile("defs.exprs", vers[0])
		}
		ans := ""
		res := r.one(&c.Plan, d, func(l *Lane) {
			for _, in := range st.in {
				l.raw(in)
			}
			if v == 1 {
				for _, in := range st.rdef {
					l.raw(in)
				}
			}
			l.texts(st.probe)
			d.Muts = 0
			ans = l.raw(save(d))
		})
		if res.Status != "ok" || ans != "Null" {
			r.viol("save", "", "Save answers %s (%s)", ans, res.Status)
			return
		}
		vers[v] = d.files()["defs.exprs"]
		var a string
		if a, want[v] = r.loadFrom(c.Plan, d.files(), st.probe); a != "Null" {
			r.viol("load", "", "loading what was saved answers %s", a)
			return
		}
		saved = d
	}
	rnd := simrt.NewRand(uint64(c.Opt["loss"]))
	// judge: completely the old or completely the new definitions.
	judge := func(files map[string][]byte, mustNew bool, how string) bool {
		b, there := files["defs.exprs"]
		r.inc("states-after-crash", 1)
		r.mark(mix64(strHash(how), strHash(describeFiles(files)), strHash(want[1])))
		if there && bytes.Equal(b, vers[1]) {
			r.inc("new", 1)
			return true
		}
		if there && !mustNew && c.Opt["none"] == 0 && bytes.Equal(b, vers[0]) {
			r.inc("old", 1)
			return true
		}
		if !there && !mustNew && c.Opt["none"] == 1 {
			r.inc("old", 1)
			return true
		}
		a, s := r.loadFrom(c.Plan, files, st.probe)
		if a == "Null" && (s == want[1] || (!mustNew && c.Opt["none"] == 0 && s == want[0])) {
			r.inc("other-form", 1)
			return true
		}
		x, y := firstDiff(want[1], s)
		must := "the old or the new definitions"
		if mustNew {
			must = "the new definitions"
		}
		r.viol("lost", "", "%s, the disk holds %s and loading the file answers %s, giving not %s (%q, where the new ones give %q); the file system calls were %s", how, describeFiles(files), a, must, y, x, strings.Join(lastN(saved.Trace, 12), "; "))
		return false
	}
	muts := saved.Muts
	// Saving has answered success: it survives.
	for i := 0; i < 6; i++ {
		if !judge(saved.afterPowerLoss(&rnd), true, "after Save has answered success and the power fails") {
			return
		}
	}
	// The machine stops at any change.
	tr := simrt.NewRand(uint64(c.Opt["torn"]))
	for k := int64(1); k <= muts && k <= 40; k++ {
		for t := 0; t < 2; t++ {
			d := newDisk()
			if c.Opt["none"] == 0 {
				d.seedFile("defs.exprs", vers[0])
			}
			d.Torn = -1
			if t == 1 {
				d.Torn = int64(tr.Intn(len(vers[1]) + 2))
				if tr.Intn(4) == 0 {
					d.Torn = 1 << 40
				}
			}
			ans := ""
			p := c.Plan
			p.Seed += uint64(k)
			run := r.sim
			if k == 1 && t == 0 {
				run = r.mainSim
			}
			run(&p, func() []simrt.Spec {
				l := &Lane{Es: newSession(), Disk: d}
				return []simrt.Spec{{Data: l, Fn: func() {
					for _, in := range st.in {
						l.raw(in)
					}
					for _, in := range st.rdef {
						l.raw(in)
					}
					d.Muts, d.Crash = 0, k
					d.Faults, d.Count, d.Total = c.Faults, map[string]int64{}, 0
					ans = l.raw(save(d))
				}}}
			})
			saved = d
			if d.Down {
				r.Nontriv = true
				r.inc("fault.crash", 1)
				if d.Torn >= 0 {
					r.inc("fault.torn-write", 1)
				}
			}
			r.mix(fmt.Sprint(k, t, d.Down, ans))
			for h, n := range d.Fired {
				r.inc("fault."+h, int64(n))
			}
			ok := judge(d.files(), !d.Down && ans == "Null", fmt.Sprintf("after the process stops at change %d (torn: %d) of saving", k, d.Torn))
			for i := 0; ok && i < 3; i++ {
				r.inc("fault.power-failure", 1)
				ok = judge(d.afterPowerLoss(&rnd), !d.Down && ans == "Null", fmt.Sprintf("after the power fails at change %d (torn: %d) of saving", k, d.Torn))
			}
			d.remove()
			if !ok {
				return
			}
		}
	}
}

func lastN(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}
