package main

import (
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C12: definitions saved by one session behave the same in others.

// transientFaults are what the operating system may do to any read or write.
func (g *Gen) transientFaults(n int, kinds ...string) []Fault {
	var out []Fault
	for ; n > 0; n-- {
		f := Fault{Op: g.Pick(kinds...), N: int64(g.Between(1, 4))}
		if f.Op == "read" || f.Op == "write" {
			f.How = g.Pick("short", "eintr")
			f.Arg = int64(g.N(4000))*2 + 1
		} else {
			f.How = "eintr"
		}
		out = append(out, f)
	}
	return out
}

func init() {
	register(&Scenario{
		Prop: "C12",
		Rule: "the file was loaded while the system split or interrupted reads or writes, or into a session with other definitions of the same names",
		Real: append([]string{"os, io, compress/zlib, encoding/gob down to the system call"}, realCore...), Stub: append([]string{"the disk: a scratch directory behind a simulated system call layer"}, stubCore...),
		Quick: 320, Thor: 150000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "save", Plan: g.plan(), Opt: map[string]int64{}}
			c.Plan.Max = 200_000_000
			st := g.defs(g.Between(2, 6))
			st.pack(c)
			c.Faults = g.transientFaults(g.N(4), "read", "read", "write", "open", "fsync")
			c.Opt["pattern"] = int64(g.N(3))
			c.Opt["path"] = int64(g.N(3))
			c.Opt["seen"] = int64(g.N(2))
			// What the receiving sessions do before.
			c.Pre = ops("def", g.defs(g.Between(2, 6)).in)
			return c
		},
		Exec: execC12,
	})
}

func execC12(c *Case, r *Report) {
	st := unpack(c)
	d := newDisk()
	defer d.remove()
	file := d.Dir + "/defs.exprs"
	fault := func(l *Lane) {
		d.Faults = c.Faults
		d.Count = map[string]int64{}
		d.Total = 0
	}
	calm := func() { d.Faults = nil }
	get := `Get["` + file + `"]`
	if c.Opt["path"] == 1 {
		get = `AppendTo[$Path, "` + d.Dir + `"]; Get["defs.exprs"]`
	}
	what := nameList(st.names)
	if c.Opt["pattern"] == 1 {
		what = "\"Global`d*\""
		for _, n := range st.names {
			if !strings.HasPrefix(n, "Global`") {
				what = nameList(st.names)
			}
		}
	}
	var want, wantLate, wantSelf string
	ok := false
	run := func(l *Lane) {
		for _, in := range st.in {
			l.raw(in)
		}
		l.takeOut()
		l.texts(st.probe)
		want = l.texts(st.probe)
		fault(l)
		got := l.raw(`Save["` + file + `", ` + what + `]`)
		calm()
		out := l.takeOut()
		if got != "Null" || out != "" {
			r.viol("save", "", "Save answers %s and prints %q", got, clip(out, 300))
			return
		}
		if now := l.texts(st.probe); now != want {
			a, b := firstDiff(want, now)
			r.viol("saving-changes", "", "saving changes what is saved: %q was %q", b, a)
			return
		}
		// Into the session itself, whatever has become of the definitions.
		if len(st.rdef) > 0 {
			for _, in := range st.rdef {
				l.raw(in)
			}
			l.takeOut()
			fault(l)
			got = l.raw(get)
			calm()
			l.takeOut()
			wantSelf = l.texts(st.probe)
			if got != "Null" || wantSelf != want {
				a, b := firstDiff(want, wantSelf)
				r.viol("reload", "", "after the session defines %v and loads what it saved (which answers %s), %q was %q before", st.rdef, got, b, a)
				return
			}
		}
		for _, in := range st.late {
			l.raw(in)
		}
		l.takeOut()
		wantLate = l.texts(st.probe)
		ok = true
	}
	res := r.one(&c.Plan, d, run)
	r.status(res)
	r.inc("saves", 1)
	if !ok || res.Status != "ok" {
		return
	}
	// Two other sessions at the same time: a new one and one which has defined
	// the same names.
	p := c.Plan
	p.Seed ^= 0x55
	res = r.mainSim(&p, func() []simrt.Spec {
		var specs []simrt.Spec
		for i := 0; i < 2; i++ {
			l := &Lane{ID: i, Es: newSession(), Disk: d}
			specs = append(specs, simrt.Spec{Data: l, Fn: func() {
				if l.ID == 1 {
					for _, o := range c.Pre {
						l.raw(o.S)
					}
					if c.Opt["seen"] == 1 {
						l.texts(st.probe)
					}
					l.takeOut()
				}
				who := []string{"a new session", "a session with other definitions"}[l.ID]
				if l.ID == 0 {
					fault(l)
				}
				got := l.raw(get)
				out := l.takeOut()
				if got != "Null" || out != "" {
					r.viol("get", "", "Get in %s answers %s and prints %q", who, got, clip(out, 300))
					return
				}
				if now := l.texts(st.probe); now != want {
					a, b := firstDiff(want, now)
					r.viol("differs", "", "in %s %q is %q in the session that saved it (after %v; before, the session did %v)", who, b, a, st.in, preOf(c, l.ID))
					return
				}
				for _, in := range st.late {
					l.raw(in)
				}
				l.takeOut()
				if now := l.texts(st.probe); now != wantLate {
					a, b := firstDiff(wantLate, now)
					r.viol("differs-late", "", "in %s, after %v, %q is %q in the session that saved it (after %v)", who, st.late, b, a, st.in)
				}
			}})
		}
		return specs
	})
	r.status(res)
	r.mix(want + wantLate)
	for k, n := range d.Fired {
		r.inc("fault."+k, int64(n))
	}
	r.Nontriv = true
	r.mark(strHash(want))
}

func preOf(c *Case, id int) []string {
	if id == 0 {
		return nil
	}
	var l []string
	for _, o := range c.Pre {
		l = append(l, o.S)
	}
	return l
}
