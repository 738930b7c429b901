package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C14: saving and loading while file operations fail, and damaged files.
//
// Ops: save (T: which state, faults), get (file N, faults), bad (a damaged copy
// of file N), def (a definition).

func (g *Gen) ioFaults(save bool) []Fault {
	var out []Fault
	for i := 1 + g.N(2); i > 0; i-- {
		f := Fault{N: 1, Op: "open"}
		if save {
			f.Op = g.Pick("creat", "creat", "write", "write", "write", "fsync", "fsync", "close", "rename", "rename", "unlink", "dirsync", "open")
		} else {
			f.Op = g.Pick("open", "read", "read", "read", "close")
		}
		if f.Op == "write" || f.Op == "read" {
			f.N = int64(g.Between(1, 3))
		}
		switch f.Op {
		case "creat", "open":
			f.How = g.Pick("eacces", "emfile", "eio", "enospc", "enoent")
		case "write":
			f.How = g.Pick("enospc", "eio", "edquot", "short", "eintr")
			f.Arg = int64(g.N(5000))
		case "read":
			f.How = g.Pick("eio", "eio", "eio", "short", "eintr")
			f.Arg = int64(g.N(5000))
		case "rename", "unlink":
			f.How = g.Pick("eacces", "eio", "enospc")
		default:
			f.How = g.Pick("eio", "enospc", "edquot")
		}
		out = append(out, f)
	}
	return out
}

func init() {
	register(&Scenario{
		Prop: "C14",
		Rule: "a file operation failed or a damaged file was loaded",
		Real: append([]string{"os, io, compress/zlib, encoding/gob down to the system call"}, realCore...), Stub: append([]string{"the disk: a scratch directory behind a simulated system call layer"}, stubCore...),
		Quick: 200, Thor: 100000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "iofail", Plan: g.plan(), Opt: map[string]int64{}}
			c.Plan.Max = 300_000_000
			g.defs(g.Between(2, 4)).pack(c)
			st2 := g.defs(g.Between(2, 4))
			c.Str["names2"] = strings.Join(st2.names, " ")
			c.Lanes = append(c.Lanes, ops("def", st2.in), ops("probe", st2.probe))
			var o []Op
			for i := g.Between(8, 16); i > 0; i-- {
				x := Op{N: int64(g.N(2))}
				switch g.N(8) {
				case 0, 1, 2:
					x.K = "save"
					x.T = jsonOf(g.ioFaults(true))
					x.M = int64(g.N(4)) // 0: a new file
					if g.P(0.2) {
						x.T = "[]"
					}
				case 3, 4:
					x.K = "get"
					x.M = int64(g.N(3))
					x.T = jsonOf(g.ioFaults(false))
					if g.P(0.1) {
						x.T = "[]"
					}
				case 7: // the definitions as a script
					x.K = "script"
					x.S = g.Pick("Get", "Get", "ReadList")
					x.M = int64(g.N(4))
					x.T = jsonOf(g.ioFaults(false))
					x.A = []int64{int64(g.logN(4000)), int64(g.logN(4000))}
				case 5, 6:
					x.K = "bad"
					x.M = int64(g.N(4))
					x.S = g.Pick("cut", "cut", "cut", "flip", "flip", "zero", "ins", "del", "swap", "fill", "head", "tail")
					x.A = []int64{int64([]int{g.N(1 << 20), g.N(1 << 20), g.N(12), -1 - g.N(24)}[g.N(4)]), int64(g.N(1 << 20)), int64(g.Between(1, 255))}
				}
				o = append(o, x)
			}
			c.Post = o
			return c
		},
		Exec: execC14,
	})
}

// damaged changes b behind its first head bytes (nothing to damage: nil).
func damaged(how string, a []int64, b []byte, head int) []byte {
	if len(b) <= head+4 {
		return nil
	}
	out := append([]byte{}, b...)
	at := head + int(a[0])%(len(b)-head)
	if a[0] < 0 { // so far before the end
		at = max(head, len(b)+int(a[0]))
	}
	to := at + 1 + int(a[1])%(len(b)-at)
	switch how {
	case "cut":
		return out[:at]
	case "flip":
		out[at] ^= byte(a[2])
	case "zero":
		for i := at; i < to; i++ {
			out[i] = 0
		}
	case "ins":
		out = append(out[:at:at], append([]byte{byte(a[2])}, b[at:]...)...)
	case "del":
		out = append(out[:at:at], b[to:]...)
	case "swap":
		if at+8 < len(out) {
			copy(out[at:], b[at+4:at+8])
			copy(out[at+4:], b[at:at+4])
		}
	case "fill":
		r := simrt.NewRand(uint64(a[1]))
		for i := at; i < to; i++ {
			out[i] = byte(r.Next())
		}
	case "tail":
		return append(out, byte(a[2]), byte(a[1]), 0)
	case "head":
		out[int(uint64(a[0])%uint64(head))] ^= byte(a[2])
	}
	return out
}

func execC14(c *Case, r *Report) {
	st := unpack(c)
	st2 := &defState{names: strings.Fields(c.Str["names2"])}
	for _, o := range c.Lanes[4] {
		st2.in = append(st2.in, o.S)
	}
	for _, o := range c.Lanes[5] {
		st2.probe = append(st2.probe, o.S)
	}
	probes := append(append([]string{}, st.probe...), st2.probe...)
	all := append([]string{}, st.names...)
	for _, n := range st2.names {
		if !strings.Contains(" "+c.Str["names"]+" ", " "+n+" ") {
			all = append(all, n)
		}
	}
	// Two good files.
	var good [2][]byte
	var loaded [2]string
	for i, s := range []*defState{st, st2} {
		d := newDisk()
		ans := ""
		res := r.one(&c.Plan, d, func(l *Lane) {
			for _, in := range s.in {
				l.raw(in)
			}
			l.texts(s.probe)
			ans = l.raw(`Save["` + d.Dir + `/defs.exprs", ` + nameList(s.names) + `]`)
		})
		good[i] = d.files()["defs.exprs"]
		d.remove()
		if ans != "Null" || res.Status != "ok" {
			r.viol("save", "", "Save answers %s (%s)", ans, res.Status)
			return
		}
		if ans, loaded[i] = r.loadFrom(c.Plan, map[string][]byte{"defs.exprs": good[i]}, s.probe); ans != "Null" {
			r.viol("load", "", "loading what was saved answers %s", ans)
			return
		}
	}
	d := newDisk()
	defer d.remove()
	file := d.Dir + "/defs.exprs"
	type later struct {
		files  map[string][]byte
		want   string
		probes []string
		how    string
	}
	var check []later
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		l := &Lane{Es: newSession(), Disk: d}
		return []simrt.Spec{{Data: l, Fn: func() {
			for _, in := range st.in {
				l.raw(in)
			}
			l.texts(probes)
			l.texts(probes)
			for n, o := range c.Post {
				var fs []Fault
				fromJSON(o.T, &fs)
				d.Faults, d.Full = nil, false
				src := []*defState{st, st2}[o.N]
				if o.K != "save" && o.M != 0 { // so that loading makes a difference
					for _, n := range src.names {
						if !strings.HasPrefix(n, "System`") {
							l.Es.Clear(n)
						}
					}
				}
				before := l.texts(probes)
				var in string
				switch o.K {
				case "save":
					os.Remove(file)
					delete(d.inoOf, file)
					if o.M != 0 {
						d.seedFile("defs.exprs", good[o.N^1])
					}
					in = `Save["` + file + `", ` + nameList(all) + `]`
				case "get":
					d.seedFile("defs.exprs", good[o.N])
					in = `Get["` + file + `"]`
				case "script":
					text := "(*" + strings.Repeat("-", int(o.A[0])) + "*)\n" + strings.Join(src.in, "\n(**)\n") + "\n(*" + strings.Repeat("-", int(o.A[1])) + "*)\n"
					d.seedFile("defs.exprs", []byte(text))
					in = o.S + `["` + file + `"]`
				case "bad":
					b := damaged(o.S, o.A, good[o.N], 8)
					if b == nil {
						continue
					}
					d.seedFile("defs.exprs", b)
					in = `Get["` + file + `"]`
				}
				had := d.files()
				d.Faults, d.Count, d.Total = fs, map[string]int64{}, 0
				fired := map[string]int{}
				d.Fired = fired
				d.Trace = nil
				ans := l.raw(in)
				nUnlink := 0
				for _, f := range fs {
					if f.Op == "unlink" && d.Count["unlink"] >= f.N {
						nUnlink++
					}
				}
				unreadable := false
				taken := map[string]bool{} // the first fault for a call counts
				for _, f := range fs {
					call := fmt.Sprint(f.Op, f.N)
					if taken[call] {
						continue
					}
					taken[call] = true
					if (f.Op == "open" || f.Op == "read") && f.How != "short" && f.How != "eintr" && d.Count[f.Op] >= f.N {
						unreadable = true
					}
				}
				dirBad := false
				for _, f := range fs {
					if (f.Op == "dirsync" || f.Op == "open") && d.Count[f.Op] >= f.N {
						dirBad = true
					}
				}
				d.Faults, d.Full = nil, false
				for h, k := range fired {
					r.inc("fault."+h, int64(k))
				}
				if len(fired) > 0 || o.K == "bad" {
					r.Nontriv = true
				}
				if o.K == "bad" {
					r.inc("fault.damaged-file", 1)
				}
				l.takeOut()
				r.mix(ans)
				r.inc(o.K+" answers "+clip(ans, 12), 1)
				what := fmt.Sprintf("%s %d (%s%s, faults %s, calls %s)", o.K, n, o.S, clip(fmt.Sprint(o.A), 60), o.T, strings.Join(lastN(d.Trace, 10), "; "))
				got := ""
				if o.K != "save" && o.K != "script" {
					got = l.texts(src.probe) // before others make it remember values
				}
				after := l.texts(probes)
				now := d.files()
				r.mark(mix64(strHash(o.K+o.S+ans), strHash(strings.Join(d.Trace, ";"))))
				head := o.K == "bad" && (o.S == "head")
				switch {
				case o.K == "script" && !unreadable:
					if ans == "$Failed" {
						r.viol("fails", "", "%s answers $Failed although nothing failed", what)
						return
					}
				case o.K == "script" && ans != "$Failed":
					r.viol("unreported", "", "%s answers %s although the file cannot be read", what, ans)
					return
				case ans != "Null" && ans != "$Failed" && !head:
					r.viol("answer", "", "%s answers %s", what, ans)
					return
				case o.K == "save" && after != before:
					x, y := firstDiff(before, after)
					r.viol("changes-definitions", "", "%s changes definitions: %q was %q", what, y, x)
					return
				case ans == "$Failed" || head:
					if len(fired) == 0 && o.K != "bad" {
						r.viol("fails", "", "%s answers $Failed although nothing failed", what)
						return
					}
					if after != before {
						x, y := firstDiff(before, after)
						r.viol("half", "", "%s fails and changes definitions: %q was %q", what, y, x)
						return
					}
					for f, b := range had {
						if !bytes.Equal(now[f], b) && !(o.K == "save" && dirBad) {
							r.viol("file", "", "%s fails and the file %s, which had %d bytes, is changed (%s)", what, f, len(b), describeFiles(now))
							return
						}
					}
					for f := range now {
						if _, was := had[f]; !was && nUnlink == 0 && !dirBad {
							r.viol("left-over", "", "%s fails and leaves %s behind", what, filepath.Base(f))
							return
						}
					}
				case o.K == "save":
					for f := range now {
						if _, was := had[f]; !was && f != "defs.exprs" && nUnlink == 0 {
							r.viol("left-over", "", "%s succeeds and leaves %s behind", what, filepath.Base(f))
							return
						}
					}
					check = append(check, later{now, after, probes, what})
				default:
					if got != loaded[o.N] {
						x, y := firstDiff(loaded[o.N], got)
						r.viol("incomplete", "", "%s answers %s and does not load everything: %q, not %q", what, ans, y, x)
						return
					}
				}
				for f := range now {
					os.Remove(filepath.Join(d.Dir, f))
				}
				d.inoOf = map[string]int{}
			}
			if len(d.outer) > 0 {
				r.viol("outside", "", "something is written outside the directory of the file: %v", d.outer)
			}
		}}}
	})
	r.status(res)
	if len(r.Viols) > 0 {
		return
	}
	if len(check) > 3 {
		check = check[:3]
	}
	for _, k := range check {
		if a, s := r.loadFrom(c.Plan, k.files, k.probes); a != "Null" || s != k.want {
			x, y := firstDiff(k.want, s)
			r.viol("incomplete", "", "%s answers success and the file, loaded into a new session, answers %s and gives %q, not %q", k.how, a, y, x)
			return
		}
	}
}
