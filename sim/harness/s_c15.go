package main

import (
	"fmt"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C15: scripts made of statements that note their numbers, cut off, damaged,
// interrupted and read in pieces.

// unit is one statement of a script and the numbers it notes, in order.
type unit struct {
	T string `json:"t"` // text, ends the statement with a newline
	N []int  `json:"n,omitempty"`
	// Throw says that the statement ends the file by an exception.
	Throw bool   `json:"throw,omitempty"`
	Inner []unit `json:"inner,omitempty"` // of the file read by the statement
}

// script draws statements; next is the next number to note.
func (g *Gen) script(n int, next *int, depth int) []unit {
	var us []unit
	tick := func() int { *next++; return *next - 1 }
	for i := 0; i < n; i++ {
		var u unit
		t := func() string {
			k := tick()
			u.N = append(u.N, k)
			return fmt.Sprintf("tk[%d]", k)
		}
		switch g.N(31) {
		case 26:
			// What a statement means depends on the ones in front of it.
			k := tick()
			v, ctx := fmt.Sprint("wv", g.N(1<<40)), g.Pick("ZA`", "ZB`zc`")
			in, out := "$Context = \""+ctx+"\"\n", "$Context = \"Global`\"\n"
			if g.P(0.5) {
				in, out = "Begin[\""+ctx+"\"]\n", "End[]\n"
			}
			us = append(us, unit{T: in}, unit{T: fmt.Sprintf("%s = %d\n", v, k)}, unit{T: out})
			u = unit{T: "tk[" + ctx + v + "]\n", N: []int{k}}
		case 27:
			// Longer than the buffers things are read into.
			long := strings.Repeat(g.Pick("x", "ab ", "\n", "(", "\u4e2d"), g.PickI2(600, 4090, 9000, 33000))
			u.T = g.Pick("(* "+long+" *)\n", "st = \""+long+"\"; ", "{1,"+strings.Repeat(" 1234,\n", len(long)/12)+" 2}; ") + t() + "\n"
		case 28:
			k := tick()
			u.N = append(u.N, k)
			u.T = g.Pick(fmt.Sprintf("tk[%d]; {1, 2}[[7]]\n", k), fmt.Sprintf("1/0; tk[%d]\n", k), fmt.Sprintf("3 = 4; tk[%d]\n", k),
				fmt.Sprintf("tk[%d]; $Aborted\n", k), fmt.Sprintf("tk[%d]; $Failed\n", k))
		case 29:
			// The same statement again and again.
			u.T = "rc = 0\n"
			us = append(us, u)
			for k := g.Between(2, 5); k > 0; k-- {
				us = append(us, unit{T: "If[IntegerQ[rc], rc = rc + 1]\n"})
			}
			k := tick()
			u = unit{T: fmt.Sprintf("tk[%d + rc]\n", k-(len(us)-1-lastIndex(us, "rc = 0\n"))), N: []int{k}}
		case 30:
			k := tick()
			f := fmt.Sprint("dl", g.N(1<<40))
			u.T = fmt.Sprintf("%s[] := tk[%d]\n", f, k)
			us = append(us, u)
			u = unit{T: f + "[]\n", N: []int{k}}
		case 0, 1, 2:
			u.T = t() + "\n"
		case 3, 4:
			u.T = t() + ";\n"
		case 5:
			u.T = t() + "; " + t() + g.Pick("", ";") + "\n"
		case 6:
			u.T = "\n\n" + t() + "\n"
		case 7:
			u.T = "(* note *) " + t() + " (* more *)\n"
		case 8:
			u.T = "(* a note\n  on two lines: f[x], \"s\" *)\n" + t() + "\n"
		case 9:
			f := fmt.Sprint("fn", g.N(1<<40))
			u.T = f + "[x_] :=\n  tk[x]\n"
			k := tick()
			us = append(us, u)
			u = unit{T: fmt.Sprintf("%s[%d]\n", f, k), N: []int{k}}
		case 10:
			u.T = "If[True,\n  " + t() + ",\n\n  tk[0]\n]\n"
		case 11:
			u.T = t() + " // Identity\n"
		case 12:
			u.T = "st = \"a" + g.Pick("b](", " (* ", "\\\"", "{[", ";") + "\"; " + t() + "\n"
		case 13:
			u.T = "tk[\n" + fmt.Sprint(func() int { k := tick(); u.N = append(u.N, k); return k }()) + "];\n"
		case 14:
			u.T = "Module[{v = 1},\n " + t() + ";\n  " + t() + ";\n v\n];\n"
		case 15:
			u.T = "{" + t() + ",\n " + t() + "}\n"
		case 16:
			u.T = "Do[tk[i], {i, {" + func() string {
				a, b := tick(), tick()
				u.N = append(u.N, a, b)
				return fmt.Sprintf("%d, %d", a, b)
			}() + "}}]\n"
		case 17:
			u.T = t() + "\r\n"
		case 18:
			u.T = "vv = {1, 2,\n   3} /. {\n 1 -> 2};\n"
		case 19:
			u.T = "\\[Alpha] = 3; " + t() + "\n"
		case 20:
			u.T = "ZZZ`vv = \"\u00e4\u4e2d\"; " + t() + "\n"
		case 21:
			u.T = "( " + t() + " )\n"
		case 22:
			u.T = "   " + t() + "   \n"
		case 23:
			u.T = "gn[x_, y_: 3] := x + y;\ngn[1]; " + t() + "\n"
			// Two statements.
			us = append(us, unit{T: "gn[x_, y_: 3] := x + y;\n"})
			u.T = strings.SplitN(u.T, "\n", 2)[1]
		case 24:
			if depth > 0 {
				in := g.script(g.Between(1, 4), next, depth-1)
				u.Inner = in
				u.T = fmt.Sprintf("Get[\"@INNER%d@\"]\n", g.N(1<<40))
				if g.P(0.5) {
					u.T = strings.TrimSpace(u.T) + "; " + t() + "\n"
				}
			} else {
				u.T = t() + "\n"
			}
		case 25:
			if g.P(0.3) {
				u.T = g.Pick("Throw[7]\n", "If[True, Throw[7]];\n", "{Throw[7], tk[0]}\n", "Module[{v = 2}, Do[If[i > 2, Throw[7]], {i, 9}]]\n")
				u.Throw = true
			} else {
				u.T = "Catch[" + t() + "; Throw[1]; tk[0]]\n"
			}
		}
		us = append(us, u)
	}
	return us
}

// lastIndex is where the last statement with the text is.
func lastIndex(us []unit, text string) int {
	i := len(us) - 1
	for us[i].T != text {
		i--
	}
	return i
}

// ticks is what a complete reading of the statements notes, and whether an
// exception ends it.
func ticks(us []unit) (n []int, thrown bool) {
	for _, u := range us {
		if u.Inner != nil {
			in, th := ticks(u.Inner)
			n = append(n, in...)
			if th {
				return n, true
			}
		}
		n = append(n, u.N...)
		if u.Throw {
			return n, true
		}
	}
	return n, false
}

func innerName(u unit) string {
	i := strings.Index(u.T, "@INNER")
	if i < 0 {
		return ""
	}
	return u.T[i : i+strings.Index(u.T[i+1:], "@")+2]
}

// text renders a script for a disk, putting the inner ones there.
func (d *Disk) text(us []unit) string {
	var b strings.Builder
	for _, u := range us {
		t := u.T
		if k := innerName(u); k != "" {
			name := strings.Trim(k, "@") + ".m"
			d.seedFile(name, []byte(d.text(u.Inner)))
			t = strings.Replace(t, k, d.Dir+"/"+name, 1)
		}
		b.WriteString(t)
	}
	return b.String()
}

func init() {
	register(&Scenario{
		Prop: "C15",
		Rule: "a script was cut off, damaged, read in pieces, not readable, left by an exception or interrupted",
		Real: append([]string{"os and io down to the system call"}, realCore...), Stub: append([]string{"the disk: a scratch directory behind a simulated system call layer"}, stubCore...),
		Quick: 1200, Thor: 200000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "scripts", Plan: g.plan(), Opt: map[string]int64{}}
			c.Plan.Max = 200_000_000
			for i := g.PickI(1, 1, 2); i > 0; i-- {
				var o []Op
				for j := g.Between(4, 8); j > 0; j-- {
					next := 1
					n := g.Between(1, 12)
					if g.P(0.03) {
						n = g.Between(40, 150)
					}
					x := Op{T: jsonOf(g.script(n, &next, g.PickI2(2, 2, 2, 4))), M: int64(g.N(3)), A: []int64{int64(g.N(1 << 20)), int64(g.N(1 << 20)), int64(g.N(256))}}
					x.K = g.Pick("cut", "cut", "cut", "cut", "bad", "bad", "any", "any", "read", "read", "whole", "int")
					if x.K == "int" && len(c.Lanes) > 0 {
						x.K = "cut"
					}
					for x.K == "int" && len(x.T) > 20000 {
						next = 1
						x.T = jsonOf(g.script(g.Between(1, 6), &next, 2))
					}
					if x.K == "bad" {
						x.S = g.Pick("]", ")", "}", "tk[0", "\"", "(*", "{tk[0], ", "tk[0] + ]", "1 +* ", "|]", ",", "f[x_] := ]", "\\[Nonesuch]", "\"\\[Nonesuch] \" ", "(* \\[Nonesuch] *) ", "\x00", "(* \x00 *) ", "\"\\:ffff\"", "(*\ufeff*)", "\\200")
					}
					if x.K == "read" {
						var fs []Fault
						for k := g.Between(1, 3); k > 0; k-- {
							f := Fault{Op: g.Pick("read", "read", "read", "open"), N: int64(g.Between(1, 4)), How: g.Pick("short", "short", "eintr", "eio"), Arg: int64(g.N(5000))}
							if f.Op == "open" {
								f.N, f.How = 1, g.Pick("eintr", "eio", "eacces")
							}
							fs = append(fs, f)
						}
						x.S = jsonOf(fs)
					}
					o = append(o, x)
				}
				c.Lanes = append(c.Lanes, o)
			}
			if len(c.Lanes) > 1 {
				for i := range c.Lanes[0] {
					if c.Lanes[0][i].K == "int" {
						c.Lanes[0][i].K = "cut"
					}
				}
			}
			return c
		},
		Exec: execC15,
	})
}

func execC15(c *Case, r *Report) {
	var disks []*Disk
	defer func() {
		for _, d := range disks {
			d.remove()
		}
	}()
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		var specs []simrt.Spec
		for i, ops := range c.Lanes {
			d := newDisk()
			disks = append(disks, d)
			l := &Lane{ID: i, Es: newSession(), Disk: d}
			specs = append(specs, simrt.Spec{Data: l, Fn: func() {
				l.raw(`tk[n_] := AppendTo[lg, n]`)
				for _, o := range ops {
					if !scriptRun(l, o, r) {
						return
					}
				}
			}})
		}
		return specs
	})
	r.status(res)
}

func parseInts(s string) (n []int, ok bool) {
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "{") || !strings.HasSuffix(s, "}") {
		return nil, false
	}
	for _, f := range strings.Split(strings.Trim(s, "{}"), ",") {
		if f = strings.TrimSpace(f); f != "" {
			k := 0
			if _, err := fmt.Sscanf(f, "%d", &k); err != nil {
				return nil, false
			}
			n = append(n, k)
		}
	}
	return n, true
}

func scriptRun(l *Lane, o Op, r *Report) bool {
	d := l.Disk
	var us []unit
	fromJSON(o.T, &us)
	d.Faults, d.Full = nil, false
	text := d.text(us)
	// Where the statements begin.
	var starts []int
	at := 0
	for _, u := range us {
		starts = append(starts, at)
		t := u.T
		if k := innerName(u); k != "" {
			t = strings.Replace(t, k, d.Dir+"/"+strings.Trim(k, "@")+".m", 1)
		}
		at += len(t)
	}
	unitAt := func(pos int) int {
		j := 0
		for j+1 < len(starts) && starts[j+1] <= pos {
			j++
		}
		return j
	}
	all, thrown := ticks(us)
	lo, hi := len(all), len(all) // how many numbers must and may be noted
	j := 0
	var fs []Fault
	switch o.K {
	case "cut":
		pos := int(o.A[0]) % (len(text) + 1)
		j = unitAt(pos)
		text = text[:pos]
		b, _ := ticks(us[:j])
		a, _ := ticks(us[:j+1])
		lo, hi = len(b), len(a)
		thrown = false
		if _, th := ticks(us[:j+1]); th {
			thrown = true
		}
		r.inc("fault.truncated", 1)
	case "bad", "any":
		var pos int
		if o.K == "bad" {
			j = int(o.A[0]) % len(us)
			pos = starts[j]
		} else {
			pos = int(o.A[0]) % len(text)
			j = unitAt(pos)
		}
		rest := text[pos:]
		if o.K == "any" {
			switch o.A[1] % 5 {
			case 0:
				text = text[:pos] + string([]byte{byte(o.A[2])}) + rest[1:]
			case 1:
				text = text[:pos] + string([]byte{byte(o.A[2])}) + rest
			case 2:
				text = text[:pos] + rest[1:]
			case 3:
				text = text[:pos] + string([]byte{0, 0, 0, 0}) + rest[min(4, len(rest)):]
			case 4:
				text = text[:pos] + string([]byte{rest[0] ^ byte(1<<(o.A[2]%8))}) + rest[1:]
			}
			hi = -1
		} else {
			s := o.S
			if s == "\"" && strings.Contains(rest, "\"") || s == "(*" && strings.Contains(rest, "*)") {
				s = "]"
			}
			if strings.HasSuffix(s, "[0") && strings.ContainsAny(rest, "\"") {
				s = ")"
			}
			text = text[:pos] + s + rest
		}
		b, th := ticks(us[:j])
		lo = len(b)
		if o.K == "bad" {
			hi = lo
		}
		thrown = th
		if th {
			hi = lo
		}
		r.inc("fault.damaged", 1)
	case "read":
		fromJSON(o.S, &fs)
	}
	file := d.seedFile("s.m", []byte(text))
	l.raw(`$Context = "Global` + "`" + `"; lg = {}`)
	l.takeOut()
	d.Fired = map[string]int{}
	d.Faults, d.Count, d.Total = fs, map[string]int64{}, 0
	in := `Catch[` + []string{"Get", "ReadList", "Length[ReadList"}[o.M] + `["` + file + `"]` + strings.Repeat("]", int(o.M/2)) + "]"
	var ans string
	fired := 0
	if o.K == "int" {
		ans, fired = interrupted(l, []int64{o.A[0] % int64(6000+2500*len(us))}, true, func() string { return l.top(in) })
	} else {
		ans = l.raw(in)
	}
	d.Faults = nil
	out := l.takeOut()
	lg := l.raw("lg")
	l.takeOut()
	r.inc("scripts", 1)
	r.mix(lg)
	r.mark(mix64(strHash(text), strHash(lg), uint64(fired)))
	eio := 0
	for h, n := range d.Fired {
		r.inc("fault."+h, int64(n))
		if h == "eio" || h == "eacces" {
			eio += n
		}
		r.Nontriv = true
	}
	if o.K != "whole" && o.K != "read" {
		r.Nontriv = true
	}
	show := func() string { return fmt.Sprintf("%s %s: the script %q", o.K, clip(o.S, 200), clip(text, 600)) }
	got, ok := parseInts(lg)
	if strings.HasPrefix(ans, "PANIC") {
		r.viol("panic", "", "%s answers %s", show(), ans)
		return false
	}
	if o.K == "any" {
		// What the damage made of its statement and those behind is open.
		pre := strings.ReplaceAll(strings.TrimSuffix(fmt.Sprint(all[:lo]), "]"), " ", ", ")
		pre = "{" + strings.TrimPrefix(pre, "[")
		if !strings.HasPrefix(lg, pre) || (lo > 0 && !strings.HasPrefix(lg[len(pre):], "}") && !strings.HasPrefix(lg[len(pre):], ", ")) {
			r.viol("prefix", "", "%s, damaged in statement %d, notes %s; the statements in front of it note %v", show(), j, lg, all[:lo])
			return false
		}
		if thrown && len(got) > lo {
			r.viol("beyond", "", "%s, left by an exception, notes %s", show(), lg)
			return false
		}
		return true
	}
	if !ok {
		r.viol("noted", "", "%s notes %s", show(), clip(lg, 300))
		return false
	}
	if eio > 0 {
		// An inner file may be the one that could not be read.
		if d.Count["open"] <= 1 && ((ans != "$Failed" && (o.M != 2 || ans != "0")) || len(got) > 0) {
			r.viol("unreadable", "", "%s, which cannot be read (%s), answers %s and notes %s", show(), o.S, ans, lg)
			return false
		}
		return true
	}
	if o.K == "int" {
		if fired > 0 && ans == "$Aborted" {
			lo = 0
			r.inc("interrupted", 1)
		}
	}
	for i := range got {
		if i >= len(all) || got[i] != all[i] || i >= hi {
			r.viol("order", "", "%s notes %s; statement by statement it is %v, of which %d to %d were to be evaluated", show(), lg, all, lo, hi)
			return false
		}
	}
	if len(got) < lo {
		r.viol("missing", "", "%s notes %s; statement by statement it is %v, of which %d to %d were to be evaluated (answer %s, output %q)", show(), lg, all, lo, hi, clip(ans, 200), clip(out, 300))
		return false
	}
	if o.K == "bad" && !thrown && !strings.Contains(out, "Syntax::") {
		r.viol("unreported", "", "%s is malformed at statement %d and no syntax error is reported (answer %s, output %q)", show(), j, clip(ans, 200), clip(out, 300))
		return false
	}
	if (o.K == "whole" || o.K == "read") && (strings.Contains(out, "Syntax::") || (thrown && ans != "7")) {
		r.viol("answer", "", "%s answers %s and prints %q", show(), clip(ans, 200), clip(out, 300))
		return false
	}
	if (o.K == "whole" || o.K == "read") && !thrown && o.M == 2 && ans != fmt.Sprint(len(us)) {
		r.viol("length", "", "%s has %d statements, and ReadList gives %s", show(), len(us), clip(ans, 200))
		return false
	}
	return true
}
