package main

import (
	"fmt"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C16: what is printed arrives.  Every piece of text is unique and the program
// notes what the call that wrote it answered.

// piece is one call of a print function.
type piece struct {
	K   int    `json:"k"`
	Err bool   `json:"e,omitempty"` // to standard error
	S   string `json:"s"`           // what appears
	In  string `json:"in"`          // the call
}

type prog16 struct {
	In     string  `json:"in"`
	Pieces []piece `json:"p"` // in order
}

var odd16 = []string{"50%", "%d %s %v%%", "%!", "a\\b", "\\n", `say "q"`, "tab\there", "two\nlines\n", "\n", "`1` `2`", "<b>&amp;", "$x ${y}", "é∫", "(* no comment *)", "{{.}}", "  ", "1 + 1"}

func (g *Gen) piece(k int) piece {
	p := piece{K: k}
	tag := fmt.Sprintf("<%d>", k)
	switch g.N(17) {
	case 14, 15: // characters that mean something to some layer
		s := odd16[g.N(len(odd16))]
		in := strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`, "\t", `\t`).Replace(s)
		switch g.N(4) {
		case 0:
			p.In, p.S = fmt.Sprintf(`WriteString["stdout", "%s%s"]`, tag, in), tag+s
		case 1:
			p.In, p.S, p.Err = fmt.Sprintf(`WriteString["stderr", "%s%s"]`, tag, in), tag+s, true
		default:
			p.In, p.S = fmt.Sprintf(`Print["%s", "%s", "%s"]`, tag, in, in), tag+s+s+"\n"
		}
	case 16:
		p.In, p.S = fmt.Sprintf(`Print["%s", 1/2, " ", 2.5, " ", xq -> 1, {1, "s", {}}, "", Hold[Print[1]]]`, tag), tag+"1/2 2.5 xq -> 1{1, s, {}}Hold[Print[1]]\n"
	case 0, 1:
		p.In, p.S = fmt.Sprintf(`Print["%s"]`, tag), tag+"\n"
	case 2:
		p.In, p.S = fmt.Sprintf(`Print["<", %d, ">", 1 + 1, "x"]`, k), tag+"2x\n"
	case 3:
		p.In, p.S = fmt.Sprintf(`Print["%s", xq^2, {1, 2}, "\n", Hold[1 + 1]]`, tag), tag+"xq^2{1, 2}\nHold[1 + 1]\n"
	case 4:
		p.In, p.S = fmt.Sprintf(`WriteString["stdout", "%s"]`, tag), tag
	case 5:
		p.In, p.S = fmt.Sprintf(`WriteString[OutputStream["stdout", 1], "%s\n"]`, tag), tag+"\n"
	case 6, 7:
		p.In, p.S, p.Err = fmt.Sprintf(`WriteString["stderr", "%s "]`, tag), tag+" ", true
	case 8:
		p.In, p.S, p.Err = fmt.Sprintf(`WriteString[OutputStream["stderr", 2], "%s\n\n"]`, tag), tag+"\n\n", true
	case 9:
		n := g.PickN(10, 100, 1000, 4096, 5000, 65536)
		p.In, p.S = fmt.Sprintf(`Print["%s", big%d]`, tag, n), tag+strings.Repeat("x", n)+"\n"
	case 10:
		p.In, p.S = fmt.Sprintf("Print[\"%s\u00e4\u4e2d\U0001F600\"]", tag), tag+"\u00e4\u4e2d\U0001F600\n"
	case 11:
		p.In, p.S = fmt.Sprintf(`Print[StringJoin["%s", ToString[%d + 1]]]`, tag, k), fmt.Sprintf("%s%d\n", tag, k+1)
	case 12:
		p.In, p.S = fmt.Sprintf(`PrintTemporary["%s"]`, tag), tag+"\n"
	case 13:
		if g.P(0.5) {
			p.In, p.S = `WriteString["stdout", ""]`, ""
		} else if g.P(0.3) {
			p.In, p.S, p.Err = g.Pick(`WriteString["stderr", "\n"]`, `WriteString[OutputStream["stderr", 2], "\n"]`), "\n", true
		} else {
			p.In, p.S = `Print[]`, "\n"
		}
	}
	return p
}

// PickN draws one of several numbers.
func (g *Gen) PickN(n ...int) int { return n[g.N(len(n))] }

func (g *Gen) prog16(next *int) prog16 {
	var q prog16
	one := func() string {
		p := g.piece(*next)
		*next++
		q.Pieces = append(q.Pieces, p)
		return fmt.Sprintf("nt[%d, %s]", p.K, p.In)
	}
	switch g.N(14) {
	case 0, 1, 2:
		q.In = one()
	case 3:
		q.In = one() + "; " + one() + "; " + one()
	case 4:
		q.In = "{" + one() + ", hq[" + one() + ", " + one() + "]}"
	case 5:
		q.In = "Module[{a = " + one() + "}, " + one() + "; a]"
	case 6:
		q.In = "If[" + one() + "; True, " + one() + ", nt[0, Print[\"wrong\"]]]"
	case 7:
		q.In = "Catch[" + one() + "; Throw[" + one() + "; 1]; nt[0, Print[\"wrong\"]]]"
	case 8:
		n := g.Between(1, 4)
		if g.P(0.1) {
			n = g.Between(5, 40)
		}
		var r []string
		for i := 0; i < n; i++ {
			q.Pieces = append(q.Pieces, piece{K: *next, S: fmt.Sprintf("<%d>\n", *next)})
			r = append(r, itoa(*next))
			*next++
		}
		q.In = g.Pick("Table", "Do", "Sum") + "[nt[i, Print[\"<\", i, \">\"]], {i, {" + strings.Join(r, ", ") + "}}]"
		if g.P(0.4) {
			q.In = g.Pick("Map", "Scan") + "[Function[i, nt[i, Print[\"<\", i, \">\"]]], {" + strings.Join(r, ", ") + "}]"
		}
	case 9:
		q.In = "ff[" + one() + ", " + one() + "]"
	case 10:
		q.In = "fl[x_] := (" + one() + "; x); fl[" + one() + "]"
		n := len(q.Pieces)
		q.Pieces[n-1], q.Pieces[n-2] = q.Pieces[n-2], q.Pieces[n-1]
	case 11:
		q.In = "{1, " + one() + ", Throw[" + one() + "], nt[0, Print[\"wrong\"]]}"
	case 12:
		q.In = one() + " + " + one()
	case 13:
		q.In = "v = " + one() + "; {v, v, " + one() + "} /. Null -> " + one()
	}
	return q
}

func init() {
	register(&Scenario{
		Prop: "C16",
		Rule: "a write to a standard stream was short, interrupted or refused",
		Real: append([]string{"os and internal/poll down to the system call"}, realCore...), Stub: append([]string{"the two standard streams behind a simulated system call layer"}, stubCore...),
		Quick: 1000, Thor: 300000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "print", Plan: g.plan(), Opt: map[string]int64{}}
			c.Plan.Max = 200_000_000
			for i := g.PickI(1, 2, 2, 3); i > 0; i-- {
				var o []Op
				next := 1
				for j := g.Between(3, 10); j > 0; j-- {
					o = append(o, Op{K: g.Pick("top", "raw"), T: jsonOf(g.prog16(&next))})
				}
				c.Lanes = append(c.Lanes, o)
			}
			bad := g.P(0.6)
			for i := g.N(6); i > 0; i-- {
				f := Fault{Op: itoa(g.N(len(c.Lanes))), N: int64(g.Between(1, 20)), How: g.Pick("short", "short", "eintr"), Arg: int64(g.N(9000))}
				if bad && g.P(0.5) {
					f.How = g.Pick("eio", "enospc")
				}
				c.Faults = append(c.Faults, f)
			}
			return c
		},
		Exec: execC16,
	})
}

func execC16(c *Case, r *Report) {
	var lanes []*Lane
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		var specs []simrt.Spec
		for i, ops := range c.Lanes {
			l := &Lane{ID: i, Es: newSession()}
			lanes = append(lanes, l)
			specs = append(specs, simrt.Spec{Data: l, Fn: func() { inLane(i, func() { print16(l, c, ops, r) }) }})
		}
		return specs
	})
	r.status(res)
	for _, l := range lanes {
		if l.Strm != nil {
			for h, n := range l.Strm.Fired {
				r.inc("fault."+h, int64(n))
				r.Nontriv = true
			}
		}
	}
}

func print16(l *Lane, c *Case, ops []Op, r *Report) {
	l.raw("SetAttributes[nt, {HoldRest}]; nt[k_, e_] := Module[{v = e}, AppendTo[res, {k, v}]; v]; res = {}")
	for _, n := range []int{10, 100, 1000, 4096, 5000, 65536} {
		l.raw(fmt.Sprintf(`big%d = "%s"`, n, strings.Repeat("x", n)))
	}
	l.takeOut()
	l.Strm = &Streams{Fired: map[string]int{}}
	for _, f := range c.Faults {
		if f.Op == itoa(l.ID) {
			l.Strm.Faults = append(l.Strm.Faults, f)
		}
	}
	refused := func() int { return l.Strm.Fired["eio"] + l.Strm.Fired["enospc"] }
	for _, o := range ops {
		var q prog16
		fromJSON(o.T, &q)
		n0 := refused()
		var ans string
		if o.K == "top" {
			ans = l.top(q.In)
		} else {
			ans = l.raw(q.In)
		}
		n := refused() - n0
		out, err := string(l.Out), string(l.Err)
		l.Out, l.Err = l.Out[:0], l.Err[:0]
		f := l.Strm.Faults
		l.Strm.Faults = nil
		res := l.raw("res")
		l.raw("res = {}")
		l.Out, l.Err = l.Out[:0], l.Err[:0]
		l.Strm.Faults = f
		r.inc("inputs", 1)
		r.mix(out + err + res)
		r.mark(mix64(strHash(q.In), strHash(out), uint64(n)))
		if strings.HasPrefix(ans, "PANIC") {
			r.viol("panic", "", "%s answers %s", clip(q.In, 300), ans)
			return
		}
		// An uncaught exception is reported on standard output (a refused write
		// there has nobody to be reported to).
		if i := strings.Index(out, "Throw::nocatch"); i >= 0 {
			out = out[:i]
		}
		// What was noted, in order.
		var told []bool // accepted
		failed := 0
		rest := strings.TrimSuffix(strings.TrimPrefix(res, "{"), "}")
		for _, p := range q.Pieces {
			a, b := fmt.Sprintf("{%d, Null}", p.K), fmt.Sprintf("{%d, $Failed}", p.K)
			if strings.HasPrefix(rest, a) {
				rest = strings.TrimPrefix(strings.TrimPrefix(rest, a), ", ")
				told = append(told, true)
			} else if strings.HasPrefix(rest, b) {
				rest = strings.TrimPrefix(strings.TrimPrefix(rest, b), ", ")
				told = append(told, false)
				failed++
			} else {
				break
			}
		}
		if len(told) < len(q.Pieces) || rest != "" || failed > n || !arrived(q.Pieces, told, out, err) {
			var want []string
			for _, p := range q.Pieces {
				want = append(want, fmt.Sprintf("%q", clip(p.S, 40)))
			}
			r.viol("output", "", "%s notes %s (%d writes were refused); standard output has %q and standard error %q; the pieces are %v", clip(q.In, 500), clip(res, 300), n, clip(out, 200), clip(err, 200), want)
			return
		}
		if failed < n && !strings.Contains(q.In, "Throw") {
			r.viol("unreported", "", "%s: %d writes were refused, but the program was told of %d (%s)", clip(q.In, 500), n, failed, clip(res, 300))
			return
		}
	}
}

// arrived says that the streams hold exactly the accepted pieces, in order, and
// no more than a part of each refused one.
func arrived(ps []piece, told []bool, out, err string) bool {
	if len(ps) == 0 {
		return out == "" && err == ""
	}
	p := ps[0]
	w := out
	if p.Err {
		w = err
	}
	go1 := func(n int) bool {
		if p.Err {
			return arrived(ps[1:], told[1:], out, err[n:])
		}
		return arrived(ps[1:], told[1:], out[n:], err)
	}
	if told[0] {
		return strings.HasPrefix(w, p.S) && go1(len(p.S))
	}
	k := 0
	for k < len(p.S) && k < len(w) && w[k] == p.S[k] {
		k++
	}
	for ; k >= 0; k-- {
		if go1(k) {
			return true
		}
	}
	return false
}
