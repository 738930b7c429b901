package main

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C26: the interactive program, from its standard input to its standard output.
//
// Lanes[0] are the lines, Pre is the file given with -initfile, Post says how
// the input arrives.

// replMain and replLine are set where the interactive program is part of the
// build: its main function and what its terminal library asks for a line.
var (
	replMain func()
	replLine func(func(prompt string) (string, error))
)

// Input is standard input.  It arrives as evs says and then all at once.
type Input struct {
	data []byte
	eio  int // offset of a read error, -1 if none
	evs  []Op
	r    *Report
}

func (in *Input) read(p []byte) (int, error) {
	n := len(p)
	for len(in.evs) > 0 {
		e := in.evs[0]
		in.evs = in.evs[1:]
		if e.K == "eintr" {
			in.r.inc("fault.stdin-eintr", 1)
			return -1, syscall.EINTR
		}
		if in.event(e) {
			continue
		}
		n = min(n, int(e.N))
		break
	}
	if in.eio >= 0 && n > in.eio {
		n = in.eio
	}
	if in.eio == 0 {
		in.r.inc("fault.stdin-eio", 1)
		return -1, syscall.EIO
	}
	n = copy(p[:n], in.data)
	in.data = in.data[n:]
	if in.eio > 0 {
		in.eio -= n
	}
	return n, nil
}

// event is what happens while the program waits for input.
func (in *Input) event(e Op) bool {
	switch e.K {
	case "int": // nothing is being evaluated
		simrt.Interrupt(func(simrt.SignalReg) bool { return true })
		time.Sleep(time.Second)
		in.r.inc("fault.interrupt-at-prompt", 1)
		in.r.Nontriv = true
	case "wait":
		time.Sleep(time.Duration(e.N))
	case "jump":
		simrt.Jump(e.N)
	default:
		return false
	}
	return true
}

// hist26 is the model of a run of the program.
type hist26 struct {
	hist
	want []string // what appears
}

// anyText stands for what is not foretold.
const anyText = "\x01"

var lits26 = []string{
	"1+(* c *)2 (* = 3 *)", "  7   (* = 7 *)", "\"\u00e4\u00f6\u4e2d\U0001F600\" (* = \"\u00e4\u00f6\u4e2d\U0001F600\" *)", "StringLength[\"a\\\\b\"] (* = 3 *)", "{} (* = {} *)", "dd[n_] := n + 1 (* = Null *)",
	"ee[3]+0*1 (* = ee[3] *)", "ParallelTable[i^2, {i, 5}] (* = {1, 4, 9, 16, 25} *)", "ParallelTable[Sum[j, {j, i}], {i, 4}] (* = {1, 3, 6, 10} *)", "\tTrue (* = True *)", "\"In[3]\" (* = \"In[3]\" *)",
	"-5 (* = -5 *)", "1; 2; 3; (* = Null *)", "x1 = 4; x1 (* = 4 *)", "\"%\" (* = \"%\" *)", "\"a b\" <> \"c\" (* = \"a bc\" *)", "Catch[Throw[8]; 9] (* = 8 *)", "Hold[%] (* = Hold[Out[$Line - 1]] *)",
}

var forms26 = []string{
	"FullForm[1 + a7] (* = //FullForm= Plus[1, a7] *)", "FullForm[{}] (* = //FullForm= List[] *)", "OutputForm[\"a b\"] (* = //OutputForm= a b *)", "OutputForm[{1, \"q\"}] (* = //OutputForm= {1, q} *)",
	"FullForm[\"s\"] (* = //FullForm= \"s\" *)", "FullForm[a7, b7] (* = = FullForm[a7, b7] *)",
}

// parts are the source of a line and what it answers.
func lit26(s string) (src, val string) {
	i := strings.LastIndex(s, " (* = ")
	return s[:i], s[i+6 : len(s)-3]
}

func (h *hist26) src(o Op) string {
	switch o.T {
	case "lit26", "form":
		s, _ := lit26(o.S)
		return s
	case "zero":
		return "hx = 0"
	case "long":
		return "StringLength[\"" + strings.Repeat("y", int(o.N)) + "\"]"
	case "prnl":
		return fmt.Sprintf(`Print[StringJoin["q", "%s"], %d]`, strings.Repeat("z", int(o.N)), o.N)
	}
	return o.histSrc()
}

// line is what the given line answers, whatever it prints being left in h.out.
func (h *hist26) line(o Op, n int) (string, bool) {
	switch o.T {
	case "lit26":
		_, v := lit26(o.S)
		return v, true
	case "form":
		_, v := lit26(o.S)
		return "\x00" + v, true
	case "zero":
		h.hx = 0
		return "0", true
	case "long":
		return fmt.Sprint(o.N), true
	case "prnl":
		h.out += "q" + strings.Repeat("z", int(o.N)) + fmt.Sprint(o.N) + "\n"
		return "Null", true
	case "loop":
		return "$Aborted", true
	}
	v, ok := h.ev(o, n)
	return v, ok && !strings.Contains(v, "\x00")
}

// loops are inputs which only an interrupt ends.
var loops26 = []string{"While[True, hz = 1]", "Do[hz = i, {i, 10^9}]", "Table[hz, {i, 10^8}]", "Module[{a = 1}, While[True, a = 3 - a]]", "ParallelTable[While[True, hz = i], {i, 2}]"}

func (g *Gen) line26(have int) Op {
	k := int64(g.N(have + 2))
	switch g.N(24) {
	case 0, 1, 2:
		return Op{T: "lit", S: g.Pick(histLits...)}
	case 3, 4, 5, 6:
		return Op{T: "lit26", S: g.Pick(lits26...)}
	case 7, 8:
		return Op{T: "cnt"}
	case 9:
		return Op{T: "rd"}
	case 10, 11:
		return Op{T: "out", N: k}
	case 12, 13:
		return Op{T: "in", N: k}
	case 14:
		return Op{T: g.Pick("pct", "pctl", "pct2")}
	case 15:
		return Op{T: "line"}
	case 16:
		return Op{T: "thr", N: int64(g.N(50))}
	case 17:
		return Op{T: g.Pick("prn", "cthr"), N: int64(g.N(50))}
	case 18:
		return Op{T: "syn", S: g.Pick("1 + ", "{1, 2", "f[x", `"unterminated`, "%3 + 1", "]", "1 = = 2", "x /. {", "a1 =.")}
	case 19:
		return Op{T: "loop", S: g.Pick(loops26...), A: []int64{int64(g.logN(30000))}}
	case 20:
		return Op{T: "empty"}
	case 21:
		return Op{T: "form", S: g.Pick(forms26...)}
	case 22:
		return Op{T: "long", N: int64(g.PickN(10, 1000, 4050, 4096, 4100, 8200, 70000))}
	}
	return Op{T: "prnl", N: int64(g.PickN(1, 100, 4096, 5000))}
}

// inits are the statements of a file.
func (g *Gen) file26(n int) []Op {
	var o []Op
	for ; n > 0; n-- {
		switch g.N(12) {
		case 0, 1, 2:
			o = append(o, Op{T: "cnt"})
		case 3, 4:
			o = append(o, Op{T: "prn", N: int64(g.N(50))})
		case 5:
			o = append(o, Op{T: "prnl", N: int64(g.PickN(1, 100, 5000))})
		case 6:
			o = append(o, Op{T: "lit", S: g.Pick("3 + 4 (* = 7 *)", "{1, 1 + 1} (* = {1, 2} *)", "Table[i, {i, 3}] (* = {1, 2, 3} *)", "ParallelTable[i, {i, 3}] (* = {1, 2, 3} *)", "a1; 2 (* = 2 *)")})
		case 7:
			o = append(o, Op{T: "cthr", N: int64(g.N(50))})
		case 8:
			o = append(o, Op{T: "rd"})
		case 9:
			if g.P(0.4) {
				o = append(o, Op{T: "thr", N: int64(g.N(50))})
			}
		case 10:
			if g.P(0.4) {
				o = append(o, Op{T: "loop", S: g.Pick(loops26...), A: []int64{int64(g.logN(30000))}})
			}
		case 11:
			o = append(o, Op{T: "prs"})
		}
	}
	return o
}

func init() {
	register(&Scenario{
		Prop:  "C26",
		Rule:  "the input came in pieces, was interrupted or ended with an error, or an interrupt reached the program",
		Real:  append([]string{"the interactive program of the repository's root, bufio, flag and os down to the system call"}, realCore...),
		Stub:  append([]string{"standard input and output behind a simulated system call layer; the terminal library gopkg.in/readline.v1; the profiling server"}, stubCore...),
		Quick: 330, Thor: 150000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "repl", Plan: g.plan(), Opt: map[string]int64{}}
			c.Plan.Max = 200_000_000
			c.Opt["raw"] = int64(g.N(4))
			c.Opt["noeol"] = int64(g.N(2))
			c.Opt["crlf"] = int64(g.N(5))
			if g.P(0.4) {
				c.Opt["init"] = 1
				c.Pre = g.file26(g.Between(0, 8))
			}
			var o []Op
			if g.P(0.12) {
				c.Opt["script"] = 1
				o = g.file26(g.Between(1, 12))
			} else {
				o = append(o, Op{T: "zero"})
				for i := g.Between(2, 25); i > 0; i-- {
					o = append(o, g.line26(len(o)))
				}
			}
			c.Lanes = [][]Op{o}
			var evs []Op
			if g.P(0.8) {
				size := func() int64 { return 1 + int64(g.N(60)) }
				switch g.N(5) {
				case 0:
					size = func() int64 { return 1 }
				case 1:
					size = func() int64 { return g.PickI(4096, 4095, 100, 7, 1) }
				}
				for i := g.N(120); i > 0; i-- {
					switch g.N(14) {
					case 0:
						evs = append(evs, Op{K: "eintr"})
					case 1:
						if g.P(0.3) {
							evs = append(evs, Op{K: "int"})
						}
					case 2:
						evs = append(evs, Op{K: g.Pick("wait", "jump"), N: int64(g.logN(1 << 40))})
					default:
						evs = append(evs, Op{K: "chunk", N: size()})
					}
				}
			}
			c.Post = evs
			c.Opt["eio"] = -1
			if g.P(0.15) {
				c.Opt["eio"] = int64(g.N(1001))
			}
			for i := g.N(4); i > 0; i-- {
				c.Faults = append(c.Faults, Fault{N: int64(g.Between(1, 60)), How: g.Pick("short", "eintr"), Arg: int64(g.N(9000))})
			}
			return c
		},
		Exec: execC26,
	})
}

// file is what running the statements of a file prints, and its text.
func (h *hist26) file(o []Op, interactive bool) (text string, arms []int64) {
	var b strings.Builder
	b.WriteString("hx = 0\n")
	h.hx = 0
	for i, x := range o {
		if i%3 == 1 {
			b.WriteString("(* a comment *)\n\n")
		}
		switch x.T {
		case "prs":
			b.WriteString("Print[\n  \"m\",\n 1 + 1\n]\n")
			h.want = append(h.want, "m2\n")
			continue
		case "loop":
			b.WriteString("Print[\"@go\"];\n" + x.S + "\n")
			h.want = append(h.want, "@go\n", anyText)
			arms = append(arms, x.A[0])
		case "thr":
			b.WriteString(h.src(x) + "\n")
			h.want = append(h.want, fmt.Sprintf("Throw::nocatch: Throw[%d] returned to top level but uncaught.\n\n", x.N))
		default:
			b.WriteString(h.src(x) + "\n")
			h.out = ""
			h.line(x, 1)
			h.want = append(h.want, h.out)
			continue
		}
		// The rest is not run.
		for _, x := range o[i+1:] {
			b.WriteString(h.src(x) + "\n")
		}
		break
	}
	return b.String(), arms
}

func execC26(c *Case, r *Report) {
	if replMain == nil {
		r.Err = "the build has no interactive program"
		return
	}
	d := newDisk()
	defer d.remove()
	args := []string{"expreduce"}
	raw := c.Opt["raw"] != 0
	if raw {
		args = append(args, "-rawterm")
	}
	h := &hist26{}
	h.want = append(h.want, "Welcome to Expreduce!\n\n")
	var arms []int64
	if c.Opt["init"] == 1 {
		text, a := h.file(c.Pre, true)
		arms = append(arms, a...)
		args = append(args, "-initfile", d.seedFile("init.m", []byte(text)))
	}
	in := &Input{r: r, eio: -1, evs: append([]Op(nil), c.Post...)}
	var lines []string
	var prompts []string // before every answered line
	loops := map[int]int64{}
	if c.Opt["script"] == 1 {
		text, a := h.file(c.Lanes[0], false)
		arms = append(arms, a...)
		args = append(args, "-script", d.seedFile("script.m", []byte(text)))
		in.data = []byte("Print[\"not for the program\"]\n")
	} else {
		eol := "\n"
		if raw && c.Opt["crlf"] == 1 {
			eol = "\r\n"
		}
		// A read error cuts off what follows it.
		limit := -1
		var all strings.Builder
		add := func(cut bool) {
			h2 := &hist26{hist: hist{hx: h.hx}, want: append([]string(nil), h.want...)}
			lines, prompts = nil, nil
			loops = map[int]int64{}
			all.Reset()
			for _, o := range c.Lanes[0] {
				n := len(h2.vals) + 1
				if o.T == "empty" {
					if cut && all.Len()+len(eol) > limit {
						break
					}
					lines = append(lines, "")
					all.WriteString(eol)
					h2.want = append(h2.want, fmt.Sprintf("In[%d]:= ", n))
					continue
				}
				if o.T == "in" && int(o.N) == n {
					o.N++
				}
				hx := h2.hx
				h2.out = ""
				v, ok := h2.line(o, n)
				if !ok {
					h2.hx = hx
					continue
				}
				src := h2.src(o)
				if cut && all.Len()+len(src)+len(eol) > limit {
					break
				}
				lines = append(lines, src)
				all.WriteString(src + eol)
				h2.want = append(h2.want, fmt.Sprintf("In[%d]:= ", n), "\n")
				if o.T == "loop" || o.T == "syn" || o.T == "in" {
					h2.want = append(h2.want, anyText)
				}
				h2.want = append(h2.want, h2.out)
				prompts = append(prompts, fmt.Sprintf("In[%d]:= \n", n))
				if o.T == "loop" {
					loops[n] = o.A[0]
				}
				h2.ops = append(h2.ops, o)
				h2.vals = append(h2.vals, v)
				switch {
				case v == "Null":
				case o.T == "form":
					h2.want = append(h2.want, fmt.Sprintf("Out[%d]%s\n\n", n, v[1:]))
				default:
					h2.want = append(h2.want, fmt.Sprintf("Out[%d]= %s\n\n", n, v))
				}
			}
			h2.want = append(h2.want, fmt.Sprintf("In[%d]:= ", len(h2.vals)+1))
			if cut || c.Opt["eio"] < 0 || !raw {
				*h = *h2
			}
		}
		add(false)
		in.data = []byte(all.String())
		if raw && c.Opt["eio"] >= 0 {
			limit = int(c.Opt["eio"]) * len(in.data) / 1000
			in.eio = limit
			add(true)
		} else if c.Opt["noeol"] == 1 && len(lines) > 0 && lines[len(lines)-1] != "" {
			in.data = []byte(strings.TrimSuffix(string(in.data), eol))
		}
	}
	ctrlC := c.Opt["noeol"] == 1
	k := 0
	l := &Lane{Disk: d, In: in, Strm: &Streams{Only: 1, Faults: c.Faults, Fired: map[string]int{}}}
	replLine(func(prompt string) (string, error) {
		l.Out = append(l.Out, prompt...)
		simrt.ClearEvents()
		for len(in.evs) > 0 && in.event(in.evs[0]) {
			in.evs = in.evs[1:]
		}
		if len(in.evs) > 0 {
			in.evs = in.evs[1:]
		}
		if k == len(lines) {
			if ctrlC {
				return "", errors.New("Interrupt")
			}
			return "", io.EOF
		}
		k++
		return lines[k-1], nil
	})
	// Endless evaluations are interrupted.
	seen, next := 0, 0
	arm := func(n int64) {
		simrt.After(uint64(n)+entrySteps, simrt.Event{Kind: "int"})
		r.inc("fault.interrupt", 1)
		r.Nontriv = true
	}
	l.OnOut = func() {
		out := string(l.Out[seen:])
		if strings.HasSuffix(out, "]:= ") {
			simrt.ClearEvents() // the line has been answered
		}
		if i := strings.Index(out, "@go\n"); i >= 0 && len(arms) > 0 {
			seen += i + 4
			arm(arms[0])
			arms = arms[1:]
		} else if next < len(prompts) && strings.HasSuffix(out, prompts[next]) {
			seen = len(l.Out)
			next++
			if n, ok := loops[next]; ok {
				arm(n)
			}
		}
	}
	flag.CommandLine.VisitAll(func(f *flag.Flag) {
		if !strings.HasPrefix(f.Name, "test.") {
			f.Value.Set(f.DefValue)
		}
	})
	old := os.Args
	os.Args = args
	panicked := ""
	intState.fired, intState.late, intState.bound = 0, false, true
	var task *simrt.Task
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		return []simrt.Spec{{Data: l, Fn: func() {
			task = simrt.Cur()
			panicked = guard(func() string { replMain(); return "" })
		}}}
	})
	os.Args = old
	r.status(res)
	for h, n := range l.Strm.Fired {
		r.inc("fault.stdout-"+h, int64(n))
		r.Nontriv = true
	}
	if len(c.Post) > 0 {
		r.Nontriv = true
	}
	out := string(l.Out)
	r.mix(out)
	r.mark(strHash(out))
	r.inc("lines", int64(len(lines)))
	what := fmt.Sprintf("%v", args[1:])
	if c.Opt["script"] != 1 {
		var short []string
		for _, l := range lines {
			short = append(short, clip(l, 60))
		}
		what += fmt.Sprintf(" with the lines %q", short)
	}
	if c.Opt["init"] == 1 {
		what += fmt.Sprintf(" after the file %q", d.files()["init.m"])
	}
	if c.Opt["script"] == 1 {
		what += fmt.Sprintf(" script %q", d.files()["script.m"])
	}
	if panicked != "" {
		r.viol("panic", "", "%s at the end of %q; the program was run as %s", panicked, tailOf(out, 200), clip(what, 900))
		return
	}
	if task != nil && task.Exited > 0 {
		r.viol("exit", "", "exit status %d at the end of %q; the program was run as %s", task.Exited, tailOf(out, 200), clip(what, 900))
		return
	}
	if res.Status != "ok" {
		if len(r.Viols) > 0 {
			r.Viols[0].Msg += fmt.Sprintf("; at the end of %q; the program was run as %s", tailOf(out, 200), clip(what, 900))
		}
		return
	}
	if at, want := h.match(out); at >= 0 {
		r.viol("transcript", "", "after %q the program shows %q instead of %q; it was run as %s", tailOf(out[:at], 200), clip(out[at:], 200), clip(want, 200), clip(what, 900))
	}
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// match compares a transcript with the pieces it should consist of: -1, or where
// it differs and what should be there.
func (h *hist26) match(out string) (int, string) {
	at := 0
	any := false
	for _, w := range h.want {
		if w == anyText {
			any = true
			continue
		}
		if w == "" {
			continue
		}
		j := 0
		if any {
			j = strings.Index(out[at:], w)
			if j < 0 || strings.Contains(out[at:at+j], "In[") && strings.Contains(out[at:at+j], "]:= ") {
				return at, w
			}
		} else if !strings.HasPrefix(out[at:], w) {
			return at, w
		}
		any = false
		at += j + len(w)
	}
	if at < len(out) && !any {
		return at, ""
	}
	return -1, ""
}
