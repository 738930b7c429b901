package main

import (
	"encoding/json"
	"math/big"
	"regexp"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C25: iterations against a model.  Ops: it (S: an iteration as JSON, see itn;
// T: how its points are observed, "print" or "sow"; A: interrupted), set (S a
// variable gets the value T), rng (S a Range, T its arguments as JSON).

// itn is an iteration: a construct, what is iterated over, and a body.
type itn struct {
	Con   string  // Table Do Sum Product ParallelTable
	Specs []ispec `json:",omitempty"`
	Body  []istep `json:",omitempty"`
}

// ispec is one specification.
type ispec struct {
	V    string
	List []string `json:",omitempty"`
	L    bool     `json:",omitempty"` // a list, maybe empty
	B    []string `json:",omitempty"` // max; min and max; min, max and step
}

// istep is a statement of a body: pt (the variables are noted), def (the same by
// way of a definition), set (V gets W),
// clear, thr (an exception if V is W), it.
type istep struct {
	K    string
	V, W string `json:",omitempty"`
	It   *itn   `json:",omitempty"`
}

var itVars = []string{"i", "j", "k"}

func (s ispec) src() string {
	if s.L {
		return "{" + s.V + ", {" + strings.Join(s.List, ", ") + "}}"
	}
	return "{" + s.V + ", " + strings.Join(s.B, ", ") + "}"
}

const notePt = "p[i, j, k, n1]"

func (n *itn) src(note string) string {
	var b []string
	for _, s := range n.Body {
		switch s.K {
		case "pt":
			b = append(b, note+"["+notePt+"]")
		case "def":
			b = append(b, note+"[zd]")
		case "set":
			b = append(b, s.V+" = "+s.W)
		case "clear":
			b = append(b, "Clear["+s.V+"]")
		case "thr":
			b = append(b, "If["+s.V+" === "+s.W+", Throw[th]]")
		case "it":
			b = append(b, note+"["+s.It.src(note)+"]")
		}
	}
	switch n.Con {
	case "Table", "ParallelTable":
		b = append(b, notePt)
	case "Sum":
		b = append(b, "1")
	case "Product":
		b = append(b, "2")
	default:
		b = append(b, "0")
	}
	s := n.Con + "[" + strings.Join(b, "; ")
	for _, x := range n.Specs {
		s += ", " + x.src()
	}
	return s + "]"
}

// inum is a number; real ones are multiples of 1/8.
type inum struct {
	r    *big.Rat
	real bool
}

func readNum(s string) (inum, bool) {
	n := inum{real: strings.Contains(s, ".")}
	var ok bool
	n.r, ok = new(big.Rat).SetString(strings.TrimSuffix(s, "."))
	return n, ok
}

func (n inum) String() string {
	switch {
	case n.real && n.r.IsInt():
		return n.r.Num().String() + "."
	case n.real:
		return strings.TrimRight(n.r.FloatString(6), "0")
	case n.r.IsInt():
		return n.r.Num().String()
	}
	return n.r.String()
}

// itModel interprets iterations.
type itModel struct {
	env   map[string]string // values of variables
	notes []string
	max   int // notes at most
	cut   bool
	skip  bool
	steps int
}

type itThrow struct{}
type itCut struct{}

// itSkip: real numbers that are not exact in binary are not for this model.
type itSkip struct{}

func (m *itModel) val(v string) string {
	if x, ok := m.env[v]; ok {
		return x
	}
	return v
}

func (m *itModel) pt() string {
	return "p[" + m.val("i") + ", " + m.val("j") + ", " + m.val("k") + ", " + m.val("n1") + "]"
}

func (m *itModel) note(s string) {
	if len(m.notes) >= m.max {
		panic(itCut{})
	}
	m.notes = append(m.notes, s)
}

// bound is a bound's value.
func (m *itModel) bound(s string) inum {
	switch s {
	case "n1":
		s = m.val(s)
	case "1 + 2", "6/2":
		s = "3"
	case "10^9":
		s = "1000000000"
	}
	n, ok := readNum(s)
	if !ok {
		panic("bound " + s)
	}
	return n
}

// points gives the points of a specification one after the other.
func (m *itModel) points(s ispec) func(n int) (string, bool) {
	if s.L {
		return func(n int) (string, bool) {
			if n < len(s.List) {
				return s.List[n], true
			}
			return "", false
		}
	}
	var b []inum
	for _, x := range s.B {
		b = append(b, m.bound(x))
	}
	one := inum{r: big.NewRat(1, 1)}
	lo, hi, step := one, one, one
	switch len(b) {
	case 1:
		hi = b[0]
	case 2:
		lo, hi = b[0], b[1]
	case 3:
		lo, hi, step = b[0], b[1], b[2]
	}
	for _, x := range append(b, lo, step) {
		if d := x.r.Denom().Int64(); (lo.real || step.real || hi.real) && d&(d-1) != 0 {
			panic(itSkip{})
		}
	}
	return func(n int) (string, bool) {
		v := new(big.Rat).Mul(big.NewRat(int64(n), 1), step.r)
		v.Add(v, lo.r)
		c := v.Cmp(hi.r)
		if c > 0 && step.r.Sign() > 0 || c < 0 && step.r.Sign() < 0 {
			return "", false
		}
		return inum{v, lo.real || step.real}.String(), true
	}
}

func (m *itModel) run(n *itn) string {
	var pts []func(int) (string, bool)
	for _, s := range n.Specs {
		pts = append(pts, m.points(s))
	}
	was := map[string]string{}
	had := map[string]bool{}
	for _, s := range n.Specs {
		was[s.V], had[s.V] = m.env[s.V], false
		_, had[s.V] = m.env[s.V]
	}
	defer func() {
		for v := range was {
			if had[v] {
				m.env[v] = was[v]
			} else {
				delete(m.env, v)
			}
		}
	}()
	var vals []string
	count := 0
	at := make([]string, len(pts))
	var rec func(d int)
	rec = func(d int) {
		if d < len(pts) {
			for i := 0; ; i++ {
				v, ok := pts[d](i)
				if !ok {
					return
				}
				at[d] = v
				rec(d + 1)
			}
		}
		for i, s := range n.Specs {
			m.env[s.V] = at[i]
		}
		m.steps++
		if m.steps > 4*m.max {
			panic(itCut{})
		}
		for _, s := range n.Body {
			switch s.K {
			case "pt", "def":
				m.note(m.pt())
			case "set":
				m.env[s.V] = s.W
			case "clear":
				delete(m.env, s.V)
			case "thr":
				if m.val(s.V) == s.W {
					panic(itThrow{})
				}
			case "it":
				m.note(m.run(s.It))
			}
		}
		count++
		if n.Con == "Table" || n.Con == "ParallelTable" {
			vals = append(vals, m.pt())
		}
	}
	empty := false
	for _, p := range pts {
		_, any := p(0)
		empty = empty || !any
	}
	if !empty {
		rec(0)
	}
	switch n.Con {
	case "Sum":
		return itoa(count)
	case "Product":
		return new(big.Int).Lsh(big.NewInt(1), uint(count)).String()
	case "Do":
		return "Null"
	}
	return "{" + strings.Join(vals, ", ") + "}"
}

// all runs an iteration to its end, its exception or as far as the model goes.
func (m *itModel) all(n *itn) (val string) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case itThrow:
			val = "th"
		case itCut:
			m.cut = true
		case itSkip:
			m.skip = true
		default:
			panic(x)
		}
	}()
	return m.run(n)
}

func (g *Gen) itNum() string {
	return g.Pick("1", "2", "3", "0", "-1", "4", "5", "-2", "1/2", "3/2", "-1/2", "5/3", "0.5", "2.", "1.25", "-0.75", "0.", "3.", "n1", "n1", "1 + 2", "6/2", "10")
}

func (g *Gen) ispec(v string, big bool) ispec {
	s := ispec{V: v}
	switch k := g.N(12); {
	case k < 3:
		s.B = []string{g.Pick("1", "2", "3", "0", "5/2", "2.5", "n1", "-1", "4", "1 + 2")}
	case k < 5:
		s.B = []string{g.itNum(), g.itNum()}
	case k < 10:
		s.B = []string{g.itNum(), g.itNum(), g.Pick("1", "-1", "2", "-2", "1/2", "-1/2", "1/3", "-2/3", "0.5", "-0.25", "-1.", "3", "0.75", "-3/2")}
	default:
		s.L = true
		for n := g.N(4); n > 0; n-- {
			s.List = append(s.List, g.Pick("a", "b", "{1, 2}", "f[2]", "7", "2", "-0.5", "{}", "1"))
		}
	}
	if g.P(0.06) { // around the ends of the machine's integers
		s = ispec{V: v, B: [][]string{
			{"9223372036854775805", "9223372036854775809"}, {"-9223372036854775807", "-9223372036854775810", "-1"},
			{"4611686018427387904", "18446744073709551616", "4611686018427387904"}, {"-9223372036854775808", "9223372036854775807", "9223372036854775807"},
			{"18446744073709551614", "18446744073709551617"}, {"4294967294", "4294967297"}, {"2147483646", "2147483649"}, {"9223372036854775807", "9223372036854775806", "-1"},
			{"9223372036854775807", "9223372036854775809", "1/2"}, {"0", "-20000000000000000000", "-9223372036854775808"},
		}[g.N(10)]}
	}
	if big {
		s = ispec{V: v, B: [][]string{{"10^9"}, {"0", "10^9", "1/2"}, {"3", "-1000000000", "-1"}, {"1", "10^9"}}[g.N(4)]}
	}
	return s
}

// itOpt says what a body may do.
type itOpt struct {
	par, thr, big bool
	own           []string // variables it may change
	lex           []string // variables of parallel tables around: replaced in the body
}

func (g *Gen) itn(d int, o itOpt) *itn {
	n := &itn{Con: g.Pick("Table", "Table", "Do", "Do", "Sum", "Product")}
	if o.par && g.P(0.5) {
		n.Con = "ParallelTable"
	}
	var vs []string
	for _, v := range itVars {
		if !strings.Contains(strings.Join(o.lex, ""), v) {
			vs = append(vs, v)
		}
	}
	for i := g.Pick("1", "1", "1", "2", "2", "3")[0] - '0'; i > 0 && len(vs) > 0; i-- {
		k := g.N(len(vs))
		n.Specs = append(n.Specs, g.ispec(vs[k], false))
		vs = append(vs[:k], vs[k+1:]...)
	}
	if o.big && g.P(0.5) {
		n.Con = g.Pick("Do", "Sum", "Table")
		n.Specs[0] = g.ispec(n.Specs[0].V, true)
	}
	in := o
	in.big = false
	in.own = append([]string(nil), in.own...)
	in.lex = append([]string(nil), in.lex...)
	if n.Con == "ParallelTable" {
		in.thr, in.own = false, nil
	}
	for _, s := range n.Specs {
		if n.Con == "ParallelTable" {
			in.lex = append(in.lex, s.V)
		} else {
			in.own = append(in.own, s.V)
		}
	}
	for i := g.Between(1, 4); i > 0; i-- {
		switch k := g.N(11); {
		case k < 3 || k < 6 && len(in.own) == 0:
			n.Body = append(n.Body, istep{K: "pt"})
		case k == 3: // as seen by a definition
			n.Body = append(n.Body, istep{K: "def"})
		case k < 5:
			v := g.Pick(in.own...)
			n.Body = append(n.Body, istep{K: "set", V: v, W: g.Pick("99", "a", "2", "5.5")})
			if v == "n1" {
				n.Body[len(n.Body)-1].W = g.Pick("1", "2", "4", "3/2", "0")
			}
		case k < 6:
			v := g.Pick(in.own...)
			if v == "n1" { // bounds are numbers
				n.Body = append(n.Body, istep{K: "pt"})
				continue
			}
			n.Body = append(n.Body, istep{K: "clear", V: v})
		case k < 7 && in.thr:
			n.Body = append(n.Body, istep{K: "thr", V: g.Pick(itVars...), W: g.Pick("2", "3", "1", "5", "a", "2.", "1/2", "0", "-7")})
		case d > 0 && len(in.lex) < len(itVars):
			n.Body = append(n.Body, istep{K: "it", It: g.itn(d-1, in)}, istep{K: "pt"})
		default:
			n.Body = append(n.Body, istep{K: "pt"})
		}
	}
	if n.Con == "Do" {
		n.Body = append(n.Body, istep{K: "pt"})
	}
	return n
}

func init() {
	register(&Scenario{
		Prop: "C25",
		Rule: "iterations over one variable were nested, concurrent, left by an exception or interrupted, and visited at least 3 points",
		Real: realCore, Stub: stubCore,
		Quick: 800, Thor: 250000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "iterate", Plan: g.plan()}
			c.Plan.Max = 40_000_000
			lanes := 1
			if g.P(0.3) {
				lanes = g.Between(2, 3)
			}
			for ; lanes > 0; lanes-- {
				var ops []Op
				env := map[string]string{"n1": "3"}
				for j := g.Between(3, 8); j > 0; j-- {
					if g.P(0.2) {
						x := Op{K: "set", S: g.Pick(itVars...), T: g.Pick("41", "val", "1/2", "clear")}
						if g.P(0.3) {
							x = Op{K: "set", S: "n1", T: g.Pick("1", "2", "3", "5/2", "2.", "0")}
						}
						setEnv(env, x)
						ops = append(ops, x)
						continue
					}
					if g.P(0.15) {
						b := []string{g.itNum()}
						for k := g.N(3); k > 0; k-- {
							b = append(b, g.itNum())
						}
						if len(b) == 3 {
							b[2] = g.Pick("1", "-1", "2", "1/2", "-1/3", "0.5", "-0.25")
						}
						x, _ := json.Marshal(ispec{B: b})
						ops = append(ops, Op{K: "rng", S: string(x)})
						continue
					}
					o := itOpt{own: []string{"n1"}}
					x := Op{K: "it", T: "print"}
					if g.P(0.4) {
						x.T, o.par = "sow", true
					} else {
						o.thr = g.P(0.5)
						if g.P(0.35) {
							x.A = []int64{int64(g.logN(60000))}
							o.big = g.P(0.5)
						}
						o.big = o.big || o.thr && g.P(0.2)
					}
					n := g.itn(2, o)
					m := newItModel(env)
					v := m.all(n)
					if m.skip || m.cut && len(x.A) == 0 || len(m.notes) > 200 && o.par || len(v) > 8000 {
						j++
						continue
					}
					if m.cut {
						x.A = []int64{int64(g.logN(200000))}
					}
					b, _ := json.Marshal(n)
					x.S = string(b)
					if len(x.A) == 0 {
						env = m.env
					} else {
						// Where it stops is not known: the variables are set anew.
						ops = append(ops, x)
						x = Op{K: "set", S: "n1", T: "3"}
						setEnv(env, x)
					}
					ops = append(ops, x)
				}
				c.Lanes = append(c.Lanes, ops)
			}
			return c
		},
		Exec: execC25,
	})
}

func setEnv(env map[string]string, x Op) {
	if x.T == "clear" {
		delete(env, x.S)
	} else {
		env[x.S] = x.T
	}
}

func newItModel(env map[string]string) *itModel {
	m := &itModel{env: map[string]string{}, max: 600}
	for k, v := range env {
		m.env[k] = v
	}
	return m
}

func execC25(c *Case, r *Report) {
	solo := len(c.Lanes) == 1
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		var specs []simrt.Spec
		for i, ops := range c.Lanes {
			l := &Lane{ID: i, Es: newSession()}
			i, ops := i, ops
			specs = append(specs, simrt.Spec{Data: l, Fn: func() { inLane(i, func() { r.iterations(l, ops, solo) }) }})
		}
		return specs
	})
	r.status(res)
	r.Nontriv = r.Nontriv || len(c.Lanes) > 1 && len(res.Switches) >= 4
}

var itNote = regexp.MustCompile(`^(p\[|\{|Null$|[0-9]+$)`)

var noParen = strings.NewReplacer("(", "", ")", "")

// iterations carries out the operations of one session.
func (r *Report) iterations(l *Lane, ops []Op, ints bool) {
	env := map[string]string{"n1": "3"}
	l.raw("n1 = 3; zd := " + notePt)
	for _, o := range ops {
		switch o.K {
		case "set":
			setEnv(env, o)
			if o.T == "clear" {
				l.raw("Clear[" + o.S + "]")
			} else {
				l.raw(o.S + " = " + o.T)
			}
		case "rng":
			var s ispec
			if json.Unmarshal([]byte(o.S), &s) != nil {
				continue
			}
			m := newItModel(env)
			var next func(int) (string, bool)
			func() {
				defer func() { recover() }()
				next = m.points(s)
			}()
			if next == nil {
				continue
			}
			want := []string{}
			for n := 0; n < 5000; n++ {
				v, ok := next(n)
				if !ok {
					break
				}
				want = append(want, v)
			}
			src := "Range[" + strings.Join(s.B, ", ") + "]"
			got, w := noParen.Replace(l.raw(src)), "{"+strings.Join(want, ", ")+"}"
			r.mix(got)
			r.inc("points", int64(len(want)))
			if got != w {
				r.viol("range", "", "%s gives %s, not %s (n1 is %s)", src, clip(got, 400), clip(w, 400), env["n1"])
				return
			}
		case "it":
			n := &itn{}
			if json.Unmarshal([]byte(o.S), n) != nil {
				continue
			}
			if !r.iteration(l, o, n, env, ints) {
				return
			}
		}
		l.takeOut()
	}
}

// iteration carries out one of them and compares.
func (r *Report) iteration(l *Lane, o Op, n *itn, env map[string]string, ints bool) bool {
	note := "Print"
	src := ""
	if o.T == "sow" {
		note = "Sow"
		src = "Reap[" + n.src(note) + "]"
	} else {
		src = "Catch[" + n.src(note) + "]"
	}
	before := map[string]string{}
	for k, v := range env {
		before[k] = v
	}
	m := newItModel(env)
	val := m.all(n)
	if m.skip {
		return true
	}
	show := func() string {
		var s []string
		for _, k := range sortedKeys(before) {
			s = append(s, k+" = "+before[k])
		}
		return src + " (with " + strings.Join(s, ", ") + ")"
	}
	l.takeOut()
	got, fired := "", 0
	if len(o.A) > 0 && ints {
		got, fired = interrupted(l, o.A, false, func() string { return l.raw(src) })
		r.inc("interrupts", int64(fired))
	} else if m.cut {
		return true // only an interrupt ends it
	} else {
		got = l.raw(src)
	}
	got = noParen.Replace(got)
	out := noParen.Replace(l.takeOut())
	r.mix(got + out)
	if n.mixed() || fired > 0 || val == "th" {
		r.Nontriv = r.Nontriv || len(m.notes) >= 3
	}
	aborted := fired > 0 && got == "$Aborted"
	if o.T == "sow" && !aborted {
		want := "{" + val + ", {{" + strings.Join(m.notes, ", ") + "}}}"
		if got != want {
			r.viol("points", "", "%s gives %s, not %s", show(), clip(got, 600), clip(want, 600))
			return false
		}
	}
	if o.T == "print" {
		lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
		if out == "" {
			lines = nil
		}
		if aborted {
			// Interrupted definitions print what they were evaluating.
			for len(lines) > 0 && !itNote.MatchString(lines[len(lines)-1]) {
				lines = lines[:len(lines)-1]
			}
		}
		for i, s := range lines {
			if i >= len(m.notes) && m.cut {
				break
			}
			if i >= len(m.notes) || s != m.notes[i] {
				r.viol("points", "", "%s: point %d is %s, not %s", show(), i+1, clip(s, 300), clip(strings.Join(append(m.notes, "the end")[i:][:1], ""), 300))
				return false
			}
		}
		if !aborted {
			if m.cut {
				r.viol("end", "", "%s ends with %s after %d points", show(), clip(got, 300), len(lines))
				return false
			}
			if len(lines) != len(m.notes) {
				r.viol("points", "", "%s visits %d points, not %d: then %s is missing", show(), len(lines), len(m.notes), clip(m.notes[len(lines)], 300))
				return false
			}
			if got != val {
				r.viol("value", "", "%s gives %s, not %s", show(), clip(got, 400), clip(val, 400))
				return false
			}
		}
		r.inc("points", int64(len(lines)))
	} else {
		r.inc("points", int64(len(m.notes)))
	}
	r.inc("iterations", 1)
	r.mark(strHash(src))
	// The variables iterated over have their values back.
	now := noParen.Replace(l.raw("p[i, j, k, n1]"))
	for k := range env {
		delete(env, k)
	}
	for k, v := range m.env {
		env[k] = v
	}
	if len(o.A) > 0 && ints && aborted {
		// Which of the variables the body changed beyond its iterations is not
		// known; those it cannot have changed are.
		f := strings.Split(strings.TrimSuffix(strings.TrimPrefix(now, "p["), "]"), ", ")
		ch := map[string]bool{}
		n.changes(ch, map[string]bool{})
		for i, v := range append(append([]string(nil), itVars...), "n1") {
			if ch[v] || i >= len(f) {
				continue
			}
			want := v
			if x, ok := before[v]; ok {
				want = x
			}
			if f[i] != want {
				r.viol("restore", "", "after %s, interrupted, %s is %s", show(), v, f[i])
				return false
			}
		}
		for _, v := range itVars {
			l.raw("Clear[" + v + "]")
			delete(env, v)
			if x, ok := before[v]; ok {
				l.raw(v + " = " + x)
				env[v] = x
			}
		}
		l.raw("n1 = 3")
		env["n1"] = "3"
		return true
	}
	if want := m.pt(); now != want {
		r.viol("restore", "", "after %s the variables are %s, not %s", show(), now, want)
		return false
	}
	return true
}

// mixed: an iteration within another over one of its variables, or concurrent.
func (n *itn) mixed() bool {
	vs := map[string]bool{}
	for _, s := range n.Specs {
		vs[s.V] = true
	}
	var in func(*itn) bool
	in = func(x *itn) bool {
		if x.Con == "ParallelTable" {
			return true
		}
		for _, b := range x.Body {
			if b.K == "it" {
				for _, s := range b.It.Specs {
					if vs[s.V] {
						return true
					}
				}
				if in(b.It) {
					return true
				}
			}
		}
		return false
	}
	return in(n)
}

// changes are the variables an iteration may leave changed.
func (n *itn) changes(ch, bound map[string]bool) {
	b := map[string]bool{}
	for v := range bound {
		b[v] = true
	}
	for _, s := range n.Specs {
		b[s.V] = true
	}
	for _, s := range n.Body {
		switch s.K {
		case "set", "clear":
			if !b[s.V] {
				ch[s.V] = true
			}
		case "it":
			s.It.changes(ch, b)
		}
	}
}
