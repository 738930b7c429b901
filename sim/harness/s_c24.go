package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/matcher"
	"github.com/corywalker/expreduce/expreduce/parser"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C24: enumerations of matches.  An enumeration is a pair of an expression and a
// pattern, written E => P.  Ops: rl (S enumerated by ReplaceList, A: interrupted),
// par (several, separated by \x01, by concurrent elements), iters (several
// iterators stepped alternately in the order A; N says when something else is
// evaluated in between), nest (one within the test of another).

// pn is a node of an expression or pattern: a head with arguments, an atom, or a
// blank (1 one, 2 one or more, 3 any number) with name and head wanted.
type pn struct {
	head  string
	args  []*pn
	atom  string
	blank int
	name  string
	typ   string
	alt   []string // alternatives of atoms, with a name
	wrap  string   // what the blank or atom is wrapped in, see wraps
}

// wraps are constructs around a single blank: a condition on its name, a test, one
// without effect, and repetitions of it.
var wraps = map[string]bool{"Condition": true, "PatternTest": true, "HoldPattern": true, "Repeated": true}

// tested says what the function tq, with which patterns test, answers.
func tested(e *pn) bool { return e.head == "" && (e.atom == "a" || e.atom == "b" || e.atom == "2") }

const tqDef = "tq[e_] := e === a || e === b || e === 2"

func (p *pn) String() string {
	if p.wrap != "" {
		q := *p
		q.wrap = ""
		s := p.wrap + "[" + q.String()
		switch p.wrap {
		case "Condition":
			s += ", tq[" + p.name + "]"
		case "PatternTest":
			s += ", tq"
		}
		return s + "]"
	}
	switch {
	case p.blank > 0:
		return p.name + strings.Repeat("_", p.blank) + p.typ
	case len(p.alt) > 0:
		s := "(" + strings.Join(p.alt, " | ") + ")"
		if p.name != "" {
			s = p.name + ":" + s
		}
		return s
	case p.head != "":
		var a []string
		for _, x := range p.args {
			a = append(a, x.String())
		}
		return p.head + "[" + strings.Join(a, ", ") + "]"
	}
	return p.atom
}

// parsePn reads what String writes, without alternatives inside expressions.
func parsePn(s string) *pn {
	i := 0
	var rd func() *pn
	rd = func() *pn {
		for i < len(s) && s[i] == ' ' {
			i++
		}
		j := i
		for i < len(s) && !strings.ContainsRune("[], (:_|)", rune(s[i])) {
			i++
		}
		word := s[j:i]
		switch {
		case i < len(s) && s[i] == '[':
			p := &pn{head: word}
			i++
			for s[i] != ']' {
				if s[i] == ',' || s[i] == ' ' {
					i++
					continue
				}
				p.args = append(p.args, rd())
			}
			i++
			if wraps[word] {
				q := p.args[0]
				q.wrap = word
				return q
			}
			return p
		case i < len(s) && s[i] == '_':
			p := &pn{name: word}
			for i < len(s) && s[i] == '_' {
				p.blank++
				i++
			}
			j = i
			for i < len(s) && s[i] >= 'A' && s[i] <= 'z' && s[i] != '[' && s[i] != ']' && s[i] != '_' {
				i++
			}
			p.typ = s[j:i]
			return p
		case i < len(s) && (s[i] == ':' || s[i] == '('):
			for s[i] != '(' {
				i++
			}
			j = i + 1
			for s[i] != ')' {
				i++
			}
			p := &pn{name: word, alt: strings.Split(s[j:i], " | ")}
			i++
			return p
		}
		return &pn{atom: word}
	}
	return rd()
}

func (p *pn) kind() string {
	switch {
	case p.head == "List":
		return "List"
	case p.head != "":
		return p.head
	case p.atom[0] >= '0' && p.atom[0] <= '9':
		return "Integer"
	}
	return "Symbol"
}

// binding maps names to sequences, written down.
type binding map[string]string

func (b binding) with(name, val string) (binding, bool) {
	if name == "" {
		return b, true
	}
	if v, ok := b[name]; ok {
		return b, v == val
	}
	c := binding{name: val}
	for k, v := range b {
		c[k] = v
	}
	return c, true
}

// matchOne gives all ways for p to match the one expression e.
func matchOne(p, e *pn, b binding) []binding {
	if (p.wrap == "Condition" || p.wrap == "PatternTest") && !tested(e) {
		return nil
	}
	switch {
	case p.blank > 0:
		if p.typ != "" && p.typ != e.kind() {
			return nil
		}
		if c, ok := b.with(p.name, e.String()); ok {
			return []binding{c}
		}
	case len(p.alt) > 0:
		for _, a := range p.alt {
			if e.head == "" && e.atom == a {
				if c, ok := b.with(p.name, a); ok {
					return []binding{c}
				}
			}
		}
	case p.head != "":
		if e.head != p.head {
			return nil
		}
		return matchArgs(p.args, e.args, e.head, b)
	case e.head == "" && e.atom == p.atom:
		return []binding{b}
	}
	return nil
}

// matchArgs gives all ways for the patterns to take up the arguments.
func matchArgs(ps, es []*pn, head string, b binding) []binding {
	if strings.HasPrefix(head, "o") {
		return matchOrderless(ps, es, b)
	}
	if len(ps) == 0 {
		if len(es) == 0 {
			return []binding{b}
		}
		return nil
	}
	p := ps[0]
	lo, hi := 1, 1
	flat := strings.HasPrefix(head, "fl")
	switch {
	case p.blank == 2, p.wrap == "Repeated":
		hi = len(es)
	case p.blank == 3:
		lo, hi = 0, len(es)
	case p.blank == 1 && flat && p.typ == "" && p.wrap == "":
		hi = len(es)
	}
	var out []binding
	for n := lo; n <= hi && n <= len(es); n++ {
		var bs []binding
		switch {
		case p.blank == 1 && flat && p.typ == "" && p.wrap == "":
			if c, ok := b.with(p.name, (&pn{head: head, args: es[:n]}).String()); ok {
				bs = []binding{c}
			}
		case p.seq():
			bs = takeSeq(p, es[:n], b)
		default:
			bs = matchOne(p, es[0], b)
		}
		for _, c := range bs {
			out = append(out, matchArgs(ps[1:], es[n:], head, c)...)
		}
	}
	return out
}

// seq says that p may take up several parts.
func (p *pn) seq() bool { return p.blank > 1 || p.wrap == "Repeated" }

func takeSeq(p *pn, es []*pn, b binding) []binding {
	var s []string
	for _, e := range es {
		if p.typ != "" && p.typ != e.kind() || p.blank == 0 && (e.head != "" || e.atom != p.atom) || p.wrap == "PatternTest" && !tested(e) {
			return nil
		}
		s = append(s, e.String())
	}
	if c, ok := b.with(p.name, strings.Join(s, ", ")); ok {
		return []binding{c}
	}
	return nil
}

// matchOrderless distributes the arguments over the patterns.
func matchOrderless(ps, es []*pn, b binding) []binding {
	if len(ps) == 0 {
		if len(es) == 0 {
			return []binding{b}
		}
		return nil
	}
	p := ps[0]
	var out []binding
	for m := 0; m < 1<<len(es); m++ {
		var mine, rest []*pn
		for i, e := range es {
			if m>>i&1 == 1 {
				mine = append(mine, e)
			} else {
				rest = append(rest, e)
			}
		}
		var bs []binding
		switch {
		case (p.blank == 2 || p.wrap == "Repeated") && len(mine) == 0, !p.seq() && len(mine) != 1:
			continue
		case p.seq():
			bs = takeSeq(p, mine, b)
		default:
			bs = matchOne(p, mine[0], b)
		}
		for _, c := range bs {
			out = append(out, matchOrderless(ps[1:], rest, c)...)
		}
	}
	return out
}

func (p *pn) names(m map[string]bool) {
	if p.name != "" {
		m[p.name] = true
	}
	for _, a := range p.args {
		a.names(m)
	}
}

// enum is an enumeration: e => p.
type enum struct {
	e, p  *pn
	names []string
}

func parseEnum(s string) *enum {
	f := strings.SplitN(s, " => ", 2)
	x := &enum{e: parsePn(f[0]), p: parsePn(f[1])}
	m := map[string]bool{}
	x.p.names(m)
	x.names = sortedKeys(m)
	return x
}

// rhs is what every match is replaced by.
func (x *enum) rhs() string {
	s := "res["
	for i, n := range x.names {
		if i > 0 {
			s += ", "
		}
		s += "List[" + n + "]"
	}
	return s + "]"
}

func (x *enum) src() string {
	return "ReplaceList[" + x.e.String() + ", " + x.p.String() + " -> " + x.rhs() + "]"
}

// want are the matches by brute force.
func (x *enum) want() []string {
	out := []string{}
	for _, b := range matchOne(x.p, x.e, binding{}) {
		s := "res["
		for i, n := range x.names {
			if i > 0 {
				s += ", "
			}
			s += "List[" + b[n] + "]"
		}
		out = append(out, strings.NewReplacer("List[", "{", " ", "").Replace(s+"]"))
	}
	return out
}

func listClose(s string) string {
	// {..] back to {..}: closing brackets are told apart by what they open.
	var st []byte
	out := []byte(s)
	for i := 0; i < len(out); i++ {
		switch out[i] {
		case '{', '[':
			st = append(st, out[i])
		case ']', '}':
			if len(st) > 0 {
				if st[len(st)-1] == '{' {
					out[i] = '}'
				} else {
					out[i] = ']'
				}
				st = st[:len(st)-1]
			}
		}
	}
	return string(out)
}

// normal is a printed expression without blanks between its parts.
func normal(s string) string {
	return listClose(strings.NewReplacer("List[", "{", " ", "").Replace(s))
}

func (g *Gen) matchAtom() *pn { return &pn{atom: g.Pick("a", "b", "c", "a", "1", "2", "a")} }

// matchExpr draws an expression; arguments of orderless heads are sorted atoms.
func (g *Gen) matchExpr(d int) *pn {
	p := &pn{head: g.Pick("List", "List", "List", "w", "o", "fl")}
	n := g.Between(1, 5)
	for i := 0; i < n; i++ {
		if d > 0 && g.P(0.3) && p.head != "o" && p.head != "fl" {
			p.args = append(p.args, g.matchExpr(d-1))
		} else {
			p.args = append(p.args, g.matchAtom())
		}
	}
	if p.head == "o" {
		sort.Slice(p.args, func(i, j int) bool { return p.args[i].atom < p.args[j].atom })
	}
	return p
}

// matchPat draws a pattern for e.
func (g *Gen) matchPat(e *pn, d int) *pn {
	p := &pn{head: e.head}
	// A name stands for one part or for a sequence, not for both.
	name := func() string { return g.Pick("x", "y", "z", "", "") }
	seq := func() string { return g.Pick("u", "v", "s", "", "") }
	n := g.Between(1, min(4, len(e.args)+1))
	for i := 0; i < n; i++ {
		k := g.N(10)
		var at *pn
		if len(e.args) > 0 {
			at = e.args[min(len(e.args)-1, i*len(e.args)/n)]
		}
		switch {
		case at != nil && at.head != "" && d > 0 && k < 6:
			p.args = append(p.args, g.matchPat(at, d-1))
		case k < 3:
			p.args = append(p.args, &pn{blank: 3, name: seq()})
		case k < 6:
			x := &pn{blank: 2, name: seq()}
			if g.P(0.15) && e.head != "fl" {
				x.wrap = "PatternTest"
			} else if g.P(0.15) {
				x = &pn{blank: 1, wrap: "Repeated"}
				if g.P(0.5) {
					x.blank, x.atom = 0, g.matchAtom().atom
				}
			}
			if g.P(0.15) && e.head != "fl" {
				x.typ = g.Pick("Integer", "Symbol")
			}
			p.args = append(p.args, x)
		case k < 8:
			x := &pn{blank: 1, name: name()}
			if g.P(0.2) && e.head != "fl" {
				x.typ = g.Pick("Integer", "Symbol", "List")
			}
			if g.P(0.4) {
				x.wrap = g.Pick("Condition", "Condition", "PatternTest", "HoldPattern")
				if x.wrap == "Condition" && x.name == "" {
					x.name = g.Pick("x", "y", "z")
				}
				if e.head == "fl" && x.wrap == "PatternTest" {
					x.wrap = ""
				}
			}
			p.args = append(p.args, x)
		case k < 9 && e.head != "o" && e.head != "fl":
			p.args = append(p.args, &pn{name: name(), alt: []string{g.Pick("a", "1"), g.Pick("b", "2")}})
		default:
			p.args = append(p.args, g.matchAtom())
		}
	}
	return p
}

// ownNames gives named alternatives names that nothing else has.
func (p *pn) ownNames(n *int) {
	if len(p.alt) > 0 && p.name != "" {
		*n++
		p.name = fmt.Sprintf("p%d", *n)
	}
	for _, a := range p.args {
		a.ownNames(n)
	}
}

func (g *Gen) enum() string {
	for {
		e := g.matchExpr(2)
		p := g.matchPat(e, 2)
		n := 0
		p.ownNames(&n)
		if e.head == "o" {
			// Patterns are sorted when they are evaluated: one name, one use.
			seen := map[string]bool{}
			for _, a := range p.args {
				if a.name != "" && seen[a.name] {
					a.name = ""
					if a.wrap == "Condition" {
						a.wrap = ""
					}
				}
				seen[a.name] = true
			}
		}
		s := e.String() + " => " + p.String()
		n = len(parseEnum(s).want())
		if n > 150 || n == 0 && g.P(0.8) || n == 1 && g.P(0.6) {
			continue
		}
		return s
	}
}

func init() {
	register(&Scenario{
		Prop: "C24",
		Rule: "at least two enumerations were under way at the same time, or one was interrupted",
		Real: realCore, Stub: stubCore,
		Quick: 700, Thor: 200000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "match", Plan: g.plan()}
			c.Plan.Max = 400_000_000
			lanes := 1
			if g.P(0.3) {
				lanes = g.Between(2, 3)
			}
			common := []string{g.enum(), g.enum()}
			one := func() string {
				if g.P(0.3) {
					return g.Pick(common...)
				}
				return g.enum()
			}
			for ; lanes > 0; lanes-- {
				var o []Op
				for j := g.Between(2, 6); j > 0; j-- {
					switch g.N(5) {
					case 0:
						x := Op{K: "rl", S: one()}
						if g.P(0.3) {
							x.A = []int64{int64(g.logN(30000))}
						}
						o = append(o, x)
					case 1, 2:
						var s []string
						for k := g.Between(2, 5); k > 0; k-- {
							s = append(s, one())
						}
						x := Op{K: "par", S: strings.Join(s, "\x01")}
						if g.P(0.15) {
							x.A = []int64{int64(g.logN(30000))}
						}
						o = append(o, x)
					case 3:
						var s []string
						for k := g.Between(2, 4); k > 0; k-- {
							s = append(s, one())
						}
						if g.P(0.3) {
							s = append(s, s[0])
						}
						x := Op{K: "iters", S: strings.Join(s, "\x01"), N: int64(g.N(4))}
						for k := g.N(60); k > 0; k-- {
							x.A = append(x.A, int64(g.N(len(s))))
						}
						o = append(o, x)
					case 4:
						o = append(o, Op{K: "nest", S: one() + "\x01" + one()})
					}
				}
				c.Lanes = append(c.Lanes, o)
			}
			return c
		},
		Exec: execC24,
	})
}

func execC24(c *Case, r *Report) {
	solo := len(c.Lanes) == 1
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		var specs []simrt.Spec
		known := map[string]string{}
		for i, ops := range c.Lanes {
			l := &Lane{ID: i, Es: newSession()}
			i, ops := i, ops
			l.raw("SetAttributes[o, Orderless]; SetAttributes[fl, Flat]; " + tqDef)
			for _, o := range ops {
				for _, s := range strings.Split(o.S, "\x01") {
					x := parseEnum(s)
					if _, ok := known[x.src()]; !ok {
						known[x.src()] = strings.Join(splitMatches(l.raw(x.src())), " ")
					}
				}
			}
			specs = append(specs, simrt.Spec{Data: l, Fn: func() { inLane(i, func() { r.enums(l, ops, known, solo) }) }})
		}
		return specs
	})
	r.status(res)
	r.Nontriv = r.Nontriv || len(c.Lanes) > 1 && len(res.Switches) >= 4
}

// splitMatches takes a printed list of matches apart.
func splitMatches(s string) []string {
	s = normal(s)
	if !strings.HasPrefix(s, "{") || !strings.HasSuffix(s, "}") {
		return []string{s}
	}
	return topLevel(s[1 : len(s)-1])
}

// enums carries out the operations; known is the order in which the matches of
// each enumeration come when nothing else goes on.
func (r *Report) enums(l *Lane, ops []Op, known map[string]string, ints bool) {
	check := func(x *enum, got []string, how string) bool {
		want := x.want()
		for i := range want {
			want[i] = listClose(want[i])
		}
		r.inc("enumerations", 1)
		r.inc("matches", int64(len(got)))
		w := append([]string(nil), want...)
		v := append([]string(nil), got...)
		sort.Strings(w)
		sort.Strings(v)
		if strings.Join(w, " ") != strings.Join(v, " ") {
			r.viol("matches", "", "%s gives %s %s, and the matches are %s", x.src(), clip(strings.Join(got, " "), 500), how, clip(strings.Join(want, " "), 500))
			return false
		}
		k := x.src()
		all := strings.Join(got, " ")
		if known[k] != all {
			r.viol("order", "", "%s gives %s %s, and alone %s", k, clip(all, 500), how, clip(known[k], 500))
			return false
		}
		r.mark(strHash(k))
		return true
	}
	ev := func(o Op, src string) (string, bool) {
		if len(o.A) > 0 && ints {
			got, fired := interrupted(l, o.A, false, func() string { return l.raw(src) })
			r.inc("interrupts", int64(fired))
			if fired > 0 {
				r.Nontriv = true
			}
			return got, fired == 0 || got != "$Aborted"
		}
		return l.raw(src), true
	}
	for _, o := range ops {
		var xs []*enum
		for _, s := range strings.Split(o.S, "\x01") {
			xs = append(xs, parseEnum(s))
		}
		switch o.K {
		case "rl":
			got, ok := ev(o, xs[0].src())
			r.mix(got)
			if ok && !check(xs[0], splitMatches(got), "") {
				return
			}
		case "par":
			src := "ParallelTable[Which["
			for j, x := range xs {
				src += fmt.Sprintf("zi == %d, %s, ", j+1, x.src())
			}
			src += fmt.Sprintf("True, 0], {zi, %d}]", len(xs))
			got, ok := ev(o, src)
			r.mix(got)
			if !ok {
				continue
			}
			r.Nontriv = true
			each := splitMatches(got)
			if len(each) != len(xs) {
				r.viol("answer", "", "%s answers %s", src, clip(got, 500))
				return
			}
			for j, x := range xs {
				if !check(x, splitMatches(each[j]), "beside concurrent enumerations") {
					return
				}
			}
		case "nest":
			// The second enumerated in the test of a part of the first.
			in, out := xs[1], xs[0]
			n := len(in.want())
			src := fmt.Sprintf("ReplaceList[t0[%s, 5], t0[%s, _?(Length[%s] == %d &)] -> %s]", out.e, out.p, in.src(), n, out.rhs())
			got := l.raw(src)
			r.mix(got)
			r.Nontriv = true
			if !check(out, splitMatches(got), fmt.Sprintf("with %s enumerated within", in.src())) {
				return
			}
		case "iters":
			if !r.stepIters(l, o, xs, check) {
				return
			}
		}
		l.takeOut()
	}
}

// topLevel splits a printed sequence at its outermost commas.
func topLevel(s string) []string {
	out := []string{}
	if s == "" {
		return out
	}
	d, at := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '{', '[', '(':
			d++
		case '}', ']', ')':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[at:i])
				at = i + 1
			}
		}
	}
	return append(out, s[at:])
}

// stepIters steps the iterators in turn; at the end all matches must still be
// what they were when they came.
func (r *Report) stepIters(l *Lane, o Op, xs []*enum, check func(*enum, []string, string) bool) bool {
	type it struct {
		mi   matcher.MatchIter
		cont bool
		rhs  expreduceapi.Ex
		pms  []*matcher.PDManager
		got  []string
	}
	show := func(t *it, pm *matcher.PDManager) string {
		return normal(l.Es.Eval(matcher.ReplacePD(t.rhs, l.Es, pm)).StringForm(expreduce.ActualStringFormArgsFull("InputForm", l.Es)))
	}
	l.begin()
	var its []*it
	made := map[string]expreduceapi.Ex{} // iterators share equal expressions
	ex := func(s string) expreduceapi.Ex {
		if made[s] == nil {
			made[s] = l.Es.Eval(parser.Interp(s, l.Es))
		}
		return made[s]
	}
	for _, x := range xs {
		t := &it{rhs: ex(x.rhs())}
		t.mi, t.cont = matcher.NewMatchIter(ex(x.e.String()), ex(x.p.String()), matcher.EmptyPD(), l.Es)
		its = append(its, t)
	}
	step := func(t *it) {
		if !t.cont {
			return
		}
		ok, pm, done := t.mi.Next()
		t.cont = !done
		if ok {
			t.pms = append(t.pms, pm)
			t.got = append(t.got, show(t, pm))
		}
		r.inc("iterator-steps", 1)
	}
	for i, k := range o.A {
		step(its[int(k)%len(its)])
		if o.N > 0 && i%5 == 0 {
			switch o.N {
			case 1:
				l.raw("ReplaceList[{1, 2, 3}, {x___, y___} -> {{x}, {y}}]")
			case 2:
				l.raw(xs[i%len(xs)].src())
			case 3:
				l.raw("MatchQ[{a, b, c}, {x__, y_}]; x = 3; Clear[x]; o[c, b, a] /. o[p_, q___] -> {q}")
			}
		}
	}
	for _, t := range its {
		for n := 0; t.cont && n < 1000; n++ {
			step(t)
		}
	}
	if len(its) > 1 && len(o.A) > 3 {
		r.Nontriv = true
	}
	for i, t := range its {
		r.mix(fmt.Sprint(t.got))
		if !check(xs[i], t.got, fmt.Sprintf("stepped in turn with %d others", len(its)-1)) {
			return false
		}
		for j, pm := range t.pms {
			if now := show(t, pm); now != t.got[j] {
				r.viol("changed", "", "match %d of %s was %s and is %s after the others", j+1, xs[i].src(), t.got[j], now)
				return false
			}
		}
	}
	return true
}
