package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C19: names made up are new.  Ops: name (S introduces the names T), gen (S
// generates N names with the prefix T, in context M==1), int (as gen, interrupted
// after A steps), set (the counter, to S), load (reads a file with the name T
// in it; M: script, ReadList or saved definitions of S).

// madeRe also takes names made with a counter that has gone past the machine's
// integers.
var madeRe = regexp.MustCompile("[A-Za-z$`][A-Za-z0-9$`]*(-[0-9]+[A-Za-z0-9$`]*)*")

var nameForms = []string{"@ = 5", "@[x_] := x", "Hold[@]", "f[@, 2]", "Module[{@ = 2}, @ + 1]", "Table[@^2, {@, 2}]", "ParallelTable[@^2, {@, 3}]",
	"SetAttributes[@, {Flat}]", "Clear[@]", "@ = 3; Clear[@]", "f[@_] := @", "Attributes[@]", "With[{@ = 1}, @]", "MatchQ[1, @_]", "@ = 4; ClearAll[@]", "1 + (* c *) @", "g[x_] := x + @",
	"If[False, @]", "@[1] = 2", "h[_@] := 3", "h[x__@, y_] = 3", "h2[x_: @] := x", "{@ -> 1, 2 :> @}", "(@ + #)&", "Catch[Throw[@]]", "Throw[@]", "@'[x]", "Unset[@]", "@::usage = \"u\"", "f /@ @", "-@!", "Hold[Module[{@}, 1]]",
	"Function[{@}, 2]", "ReplaceAll[{1, 2}, 1 -> @]", "Return[@]", "{{{@}}}[[1, 1]]", "MatchQ[@, y_ /; y === @]", "1/0; @", "True || @"}

var symRe = regexp.MustCompile("[A-Za-z$`][A-Za-z0-9$`]*")

// genForms are inputs that answer with a list of generated names: %s is the
// prefix of the names, %d a number.
var genForms = []struct {
	s    string
	n    func(d int) int
	uniq bool
	par  bool
}{
	{"Module[{%s}, %s]", one, false, false},
	{"Module[{%s, zq1}, {%s, %s}]", one, false, false},
	{"Module[{%s}, {%s, Module[{%s}, %s]}]", two, false, false},
	{"Table[Module[{%s}, %s], {zi, %d}]", times, false, false},
	{"ParallelTable[Module[{%s}, %s], {zi, %d}]", times, false, true},
	{"ParallelTable[Module[{%s = zi}, Hold[%s] /. zz -> 1; Sequence[zi^2, Module[{%s}, %s]]], {zi, %d}]", times, false, true},
	{"ParallelTable[{Module[{%s}, %s], Module[{%s}, %s]}, {zi, %d}]", func(d int) int { return 2 * d }, false, true},
	{"ParallelTable[Table[Module[{%s}, %s], {zj, 2}], {zi, %d}]", func(d int) int { return 2 * d }, false, true},
	{"ParallelTable[If[zi == 2, $ModuleNumber = 1]; Module[{%s}, %s], {zi, %d}]", times, false, true},
	{"rr%s[n_] := Module[{%s}, If[n == 0, {}, Append[rr%s[n - 1], %s]]]; rr%s[%d]", times, false, false},
	{"Catch[Module[{%s}, Throw[%s]]]", one, false, false},
	{"Map[Function[v, Module[{%s}, %s]], Range[%d]]", times, false, false},
	{"ParallelTable[rg%s, {zi, %d}]", times, false, true}, // a delayed value
	{`Unique["%s"]`, one, true, false},
	{`{Unique["%s"], Unique["%s"]}`, two, true, false},
	{`Table[Unique["%s"], {zi, %d}]`, times, true, false},
	{`ParallelTable[Unique["%s"], {zi, %d}]`, times, true, true},
	{`ParallelTable[If[EvenQ[zi], Unique["%s"], Module[{zq2}, Unique["%s"]]], {zi, %d}]`, times, true, true},
}

func one(int) int     { return 1 }
func two(int) int     { return 2 }
func times(d int) int { return d }

func init() {
	register(&Scenario{
		Prop: "C19",
		Rule: "names were generated by concurrent evaluations, or one was generated whose number had been introduced before",
		Real: realCore, Stub: stubCore,
		Quick: 700, Thor: 200000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "names", Plan: g.plan()}
			c.Plan.Max = 400_000_000
			base := big.NewInt(0)
			if g.P(0.25) {
				base.SetString(g.Pick("2147483640", "4294967290", "9007199254740985", "9223372036854775797", "18446744073709551606", "100000000000000000000000"), 10)
			}
			lanes := 1
			if g.P(0.2) {
				lanes = 2
			}
			for ; lanes > 0; lanes-- {
				var o []Op
				for j := g.Between(4, 14); j > 0; j-- {
					prefix := g.Pick("t", "u", "t$", "long", "a1")
					k := g.Between(1, 30)
					switch g.N(8) {
					case 0, 1:
						// Numbers near the counter.
						sym := g.Pick("t$", "u$", "t$$", "long$", "a1$", "t", "u", "$", "p", "zctx`t$") + new(big.Int).Add(base, big.NewInt(int64(k))).String()
						// A name with a context is not recognised everywhere.
						form := func() string {
							f := g.Pick(nameForms...)
							for strings.Contains(sym, "`") && (strings.Contains(f, "@_") || strings.Contains(f, "_@")) {
								f = g.Pick(nameForms...)
							}
							return strings.ReplaceAll(f, "@", sym)
						}
						switch g.N(5) {
						case 0:
							form := g.Pick("lf@ := @@", "lf@ = Hold[@@]", "lf@[x_] := x + @@", "lf@[@@_] := 1", "lf@[x_ /; x > @@] := {@@}", "lf@ = @@ + 1", "SetAttributes[lf@, {Orderless}]; lf@[1] = {{@@}}", "lf@ = 2.5 @@^3", "lf@[@@] = 4")
							if strings.Contains(sym, "`") {
								form = "lf@[x_] := x + @@"
							}
							o = append(o, Op{K: "load", T: sym, M: 2, S: strings.ReplaceAll(strings.ReplaceAll(form, "@@", "\x00"), "@", fmt.Sprint(j))})
							o[len(o)-1].S = strings.ReplaceAll(o[len(o)-1].S, "\x00", sym)
							o[len(o)-1].N = int64(j)
						case 1:
							o = append(o, Op{K: "load", T: sym, M: int64(g.N(2)), S: form()})
						default:
							o = append(o, Op{K: "name", T: sym, S: form()})
						}
					case 2:
						v := new(big.Int).Add(base, big.NewInt(int64(g.Between(0, 30)))).String()
						if g.P(0.15) {
							v = g.Pick("5/2", "zq", "\"7\"", "{3}", "2.", "-4", "-1", "1 + zq")
						}
						o = append(o, Op{K: "set", S: v})
					default:
						f := g.N(len(genForms))
						if g.P(0.4) {
							for !genForms[f].par {
								f = g.N(len(genForms))
							}
						}
						if genForms[f].uniq && g.P(0.5) {
							prefix = g.Pick("$", "p", "t$", "u$")
						}
						x := Op{K: "gen", M: int64(f), T: prefix, N: int64(g.Between(2, 7))}
						if g.P(0.12) {
							x.A = []int64{int64(g.logN(40000))}
						}
						if g.P(0.1) && !genForms[f].uniq && !strings.Contains(genForms[f].s, "rr%s") && !strings.Contains(genForms[f].s, "rg%s") {
							x.T = "zctx`" + x.T
						}
						o = append(o, x)
					}
				}
				c.Lanes = append(c.Lanes, o)
			}
			return c
		},
		Exec: execC19,
	})
}

func execC19(c *Case, r *Report) {
	solo := len(c.Lanes) == 1
	disks := make([]*Disk, len(c.Lanes))
	for i, ops := range c.Lanes {
		d := newDisk()
		defer d.remove()
		disks[i] = d
		var saved []Op
		for j, o := range ops {
			if o.K == "load" && o.M < 2 {
				d.seedFile(fmt.Sprintf("f%d", j), []byte(o.S+"\n"))
			} else if o.K == "load" {
				o.A = []int64{int64(j)}
				saved = append(saved, o)
			}
		}
		if len(saved) > 0 {
			r.one(&c.Plan, d, func(l *Lane) {
				for _, o := range saved {
					l.raw(o.S)
					if a := l.raw(fmt.Sprintf(`Save["%s/f%d", {"Global`+"`"+`lf%d"}]`, d.Dir, o.A[0], o.N)); a != "Null" {
						r.Err = "Save answers " + a
					}
				}
			})
		}
	}
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		var specs []simrt.Spec
		for i, ops := range c.Lanes {
			i := i
			l := &Lane{ID: i, Es: newSession(), Disk: disks[i]}
			ops := ops
			specs = append(specs, simrt.Spec{Data: l, Fn: func() { inLane(i, func() { r.names(l, ops, solo) }) }})
		}
		return specs
	})
	r.status(res)
}

func (r *Report) names(l *Lane, ops []Op, ints bool) {
	seen := map[string]string{} // name -> where it came from
	r.see(seen, "Names[]", strings.Trim(l.raw(`Names["*"]`), "{}"))
	l.takeOut()
	odd := false // the counter is no number
	for j, o := range ops {
		switch o.K {
		case "set":
			in := "$ModuleNumber = " + o.S
			l.top(in)
			odd = strings.Trim(o.S, "-0123456789") != ""
			r.inc("counter-set", 1)
		case "load":
			how := "Get"
			if o.M == 1 {
				how = "ReadList"
			}
			in := fmt.Sprintf(`%s["%s/f%d"]`, how, l.Disk.Dir, j)
			l.takeOut()
			a := l.top(in)
			bad := strings.Contains(l.takeOut(), "Syntax::")
			r.mix(strings.ReplaceAll(a, l.Disk.Dir, ""))
			if o.M == 2 && a != "Null" {
				r.viol("load", "", "%s answers %s", in, a)
				return
			}
			if !bad {
				r.see(seen, "the file with "+o.S, o.S)
			}
			r.inc("names-introduced", 1)
			r.inc("files-loaded", 1)
		case "name":
			l.takeOut()
			r.mix(l.top(o.S))
			if !strings.Contains(l.takeOut(), "Syntax::") {
				r.see(seen, o.S, o.S)
			}
			r.inc("names-introduced", 1)
		case "gen":
			f := genForms[o.M]
			var args []any
			for i, part := range strings.Split(f.s, "%") {
				if i > 0 && part[0] == 's' {
					args = append(args, o.T)
				} else if i > 0 {
					args = append(args, o.N)
				}
			}
			src := fmt.Sprintf(f.s, args...)
			if strings.Contains(f.s, "rg%s") {
				d := fmt.Sprintf("rg%s := Module[{%s}, %s]", o.T, o.T, o.T)
				l.top(d)
				r.see(seen, d, d)
			}
			r.see(seen, src, src)
			want := f.n(int(o.N))
			prefix := o.T
			if !f.uniq {
				prefix += "$"
			}
			var got string
			fired := 0
			if len(o.A) > 0 && ints {
				got, fired = interrupted(l, o.A, false, func() string { return l.top(src) })
				r.inc("interrupts", int64(fired))
			} else {
				got = l.top(src)
			}
			l.takeOut()
			r.mix(got)
			r.inc("inputs", 1)
			if f.par && want > 1 {
				r.Nontriv = true
			}
			n := 0
			mine := map[string]bool{}
			for _, s := range madeRe.FindAllString(got, -1) {
				num := strings.TrimPrefix(s, prefix)
				if num == s || num == "" || strings.Trim(num, "-0123456789$") != "" || strings.HasSuffix(num, "$") {
					continue
				}
				if !mine[s] {
					n++
				} else if strings.Contains(f.s, "{%s, %s}]") && !strings.Contains(f.s, "Table") {
					continue // asked for twice
				} else {
					r.viol("twice", "", "%s generates %s twice: %s", src, s, clip(got, 300))
					return
				}
				mine[s] = true
				if was, ok := seen[s]; ok {
					r.viol("old", "", "%s generates %s, which exists already: it was in %s", src, s, clip(was, 200))
					return
				}
			}
			if n != want && fired == 0 && !odd {
				r.viol("number", "", "%s generates %d names, not %d: %s", src, n, want, clip(got, 300))
				return
			}
			for s := range mine {
				if !seen2(seen, prefix, s) {
					r.Nontriv = true
				}
			}
			r.see(seen, src, got)
			r.inc("names-generated", int64(n))
			r.mark(strHash(got))
		}
	}
}

// seen2 says whether nothing stood in the way of the name.
func seen2(seen map[string]string, prefix, s string) bool {
	var n int
	fmt.Sscan(strings.TrimPrefix(s, prefix), &n)
	_, ok := seen[fmt.Sprint(prefix, n-1)]
	return !ok
}

func (r *Report) see(seen map[string]string, where, text string) {
	for _, s := range madeRe.FindAllString(text, -1) {
		if _, ok := seen[s]; !ok {
			seen[s] = where
		}
	}
}
