package main

import (
	"regexp"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C05: the same inputs under different map orders, clocks and schedules.

var timeDependent = regexp.MustCompile(`Timing|UnixTime|Random|Pause|ExpreduceDefinitionTimes|Unique|Times\[\]|Print.*Time`)

// orderSensitive are inputs whose handling goes through hash tables or leaves
// the matcher a choice.
var orderSensitive = []string{
	`{a + b + c, c*b*a, 2 + x + y + x + a} /. {x_ + y_ -> {x, y}, u_*v_ -> {u, v}}`,
	`a + b + c + d /. Plus[x_, y_, z__] -> {x, y, z}`, `ReplaceList[a + b + c, x_ + y_ -> {x, y}]`, `ReplaceList[{a, b, c, d}, {x__, y___} -> {{x}, {y}}]`,
	`os[x_, y_, z_, w_] := {x, y, z, w}; SetAttributes[os, {Orderless}]; os[4, 2, 3, 1]`, `ReplaceList[f[a, b, c], f[x___, y_, z___] -> {{x}, y, {z}}]`,
	`m1[x_Integer, y_] := 1; m1[x_, y_Integer] := 2; m1[x_, y_] := 3; {m1[1, 1], m1[1, a], m1[a, 1], m1[a, a]}`,
	`m2[x_, x_] := same; m2[x_, y_] := diff; m2[1, _] := one; {m2[1, 1], m2[1, 2], m2[2, 2], m2[a, b]}; DownValues[m2]`,
	`Names["System` + "`" + `A*"]`, `Names["Global` + "`" + `*"]`, `{n4 = 1, n3 = 2, n2 = 3, n1 = 4}; Names["n*"]`, `Tally[{d, c, b, a, d, c, b, d, c, d}]`, `Union[{d, c, b, a}, {x, y, a}]`,
	`Streams[]`, `{Streams[], $Path, $ContextPath}`, `Attributes[Plus]`, `Attributes[Table]`, `Definition[m1]`, `DownValues[m1]`, `Collect[a*x + b*x + c*y + d*y, {x, y}]`, `Variables[x + y*z + w^2]`, `PolynomialQ[x + y, {x, y}]`,
	`Expand[(a + b + c)^3]`, `Count[{a, b, a, c}, _Symbol]`, `Sort[{c, 1, b, "s", 2.5, a[1], a, 1/2, x^2}]`, `Cases[{a -> 1, b -> 2, c -> 3}, (x_ -> y_) -> {y, x}]`,
	`{x, y, z, w} /. {w -> 1, z -> 2, y -> 3, x -> 4}`, `x + y + z + w /. {w -> x, x -> y, y -> z, z -> w}`, `MatchQ[a + b + c, x_ + y_ /; OrderedQ[{y, x}]]`,
	`a*b*c*d*e /. x_*y__ -> h[x, y]`, `FullForm[a + b*c - d/e]`, `Sum[q[i], {i, 5}] /. q[2] + x__ -> {x}`, `Module[{aa, bb, cc}, aa + bb + cc; 1]`, `ParallelTable[Expand[(p + q)^i], {i, 4}]`,
	`fl[fl[a, b], c, fl[d]] /. fl -> Plus`, `SetAttributes[fo, {Flat, Orderless}]; fo[c, fo[b, a]] /. fo[a, x_] -> {x}`, `ReplaceList[fo[a, b, c], fo[x_, y_] -> {x, y}]`, `Options[x]`,
	`D[a*x^2 + b*Sin[x] + c*y, x]`, `Factor[x^2 + 2*x*y + y^2]`, `Together[a/b + c/d]`, `PolynomialGCD[x^2 - 1, x - 1]`, `GCD[12, 18, 30]`, `Simplify[a + a + b]`, `Exponent[x^2 + x^3*y, x]`, `CoefficientList[1 + 2*x + 3*x^2, x]`,
	`1/0`, `x[[5]]`, `f[x_] := f[x + 1] /; x < 5; f[1]`, `{1, 2} + {1, 2, 3}`, `ToString[a + b + c]`, `Apply[List, c + b + a]`, `{b1, b2, b3} = {3, 2, 1}; {b3, b2, b1}`, `Clear[b1, b2, b3]; {b1, b2}`,
	`Dot[{{a, b}, {c, d}}, {x, y}]`, `Det[{{a, b}, {c, d}}]`, `Eigenvalues[{{1, 2}, {3, 4}}]`, `Select[{5, 3, 8, 1}, (# > 2)&]`, `SortBy[{3, 1, 2}, (-#)&]`, `Sort[{3, 1, 2}, Greater]`, `Message[f::x]`, `Information[Plus]`,
}

// manyNames draws inputs in which one construct has several names, values or
// rules that could get into each other's way: what comes first must follow
// from the text.
func (g *Gen) manyNames() []string {
	names := []string{"p", "q", "r", "s", "t", "u"}
	n := g.Between(2, 6)
	perm := func() []string {
		l := append([]string{}, names...)
		for i := len(l) - 1; i > 0; i-- {
			j := g.N(i + 1)
			l[i], l[j] = l[j], l[i]
		}
		return l[:n]
	}
	nm := func() string { return names[g.N(len(names))] }
	ex := func() string {
		switch g.N(6) {
		case 0:
			return itoa(g.Between(0, 5))
		case 1:
			return "(" + nm() + " + " + nm() + ")"
		case 2:
			return "h[" + nm() + ", " + nm() + "]"
		case 3:
			return "Print[" + nm() + "]"
		}
		return nm()
	}
	each := func(f func(i int, v string) string) string {
		var l []string
		for i, v := range perm() {
			l = append(l, f(i, v))
		}
		return "{" + strings.Join(l, ", ") + "}"
	}
	all := "{p, q, r, s, t, u, h[p, q], k[p, q, r], p + q*r + s^t}"
	set := func(i int, v string) string { return v + " = " + ex() }
	delayed := func(i int, v string) string { return v + g.Pick(" = ", " := ") + ex() }
	rule := func(i int, v string) string {
		l := v
		switch g.N(7) {
		case 0:
			l = "h[" + v + ", _]"
		case 1:
			l = "h[x_, y_]"
		case 2:
			l = "x_Symbol"
		case 3:
			l = "k[x__, y___]"
		}
		return l + g.Pick(" -> ", " :> ") + ex()
	}
	pat := func() string {
		return g.Pick("x_, y_", "x_, x_", "x_Integer, y_", "x_, y_Integer", "1, y_", "x_, 2", "x__", "x_, y___", "x_ /; x > 1, y_", "_Symbol, y_", "x_?EvenQ, y_", "3, 4", "x_, y_: 3", "x___")
	}
	var in []string
	for i := g.Between(3, 6); i > 0; i-- {
		switch g.N(18) {
		case 0, 1:
			in = append(in, "With["+each(set)+", "+all+"]")
		case 2:
			in = append(in, "With["+each(delayed)+", Hold["+all+"]]")
		case 3, 4:
			in = append(in, g.Pick("Module", "Block")+"["+each(set)+", "+all+"]")
		case 5:
			in = append(in, "{p, h[p, q], k[p, q, r, s], q + r + s*t} "+"/."+" "+each(rule))
		case 6:
			in = append(in, "Replace[{p, q, h[p, q]}, "+each(rule)+"]", "ReplaceList[h[p, q], "+each(rule)+"]")
		case 7:
			in = append(in, strings.Join([]string{"md[" + pat() + "] := 1", "md[" + pat() + "] := 2", "md[" + pat() + "] := 3", "md[" + pat() + "] := 4"}, "; "), "{md[1, 2], md[3, 4], md[p, 2], md[2, q], md[7], md[], md[p, q, r], md[2, 2]}", "DownValues[md]", "Definition[md]")
		case 8:
			in = append(in, strings.Trim(each(func(i int, v string) string { return v + " = " + g.Pick("v1", "v1 + v2", "h[v2, v1]", "3") }), "{}"), all, "Names[\"Global`*\"]", "Clear["+strings.Trim(each(func(i int, v string) string { return v }), "{}")+"]", all, "Clear[p, q, r, s, t, u]")
		case 9:
			in = append(in, "Reap[{"+strings.Trim(each(func(i int, v string) string { return "Sow[" + v + "]" }), "{}")+", Sow[1]}]", "Union["+each(func(i int, v string) string { return ex() })+"]", "Tally["+each(func(i int, v string) string { return ex() })+"]")
		case 10:
			in = append(in, "Attributes[at] = "+each(func(i int, v string) string {
				return []string{"Flat", "Listable", "Orderless", "OneIdentity", "NumericFunction", "HoldAll"}[i]
			}), "Attributes[at]", "at[q, p, {1, 2}, at[r, s]]", "ClearAll[at]")
		case 11:
			in = append(in, strings.ReplaceAll(strings.Trim(each(func(i int, v string) string { return v + " + " + ex() + "*" + v }), "{}"), ",", " +"), "p*q*r*s /. x_*y_ -> {x, y}", "p + q + r + s /. x_ + y__ -> {x, y}", "{q, p, s, r} /. {x_, y__} :> k[y, x]")
		case 12:
			in = append(in, "Collect["+strings.ReplaceAll(strings.Trim(each(func(i int, v string) string { return "x^" + itoa(i) + "*" + v + "*y" }), "{}"), ",", " +")+", "+g.Pick("x", "{x, y}", "y")+"]", "Expand[(p + q + r)*(s + t + "+ex()+")]", "Variables[p*q + r^s + h[t, u]]", "D[p*q^2 + Sin[r*p] + q*r, "+nm()+"]", "PolynomialQ[p*q + r, {q, p}]")
		case 13:
			in = append(in, "Table[{i, j}, {i, "+itoa(g.Between(1, 3))+"}, {j, "+itoa(g.Between(1, 3))+"}]", "ParallelTable[{i, "+nm()+"}, {i, 4}]", "Sum[x^i*"+nm()+"[j], {i, 3}, {j, 2}]")
		case 14:
			in = append(in, "Sort["+each(func(i int, v string) string { return ex() })+"]", "SortBy["+each(func(i int, v string) string { return "h[" + v + ", " + itoa(g.N(3)) + "]" })+", Last]", "Sort[{h[2, p], h[1, q], h[2, r], h[1, s]}, (#1[[1]] < #2[[1]])&]", "Union[{h[2, p], h[1, q], h[2, p]}]", "DeleteDuplicates[{p, q, p, r, q}]", "Intersection[{p, q, r}, {r, p}]", "Complement[{p, q, r, s}, {r}]")
		case 15:
			in = append(in, strings.Join([]string{"pk::usage = \"p\"", "q::usage = \"q\"", "Default[dk] = 3", "Format[fk] = 1", "dk[x_, y_.] := {x, y}"}, "; "), "{dk[1], q::usage, Definition[dk], Definition[pk]}", "MessageName[q, \"usage\"]")
		case 16:
			in = append(in, "Cases[{h[p, 1], h[q, 2], h[r, 1], 3}, "+g.Pick("h[x_, 1] -> x", "h[x_, y_] :> y[x]", "_h", "x_h /; x[[2]] > 1")+"]", "ReplaceList[p + q + r, x_ + y_ -> h[x, y]]", "ReplaceList[{p, q, r, s}, {x___, y_, z___} -> {{x}, y, {z}}]", "ReplaceList[p*q + r*s, x_*y_ + z_ -> {x, y, z}]", "MatchQ[p + q + r, x_ + y_ /; (Print[{x, y}]; False)]", "Switch[q, "+strings.Trim(each(func(i int, v string) string { return g.Pick(v, "_", "_Symbol", "_Integer") + ", " + itoa(i) }), "{}")+"]")
		case 17:
			in = append(in, "BeginPackage[\"PkA`\"]; pka = 1; q = 2; EndPackage[]", "BeginPackage[\"PkB`\"]; pkb = 1; q = 3; EndPackage[]", "{$ContextPath, q, pka, pkb, Names[\"PkA`*\"], Names[\"p*\"], Names[\"*`q\"]}")
		}
	}
	return append(in, "Clear[p, q, r, s, t, u, h, k, md]")
}

func init() {
	register(&Scenario{
		Prop: "C05",
		Rule: "the inputs were answered under at least two different environments",
		Real: realCore, Stub: stubCore,
		Quick: 320, Thor: 40000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "env", Plan: g.plan(), Opt: map[string]int64{}}
			c.Plan.Max = 40_000_000
			var in []string
			for i := g.Between(3, 5); i > 0; i-- {
				if g.P(0.5) {
					in = append(in, g.manyNames()...)
				}
				if g.P(0.35) {
					in = append(in, g.Pick(orderSensitive...), g.Pick(orderSensitive...), g.Pick(orderSensitive...))
				}
				in = append(in, g.program(progOpt{Segs: 1, Corpus: 0.6, Max: 250_000})...)
			}
			var o []Op
			for _, s := range in {
				if !timeDependent.MatchString(s) {
					o = append(o, Op{K: g.Pick("top", "top", "raw"), S: s})
				}
			}
			o = append(o, Op{K: "top", S: `{x, y, z, f[1], a, b}`}, Op{K: "top", S: `Names["Global` + "`" + `*"]`})
			c.Lanes = [][]Op{o}
			return c
		},
		Exec: func(c *Case, r *Report) {
			var logs [][]string
			g := &Gen{R: simrt.NewRand(c.Plan.Seed)}
			for v := 0; v < 3; v++ {
				p := c.Plan
				switch v {
				case 1:
					p.MapSeed = p.MapSeed*31 + 17
					p.Mode = "serial"
					p.Tick = 1
				case 2:
					p.MapSeed, p.Epoch, p.Tick = g.R.Next()>>33, int64(g.R.Next()%4_000_000_000_000_000_000), 1_000_000
					p.Seed ^= 0xabcdef
				}
				var ls []*Lane
				run := r.sim
				if v == 0 {
					run = r.mainSim
				}
				res := run(&p, lanesSetup(c.Lanes, false, &ls, nil))
				log := ls[0].Log
				if res.Status != "ok" {
					log = append(log, "STATUS "+res.Status)
				}
				logs = append(logs, log)
				for _, s := range log {
					r.mix(s)
				}
			}
			r.inc("inputs", int64(len(c.Lanes[0])))
			for v := 1; v < len(logs); v++ {
				for j := range c.Lanes[0] {
					a, b := at(logs[0], j), at(logs[v], j)
					if a == "STATUS budget" || b == "STATUS budget" {
						r.inc("undecided.budget", 1)
						return
					}
					if a != b {
						r.viol("differs", c.Lanes[0][j].S, "input %d (%s) answers %q under one environment and %q under another (%d)", j, c.Lanes[0][j].S, a, b, v)
						return
					}
				}
			}
			r.Nontriv = true
		},
	})
}

func at(l []string, i int) string {
	if i < len(l) {
		return l[i]
	}
	return "(none)"
}
