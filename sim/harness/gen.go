package main

import (
	"fmt"
	"regexp"
	"strings"
)

// A template is a list of inputs.  @name is a symbol (suffixed per lane where
// sessions are shared), #a #b #c are small integers and #s a seed.
type tmpl struct {
	tag string // "" plain; g: depends on or changes session-global state; r: random; o: prints; u: fresh names; i: iterators; c: control flow
	in  []string
}

var tmpls = []tmpl{
	{"", []string{`@x = #a`, `@x + @y`, `@x = {#a, #b, @yv}`, `@x`, `Clear[@x]`, `@x`}},
	{"", []string{`@x = #a; @x === #a`, `@y = @x^2 + @z`, `@y`, `@x = #b`, `@y`, `Clear[@x, @y]`, `{@x, @y}`}},
	{"", []string{`@f[x_] := x^2 + #a`, `@f[#b]`, `@f[@a]`, `@f[{1, 2, @z}]`, `DownValues[@f]`, `Clear[@f]`, `@f[#b]`}},
	{"", []string{`@f[x_Integer] := int[x]; @f[x_] := any[x]; @f[0] = zero`, `{@f[0], @f[#a], @f[@q], @f["s"]}`, `@f[x_Integer] := int2[x]`, `{@f[0], @f[#a]}`, `Definition[@f]`, `ClearAll[@f]`}},
	{"", []string{`@fib[0] = 0; @fib[1] = 1; @fib[n_] := @fib[n] = @fib[n - 1] + @fib[n - 2]`, `@fib[1#a]`, `@fib[8]`, `Length[DownValues[@fib]]`}},
	{"", []string{`@fac[0] = 1; @fac[n_] := n*@fac[n - 1]`, `@fac[1#a]`, `@fac[3]`}},
	{"", []string{`Attributes[@o] = {Orderless}`, `@o[c, a, b, #a]`, `Attributes[@o]`, `@o[x_, y_, #a] := pair[x, y]`, `@o[#a, v, u]`, `Attributes[@o] = {}`, `@o[c, a]`}},
	{"", []string{`SetAttributes[@l, {Listable}]`, `@l[{1, 2}, @z]`, `SetAttributes[@l, {Flat}]`, `@l[@l[1], 2]`, `Attributes[@l]`, `ClearAttributes[@l, {Listable}]`, `Attributes[@l]`}},
	{"", []string{`SetAttributes[@h, {HoldAll}]`, `@h[1 + 1, @x]`, `@h[a_, b_] := Length[Hold[a, b]]`, `@h[1 + 1, 2 + 2]`, `SetAttributes[@h, {HoldFirst}]`, `Attributes[@h]`}},
	{"i", []string{`Table[@k^2, {@k, #a}]`, `Sum[@k^2, {@k, 1#a}]`, `Product[@k, {@k, #b}]`, `Table[{@i, @j}, {@i, 3}, {@j, @i, 4}]`, `{@k, @i, @j}`}},
	{"i", []string{`@k = #a`, `Table[@k^2, {@k, 3}]`, `@k`, `Do[@s[@k] = @k, {@k, #b}]`, `Table[@s[m], {m, #b}]`, `@k`, `Clear[@k]`}},
	{"i", []string{`@acc = {}`, `Do[AppendTo[@acc, @j*#a], {@j, 4}]`, `@acc`, `For[@q = 0, @q < #b, @q++, PrependTo[@acc, @q]]`, `{@acc, @q}`, `Clear[@q]`}},
	{"c", []string{`@w = 0; While[@w < #a, @w = @w + 1]; @w`, `@w += #b; @w -= 1; @w`, `@w++`, `--@w`, `@w`}},
	{"c", []string{`@r[x_] := (If[x > #a, Return[big]]; small)`, `{@r[1], @r[100]}`, `Which[#a > #b, 1, #a == #b, 2, True, 3]`, `Switch[#a, 1, one, 2, two, _, other]`, `@n = 7; While[@n > 0, @n = @n - 2; If[@n < #b, Break[]]]`, `@n`}},
	{"c", []string{`Catch[Do[If[@m > #a, Throw[@m]], {@m, 9}]]`, `Catch[@p = #a; Throw[{@p, @p}]; @p = 0]`, `@p`, `Catch[Catch[Throw[1]] + #b]`, `Catch[#a]`}},
	{"go", []string{`Throw[#a]`, `1 + #b`, `Catch[{Throw[#a], 2}]`, `{1, Throw[@t], 2}`, `#a + #b`}},
	{"", []string{`Module[{t = #a}, t^2]`, `@m1[x_] := Module[{t = x, u}, u = t + 1; t*u]`, `@m1[#b]`, `Table[@m1[v], {v, 3}]`, `With[{t = #a}, t + @y]`, `Block[{t = #b}, t + 1]`}},
	{"u", []string{`Module[{t}, t]`, `Unique[]`, `Module[{t, v}, {t, v, t}]`, `{Unique[], Unique[]}`, `@m2[x_] := Module[{y}, y[x]]`, `{@m2[1], @m2[2]}`}},
	{"", []string{`@t = 5`, `Module[{t = #a}, t = t + 1; t]`, `@t`, `Block[{@t = #b}, @t^2]`, `@t`, `With[{v = @t}, Hold[v, @t]]`, `Clear[@t]`}},
	{"r", []string{`SeedRandom[#s]`, `Table[RandomReal[], {3}, {k, 1}]`, `RandomReal[]`, `RandomReal[{#a, 1#b}]`, `SeedRandom[#s]`, `{RandomReal[], RandomReal[10]}`}},
	{"r", []string{`SeedRandom[#s]`, `RandomReal[] + RandomReal[]`, `@rr = RandomReal[{0, #a}]`, `@rr`, `Table[RandomReal[{-1, 1}], {k, 4}]`}},
	{"o", []string{`Print["lane", #a, @z]`, `Print[1 + #a]; #b`, `WriteString[OutputStream["stdout", 1], "w#a\n"]`, `Do[Print[@v], {@v, 3}]`}},
	{"og", []string{`1 + `, `#a + #b`, `{1, 2`, `f[x`, `"unterminated`, `#a*#b`}},
	{"g", []string{`Reap[Sow[#a]; Sow[@z]; #b]`, `Reap[Do[Sow[@v^2], {@v, #a}]]`, `Reap[Table[Sow[@v]; @v, {@v, 3}]]`, `Reap[#a]`}},
	{"g", []string{`Trace[#a + 2*#b]`, `@ff[x_] := x + 1`, `Trace[@ff[#a]]`, `#a + #b`}},
	{"g", []string{`Names["Global` + "`" + `*"]`}},
	{"g", []string{`$Context`, `BeginPackage["Pkg#a` + "`" + `"]`, `inner = #b; inner`, `$Context`, `Begin["` + "`" + `Private` + "`" + `"]`, `hidden = #a`, `End[]`, `EndPackage[]`, `{$Context, inner}`}},
	{"g", []string{`$ContextPath`, `ctx#a` + "`" + `v = #b`, `ctx#a` + "`" + `v + 1`, `$Context`}},
	{"i", []string{`ParallelTable[@k^2 + #a, {@k, 6}]`, `ParallelTable[{@k, @j}, {@k, 2}, {@j, 2}]`, `@k`}},
	{"", []string{`Map[Function[v, v^2 + @y], {1, #a, @z}]`, `Fold[Plus, #a, {1, 2, 3}]`, `FoldList[Times, 1, {#a, #b, 3}]`, `NestList[(#^2 + 1)&, #a, 3]`, `FixedPoint[(Quotient2[#] /. Quotient2[n_Integer] :> If[n > 1, n - 1, n])&, #a]`, `Nest[@g, @x, #b]`}},
	{"", []string{`NestWhile[(#/2)&, 2^#a*3, EvenQ]`, `NestWhileList[(# + 1)&, #a, (# < 1#b)&]`, `Select[Range[1#a], PrimeQ]`, `Array[@g, #a]`, `Scan[Identity, {1, 2}]`}},
	{"", []string{`{1, 2, @x, #a} /. {1 -> one, @x -> ex}`, `{1, {2, {3}}} /. n_Integer :> n + #a`, `f[f[f[@x]]] //. f[x_] :> g[x]`, `ReplaceAll[@a + @b + #a, @a -> #b]`, `Replace[{1, 2}, {_, _} -> ok]`}},
	{"", []string{`Cases[{1, a, 2, b, #a}, _Integer]`, `MatchQ[{1, 2, 3}, {__Integer}]`, `DeleteCases[{a, #a, b}, _Symbol]`, `Count[{1, 2, #a}, #a]`, `MatchQ[f[a, b, c], f[x___, c]]`, `ReplaceList[{a, b, c}, {x__, y__} -> {{x}, {y}}]`}},
	{"", []string{`a + b + c /. Plus[x_, y__] -> {x, y}`, `MatchQ[x^2 + #a, a_^2 + b_]`, `{a, b, c, d} /. {x___, b, y___} -> {{x}, {y}}`, `Sort[{@z, 3, #a, "s", 1/2}]`, `Union[{3, 1, #a}, {#b, 3}]`, `Tally[{a, b, a, #a, #b}]`}},
	{"", []string{`Expand[(@x + #a)^2]`, `Factor[x^2 - #a^2]`, `D[x^#a + @z, x]`}},
	{"x", []string{`D[x^#a*Sin[x], x]`, `Integrate[x^#a, x]`, `Simplify[x + x]`, `Solve[x^2 == #a^2, x]`}}, // expensive
	{"", []string{`2^1#a0`, `#a/1#b + 1/3`, `N[Pi]`, `N[1/#a]`, `Sqrt[#a^2*#b]`, `FactorInteger[1#a#b]`, `GCD[1#a, 1#b]`, `Mod[1#a, #b + 1]`}},
	{"", []string{`ToString[@x + #a]`, `StringJoin["a", "b#a"]`, `StringLength["abc"]`, `StringReplace["hello", "l" -> "#a"]`, `ToString[x^2, FullForm]`, `StringTake["abcdef", #a]`}},
	{"", []string{`@u = {1, 2, #a}`, `AppendTo[@u, @z]`, `@u`, `@u[[2]]`, `Part[@u, -1]`, `Length[@u]`, `Join[@u, {#b}]`, `Reverse[@u]`}},
	{"", []string{`@hd = Hold[1 + #a, @x]`, `@x = #b`, `@hd`, `ReleaseHold2[@hd]`, `Evaluate[@hd[[1]]]`, `Clear[@x]`, `@hd`}},
	{"", []string{`@e = a + b*#a`, `@e2 = @e`, `a = #b`, `{@e, @e2}`, `b = 1`, `@e`, `Clear[a, b]`, `{@e, @e2}`}},
	{"g", []string{`{$Line}`, `#a + #b`, `%`, `%% + 1`, `Out[$Line - 1]`, `In[1]`}},
	{"g", []string{`@d1 = #a; @d2[x_] := x`, `Clear["Global` + "`" + `*"]`, `{@d1, @d2[1]}`}},
	{"g", []string{`Protect[@pr]`, `Attributes[@pr]`, `@pr = #a`, `@pr`, `Unprotect[@pr]`, `@pr = #b`, `@pr`}},
	{"", []string{`@cond[x_] := pos[x] /; x > #a`, `@cond[x_] := neg[x] /; x <= #a`, `{@cond[1], @cond[9], @cond[#a]}`, `Length[DownValues[@cond]]`}},
	{"", []string{`@opt[x_, y_: #a] := {x, y}`, `{@opt[1], @opt[1, 2]}`, `Default[@dd] = #b`, `@dd[x_, y_.] := {x, y}`, `{@dd[3], @dd[3, 4]}`}},
	{"g", []string{`$PrePrint = wrap`, `#a + #b`, `Clear[$PrePrint]`, `#a`}},
	{"o", []string{`@v::usage = "usage #a"`, `@v::usage`, `Definition[@v]`}},
	{"", []string{`Timing2[1]`, `Hash[{@x, #a}] === Hash[{@x, #a}]`, `Depth[{{#a}}]`, `LeafCount[a + b*#a]`, `Quiet[1/0]`, `Inverse[{{1, 2}, {3, #a + 5}}]`, `Dot[{1, #a}, {#b, 2}]`, `Transpose[{{1, 2}, {#a, 4}}]`}},
	{"", []string{`@tr[Pattern[n, _?EvenQ]] := even; @tr[_] := odd`, `{@tr[2], @tr[3]}`, `@seq[x__] := {Length[{x}], x}`, `@seq[a, b, #a]`, `@seq[]`, `Sequence[#a]`, `{1, Sequence[2, #b], 3}`}},
	{"", []string{`Permutations[{a, b, #a}]`, `Tuples[{a, b}, 2]`, `IntegerPartitions[#a]`, `Range[#a]`, `Take[Range[9], #a]`, `Thread[{a, b} -> {#a, #b}]`, `Flatten[{1, {2, {#a}}}]`, `ConstantArray[z, #a]`}},
}

var nameRe = regexp.MustCompile(`@([a-zA-Z][a-zA-Z0-9]*)`)

// fill instantiates a template.
func (g *Gen) fill(in []string, suffix string) []string {
	rep := strings.NewReplacer("#a", fmt.Sprint(g.Between(2, 5)), "#b", fmt.Sprint(g.Between(2, 7)), "#c", fmt.Sprint(g.Between(1, 9)), "#s", fmt.Sprint(g.N(100000)))
	var out []string
	for _, s := range in {
		out = append(out, nameRe.ReplaceAllString(rep.Replace(s), "${1}"+suffix))
	}
	return out
}

// progOpt steers the generator.
type progOpt struct {
	Segs   int    // segments
	Avoid  string // template tags not wanted
	Corpus float64
	Suffix string
	Max    uint64 // scheduling points one corpus slice may take
	Few    bool   // cut templates short
}

func hasTag(tag, avoid string) bool { return strings.ContainsAny(tag, avoid) }

// seg is a run of inputs: a template to fill in or inputs as they are.
type seg struct {
	t   tmpl
	raw []string
}

// segments draws the parts of a program.
func (g *Gen) segments(o progOpt) []seg {
	var out []seg
	for i := 0; i < o.Segs; i++ {
		if g.P(o.Corpus) {
			out = append(out, seg{raw: g.corpusSlice(o.Max)})
			continue
		}
		var t tmpl
		for {
			t = tmpls[g.N(len(tmpls))]
			if !hasTag(t.tag, o.Avoid) && (t.tag != "x" || g.P(0.15)) {
				break
			}
		}
		out = append(out, seg{t: t})
	}
	return out
}

// instance makes the inputs of a part.
func (g *Gen) instance(s seg, o progOpt) []string {
	if s.raw != nil {
		return s.raw
	}
	in := g.fill(s.t.in, o.Suffix)
	if o.Few && len(in) > 4 {
		in = in[:4]
	}
	return in
}

// program draws a list of inputs.
func (g *Gen) program(o progOpt) []string {
	var out []string
	for _, s := range g.segments(o) {
		out = append(out, g.instance(s, o)...)
	}
	return out
}

// rivals draws programs that do different things to the same names: each has
// the same parts, with numbers of its own and without some of the inputs.
func (g *Gen) rivals(n int, o progOpt) [][]string {
	segs := g.segments(o)
	var out [][]string
	for i := 0; i < n; i++ {
		drop := []float64{0, 0.3, 0.6}[g.N(3)]
		var p []string
		for _, s := range segs {
			ins := g.instance(s, o)
			if s.raw != nil {
				// Parts of the corpus may recur without end when a line in
				// the middle is missing.
				if g.P(drop) {
					ins = ins[g.N(len(ins)):]
				}
				p = append(p, ins...)
				continue
			}
			for _, in := range ins {
				if strings.Contains(in, "SeedRandom") || !g.P(drop) {
					p = append(p, in)
				}
			}
		}
		out = append(out, p)
	}
	return out
}

// corpusSlice takes a run of inputs from one group of the documentation
// examples, within a budget of scheduling points.
func (g *Gen) corpusSlice(max uint64) []string {
	if max == 0 {
		max = 300_000
	}
	c := corpus()
	for try := 0; try < 50; try++ {
		gr := c[g.N(len(c))]
		n := len(gr.In)
		if n == 0 {
			continue
		}
		at := g.N(n)
		var out []string
		var cost uint64
		for i := at; i < n && len(out) < 8; i++ {
			if cost+gr.C[i] > max {
				break
			}
			if strings.Contains(gr.In[i], "x=x*") {
				continue // endless without what comes before it
			}
			cost += gr.C[i]
			out = append(out, gr.In[i])
		}
		if len(out) > 0 {
			return out
		}
	}
	return []string{"1 + 1"}
}

func ops(kind string, ins []string) []Op {
	var o []Op
	for _, s := range ins {
		o = append(o, Op{K: kind, S: s})
	}
	return o
}
