package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// Definitions to save, and what shows whether they are there.

var saveNames = []string{"da", "db", "dc", "dd", "de", "df"}

// defState draws definitions of a few names and the probes that tell how they
// behave.  Every probe gives the same when it is asked again.
type defState struct {
	names []string // to be saved, complete with context
	in    []string
	probe []string
	late  []string // inputs that change what the definitions depend on
	rdef  []string // definitions of the same names that are to be replaced
}

var defValues = []string{
	"7", "-123456789012345678901234567890", "2/3", "-5/7", "0.1", "3.14159265358979", "1.5*10^-30", "N[1/3]", "\"text\"", "\"\"", "\"q\\\"uote\"", "\"line\\nbreak\"", "\"uni \u00e4\u4e2d\"", "True", "Null",
	"{}", "{1, {2, {3}}}", "{a -> 1, b :> 2 + 2}", "Hold[1 + 1]", "Hold[fx]", "fx + fy^2", "{fx, fz}", "fz[fx, 1 + 1]", "Function[x, x^2]", "(# + 1)&", "1 + 2*fx", "fx^fy/3", "Sin[fx]", "2^100", "I", "2 + 3*I", "x_Integer", "Pattern[q, Blank[]]",
	"Sqrt[2]", "Pi", "Infinity", "a.b", "Sequence[1, 2]", "Table[i*fx, {i, 3}]", "fx == 3", "!fx", "fx && fy", "fx > 2", "Unevaluated[1 + 1]", "100!", "1.0", "0", "-0.0", "{{1, 2}, {3, 4}}", "f[][]", "f[1][2]",
}

func (g *Gen) defs(n int) *defState {
	st := &defState{}
	probe := func(p ...string) { st.probe = append(st.probe, p...) }
	perm := g.N(len(saveNames))
	var vs []string
	for i := 0; i < n; i++ {
		v := saveNames[(perm+i)%len(saveNames)]
		if g.P(0.1) {
			v = "cx`" + v
			st.names = append(st.names, v)
		} else {
			st.names = append(st.names, "Global`"+v)
		}
		vs = append(vs, v)
	}
	vs = append(vs, "fz")
	for i, v := range vs[:n] {
		w := vs[i+1]
		val := func() string { return g.Pick(defValues...) }
		num := func() string { return itoa(g.Between(1, 9)) }
		pat := func() string {
			return g.Pick("x_", "x_Integer", "_", "x_, y_", "1", "2", "\"s\"", "x_?EvenQ", "x__", "x_, x_", "{x_, y_}", "x_Symbol", "x___", "fz[x_]", "x_ /; x > 3", "0.5", "x_, y_: 7", "x_^2", "1/2", "{x__}, y_", "fx", "x_ + y_", "Except[3]", "x_Integer | x_String", "x:(1 | 2 | fx)", "HoldPattern[fz[x_]]", "x_.", "x_, y_.", "_, _, _")
		}
		body := func() string {
			return g.Pick(num(), "{x, "+num()+"}", "fx + x", "hd[x, y]", "x + 1", "x^2*fy", val(), "{y, x, "+num()+"}", "If[x === 1, one, other]", "Table[x, {i, 2}]", "Module[{t = x}, t + 1]", "fz[x]", "Length[{x}]", "x /. fx -> 9")
		}
		cond := func() string {
			if g.P(0.15) {
				return " /; " + g.Pick("x > 2", "x =!= 1", "fx === 4", "True", "MatchQ[x, _Integer]")
			}
			return ""
		}
		args := []string{"1", "2", "3", "4", "7", "fx", "\"s\"", "1, 1", "1, 2", "2, fx", "", "{1, 2}", "{1, 2}, 3", "fz[5]", "0.5", "fx^2", "1/2", "fx + fy", "1, 2, 3", "{3, 1}"}
		calls := func() {
			var l []string
			for k := g.Between(3, 7); k > 0; k-- {
				l = append(l, v+"["+g.Pick(args...)+"]")
			}
			probe("{" + strings.Join(l, ", ") + "}")
		}
		flat := false
		def := func() []string {
			k := g.N(13)
			if flat { // general rules of a flat function recur without end
				k = 0
			}
			switch k {
			case 0, 1:
				return []string{v + " = " + val()}
			case 2:
				return []string{v + " := " + g.Pick("fx + 1", "{fx, fy}", "1 + 1", "Sum[i, {i, 4}]", val())}
			case 3, 4, 5:
				var l []string
				for k := g.Between(1, 5); k > 0; k-- {
					l = append(l, v+"["+pat()+"] := "+body()+cond())
				}
				return l
			case 6:
				return []string{v + "[0] = 0; " + v + "[1] = 1; " + v + "[n_Integer] := (" + v + "[n] = " + v + "[n - 1] + " + v + "[n - 2]) /; n > 1", v + "[" + itoa(g.Between(5, 15)) + "]"}
			case 7:
				var l []string
				for k := g.Between(2, 6); k > 0; k-- {
					l = append(l, v+"["+g.Pick(args...)+"] = "+val())
				}
				return l
			case 8:
				a := g.Pick("Flat", "Orderless", "Listable", "HoldAll", "HoldFirst", "Flat, Orderless", "Listable, NumericFunction", "HoldRest, Orderless", "OneIdentity, Flat, Orderless")
				l := []string{"Attributes[" + v + "] = {" + a + "}"}
				if strings.Contains(a, "Flat") {
					flat = true
					return append(l, v+"[1, 2] = 5")
				}
				return append(l, v+"["+pat()+"] := "+body())
			case 9:
				return []string{v + "[x_, y_:" + num() + "] := hd[x, y]", v + "[x_, y_, z_:fx] := {z, y}"}
			case 10:
				return []string{v + " = 3", g.Pick("Clear[", "ClearAll[") + v + "]"}
			case 11:
				return []string{v + "[x_] := " + g.Pick(w+"[x]", "{x, "+w+"[1]}", "fz["+w+"]")}
			}
			return []string{v + "[" + g.Pick(args...) + "] = " + val(), v + " = " + val()}
		}
		st.in = append(st.in, def()...)
		if g.P(0.25) {
			// A rule for v[x] would go to what v has become.
			st.in = append(st.in, "Clear["+v+"]")
			st.in = append(st.in, def()...)
		} else if g.P(0.2) && !flat {
			st.in = append(st.in, v+" = "+val())
		}
		probe(v, "DownValues["+v+"]", "Attributes["+v+"]", "Definition["+v+"]", "Hold["+v+"]")
		calls()
		if g.P(0.3) {
			probe("{" + v + " + 1, " + v + "*2, hd[" + v + "], FullForm[" + v + "], " + v + " === " + v + "}")
			probe("{"+v+" /. fx -> 5, MatchQ["+v+", _Integer], Head["+v+"], Length["+v+"]}", "ToString["+v+"]", "Sort[{"+v+", fx, 1}]", "hd["+v+"] /. hd[x_] -> x")
		}
		if !flat && g.P(0.4) { // further rules find their places among the others
			for k := g.Between(1, 3); k > 0; k-- {
				st.late = append(st.late, v+"["+pat()+"] := "+body()+cond())
			}
		}
		if g.P(0.4) {
			st.rdef = append(st.rdef, "Clear["+v+"]")
			st.rdef = append(st.rdef, def()...)
		}
	}
	if g.P(0.15) {
		b := g.Pick("Times", "Plus", "Power", "Length", "Sin", "Sort")
		st.names = append(st.names, "System`"+b)
		if g.P(0.6) {
			st.in = append(st.in, "Unprotect["+b+"]", b+"[hq, hr] = 7", b+"[ht[x_], 3] := x")
		}
		probe(b+"[hq, hr]", b+"[ht[4], 3]", b+"[2, 3]", b+"[{1, 2}]", "{2*3, 2 + 3, 2^3, Sort[{2, 1}], Sin[0], fx*fx, fx + fx}", "Attributes["+b+"]", "{MatchQ[fx, x_.*fx], MatchQ[fx, fx + x_.], MatchQ[fx, fx^x_.]}", "Default["+b+"]")
	}
	st.late = append(st.late, "fx = "+g.Pick("4", "\"s\"", "{1, 2}"), "fz[x_] := zz[x]", "fy = 2", "hd[x_, y_] := {y, x}")
	return st
}

// texts asks the probes.
func (l *Lane) texts(probes []string) string {
	var b strings.Builder
	for _, p := range probes {
		fmt.Fprintf(&b, "%s: %s", p, l.raw(p))
		if o := l.takeOut(); o != "" {
			fmt.Fprintf(&b, " prints %q", o)
		}
		b.WriteString("\n")
	}
	return b.String()
}

// firstDiff tells where two such texts differ.
func firstDiff(a, b string) (string, string) {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return clip(x[i], 400), clip(at(y, i), 400)
		}
	}
	return "", ""
}

func nameList(names []string) string {
	var q []string
	for _, n := range names {
		q = append(q, `"`+n+`"`)
	}
	return "{" + strings.Join(q, ", ") + "}"
}

// one runs f as the only task of a session of its own.
func (r *Report) one(p *simrt.Plan, d *Disk, f func(l *Lane)) *simrt.Result {
	return r.sim(p, func() []simrt.Spec {
		l := &Lane{Es: newSession(), Disk: d}
		return []simrt.Spec{{Data: l, Fn: func() { f(l) }}}
	})
}

func (st *defState) pack(c *Case) {
	c.Lanes = [][]Op{ops("def", st.in), ops("probe", st.probe), ops("late", st.late), ops("rdef", st.rdef)}
	c.Str = map[string]string{"names": strings.Join(st.names, " ")}
}

func unpack(c *Case) *defState {
	st := &defState{names: strings.Fields(c.Str["names"])}
	for i, p := range []*[]string{&st.in, &st.probe, &st.late, &st.rdef} {
		for _, o := range c.Lanes[i] {
			*p = append(*p, o.S)
		}
	}
	return st
}

func jsonOf(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func fromJSON(s string, v any) {
	if s != "" {
		if err := json.Unmarshal([]byte(s), v); err != nil {
			panic(err)
		}
	}
}
