package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// C04: what the elements of a parallel table define.  Every op is a statement
// of one element (N) of one table (T); the others know what may be there
// afterwards.

// write is what a statement does: it gives the key a value.
type write struct{ key, val string }

var attrNames = []string{"Flat", "HoldAll", "HoldFirst", "Listable", "Orderless"}

// stmtOf renders statement code of element e, and lists its writes.
func stmtOf(code, e, p, v int64) (string, []write) {
	s := fmt.Sprintf
	switch code {
	case 0:
		return s("cf[%d] = %d", p, v), []write{{s("cf[%d]", p), s("%d", v)}}
	case 1:
		return s("cs%d = %d", p%4, v), []write{{s("cs%d", p%4), s("%d", v)}}
	case 2:
		return s("cg[%d, x_] := {x, %d}", p, v), []write{{s("cg[%d, zz]", p), s("{zz, %d}", v)}}
	case 3:
		var w []write
		a, b := 0, 1
		for i := int64(2); i <= p; i++ {
			a, b = b, a+b
			w = append(w, write{s("cfib[%d]", i), itoa(b)})
		}
		return s("cfib[%d]", p), w
	case 4:
		return s("Attributes[ca%d] = {%s}", p, attrNames[v%5]), []write{{s("Attributes[ca%d]", p), "{" + attrNames[v%5] + "}"}}
	case 5:
		return "SetAttributes[ch, {Listable}]", []write{{"Attributes[ch]", "{Listable}"}}
	case 6:
		return s("cc[%d] = 0; Do[cc[%d] = cc[%d] + 1, {q, 4}]", e, e, e), []write{{s("cc[%d]", e), "4"}}
	case 7:
		return s("Do[ci%d = q*%d; ci[%d] = ci%d + 1, {q, 3}]", e, v, e, e), []write{{s("ci%d", e), s("%d", 3*v)}, {s("ci[%d]", e), s("%d", 3*v+1)}}
	case 8:
		return s("ch[%d] = %d", p, v), []write{{s("ch[%d]", p), s("%d", v)}}
	case 9:
		return s("Module[{t = %d}, t = t + 1; cf[%d] = t]", v, p), []write{{s("cf[%d]", p), s("%d", v+1)}}
	case 10:
		return s("Clear[cx%d]", e), []write{{s("cx%d", e), s("cx%d", e)}}
	case 11:
		return s("Default[cd%d] = %d", p, v), []write{{s("Default[cd%d]", p), s("%d", v)}}
	case 12:
		return s("cn%dx%d = %d", e, p, v), []write{{s("cn%dx%d", e, p), s("%d", v)}}
	case 13:
		return s("ParallelTable[cf[m] = %d + m, {m, %d, %d}]", v, p, p+1), []write{{s("cf[%d]", p), s("%d", v+p)}, {s("cf[%d]", p+1), s("%d", v+p+1)}}
	case 14:
		return s("ParallelTable[cg[m, x_] := {x, %d}, {m, %d, %d}]", v, p, p+1), []write{{s("cg[%d, zz]", p), s("{zz, %d}", v)}, {s("cg[%d, zz]", p+1), s("{zz, %d}", v)}}
	case 15:
		return s("cs%d = Sum[q*%d, {q, 2}]", p%4, v), []write{{s("cs%d", p%4), s("%d", 3*v)}}
	case 16:
		return s("co[%d][%d] = %d", e, p, v), nil
	case 17:
		return s("cu%d[x_Integer] := x + %d; cu%d[x_] := other[x]", e, v, e), []write{{s("cu%d[1]", e), s("%d", v+1)}, {s("cu%d[zz]", e), "other[zz]"}}
	case 18:
		return s("cw%d[x_] := {x, %d} /; x > 50; cw%d[x_] := small", e, v, e), []write{{s("cw%d[60]", e), s("{60, %d}", v)}, {s("cw%d[50]", e), "small"}}
	case 19:
		return s("ch[x_Symbol, %d] := sy[x]", p), []write{{s("ch[zz, %d]", p), "sy[zz]"}}
	case 20: // several readings and writings: the last may have read any earlier state
		return "ck = ck + 1", nil
	case 21:
		return s("AppendTo[cl, %d]", v), nil
	// One pattern under several conditions.
	case 22:
		return s("cv[x_ /; x == %d] := {x, %d}", 1000+e, v), []write{{s("cv[%d]", 1000+e), s("{%d, %d}", 1000+e, v)}}
	case 23:
		return s("cv[x_] := (%d /; x == %d)", v, 2000+e), []write{{s("cv[%d]", 2000+e), s("%d", v)}}
	case 24:
		return s("cv[x_] := With[{k = %d}, %d /; x == k]", 3000+e, v), []write{{s("cv[%d]", 3000+e), s("%d", v)}}
	case 25:
		return s("cv[x_] := Module[{k = %d}, {%d, k} /; x == k]", 4000+e, v), []write{{s("cv[%d]", 4000+e), s("{%d, %d}", v, 4000+e)}}
	case 26:
		return s("cv[x_] := Module[{j = %d}, {j, %d} /; x == %d]", e, v, 5000+e), []write{{s("cv[%d]", 5000+e), s("{%d, %d}", e, v)}}
	// Patterns.
	case 27:
		return s("cz[{x_, %d}] := x + %d; cz[x_List, %d] := {%d, Length[x]}", p, v, p, v), []write{{s("cz[{1, %d}]", p), s("%d", v+1)}, {s("cz[{1, 2, 3}, %d]", p), s("{%d, 3}", v)}}
	case 28:
		return s("cz[x_?EvenQ, %d] := {ev, x}; cz[y__, %d] := {%d, y}", p, p, v), []write{{s("cz[6, %d]", p), "{ev, 6}"}, {s("cz[7, 8, %d]", p), s("{%d, 7, 8}", v)}}
	case 29:
		return s("cz[(aa | bb), %d, x_: 5] := {%d, x}", p, v), []write{{s("cz[bb, %d]", p), s("{%d, 5}", v)}}
	case 30:
		return s("cf[\"s%d\"] = %d; cf[{%d, -%d}] = %d", p, v, p, p, v), []write{{s("cf[\"s%d\"]", p), s("%d", v)}, {s("cf[{%d, -%d}]", p, p), s("%d", v)}}
	case 31:
		return s("DownValues[cq%d] = {HoldPattern[cq%d[1]] :> %d, HoldPattern[cq%d[x_]] :> {x}}", e, e, v, e), []write{{s("cq%d[1]", e), s("%d", v)}, {s("cq%d[2]", e), "{2}"}}
	case 32:
		return s("cm::t%d = \"%d\"", p, v), []write{{s("cm::t%d", p), s("\"%d\"", v)}}
	case 33:
		return s("N[cnn%d] = %d", p, v), []write{{s("N[cnn%d]", p), s("%d", v)}}
	case 34:
		return s("Block[{cs%d = 3}, cs%d = cs%d + %d; cf[%d] = cs%d]", p%4, p%4, p%4, v, p, p%4), []write{{s("cf[%d]", p), s("%d", v+3)}}
	case 35:
		return s("Catch[cf[%d] = %d; Throw[cs%d = %d]; cs%d = never]", p, v, p%4, v, p%4), []write{{s("cf[%d]", p), s("%d", v)}, {s("cs%d", p%4), s("%d", v)}}
	case 36:
		return s("Map[(cf[#] = %d + #)&, {%d, %d}]", v, p, p+1), []write{{s("cf[%d]", p), s("%d", v+p)}, {s("cf[%d]", p+1), s("%d", v+p+1)}}
	case 37:
		return s("cz[%d] = cz[%d, 0] = %d", p, p, v), []write{{s("cz[%d]", p), s("%d", v)}, {s("cz[%d, 0]", p), s("%d", v)}}
	}
	return "Null", nil
}

func init() {
	register(&Scenario{
		Prop: "C04",
		Rule: "at least two elements made definitions and the processor changed hands at least 4 times",
		Real: realCore, Stub: stubCore,
		Quick: 600, Thor: 80000,
		Gen: func(g *Gen) *Case {
			c := &Case{Kind: "defs", Plan: g.plan()}
			var o []Op
			for t := 0; t < 12; t++ {
				k := g.Between(2, 6)
				// Few kinds of statement at a time, so that they meet.
				var kinds []int64
				for i := g.Between(1, 4); i > 0; i-- {
					kinds = append(kinds, int64(g.N(38)))
				}
				for e := 1; e <= k; e++ {
					for i := g.Between(1, 3); i > 0; i-- {
						o = append(o, Op{K: "st", T: itoa(t), N: int64(e), M: kinds[g.N(len(kinds))], A: []int64{int64(g.Between(2, 9)), int64(e*100 + g.N(100))}})
					}
				}
			}
			c.Lanes = [][]Op{o}
			return c
		},
		Exec: execC04,
	})
}

const c04Setup = `cf[0] = zero; cf[x_Symbol] := sym[x]; cfib[0] = 0; cfib[1] = 1; cfib[n_] := cfib[n] = cfib[n - 1] + cfib[n - 2]; cold[1] = 5; cold[x_] := old[x]; Attributes[cold] = {Listable}; q = 77; m = 78; t = 79; ck = 0; cl = {}; ` +
	`cx1 = 5; cx2 = 5; cx3 = 5; cx4 = 5; cx5 = 5; cx6 = 5`

func execC04(c *Case, r *Report) {
	res := r.mainSim(&c.Plan, func() []simrt.Spec {
		l := &Lane{Es: newSession()}
		return []simrt.Spec{{Data: l, Fn: func() {
			var groups []string
			by := map[string][]Op{}
			for _, o := range c.Lanes[0] {
				if by[o.T] == nil {
					groups = append(groups, o.T)
				}
				by[o.T] = append(by[o.T], o)
			}
			for _, t := range groups {
				if !c04Table(l, by[t], r) {
					return
				}
			}
		}}}
	})
	r.status(res)
	r.Nontriv = len(res.Switches) >= 4
}

func c04Table(l *Lane, st []Op, r *Report) bool {
	// Everything is new.
	clear := `Clear[cf, cs0, cs1, cs2, cs3, cg, cfib, ch, cc, ci, ck, cl, cold, co, cv, cz, cm, q, m, t`
	for i := 1; i <= 12; i++ {
		clear += fmt.Sprintf(", cd%d, cu%d, cw%d", i, i, i)
		clear += fmt.Sprintf(", ci%d, cq%d", i, i)
		for j := 1; j <= 9; j++ {
			clear += fmt.Sprintf(", cn%dx%d", i, j)
		}
	}
	l.top(clear + "]; " + c04Setup)
	l.top(`Scan[(Attributes[#] = {})&, {ch, ca1, ca2, ca3, ca4, ca5, ca6, ca7, ca8, ca9}]`)
	l.top(`{Attributes[ch] = {}, Attributes[ca2] = {}, Attributes[ca3] = {}, Attributes[ca4] = {}, Attributes[ca5] = {}, Attributes[ca6] = {}, Attributes[ca7] = {}, Attributes[ca8] = {}, Attributes[ca9] = {}}`)
	l.takeOut()
	k := int64(0)
	for _, o := range st {
		if o.N > k {
			k = o.N
		}
	}
	src := make([]string, k+1)
	last := map[string]map[int64]string{} // key, element: the last value it gives it
	var appended []string
	incs := 0
	for _, o := range st {
		s, ws := stmtOf(o.M, o.N, o.A[0], o.A[1])
		src[o.N] += "(" + s + "); "
		for _, w := range ws {
			if last[w.key] == nil {
				last[w.key] = map[int64]string{}
			}
			last[w.key][o.N] = w.val
		}
		switch o.M {
		case 20:
			incs++
		case 21:
			appended = append(appended, fmt.Sprint(o.A[1]))
		}
	}
	in := "Which["
	var want []string
	for e := int64(1); e <= k; e++ {
		in += fmt.Sprintf("n == %d, %s%d, ", e, src[e], e*1000)
		want = append(want, fmt.Sprint(e*1000))
	}
	in = "ParallelTable[" + strings.TrimSuffix(in, ", ") + fmt.Sprintf("], {n, %d}]", k)
	got := l.top(in)
	r.inc("tables", 1)
	r.mix(got + l.takeOut())
	bad := func(class, f string, a ...any) bool {
		r.viol(class, "", "after "+in+": "+f, a...)
		return false
	}
	if w := "{" + strings.Join(want, ", ") + "}"; got != w {
		return bad("result", "the result is %s, not %s", clip(got, 300), w)
	}
	for _, key := range sortedKeys(last) {
		v := l.top(key)
		r.inc("definitions-checked", 1)
		r.mix(v)
		ok := false
		var may []string
		for _, e := range sortedElems(last[key]) {
			ok = ok || v == last[key][e]
			may = append(may, last[key][e])
		}
		if !ok {
			return bad("lost", "%s is %s, but the elements gave it %v", key, v, may)
		}
		if len(may) > 1 {
			r.inc("definitions-raced-for", 1)
		}
	}
	// Nothing else changed, nothing is there twice.
	count := func(sym string, base int) bool {
		n := base
		for key := range last {
			if strings.HasPrefix(key, sym+"[") {
				n++
			}
		}
		if v := l.top("Length[DownValues[" + sym + "]]"); v != itoa(n) {
			return bad("rules", "%s has %s rules, not %d: %s", sym, v, n, clip(l.top("DownValues["+sym+"]"), 800))
		}
		return true
	}
	if !count("cf", 2) || !count("cfib", 3) || !count("ch", 0) || !count("cc", 0) || !count("cg", 0) {
		return false
	}
	for _, w := range []write{{"{cf[0], cf[zz], cfib[0], cfib[1]}", "{zero, sym[zz], 0, 1}"}, {"{cold[1], cold[{1, z}], Attributes[cold]}", "{5, {5, old[z]}, {Listable}}"}, {"{q, m, t, Length[DownValues[cold]]}", "{77, 78, 79, 2}"}} {
		if v := l.top(w.key); v != w.val {
			return bad("damaged", "%s is %s, not %s", w.key, v, w.val)
		}
	}
	if v := l.top("ck"); incs > 0 {
		var n int
		if k, err := fmt.Sscan(v, &n); k != 1 || err != nil || n < 1 || n > incs {
			return bad("counter", "%d increments of ck, which is %s", incs, v)
		}
	}
	if v := strings.Trim(l.top("cl"), "{}"); len(appended) > 0 {
		left := map[string]int{}
		for _, a := range appended {
			left[a]++
		}
		n := 0
		for _, x := range strings.Split(v, ", ") {
			if x != "" {
				n++
				left[x]--
				if left[x] < 0 {
					return bad("list", "cl is {%s}; appended were %v", v, appended)
				}
			}
		}
		if n == 0 {
			return bad("list", "cl is empty; appended were %v", appended)
		}
	}
	r.mark(mix64(strHash(in), r.Hash))
	l.takeOut()
	return true
}

func sortedElems(m map[int64]string) []int64 {
	var e []int64
	for k := range m {
		e = append(e, k)
	}
	sort.Slice(e, func(i, j int) bool { return e[i] < e[j] })
	return e
}
