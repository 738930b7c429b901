package main

import (
	"fmt"
	"sort"
	"strings"
)

// A small language with a reference interpreter: programs in it are rendered as
// input for the system and carried out by the interpreter, which knows the value
// of everything and the state after every effect.

// X is a node of a program.
type X struct {
	K string `json:"k"`
	S string `json:"s,omitempty"`
	T string `json:"t,omitempty"`
	N int64  `json:"n,omitempty"`
	M int64  `json:"m,omitempty"`
	C []*X   `json:"c,omitempty"`
}

type val struct {
	k byte // i integer, l list, s anything else, by its text
	n int64
	l []val
	s string
}

func iv(n int64) val  { return val{k: 'i', n: n} }
func sv(s string) val { return val{k: 's', s: s} }
func lv(l []val) val  { return val{k: 'l', l: l} }
func (v val) text() string {
	switch v.k {
	case 'i':
		return fmt.Sprint(v.n)
	case 'l':
		var p []string
		for _, x := range v.l {
			p = append(p, x.text())
		}
		return "{" + strings.Join(p, ", ") + "}"
	}
	return v.s
}

var null = sv("Null")

func xi(n int64) *X                       { return &X{K: "int", N: n} }
func xv(s string) *X                      { return &X{K: "var", S: s} }
func xn(k, s string, n int64, c ...*X) *X { return &X{K: k, S: s, N: n, C: c} }

func (x *X) args() string {
	var p []string
	for _, c := range x.C {
		p = append(p, c.src())
	}
	return strings.Join(p, ", ")
}

// form renders one of the ways to write the same thing.
func form(f, std, arg string) string {
	if f == "" {
		f = std
	}
	return strings.Replace(f, "%s", arg, 1)
}

// helpers are the definitions the forms use.
var helpers = []string{
	"thr1[x_] := Throw[x]", "thr2[x_] := thr1[x]", "thr3[x_] := If[True, thr2[x], 0]", "thr4[x_Integer /; x > -1000] := thr2[x]", "thr4[x_] := thr3[x]", "thr5 = Throw",
	"SetAttributes[cat1, HoldAll]", "cat1[x_] := Catch[x]", "SetAttributes[cat2, HoldFirst]", "cat2[x_] := cat1[x]",
	"idw[x_] := x", "SetAttributes[idh, HoldAll]", "idh[x_] := x", "SetAttributes[idr, HoldRest]", "idr[x_, y_] := (x; y)", "idl[x___] := {x}[[1]]", "ido[x_, y_:3] := x",
}

var throwForms = []string{"thr1[%s]", "thr2[%s]", "thr3[%s]", "thr4[%s]", "thr5[%s]", "Map[thr2, {%s}]", "(thr3 @@ {%s})", "Scan[Throw, {%s}]", "Fold[thr2[#2] &, 0, {%s}]",
	"With[{zz = %s}, thr1[zz]]", "Module[{zz = %s}, thr2[zz]]", "Function[zz, Throw[zz]][%s]", "({%s} /. {zz_} :> thr2[zz])", "Nest[thr2, %s, 3]", "Plus[1, 2, thr1[%s], thr1[0]]", "Which[False, 0, True, thr2[%s]]"}

var catchForms = []string{"cat1[%s]", "cat2[%s]", "Catch[Catch[%s]]", "Catch[{%s}[[1]]]", "Catch[Module[{}, %s]]", "Last[{0, Catch[%s]}]"}

var wrapForms = []string{"idw[%s]", "idh[%s]", "idr[0, %s]", "idl[%s]", "ido[%s]", "Function[zz, zz][%s]", "First[{%s}]", "({%s} /. {zz_} :> zz)", "With[{zz = %s}, zz]", "Module[{zz = %s}, zz]",
	"Switch[1, 1, %s, _, 0]", "Which[True, %s]", "If[True, %s]", "(Null; %s)", "Last[{0, %s}]", "(idw @@ {%s})", "Fold[#2 &, 0, {%s}]", "Total[{%s}]", "Catch[%s]", "Nest[idw, %s, 2]", "Max[%s]", "{%s, 0}[[1]]"}

// src renders the program.
func (x *X) src() string {
	c := func(i int) string { return x.C[i].src() }
	switch x.K {
	case "int":
		return fmt.Sprint(x.N)
	case "var":
		return x.S
	case "add":
		return "(" + c(0) + " + " + c(1) + ")"
	case "mul":
		return "(" + c(0) + "*" + c(1) + ")"
	case "mod":
		return "Mod[" + c(0) + ", 1000]"
	case "len":
		return "Length[" + c(0) + "]"
	case "list":
		return "{" + x.args() + "}"
	case "set":
		return "(" + x.S + " = " + c(0) + ")"
	case "setev":
		return "(" + x.S + " := Evaluate[" + c(0) + "])"
	case "inc":
		return "(" + x.S + "++)"
	case "dec":
		return "(--" + x.S + ")"
	case "addto":
		return "(" + x.S + " += " + c(0) + ")"
	case "append":
		return "AppendTo[" + x.S + ", " + c(0) + "]"
	case "prepend":
		return "PrependTo[" + x.S + ", " + c(0) + "]"
	case "setf":
		return "(" + x.S + "[" + c(0) + "] = " + c(1) + ")"
	case "getf":
		return x.S + "[" + c(0) + "]"
	case "seq":
		var p []string
		for _, y := range x.C {
			p = append(p, y.src())
		}
		return "(" + strings.Join(p, "; ") + ")"
	case "if":
		if len(x.C) == 2 {
			return "If[" + x.cond(c(0)) + ", " + c(1) + "]"
		}
		return "If[" + x.cond(c(0)) + ", " + c(1) + ", " + c(2) + "]"
	case "which": // the condition x.cond and further ones with bodies
		t := "Which[" + x.cond(c(0)) + ", " + c(1)
		for i := 2; i+1 < len(x.C); i += 2 {
			t += ", " + x.cond(c(i)) + ", " + c(i+1)
		}
		return t + ", True, " + c(len(x.C)-1) + "]"
	case "setd":
		return fmt.Sprintf("(%s[%d] := %d)", x.S, x.N, x.M)
	case "while2": // with a statement in the condition
		return fmt.Sprintf("(%s = 0; While[%s; %s < %d, %s; %s++])", x.S, c(0), x.S, x.N, c(1), x.S)
	case "switch":
		return "Switch[" + c(0) + ", " + fmt.Sprint(x.N) + ", " + c(1) + ", _, " + c(2) + "]"
	case "do":
		return "Do[" + c(0) + ", {" + x.S + ", " + fmt.Sprint(x.N) + "}]"
	case "don":
		return "Do[" + c(0) + ", " + fmt.Sprint(x.N) + "]"
	case "dol": // over a list
		return "Do[" + c(0) + ", {" + x.S + ", {" + listText(x.N) + "}}]"
	case "while":
		return fmt.Sprintf("(%s = 0; While[%s < %d, %s; %s++])", x.S, x.S, x.N, c(0), x.S)
	case "for":
		return fmt.Sprintf("For[%s = 0, %s < %d, %s++, %s]", x.S, x.S, x.N, x.S, c(0))
	case "table", "ptable", "sum", "product":
		h := map[string]string{"table": "Table", "ptable": "ParallelTable", "sum": "Sum", "product": "Product"}[x.K]
		if x.T != "" {
			return fmt.Sprintf("%s[%s, {%s, %d}, {%s, %d}]", h, c(0), x.S, x.N, x.T, x.M)
		}
		return fmt.Sprintf("%s[%s, {%s, %d}]", h, c(0), x.S, x.N)
	case "module":
		return "Module[{" + x.S + " = " + c(0) + "}, " + c(1) + "]"
	case "with":
		return "With[{" + x.S + " = " + c(0) + "}, " + c(1) + "]"
	case "catch":
		return form(x.S, "Catch[%s]", c(0))
	case "throw":
		return form(x.S, "Throw[%s]", c(0))
	case "wrap":
		return form(x.S, "%s", c(0))
	case "return":
		return "Return[" + c(0) + "]"
	case "print":
		return "Print[" + c(0) + "]"
	case "sow":
		return "Sow[" + c(0) + "]"
	case "reap":
		return "Reap[" + c(0) + "]"
	case "call":
		return x.S + "[" + x.args() + "]"
	case "map":
		return "Map[Function[" + x.S + ", " + c(0) + "], " + c(1) + "]"
	case "scan":
		return "Scan[Function[" + x.S + ", " + c(0) + "], " + c(1) + "]"
	case "fold":
		return "Fold[Function[{" + x.S + ", " + x.T + "}, " + c(0) + "], " + c(1) + ", " + c(2) + "]"
	case "nest":
		return "Nest[Function[" + x.S + ", " + c(0) + "], " + c(1) + ", " + fmt.Sprint(x.N) + "]"
	}
	panic("src " + x.K)
}

func (x *X) cond(c string) string {
	switch x.T {
	case "even":
		return "EvenQ[" + c + "]"
	case "eq":
		return "Mod[" + c + ", 4] == " + fmt.Sprint(x.N)
	}
	return c + " < " + fmt.Sprint(x.N)
}

func (x *X) test(n int64) bool {
	switch x.T {
	case "even":
		return n%2 == 0
	case "eq":
		return n%4 == x.N
	}
	return n < x.N
}

func listText(n int64) string {
	var p []string
	for i := int64(0); i < n; i++ {
		p = append(p, fmt.Sprint(7-2*i))
	}
	return strings.Join(p, ", ")
}

// mini is the reference interpreter.
type mini struct {
	g       map[string]val
	f       map[string]map[int64]val
	base    map[string]*val // value outside all iterations over it; nil pointer: none
	fn      map[string]*mfn
	out     []string
	sown    []val
	fuel    int
	snaps   map[string]int // every state passed, and when first
	nsnap   int
	keep    bool
	effects int
}

type mfn struct {
	par   []string
	body  *X
	rules []*mrule // tried first
}

// mrule is a rule with a condition.
type mrule struct {
	If   *X `json:"if"`
	Cond *X `json:"cond"` // how the value is tested
	Body *X `json:"body"`
}

type ctl int

const (
	cNone ctl = iota
	cThrow
	cReturn
	cFuel
)

type menv struct {
	name string
	v    *val // a Module variable: a cell; otherwise a value put in its place
	up   *menv
}

func newMini() *mini {
	return &mini{g: map[string]val{}, f: map[string]map[int64]val{}, base: map[string]*val{}, fn: map[string]*mfn{}, fuel: 4000}
}

// state is what a client would see now in the global variables.
func (m *mini) state() string {
	var p []string
	seen := map[string]bool{}
	for _, k := range miniGlobals {
		seen[k] = true
		if b, ok := m.base[k]; ok {
			if b != nil {
				p = append(p, b.text())
			} else {
				p = append(p, k)
			}
			continue
		}
		if v, ok := m.g[k]; ok {
			p = append(p, v.text())
		} else {
			p = append(p, k)
		}
	}
	for _, f := range miniTables {
		for i := int64(0); i < 6; i++ {
			if v, ok := m.f[f][i]; ok {
				p = append(p, v.text())
			} else {
				p = append(p, fmt.Sprintf("%s[%d]", f, i))
			}
		}
	}
	return "{" + strings.Join(p, ", ") + "}"
}

var miniInts = []string{"ga", "gb", "gc"}
var miniLists = []string{"la", "lb"}
var miniIters = []string{"i", "j", "k", "m"}
var miniCounters = []string{"wa", "wb"}
var miniTables = []string{"fa", "fb"}
var miniGlobals = append(append(append(append([]string{}, miniInts...), miniLists...), miniIters...), miniCounters...)

// stateQuery is the input that shows what state() predicts.
func stateQuery() string {
	p := append([]string{}, miniGlobals...)
	for _, f := range miniTables {
		for i := 0; i < 6; i++ {
			p = append(p, fmt.Sprintf("%s[%d]", f, i))
		}
	}
	return "{" + strings.Join(p, ", ") + "}"
}

func (m *mini) effect() {
	m.effects++
	if m.keep {
		s := m.state()
		if _, ok := m.snaps[s]; !ok {
			m.snaps[s] = m.nsnap
		}
		m.nsnap++
	}
}

func (m *mini) look(e *menv, s string) val {
	for ; e != nil; e = e.up {
		if e.name == s {
			return *e.v
		}
	}
	if v, ok := m.g[s]; ok {
		return v
	}
	return sv(s)
}

func (m *mini) assign(e *menv, s string, v val) {
	for ; e != nil; e = e.up {
		if e.name == s {
			*e.v = v
			return
		}
	}
	m.g[s] = v
	m.effect()
}

func mod1000(n int64) int64 { return ((n % 1000) + 1000) % 1000 }

// iterate runs body with the variable bound to each value in turn, dynamically,
// and restores it.
func (m *mini) iterate(e *menv, s string, vals []val, body func() (val, ctl)) (val, ctl) {
	// A Module variable of that name is what is iterated over.
	for x := e; x != nil; x = x.up {
		if x.name == s {
			old := *x.v
			defer func() { *x.v = old }()
			for _, v := range vals {
				*x.v = v
				if r, c := body(); c != cNone {
					return r, c
				}
			}
			return null, cNone
		}
	}
	old, had := m.g[s]
	outer := false
	if _, ok := m.base[s]; !ok {
		outer = true
		if had {
			o := old
			m.base[s] = &o
		} else {
			m.base[s] = nil
		}
	}
	defer func() {
		if had {
			m.g[s] = old
		} else {
			delete(m.g, s)
		}
		if outer {
			delete(m.base, s)
		}
	}()
	for _, v := range vals {
		m.g[s] = v
		if r, c := body(); c != cNone {
			return r, c
		}
	}
	return null, cNone
}

func upto(n int64) []val {
	var l []val
	for i := int64(1); i <= n; i++ {
		l = append(l, iv(i))
	}
	return l
}

// ev evaluates x.
func (m *mini) ev(x *X, e *menv) (val, ctl) {
	m.fuel--
	if m.fuel < 0 {
		return null, cFuel
	}
	var a, b val
	var c ctl
	switch x.K {
	case "int":
		return iv(x.N), cNone
	case "var":
		return m.look(e, x.S), cNone
	case "add", "mul":
		if a, c = m.ev(x.C[0], e); c != cNone {
			return a, c
		}
		if b, c = m.ev(x.C[1], e); c != cNone {
			return b, c
		}
		if a.k != 'i' || b.k != 'i' {
			panic("mini: arithmetic on " + a.text() + " and " + b.text() + " in " + x.src())
		}
		if x.K == "add" {
			return iv(a.n + b.n), cNone
		}
		return iv(a.n * b.n), cNone
	case "mod":
		if a, c = m.ev(x.C[0], e); c != cNone {
			return a, c
		}
		return iv(mod1000(a.n)), cNone
	case "len":
		if a, c = m.ev(x.C[0], e); c != cNone {
			return a, c
		}
		return iv(int64(len(a.l))), cNone
	case "list":
		l := []val{}
		for _, y := range x.C {
			if a, c = m.ev(y, e); c != cNone {
				return a, c
			}
			l = append(l, a)
		}
		return lv(l), cNone
	case "set":
		if a, c = m.ev(x.C[0], e); c != cNone {
			return a, c
		}
		m.assign(e, x.S, a)
		return a, cNone
	case "setev":
		if a, c = m.ev(x.C[0], e); c != cNone {
			return a, c
		}
		m.assign(e, x.S, a)
		return null, cNone
	case "inc":
		a = m.look(e, x.S)
		m.assign(e, x.S, iv(a.n+1))
		return a, cNone
	case "dec":
		a = m.look(e, x.S)
		m.assign(e, x.S, iv(a.n-1))
		return iv(a.n - 1), cNone
	case "addto":
		if b, c = m.ev(x.C[0], e); c != cNone {
			return b, c
		}
		a = m.look(e, x.S)
		a = iv(a.n + b.n)
		m.assign(e, x.S, a)
		return a, cNone
	case "append", "prepend":
		if b, c = m.ev(x.C[0], e); c != cNone {
			return b, c
		}
		old := m.look(e, x.S)
		l := append([]val{}, old.l...)
		if x.K == "append" {
			l = append(l, b)
		} else {
			l = append([]val{b}, l...)
		}
		m.assign(e, x.S, lv(l))
		return lv(l), cNone
	case "setf":
		if a, c = m.ev(x.C[0], e); c != cNone {
			return a, c
		}
		if b, c = m.ev(x.C[1], e); c != cNone {
			return b, c
		}
		if m.f[x.S] == nil {
			m.f[x.S] = map[int64]val{}
		}
		m.f[x.S][a.n] = b
		m.effect()
		return b, cNone
	case "getf":
		if a, c = m.ev(x.C[0], e); c != cNone {
			return a, c
		}
		if v, ok := m.f[x.S][a.n]; ok {
			return v, cNone
		}
		return sv(fmt.Sprintf("%s[%d]", x.S, a.n)), cNone
	case "setd":
		if m.f[x.S] == nil {
			m.f[x.S] = map[int64]val{}
		}
		m.f[x.S][x.N] = iv(x.M)
		m.effect()
		return null, cNone
	case "seq":
		for _, y := range x.C {
			if a, c = m.ev(y, e); c != cNone {
				return a, c
			}
		}
		return a, cNone
	case "which":
		for i := 0; i+1 < len(x.C); i += 2 {
			if a, c = m.ev(x.C[i], e); c != cNone {
				return a, c
			}
			if x.test(a.n) {
				return m.ev(x.C[i+1], e)
			}
		}
		return m.ev(x.C[len(x.C)-1], e)
	case "if":
		if a, c = m.ev(x.C[0], e); c != cNone {
			return a, c
		}
		if x.test(a.n) {
			return m.ev(x.C[1], e)
		}
		if len(x.C) == 2 {
			return null, cNone
		}
		return m.ev(x.C[2], e)
	case "switch":
		if a, c = m.ev(x.C[0], e); c != cNone {
			return a, c
		}
		if a.n == x.N {
			return m.ev(x.C[1], e)
		}
		return m.ev(x.C[2], e)
	case "do", "dol":
		vals := upto(x.N)
		if x.K == "dol" {
			vals = nil
			for i := int64(0); i < x.N; i++ {
				vals = append(vals, iv(7-2*i))
			}
		}
		r, c := m.iterate(e, x.S, vals, func() (val, ctl) { return m.ev(x.C[0], e) })
		if c == cReturn {
			c = cNone
		}
		return r, c
	case "don":
		for i := int64(0); i < x.N; i++ {
			if a, c = m.ev(x.C[0], e); c == cReturn {
				return a, cNone
			} else if c != cNone {
				return a, c
			}
		}
		return null, cNone
	case "while", "for":
		m.assign(e, x.S, iv(0))
		for m.look(e, x.S).n < x.N {
			// Return is consumed by While itself.
			if a, c = m.ev(x.C[0], e); c == cReturn {
				return a, cNone
			} else if c != cNone {
				return a, c
			}
			m.assign(e, x.S, iv(m.look(e, x.S).n+1))
			m.fuel--
			if m.fuel < 0 {
				return null, cFuel
			}
		}
		return null, cNone
	case "while2":
		m.assign(e, x.S, iv(0))
		for {
			if a, c = m.ev(x.C[0], e); c != cNone {
				return a, c
			}
			if m.look(e, x.S).n >= x.N {
				return null, cNone
			}
			if a, c = m.ev(x.C[1], e); c == cReturn {
				return a, cNone
			} else if c != cNone {
				return a, c
			}
			m.assign(e, x.S, iv(m.look(e, x.S).n+1))
			m.fuel--
			if m.fuel < 0 {
				return null, cFuel
			}
		}
	case "table":
		l := []val{}
		r, c := m.iterate(e, x.S, upto(x.N), func() (val, ctl) {
			if x.T != "" {
				// One flat list.
				return m.iterate(e, x.T, upto(x.M), func() (val, ctl) {
					a, c := m.ev(x.C[0], e)
					l = append(l, a)
					return a, c
				})
			}
			a, c := m.ev(x.C[0], e)
			l = append(l, a)
			return a, c
		})
		if c != cNone {
			return r, c
		}
		return lv(l), cNone
	case "ptable":
		l := []val{}
		for i := int64(1); i <= x.N; i++ {
			vi := iv(i)
			for j := int64(1); j <= x.M || (x.T == "" && j == 1); j++ {
				env := &menv{x.S, &vi, e}
				vj := iv(j)
				if x.T != "" {
					env = &menv{x.T, &vj, env}
				}
				if a, c = m.ev(x.C[0], env); c != cNone {
					return a, c
				}
				l = append(l, a)
			}
		}
		return lv(l), cNone
	case "sum", "product":
		acc := int64(0)
		if x.K == "product" {
			acc = 1
		}
		r, c := m.iterate(e, x.S, upto(x.N), func() (val, ctl) {
			a, c := m.ev(x.C[0], e)
			if x.K == "sum" {
				acc += a.n
			} else {
				acc *= a.n
			}
			return a, c
		})
		if c != cNone {
			return r, c
		}
		return iv(acc), cNone
	case "module":
		if a, c = m.ev(x.C[0], e); c != cNone {
			return a, c
		}
		return m.ev(x.C[1], &menv{x.S, &a, e})
	case "with":
		if a, c = m.ev(x.C[0], e); c != cNone {
			return a, c
		}
		return m.ev(x.C[1], &menv{x.S, &a, e})
	case "wrap":
		return m.ev(x.C[0], e)
	case "catch":
		a, c = m.ev(x.C[0], e)
		if c == cThrow {
			return a, cNone
		}
		return a, c
	case "throw":
		if a, c = m.ev(x.C[0], e); c != cNone {
			return a, c
		}
		return a, cThrow
	case "return":
		if a, c = m.ev(x.C[0], e); c != cNone {
			return a, c
		}
		return a, cReturn
	case "print":
		if a, c = m.ev(x.C[0], e); c != cNone {
			return a, c
		}
		m.out = append(m.out, a.text())
		return null, cNone
	case "sow":
		if a, c = m.ev(x.C[0], e); c != cNone {
			return a, c
		}
		m.sown = append(m.sown, a)
		return a, cNone
	case "reap":
		m.sown = nil
		a, c = m.ev(x.C[0], e)
		s := append([]val{}, m.sown...)
		m.sown = nil
		if c != cNone {
			return a, c
		}
		return lv([]val{a, lv([]val{lv(s)})}), cNone
	case "call":
		fd := m.fn[x.S]
		var env *menv
		for i, y := range x.C {
			if a, c = m.ev(y, e); c != cNone {
				return a, c
			}
			v := a
			env = &menv{fd.par[i], &v, env}
		}
		body := fd.body
		for _, g := range fd.rules {
			if a, c = m.ev(g.If, env); c != cNone {
				return a, c
			}
			if g.Cond.test(a.n) {
				body = g.Body
				break
			}
		}
		a, c = m.ev(body, env)
		if c == cReturn {
			c = cNone
		}
		return a, c
	case "map", "scan":
		if b, c = m.ev(x.C[1], e); c != cNone {
			return b, c
		}
		l := []val{}
		for _, y := range b.l {
			y := y
			if a, c = m.ev(x.C[0], &menv{x.S, &y, e}); c != cNone {
				return a, c
			}
			l = append(l, a)
		}
		if x.K == "scan" {
			return null, cNone
		}
		return lv(l), cNone
	case "fold":
		if a, c = m.ev(x.C[1], e); c != cNone {
			return a, c
		}
		if b, c = m.ev(x.C[2], e); c != cNone {
			return b, c
		}
		for _, y := range b.l {
			y, z := y, a
			if a, c = m.ev(x.C[0], &menv{x.T, &y, &menv{x.S, &z, e}}); c != cNone {
				return a, c
			}
		}
		return a, cNone
	case "nest":
		if a, c = m.ev(x.C[1], e); c != cNone {
			return a, c
		}
		for i := int64(0); i < x.N; i++ {
			z := a
			if a, c = m.ev(x.C[0], &menv{x.S, &z, e}); c != cNone {
				return a, c
			}
		}
		return a, cNone
	}
	panic("ev " + x.K)
}

// uses lists the kinds of nodes in a program.
func (x *X) uses(k map[string]int) {
	k[x.K]++
	for _, c := range x.C {
		c.uses(k)
	}
}

// forms counts the nodes that are written in another way than usual.
func (x *X) forms(k map[string]int) {
	if (x.K == "throw" || x.K == "catch" || x.K == "wrap") && x.S != "" {
		k[""]++
	}
	for _, c := range x.C {
		c.forms(k)
	}
}

func (f *mfnJ) forms(k map[string]int) {
	f.Body.forms(k)
	for _, g := range f.Rules {
		g.Body.forms(k)
		g.If.forms(k)
	}
}

// mprog is a program: initial values, function definitions and inputs.
type mprog struct {
	Init []*X             `json:"init"`
	Fns  map[string]*mfnJ `json:"fns"`
	In   []*X             `json:"in"`
}

type mfnJ struct {
	Par   []string `json:"par"`
	Body  *X       `json:"body"`
	Rules []*mrule `json:"rules,omitempty"`
}

// setup lists the inputs that bring a session to the program's initial state.
func (p *mprog) setup() []string {
	out := []string{"Clear[" + strings.Join(append(append([]string{"h1", "h2", "h3"}, miniGlobals...), miniTables...), ", ") + "]"}
	for _, x := range p.Init {
		out = append(out, x.src())
	}
	u := map[string]int{}
	for _, x := range p.In {
		x.forms(u)
	}
	for _, f := range p.Fns {
		f.forms(u)
	}
	if u[""] > 0 {
		out = append(out, strings.Join(helpers, "; "))
	}
	var names []string
	for n := range p.Fns {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := p.Fns[n]
		var ps []string
		for _, q := range f.Par {
			ps = append(ps, q+"_")
		}
		out = append(out, fmt.Sprintf("%s[%s] := %s", n, strings.Join(ps, ", "), f.Body.src()))
		for _, g := range f.Rules {
			out = append(out, fmt.Sprintf("%s[%s] := %s /; %s", n, strings.Join(ps, ", "), g.Body.src(), g.Cond.cond(g.If.src())))
		}
	}
	return out
}

func (p *mprog) model() *mini {
	m := newMini()
	for n, f := range p.Fns {
		m.fn[n] = &mfn{f.Par, f.Body, f.Rules}
	}
	for _, x := range p.Init {
		m.ev(x, nil)
	}
	m.effects, m.fuel = 0, 4000
	return m
}
