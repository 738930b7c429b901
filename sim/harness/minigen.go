package main

import (
	"fmt"
	"strings"
)

// mgen draws programs of the small language.
type mgen struct {
	*Gen
	pure   bool // no effects on global variables
	throws bool
	prints bool
	par    bool // parallel tables
	sows   bool
	rets   bool
	locals bool // modules, with
	iters  bool // tables, sums, do
	loops  bool // while, for
	fns    map[string]*mfnJ
	ints   []string // integer variables in scope
	rd     []string // integer variables in scope that may only be read
	ctrs   []string // counters in use
	inFn   bool
	inReap bool
	nloc   int
	maxN   int
}

func (g *Gen) newMgen() *mgen {
	return &mgen{Gen: g, fns: map[string]*mfnJ{}, ints: append([]string{}, miniInts...), locals: true, iters: true, loops: true, maxN: 4}
}

func (q *mgen) oneOf(a []string) string { return a[q.N(len(a))] }

func (q *mgen) with(rd []string, ints []string, f func() *X) *X {
	or, oi := q.rd, q.ints
	q.rd = append(append([]string{}, q.rd...), rd...)
	q.ints = append(append([]string{}, q.ints...), ints...)
	x := f()
	q.rd, q.ints = or, oi
	return x
}

func (q *mgen) intVar() *X {
	n := len(q.ints) + 2*len(q.rd) // favour what is bound here
	i := q.N(n)
	if i < len(q.ints) {
		return xv(q.ints[i])
	}
	return xv(q.rd[(i-len(q.ints))/2])
}

func (q *mgen) drop(s string) {
	var a []string
	for _, x := range q.ints {
		if x != s {
			a = append(a, x)
		}
	}
	q.ints = a
	a = nil
	for _, x := range q.rd {
		if x != s {
			a = append(a, x)
		}
	}
	q.rd = a
}

// fresh makes a name for a variable that is replaced by its value in the text;
// such names must not be bound again inside.
func (q *mgen) fresh(p string) string {
	q.nloc++
	return fmt.Sprint(p, q.nloc)
}

func (q *mgen) iterVar() string { return q.oneOf(miniIters) }

func (q *mgen) cond(x *X) *X {
	switch q.N(3) {
	case 0:
		x.T = "even"
	case 1:
		x.T = "eq"
		x.N = int64(q.N(4))
	default:
		x.N = int64(q.Between(1, 40))
	}
	return x
}

func (q *mgen) count() int64 { return int64(q.Between(2, q.maxN)) }

// scope runs f with the sets of variables restored afterwards.
func (q *mgen) scope(f func() *X) *X {
	or, oi := q.rd, q.ints
	x := f()
	q.rd, q.ints = or, oi
	return x
}

func (q *mgen) bindRd(s string) {
	q.drop(s)
	q.rd = append(append([]string{}, q.rd...), s)
}

func (q *mgen) bindInt(s string) {
	q.drop(s)
	q.ints = append(append([]string{}, q.ints...), s)
}

// someForm draws one of the ways to write something.
func (q *mgen) someForm(p float64, forms []string) string {
	if q.P(p) {
		return q.oneOf(forms)
	}
	return ""
}

// leaves says if x ends by a return, which functions would take for theirs.
func leaves(x *X) bool {
	u := map[string]int{}
	x.uses(u)
	return u["return"] > 0
}

func (q *mgen) catch(x *X) *X {
	if leaves(x) {
		return xn("catch", "", 0, x)
	}
	return xn("catch", q.someForm(0.3, catchForms), 0, x)
}

// wrap puts something around x that leaves its value and effects as they are.
func (q *mgen) wrap(x *X) *X {
	if leaves(x) {
		return x
	}
	f := q.oneOf(wrapForms)
	if strings.HasPrefix(f, "Catch") {
		u := map[string]int{}
		if x.uses(u); u["throw"] > 0 || q.throws {
			return x
		}
	}
	return xn("wrap", f, 0, x)
}

// intX draws an expression whose value is an integer.
func (q *mgen) intX(d int) *X {
	if d <= 0 {
		if q.P(0.4) {
			return xi(int64(q.Between(0, 9)))
		}
		return q.intVar()
	}
	if q.P(0.08) {
		return q.wrap(q.intX(d - 1))
	}
	switch q.N(15) {
	case 0, 1, 2:
		return xn("add", "", 0, q.intX(d-1), q.intX(d-1))
	case 3:
		return xn("mod", "", 0, xn("mul", "", 0, q.intX(d-1), q.intX(0)))
	case 4:
		if q.iters && q.P(0.3) {
			return xn("len", "", 0, q.table2(d))
		}
		return xn("len", "", 0, q.listX(d-1))
	case 5:
		if !q.iters {
			return q.intVar()
		}
		return q.scope(func() *X {
			n, v := q.count(), q.iterVar()
			q.bindRd(v)
			k := "sum"
			if q.P(0.2) {
				k, n = "product", 2
			}
			return xn(k, v, n, xn("mod", "", 0, q.blockI(d-1)))
		})
	case 6:
		return q.cond(xn("if", "", 0, q.intX(d-1), q.blockI(d-1), q.blockI(d-1)))
	case 7:
		if len(q.fns) > 0 && !q.inFn {
			n := q.Pick("h1", "h2", "h3")
			if q.pure {
				n = "h3"
			}
			if f := q.fns[n]; f != nil {
				var a []*X
				for range f.Par {
					a = append(a, xn("mod", "", 0, q.intX(d-1)))
				}
				return xn("call", n, 0, a...)
			}
		}
		return q.intVar()
	case 8:
		if !q.throws {
			return q.intX(d - 1)
		}
		return q.catch(q.blockI(d - 1))
	case 9:
		if !q.locals {
			return q.intX(d - 1)
		}
		return q.module(d, true)
	case 10:
		if !q.locals {
			return q.intX(d - 1)
		}
		return q.scope(func() *X {
			v := q.fresh("w")
			init := xi(int64(q.Between(0, 9)))
			q.bindRd(v)
			return xn("with", v, 0, init, q.blockI(d-1))
		})
	case 11:
		return q.scope(func() *X {
			init := q.intX(d - 1)
			n := q.count()
			v := q.bindFn()
			// Nest evaluates its steps several times.
			q.readOnly()
			return q.noEffects(func() *X { return xn("nest", v, n, xn("mod", "", 0, q.blockI(d-1)), init) })
		})
	case 12:
		x := q.cond(xn("which", "", 0, q.intX(d-1), q.blockI(d-1), q.blockI(d-1)))
		if q.P(0.4) {
			x.C = append(x.C[:2:2], q.blockI(d-1), q.blockI(d-1), x.C[2])
		}
		return x
	case 13:
		return xn("switch", "", int64(q.N(6)), q.intX(d-1), q.blockI(d-1), q.blockI(d-1))
	}
	return q.blockI(d - 1)
}

func (q *mgen) module(d int, isInt bool) *X {
	return q.scope(func() *X {
		v := q.Pick("t", "u", "ga", "i")
		init := q.blockI(d - 1)
		q.bindInt(v)
		if isInt {
			return xn("module", v, 0, init, q.blockI(d-1))
		}
		return xn("module", v, 0, init, q.block(d-1))
	})
}

// localLoop is a loop over a variable of its own.
func (q *mgen) localLoop(d int) *X {
	return q.scope(func() *X {
		v := q.Pick("t", "u")
		q.bindRd(v)
		return xn("module", v, 0, xi(int64(q.N(9))), xn("seq", "", 0, xn(q.Pick("while", "for"), v, q.count(), q.block(d-1)), q.intX(0)))
	})
}

// blockI is statements with an integer value at the end.
func (q *mgen) blockI(d int) *X {
	if d <= 0 || q.P(0.5) {
		return q.intX(d)
	}
	c := []*X{q.stmt(d - 1)}
	if q.P(0.3) {
		c = append(c, q.stmt(d-1))
	}
	c = append(c, q.intX(d-1))
	return xn("seq", "", 0, c...)
}

func (q *mgen) block(d int) *X {
	n := 1 + q.N(3)
	if n == 1 {
		return q.stmt(d)
	}
	var c []*X
	for i := 0; i < n; i++ {
		c = append(c, q.stmt(d))
	}
	return xn("seq", "", 0, c...)
}

func (q *mgen) listX(d int) *X {
	if d <= 0 {
		if q.P(0.3) && !q.pure {
			return xv(q.oneOf(miniLists))
		}
		return xn("list", "", 0, q.intX(0), q.intX(0))
	}
	switch q.N(6) {
	case 0:
		return xv(q.oneOf(miniLists))
	case 1, 2:
		if !q.iters {
			break
		}
		return q.scope(func() *X {
			v := q.iterVar()
			x := xn("table", v, q.count())
			q.bindRd(v)
			x.C = []*X{q.blockI(d - 1)}
			return x
		})
	case 3:
		if q.par {
			return q.ptable(d)
		}
	case 4:
		return q.scope(func() *X {
			l := q.listX(d - 1)
			v := q.bindFn()
			return xn("map", v, 0, q.blockI(d-1), l)
		})
	}
	var c []*X
	for i := q.Between(1, 3); i > 0; i-- {
		c = append(c, q.blockI(d-1))
	}
	return xn("list", "", 0, c...)
}

// table2 draws a table of tables.
func (q *mgen) table2(d int) *X {
	return q.scope(func() *X {
		v := q.iterVar()
		w := q.iterVar()
		for w == v {
			w = q.iterVar()
		}
		x := xn("table", v, q.count())
		x.T, x.M = w, int64(q.Between(1, 3))
		q.bindRd(v)
		q.bindRd(w)
		x.C = []*X{q.blockI(d - 1)}
		return x
	})
}

func (q *mgen) ptable(d int) *X {
	return q.scope(func() *X {
		v := q.fresh("n")
		x := xn("ptable", v, int64(q.Between(2, 5)))
		q.bindRd(v)
		sows := q.sows
		return q.noEffects(func() *X {
			q.sows = sows
			x.C = []*X{q.blockI(d - 1)}
			return x
		})
	})
}

// readOnly makes the variables in scope read-only.
func (q *mgen) readOnly() {
	q.rd = append(append([]string{}, q.rd...), q.ints...)
	q.ints = nil
}

// bindFn binds the parameter of a pure function; the parameters of the
// functions around it are not seen in its body.
func (q *mgen) bindFn() string {
	v := q.fresh("p")
	var rd []string
	for _, s := range q.rd {
		if s[0] != 'p' {
			rd = append(rd, s)
		}
	}
	q.rd = append(rd, v)
	return v
}

// noEffects draws code that changes nothing outside and prints nothing.
func (q *mgen) noEffects(f func() *X) *X {
	op, oprint, oloops, osows := q.pure, q.prints, q.loops, q.sows
	or, oi := q.rd, q.ints
	q.pure, q.prints, q.loops, q.sows = true, false, false, false
	// The variables in scope may only be read.
	q.rd, q.ints = append(append([]string{}, or...), oi...), nil
	defer func() {
		q.pure, q.prints, q.loops, q.sows = op, oprint, oloops, osows
		q.rd, q.ints = or, oi
	}()
	return f()
}

// locInts are the integer variables that may be assigned to.
func (q *mgen) assignable() []string {
	var a []string
	for _, s := range q.ints {
		global := false
		for _, g := range miniInts {
			global = global || s == g
		}
		if q.pure && global && !q.isLocal(s) {
			continue
		}
		a = append(a, s)
	}
	return a
}

// In pure code only Module variables may change; those shadowing a global are
// listed after it was dropped, so they are indistinguishable by name and left
// alone.
func (q *mgen) isLocal(s string) bool { return false }

// stmt draws a statement.
func (q *mgen) stmt(d int) *X {
	as := q.assignable()
	for try := 0; try < 20; try++ {
		switch q.N(19) {
		case 0, 1:
			if len(as) > 0 {
				k := "set"
				if q.P(0.2) {
					k = "setev"
				}
				return xn(k, q.oneOf(as), 0, xn("mod", "", 0, q.intX(d)))
			}
		case 2:
			if len(as) > 0 {
				return xn("inc", q.oneOf(as), 0)
			}
		case 3:
			if len(as) > 0 {
				return xn("addto", q.oneOf(as), 0, xn("mod", "", 0, q.intX(d-1)))
			}
		case 4, 5:
			if !q.pure {
				return xn(q.Pick("append", "prepend"), q.oneOf(miniLists), 0, q.intX(d-1))
			}
		case 6:
			if !q.pure {
				if q.P(0.4) {
					x := xn("setd", q.oneOf(miniTables), int64(q.N(6)))
					x.M = int64(q.N(1000))
					return x
				}
				idx := xi(int64(q.N(6)))
				return xn("setf", q.oneOf(miniTables), 0, idx, xn("mod", "", 0, q.intX(d)))
			}
		case 7:
			if d > 0 {
				return q.cond(xn("if", "", 0, q.intX(d-1), q.block(d-1), q.block(d-1)))
			}
		case 8, 9:
			if d > 0 && q.iters {
				return q.scope(func() *X {
					v := q.iterVar()
					k := q.Pick("do", "do", "dol")
					n := q.count()
					if k != "don" {
						if q.P(0.15) {
							q.bindInt(v)
						} else {
							q.bindRd(v)
						}
					}
					if k == "dol" && n > 4 {
						n = 4
					}
					return xn(k, v, n, q.block(d-1))
				})
			}
		case 10, 11:
			if d > 0 && q.loops && !q.pure && !q.inFn && len(q.ctrs) < len(miniCounters) {
				v := miniCounters[len(q.ctrs)]
				oc := q.ctrs
				q.ctrs = append(append([]string{}, q.ctrs...), v)
				x := q.scope(func() *X {
					q.bindRd(v)
					if q.P(0.25) {
						return xn("while2", v, q.count(), q.stmt(d-1), q.block(d-1))
					}
					return xn(q.Pick("while", "for"), v, q.count(), q.block(d-1))
				})
				q.ctrs = oc
				return x
			}
		case 12:
			if d > 0 && q.locals {
				if q.P(0.3) {
					return q.localLoop(d)
				}
				return q.module(d, false)
			}
		case 13:
			if q.throws {
				t := xn("throw", q.someForm(0.4, throwForms), 0, q.intX(d-1))
				if q.P(0.75) {
					return q.cond(xn("if", "", 0, q.intX(0), t))
				}
				return t
			}
		case 14:
			if q.throws && d > 0 {
				return q.catch(q.block(d - 1))
			}
		case 15:
			if q.prints {
				return xn("print", "", 0, q.intX(d-1))
			}
		case 16:
			if q.sows && q.inReap {
				return xn("sow", "", 0, q.intX(d-1))
			}
		case 17:
			if d > 0 {
				return q.scope(func() *X {
					l := q.listX(d - 1)
					v := q.bindFn()
					return xn(q.Pick("map", "scan"), v, 0, q.block(d-1), l)
				})
			}
		case 18:
			if d > 0 && q.iters && q.P(0.5) {
				return q.table2(d)
			}
			if d > 0 {
				return q.blockI(d - 1)
			}
		}
	}
	return q.intX(0)
}

// fun draws the function definitions.
func (q *mgen) funs() {
	for k, n := range []string{"h1", "h2", "h3"} {
		q.scope(func() *X {
			q.inFn = true
			if k == 2 {
				op, oprint, osows := q.pure, q.prints, q.sows
				q.pure, q.prints, q.sows = true, false, false
				defer func() { q.pure, q.prints, q.sows = op, oprint, osows }()
			}
			f := &mfnJ{Par: []string{"x"}}
			q.bindRd("x")
			if k == 1 {
				f.Par = append(f.Par, "y")
				q.bindRd("y")
			}
			if q.rets && q.P(0.5) {
				f.Body = xn("seq", "", 0, q.stmt(1), q.cond(xn("if", "", 0, q.intX(1), xn("return", "", 0, q.intX(1)))), q.stmt(1), q.intX(1))
			} else {
				f.Body = q.blockI(2)
			}
			if q.P(0.4) {
				r := &mrule{Cond: q.cond(&X{})}
				q.noEffects(func() *X {
					r.If = q.blockI(1)
					return nil
				})
				r.Body = q.blockI(2)
				f.Rules = []*mrule{r}
			}
			q.inFn = false
			q.fns[n] = f
			return nil
		})
	}
}

// prog draws a program with n inputs whose reference evaluation is not too long.
func (q *mgen) prog(n, depth int, top func(d int) *X) *mprog {
	for {
		p := &mprog{Fns: q.fns}
		for _, v := range miniInts {
			p.Init = append(p.Init, xn("set", v, 0, xi(int64(q.N(20)))))
		}
		for _, v := range miniLists {
			p.Init = append(p.Init, xn("set", v, 0, xn("list", "", 0, xi(int64(q.N(9))), xi(int64(q.N(9))))))
		}
		for _, v := range miniIters {
			if q.P(0.5) {
				p.Init = append(p.Init, xn("set", v, 0, xi(int64(100+q.N(9)))))
			}
		}
		if len(q.fns) == 0 && q.P(0.7) {
			q.funs()
		}
		for i := 0; i < n; i++ {
			var x *X
			for try := 0; ; try++ {
				x = top(depth)
				if len(x.src()) < 900 {
					break
				}
			}
			p.In = append(p.In, x)
		}
		m := p.model()
		bad := false
		for _, x := range p.In {
			f0 := m.fuel
			_, c := m.ev(x, nil)
			if c == cFuel || f0-m.fuel > 1500 {
				bad = true
				break
			}
		}
		if bad || stateTooBig(m) {
			q.fns = map[string]*mfnJ{}
			continue
		}
		return p
	}
}

func stateTooBig(m *mini) bool { return len(m.state()) > 1500 }
