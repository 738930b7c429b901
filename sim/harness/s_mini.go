package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

func (p *mprog) json() string {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func progOf(s string) *mprog {
	var p mprog
	if err := json.Unmarshal([]byte(s), &p); err != nil {
		panic(err)
	}
	return &p
}

// expect is what one input of a program must show.
type expect struct {
	in  string
	out string // result
	prt string // printed
	st  string // state afterwards
}

func (p *mprog) expects() []expect {
	m := p.model()
	var out []expect
	for _, x := range p.In {
		m.out = nil
		m.fuel = 4000
		r, c := m.ev(x, nil)
		t := r.text()
		prt := ""
		for _, o := range m.out {
			prt += o + "\n"
		}
		switch c {
		case cThrow:
			prt += "Throw::nocatch: Throw[" + t + "] returned to top level but uncaught.\n\n"
			t = "Hold[Throw[" + t + "]]"
		case cReturn:
			t = "Return[" + t + "]"
		}
		out = append(out, expect{x.src(), t, prt, m.state()})
	}
	return out
}

// miniCheck runs a program in l's session and compares it with the model.
func miniCheck(l *Lane, p *mprog, r *Report, seg string) bool {
	for _, s := range p.setup() {
		l.top(s)
	}
	l.takeOut()
	q := stateQuery()
	for i, e := range p.expects() {
		got := l.top(e.in)
		prt := l.takeOut()
		r.inc("inputs", 1)
		r.mix(got + prt)
		if got != e.out {
			r.viol("value", seg, "input %d: %s answers %s, the reference %s; set-up: %s", i, e.in, got, e.out, strings.Join(p.setup(), " ; "))
			return false
		}
		if prt != e.prt {
			r.viol("output", seg, "input %d: %s prints %q, the reference %q; set-up: %s", i, e.in, prt, e.prt, strings.Join(p.setup(), " ; "))
			return false
		}
		st := l.top(q)
		l.takeOut()
		if st != e.st {
			r.viol("state", seg, "input %d: after %s the variables %s are %s, in the reference %s; set-up: %s", i, e.in, q, st, e.st, strings.Join(p.setup(), " ; "))
			return false
		}
	}
	return true
}

var _ = fmt.Sprint
