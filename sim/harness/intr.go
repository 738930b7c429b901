package main

import (
	"os"
	"runtime"
	"syscall"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// Interrupts, clock jumps and the bounds on what follows them.

// lateSteps and lateNs bound what may pass between an interrupt and the answer.
const lateSteps = 400_000
const lateNs = 2_000_000_000

// entrySteps is more than what passes between handing an input to the session
// and its having begun with it.
const entrySteps = 25

// intState follows the interrupt under way.
var intState struct {
	fired int    // interrupts delivered
	at    uint64 // global step of the last one
	ns    int64
	late  bool
	bound bool // the evaluation must end soon after
}

// clockJump is a jump of the wall clock.
type clockJump struct{ from, to int64 }

// clockLog are the jumps of this execution, stalled the time for which the
// whole machine stood still.
var clockLog []clockJump
var stalled int64

func init() {
	simrt.OnEvent = func(t *simrt.Task, e simrt.Event) bool {
		switch e.Kind {
		case "int":
			intState.fired++
			intState.at, intState.ns = simrt.Steps(), simrt.Mono()
			simrt.Interrupt(func(simrt.SignalReg) bool { return true })
			if intState.bound {
				simrt.After(lateSteps, simrt.Event{Kind: "late"})
				simrt.AfterTime(lateNs, simrt.Event{Kind: "late"})
			}
			return true
		case "arm":
			simrt.AfterTime(e.Arg, simrt.Event{Kind: "int"})
		case "late":
			intState.late = true
			if os.Getenv("VERIF_STACK") != "" {
				b := make([]byte, 1<<20)
				syscall.SimRawWrite(2, b[:runtime.Stack(b, true)])
			}
			simrt.Abort()
			return true
		case "jump":
			w := simrt.Wall()
			if w+e.Arg < 0 {
				return false // before 1970
			}
			simrt.Jump(e.Arg)
			clockLog = append(clockLog, clockJump{w, simrt.Wall()})
		case "advance":
			simrt.Advance(e.Arg)
			stalled += e.Arg
		}
		return false
	}
}

// interrupted evaluates f while interrupts arrive after the given numbers of
// scheduling points (negative: after that many ns of simulated time).
func interrupted(l *Lane, after []int64, bound bool, f func() string) (out string, fired int) {
	intState.fired, intState.late, intState.bound = 0, false, bound
	simrt.ClearEvents()
	l.begin()
	// Not before the input has been taken up.
	for _, a := range after {
		if a < 0 {
			simrt.After(entrySteps, simrt.Event{Kind: "arm", Arg: -a})
		} else {
			simrt.After(uint64(a)+entrySteps, simrt.Event{Kind: "int"})
		}
	}
	out = f()
	simrt.ClearEvents()
	l.begin() // of the next input
	return out, intState.fired
}
