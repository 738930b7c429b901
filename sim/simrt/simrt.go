// Package simrt is the deterministic scheduler.  Every goroutine that executes
// instrumented code becomes a task; exactly one task runs at a time, and which
// one is decided here, at scheduling points (one in front of every statement
// of the code under test) and wherever a task blocks or ends.
//
// The process runs with GOMAXPROCS=1 and without time-slice preemption, so
// what happens between two scheduling points is one deterministic step.
package simrt

import (
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"sort"
	"syscall"
	"time"
	"unsafe"
)

type state uint8

const (
	stReady    state = iota // parked at a scheduling point
	stRunning               // the current task
	stBlocked               // waiting inside the real runtime (channel, lock, WaitGroup)
	stSleeping              // time.Sleep
	stDone
)

// Task is one simulated thread of execution.
type Task struct {
	Name   string // "0", "1", ... for the harness's own tasks; parent.k for goroutines they start
	Root   *Task  // the harness task it descends from (itself for those)
	Steps  uint64 // scheduling points passed
	Data   any    // the harness's attachment (inherited from the parent)
	Killed bool

	goid   uint64
	g      unsafe.Pointer
	ch     chan struct{}
	st     state
	next   uint64 // Steps at which to take the slow path
	wake   int64
	nchild int
	parent *Task
	daemon bool
	boost  bool // woken by a signal: goes first
	prio   float64
	Panic  any
	Stack  string
	Exited int // code passed to os.Exit, -1 if none
}

// Switch is one scheduling decision: when task Task stood at its Step-th
// scheduling point (or stopped there), the processor went to To.
type Switch struct {
	Task string `json:"t"`
	Step uint64 `json:"s"`
	To   string `json:"to"`
	B    bool   `json:"b,omitempty"` // the task blocked, slept or ended there; it was not preempted
}

// Event is something the environment does when task Task reaches Step.
type Event struct {
	Task string `json:"t"`
	Step uint64 `json:"s"`
	Kind string `json:"k"`
	Arg  int64  `json:"a,omitempty"`
}

// Plan decides one execution.
type Plan struct {
	Seed    uint64   `json:"seed"`
	Mode    string   `json:"mode"` // quantum | sites | pct | serial | script
	Quantum float64  `json:"quantum,omitempty"`
	Sites   []uint32 `json:"sites,omitempty"`
	SiteP   float64  `json:"sitep,omitempty"`
	Depth   int      `json:"depth,omitempty"` // pct: number of priority changes
	Horizon uint64   `json:"horizon,omitempty"`
	Script  []Switch `json:"script,omitempty"`
	Events  []Event  `json:"events,omitempty"`
	MapSeed uint64   `json:"mapseed"`
	Epoch   int64    `json:"epoch"`           // simulated wall clock at start, ns
	Tick    int64    `json:"tick"`            // simulated ns per scheduling point
	Grain   int64    `json:"grain,omitempty"` // what the program reads of the clocks is a multiple of it
	Max     uint64   `json:"max"`             // give up after this many scheduling points
}

// Result describes a finished execution.
type Result struct {
	Status   string // ok | deadlock | budget
	Switches []Switch
	Steps    uint64
	SimNs    int64
	Preempts int
	Stuck    []string
	// SwitchHash identifies the interleaving: the sequence of (task, site) at
	// which the processor changed hands.
	SwitchHash uint64
	Fired      map[string]int
	Tasks      int // tasks there were
}

const NSITES = 1 << 16

var (
	// Active is read in front of every statement of the code under test.
	Active bool

	cur       *Task
	curGoid   uint64
	schedGid  uint64
	tasks     []*Task
	fresh     []*Task
	reaping   bool
	settingUp bool // the clock stands still meanwhile

	plan     *Plan
	rnd      Rand
	mono     int64 // simulated time not accounted for by steps
	skew     int64 // wall clock - monotonic clock
	steps    uint64
	watch    [NSITES]bool
	Hits     [NSITES]uint32 // visits per site, whole process
	res      *Result
	script   map[string][]Switch // preemptions
	scriptB  map[string][]Switch // successors of tasks that stopped by themselves
	events   map[string][]Event
	lastSite uint32
	abort    bool
	// signalled says that a signal was delivered in the present step; the
	// goroutines waiting for it run at once.  A handler that comes later is the
	// same as a signal that comes later.
	signalled bool
	// OnEvent handles the events of the plan; it runs on the task's goroutine.
	OnEvent func(t *Task, e Event) (resched bool)
	// timers are the events of After and AfterTime, which have no task of their own.
	timers []timer
	// OnSpawn is told of goroutines started by the code under test.
	OnSpawn func(t *Task)
)

type timer struct {
	step uint64 // global step at which it is due; 0: at a time
	at   int64  // simulated monotonic time at which it is due
	e    Event
}

// After lets e happen when the execution has passed n more scheduling points.
//
//go:norace
func After(n uint64, e Event) {
	if n == 0 {
		n = 1
	}
	timers = append(timers, timer{step: steps + n, e: e})
	if cur != nil && cur.st == stRunning {
		nextTimer(cur)
	}
}

// AfterTime lets e happen when d ns of simulated time have passed, also if
// every task sleeps.
//
//go:norace
func AfterTime(d int64, e Event) {
	timers = append(timers, timer{at: Mono() + d, e: e})
	if cur != nil && cur.st == stRunning {
		nextTimer(cur)
	}
}

// ClearEvents forgets the events of After and AfterTime that have not happened.
//
//go:norace
func ClearEvents() { timers = nil }

// nextTimer makes t stop where the next of them is due.
//
//go:norace
func nextTimer(t *Task) {
	for _, x := range timers {
		var left uint64
		if x.step > 0 {
			if x.step > steps {
				left = x.step - steps
			}
		} else if d := x.at - Mono(); d > 0 {
			left = uint64(d/plan.Tick) + 1
		}
		if t.Steps+left < t.next {
			t.next = t.Steps + left
		}
	}
}

// fireTimers lets those happen that are due.
//
//go:norace
func fireTimers(t *Task) (resched bool) {
	for i := 0; i < len(timers); {
		x := timers[i]
		if (x.step > 0 && x.step > steps) || (x.step == 0 && x.at > Mono()) {
			i++
			continue
		}
		timers = append(append([]timer(nil), timers[:i]...), timers[i+1:]...)
		i = 0
		res.Fired[x.e.Kind]++
		if OnEvent != nil && OnEvent(t, x.e) {
			resched = true
		}
	}
	return
}

// Y is the scheduling point.
//
//go:norace
func Y(site uint32) {
	if Active {
		y(site)
	}
}

//go:norace
func y(site uint32) {
	gid := runtime.SimGoid()
	if gid != curGoid {
		foreign(gid, site)
		return
	}
	t := cur
	if t.Killed {
		return // unwinding
	}
	t.Steps++
	steps++
	Hits[site&(NSITES-1)]++
	lastSite = site
	if t.Steps >= t.next || watch[site&(NSITES-1)] {
		slow(t, site)
	}
}

// foreign handles a scheduling point reached by a goroutine that is not the
// current task: a new goroutine, or one that blocked and has been woken.
//
//go:norace
func foreign(gid uint64, site uint32) {
	if gid == schedGid {
		return
	}
	var t *Task
	for _, x := range tasks {
		if x.goid == gid {
			t = x
			break
		}
	}
	if t == nil {
		for _, x := range fresh {
			if x.goid == gid {
				t = x
				break
			}
		}
	}
	if reaping {
		if t != nil && t.Killed {
			return
		}
		if t != nil {
			t.Killed = true
		} else {
			t = &Task{goid: gid, Killed: true, st: stReady, daemon: true, Exited: -1}
			tasks = append(tasks, t)
		}
		raceDisable()
		raceEnable()
		runtime.Goexit()
	}
	if t == nil {
		t = &Task{goid: gid, g: runtime.SimG(), ch: make(chan struct{}, 1), daemon: true, Exited: -1}
		pg := runtime.SimParent()
		for _, x := range tasks {
			if x.goid == pg {
				t.parent = x
			}
		}
		if signalled && t.parent == nil {
			t.boost = true
		}
		fresh = append(fresh, t)
	} else if signalled && t.st == stBlocked && t.daemon && t.parent == nil {
		t.boost = true
	}
	t.st = stReady
	park(t)
	if t.Killed {
		runtime.Goexit()
	}
	t.Steps++
	steps++
	Hits[site&(NSITES-1)]++
}

//go:norace
func park(t *Task) {
	raceDisable()
	<-t.ch
	raceEnable()
}

//go:norace
func slow(t *Task, site uint32) {
	resched := false
	if ev := events[t.Name]; len(ev) > 0 {
		for len(ev) > 0 && ev[0].Step <= t.Steps {
			e := ev[0]
			ev = ev[1:]
			events[t.Name] = ev
			res.Fired[e.Kind]++
			if OnEvent != nil && OnEvent(t, e) {
				resched = true
			}
		}
	}
	if len(timers) > 0 && fireTimers(t) {
		resched = true
	}
	if t.Killed {
		runtime.Goexit()
	}
	if steps > plan.Max {
		abort = true
		resched = true
	}
	if !resched {
		switch plan.Mode {
		case "sites":
			if watch[site&(NSITES-1)] {
				resched = rnd.Float() < plan.SiteP
			} else if t.Steps >= t.next {
				resched = plan.Quantum > 0
			}
		case "script":
			if sc := script[t.Name]; len(sc) > 0 && sc[0].Step <= t.Steps {
				resched = true
			}
		case "serial":
		case "pct":
			if t.Steps >= t.next && len(plan.Sites) == 0 {
				resched = pctPoint(t)
			}
		default:
			resched = t.Steps >= t.next
		}
	}
	if resched {
		yield(t)
	}
	setNext(t)
}

// yield hands the processor to the scheduler; it returns when t is chosen again.
//
//go:norace
func yield(t *Task) {
	t.st = stReady
	park(t)
	if t.Killed {
		runtime.Goexit()
	}
}

// Yield is a scheduling point for simulated devices.
//
//go:norace
func Yield() {
	if !Active || runtime.SimGoid() != curGoid || cur.Killed {
		return
	}
	Y(0)
}

// setNext computes the step at which t takes the slow path next.
//
//go:norace
func setNext(t *Task) {
	n := ^uint64(0)
	switch plan.Mode {
	case "script":
		if sc := script[t.Name]; len(sc) > 0 {
			n = sc[0].Step
		}
	case "serial":
	case "pct":
		n = t.Steps + 1 + uint64(rnd.Exp(plan.Quantum))
	default:
		if plan.Quantum > 0 {
			n = t.Steps + 1 + uint64(rnd.Exp(plan.Quantum))
		}
	}
	if ev := events[t.Name]; len(ev) > 0 && ev[0].Step < n {
		n = ev[0].Step
	}
	if left := plan.Max - steps + 1; t.Steps+left < n && plan.Max >= steps {
		n = t.Steps + left
	}
	t.next = n
	if len(timers) > 0 {
		nextTimer(t)
	}
}

// pctPoint implements random priorities: the running task drops to the lowest
// priority with the chance that yields plan.Depth changes over the horizon.
//
//go:norace
func pctPoint(t *Task) bool {
	p := float64(plan.Depth) * plan.Quantum / float64(plan.Horizon+1)
	if rnd.Float() < p {
		low := 0.0
		for _, x := range tasks {
			if x.prio < low {
				low = x.prio
			}
		}
		t.prio = low - 1
		return true
	}
	return false
}

// Cur is the running task, or nil outside a simulation (and for the
// simulator's own goroutine).
//
//go:norace
func Cur() *Task {
	if !Active || cur == nil || runtime.SimGoid() != curGoid {
		return nil
	}
	return cur
}

// Steps is the number of scheduling points passed in this execution.
//
//go:norace
func Steps() uint64 { return steps }

// Mono is the simulated monotonic clock.
//
//go:norace
func Mono() int64 { return mono + int64(steps)*plan.Tick }

// Advance moves the simulated clocks forward.
//
//go:norace
func Advance(d int64) { mono += d }

// Jump moves the simulated wall clock, not the monotonic one.
//
//go:norace
func Jump(d int64) { skew += d }

// Wall is the simulated wall clock.
//
//go:norace
func Wall() int64 { return plan.Epoch + Mono() + skew }

// KillCurrent ends the current task on the spot, as a crash would: nothing
// after this point has an effect the simulator lets through.
//
//go:norace
func KillCurrent() {
	t := cur
	t.Killed = true
	runtime.Goexit()
}

// Abort ends the execution at the next scheduling decision.
//
//go:norace
func Abort() { abort = true }

//go:norace
func onExit() {
	gid := runtime.SimGoid()
	for _, t := range tasks {
		if t.goid == gid {
			t.st = stDone
			return
		}
	}
	for _, t := range fresh {
		if t.goid == gid {
			t.st = stDone
			return
		}
	}
}

func blockedFor(why string) bool {
	switch why {
	case "chan receive", "chan send", "select", "select (no cases)",
		"chan receive (nil chan)", "chan send (nil chan)",
		"sync.Mutex.Lock", "sync.RWMutex.RLock", "sync.RWMutex.Lock",
		"sync.Cond.Wait", "sync.WaitGroup.Wait", "sleep", "IO wait":
		return true
	}
	return false
}

// settle lets the real scheduler run until the current task has parked,
// blocked or ended and no other goroutine is runnable.
//
//go:norace
func settle() {
	for i := 0; ; i++ {
		runtime.Gosched()
		if runtime.SimRunnable() > 0 {
			continue
		}
		if cur == nil || cur.st != stRunning {
			break
		}
		st, why := runtime.SimGState(cur.g)
		if st == 4 && blockedFor(why) {
			cur.st = stBlocked
			cur.boost = false
			break
		}
		if i > 1000 && i%100 == 0 {
			// In a system call, most likely.
			rawUsleep()
		}
	}
	if len(fresh) > 0 {
		sort.Slice(fresh, func(i, j int) bool { return fresh[i].goid < fresh[j].goid })
		for _, t := range fresh {
			p := t.parent
			if p == nil {
				t.Name = fmt.Sprintf("x%d", len(tasks))
				t.Root = t
			} else {
				t.Name = fmt.Sprintf("%s.%d", p.Name, p.nchild)
				p.nchild++
				t.Root = p.Root
				t.Data = p.Data
			}
			t.prio = rnd.Float()
			setNext(t)
			tasks = append(tasks, t)
			if OnSpawn != nil {
				OnSpawn(t)
			}
		}
		fresh = fresh[:0]
	}
}

func rawUsleep() { runtime.Gosched() }

// Spec is one task of the harness.
type Spec struct {
	Fn   func()
	Data any
}

// Run executes the tasks under the plan.  setup builds them (and the state they
// share); it runs before the simulated clock starts, but its map iteration
// order, its clock and its signal registrations are the simulation's already.
//
//go:norace
func Run(p *Plan, setup func() []Spec) *Result {
	runtime.GOMAXPROCS(1)
	plan = p
	if plan.Max == 0 {
		plan.Max = 50_000_000
	}
	if plan.Tick == 0 {
		plan.Tick = 100
	}
	rnd = NewRand(p.Seed ^ 0x5eed)
	res = &Result{Fired: map[string]int{}, SwitchHash: 1469598103934665603}
	tasks, fresh, reaping, abort, signalled = nil, nil, false, false, false
	timers = nil
	mono, skew, steps = 1_000_000_000, 0, 0
	cur, curGoid, lastSite = nil, 0, 0
	schedGid = runtime.SimGoid()
	for _, s := range p.Sites {
		watch[s&(NSITES-1)] = true
	}
	script, scriptB = map[string][]Switch{}, map[string][]Switch{}
	for _, s := range p.Script {
		if s.B {
			scriptB[s.Task] = append(scriptB[s.Task], s)
		} else {
			script[s.Task] = append(script[s.Task], s)
		}
	}
	events = map[string][]Event{}
	for _, e := range p.Events {
		events[e.Task] = append(events[e.Task], e)
	}
	for _, l := range events {
		sort.SliceStable(l, func(i, j int) bool { return l[i].Step < l[j].Step })
	}
	oldMap := runtime.SimMapState
	runtime.SimMapState = p.MapSeed*2654435761 + 1
	if runtime.SimMapState == 0 {
		runtime.SimMapState = 1
	}
	install()
	settingUp = true
	specs := setup()
	settingUp = false
	// Goroutines started so far run until they wait for something.
	for i := 0; i < 3 || runtime.SimRunnable() > 0; i++ {
		runtime.Gosched()
	}

	fin := make(chan struct{}, len(specs))
	for i, sp := range specs {
		t := &Task{Name: fmt.Sprint(i), Data: sp.Data, ch: make(chan struct{}, 1), Exited: -1}
		t.Root = t
		t.prio = rnd.Float()
		tasks = append(tasks, t)
		setNext(t)
		t.st = stReady
		go taskMain(t, sp.Fn, fin)
	}
	runtime.SimExit = onExit
	runtime.SimActive = true
	Active = true
	// Let every task goroutine reach its gate.
	for again := true; again; {
		runtime.Gosched()
		again = false
		for _, t := range tasks {
			if t.g == nil {
				again = true
			}
		}
	}
	loop()
	// End of the execution: get rid of whatever is left.
	res.Tasks = len(tasks)
	reaping = true
	cur, curGoid = nil, 0
	closeSignals()
	for _, t := range tasks {
		if (t.st == stReady || t.st == stSleeping) && !t.Killed && t.ch != nil {
			t.Killed = true
			t.ch <- struct{}{}
		}
	}
	for i := 0; i < 4 || (runtime.SimRunnable() > 0 && i < 1000); i++ {
		runtime.Gosched()
	}
	Active = false
	runtime.SimActive = false
	uninstall()
	runtime.SimMapState = oldMap
	for _, s := range p.Sites {
		watch[s&(NSITES-1)] = false
	}
	// Synchronise with the tasks that ended normally (for the race detector).
	for n := len(fin); n > 0; n-- {
		<-fin
	}
	res.Steps = steps
	res.SimNs = Mono() - 1_000_000_000
	return res
}

//go:norace
func taskMain(t *Task, fn func(), fin chan struct{}) {
	defer func() { fin <- struct{}{} }()
	defer func() {
		if r := recover(); r != nil {
			t.Panic = r
			buf := make([]byte, 16384)
			t.Stack = string(buf[:runtime.Stack(buf, false)])
		}
	}()
	t.goid = runtime.SimGoid()
	t.g = runtime.SimG()
	park(t)
	if t.Killed {
		return
	}
	fn()
}

//go:norace
func loop() {
	for {
		settle()
		signalled = false
		if abort {
			res.Status = "budget"
			if steps <= plan.Max {
				res.Status = "aborted"
			}
			return
		}
		now := Mono()
		var cands []*Task
		allDone := true
		for _, t := range tasks {
			if t.st == stSleeping && t.wake <= now {
				t.st = stReady
			}
			if t.st == stReady {
				cands = append(cands, t)
			}
			if !t.daemon && t.st != stDone {
				allDone = false
			}
		}
		if allDone {
			res.Status = "ok"
			return
		}
		if len(cands) == 0 {
			var m *Task
			for _, t := range tasks {
				if t.st == stSleeping && (m == nil || t.wake < m.wake) {
					m = t
				}
			}
			due := -1
			for i, x := range timers {
				if x.step == 0 && (due < 0 || x.at < timers[due].at) {
					due = i
				}
			}
			if due >= 0 && (m == nil || timers[due].at < m.wake) {
				if d := timers[due].at - now; d > 0 {
					mono += d
				}
				fireTimers(nil)
				continue
			}
			if m != nil {
				if d := m.wake - now; d > 0 {
					mono += d
				}
				continue
			}
			res.Status = "deadlock"
			for _, t := range tasks {
				if !t.daemon && t.st != stDone {
					_, why := runtime.SimGState(t.g)
					res.Stuck = append(res.Stuck, fmt.Sprintf("task %s: %s", t.Name, why))
				}
			}
			return
		}
		prev := cur
		t := choose(prev, cands)
		if prev != nil && prev != t {
			res.Switches = append(res.Switches, Switch{prev.Name, prev.Steps, t.Name, prev.st != stReady})
			if prev.st == stReady {
				res.Preempts++
			}
			h := res.SwitchHash
			for _, b := range []byte(prev.Name + ">" + t.Name) {
				h = (h ^ uint64(b)) * 1099511628211
			}
			h = (h ^ uint64(lastSite)) * 1099511628211
			res.SwitchHash = h
		} else if prev == nil {
			res.Switches = append(res.Switches, Switch{"", 0, t.Name, true})
		}
		cur, curGoid = t, t.goid
		t.st = stRunning
		if len(timers) > 0 {
			nextTimer(t)
		}
		raceDisable()
		t.ch <- struct{}{}
		raceEnable()
	}
}

//go:norace
func choose(prev *Task, cands []*Task) *Task {
	if plan.Mode == "script" {
		key := ""
		var at uint64
		if prev != nil {
			key, at = prev.Name, prev.Steps
		}
		tab := scriptB
		if prev != nil && prev.st == stReady {
			tab = script
		}
		sc := tab[key]
		for len(sc) > 0 && sc[0].Step < at {
			sc = sc[1:]
		}
		var want string
		if len(sc) > 0 && sc[0].Step == at {
			want = sc[0].To
			sc = sc[1:]
		}
		tab[key] = sc
		if want != "" {
			for _, t := range cands {
				if t.Name == want {
					return t
				}
			}
		}
		for _, t := range cands {
			if t.boost {
				return t
			}
		}
		if prev != nil && prev.st == stReady {
			return prev
		}
		return cands[0]
	}
	for _, t := range cands {
		if t.boost {
			return t
		}
	}
	if len(cands) == 1 {
		return cands[0]
	}
	switch plan.Mode {
	case "serial":
		if prev != nil && prev.st == stReady {
			return prev
		}
		return cands[0]
	case "pct":
		best := cands[0]
		for _, t := range cands {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	}
	return cands[rnd.Intn(len(cands))]
}

// TaskByName finds a task of the running execution.
func TaskByName(n string) *Task {
	for _, t := range tasks {
		if t.Name == n {
			return t
		}
	}
	return nil
}

// ---- clock, signals, exit ------------------------------------------------

// SignalReg is one registration with os/signal made inside the simulation.
type SignalReg struct {
	C    chan<- os.Signal
	Task *Task
}

var Signals []SignalReg

var osRand Rand

//go:norace
func install() {
	Signals = nil
	osRand = NewRand(plan.Seed ^ 0xfeed)
	time.SimNow = simNow
	time.SimSleep = simSleep
	signal.SimNotify = simNotify
	signal.SimStop = simStop
	os.SimRandom = simRandom
	os.SimOSExit = simOSExit
}

//go:norace
func simNow() (int64, int64, bool) {
	if settingUp {
		return plan.Epoch + mono, mono, true
	}
	if !Active || runtime.SimGoid() == schedGid {
		return 0, 0, false
	}
	w, m := Wall(), Mono()
	if g := plan.Grain; g > 0 { // a coarse clock
		w, m = w-w%g, m-m%g
	}
	return w, m, true
}

//go:norace
func simSleep(d time.Duration) bool {
	t := Cur()
	if t == nil {
		return false
	}
	if d < 0 {
		d = 0
	}
	t.wake = Mono() + int64(d)
	if t.wake < 0 { // overflow: for ever
		t.wake = 1<<63 - 1
	}
	t.st = stSleeping
	park(t)
	if t.Killed {
		runtime.Goexit()
	}
	return true
}

//go:norace
func simNotify(c chan<- os.Signal, sig []os.Signal) bool {
	want := len(sig) == 0
	for i := range sig {
		if n, ok := sig[i].(syscall.Signal); ok && n == syscall.SIGINT {
			want = true
		}
	}
	if want {
		ns := make([]SignalReg, len(Signals)+1)
		for i := range Signals {
			ns[i] = Signals[i]
		}
		ns[len(Signals)] = SignalReg{c, Cur()}
		Signals = ns
	}
	return true
}

//go:norace
func simStop(c chan<- os.Signal) bool {
	found := false
	var ns []SignalReg
	for i := range Signals {
		if Signals[i].C == c {
			found = true
			continue
		}
		ns = append(ns, Signals[i])
	}
	Signals = ns
	return found
}

//go:norace
func simRandom() uint32 { return uint32(osRand.Next()) }

//go:norace
func simOSExit(code int) {
	if t := Cur(); t != nil {
		t.Exited = code
		t.Killed = true
		runtime.Goexit()
	}
}

// Interrupt delivers os.Interrupt to every registration for which sel is true,
// as package os/signal does: without blocking.
//
//go:norace
func Interrupt(sel func(SignalReg) bool) int {
	n := 0
	signalled = true
	raceDisable()
	for _, r := range Signals {
		if sel(r) {
			select {
			case r.C <- os.Interrupt:
				n++
			default:
			}
		}
	}
	raceEnable()
	return n
}

//go:norace
func closeSignals() {
	for _, r := range Signals {
		func() {
			defer func() { recover() }()
			close(r.C)
		}()
	}
	Signals = nil
}

func uninstall() {
	time.SimNow = nil
	time.SimSleep = nil
	signal.SimNotify = nil
	signal.SimStop = nil
	os.SimRandom = nil
	os.SimOSExit = nil
}
