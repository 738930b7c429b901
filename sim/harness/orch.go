package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func nWorkers() int {
	if n, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && n > 0 {
		return n
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 2 {
		n = 2
	}
	return n
}

type childMsg struct {
	Begin    *uint64        `json:"begin"`
	Report   *Report        `json:"report"`
	Script   []simrt.Switch `json:"script"`
	Deadline bool           `json:"deadline"`
	Recycle  *uint64        `json:"recycle"`
	End      bool           `json:"end"`
}

type child struct {
	cmd    *exec.Cmd
	errBuf tailBuf
	msgs   chan childMsg
	said   atomic.Int64 // messages received
	limit  time.Duration
	over   chan struct{}
}

func raceLogBase() string {
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		return "/dev/shm/verif-race"
	}
	return filepath.Join(os.TempDir(), "verif-race")
}

func (c *child) wait() error {
	err := c.cmd.Wait()
	close(c.over)
	os.Remove(fmt.Sprintf("%s.%d", raceLogBase(), c.cmd.Process.Pid))
	return err
}

// usage returns the processor time and the memory the child has used.
func (c *child) usage() (cpu time.Duration, rss int64, ok bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", c.cmd.Process.Pid))
	if err != nil {
		return 0, 0, false
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if i < 0 || len(f) < 22 {
		return 0, 0, false
	}
	ut, _ := strconv.ParseInt(f[11], 10, 64)
	st, _ := strconv.ParseInt(f[12], 10, 64)
	pages, _ := strconv.ParseInt(f[21], 10, 64)
	return time.Duration(ut+st) * (time.Second / 100), pages * int64(os.Getpagesize()), true
}

// watch tells the child to report where it hangs (see hangHandler) once a
// single run has used up its processor time, or all memory.
func (c *child) watch() {
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	said := int64(-1)
	var from time.Duration
	full := false
	var gc time.Time
	for {
		select {
		case <-c.over:
			return
		case <-tick.C:
		}
		cpu, rss, ok := c.usage()
		if !ok {
			continue
		}
		if n := c.said.Load(); n != said {
			said, from = n, cpu
			continue
		}
		used := cpu - from
		if rss > 2500<<20 && gc.IsZero() {
			gc = time.Now()
			c.cmd.Process.Signal(syscall.SIGUSR2) // collect garbage from now on
		}
		if rss > 4<<30 && time.Since(gc) > 2*time.Second && !full {
			full = true
			c.cmd.Process.Signal(syscall.SIGUSR1)
		}
		if used > c.limit {
			from = cpu
			c.cmd.Process.Signal(syscall.SIGQUIT)
		}
	}
}

// tailBuf keeps the first and last parts of a child's stderr.
type tailBuf struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if k := 16384 - len(t.head); k > 0 {
		if k > len(p) {
			k = len(p)
		}
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.tail = append(t.tail, p...)
	if len(t.tail) > 16384 {
		t.tail = t.tail[len(t.tail)-16384:]
	}
	return n, nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.tail)
}

// hangCPU is how much processor time one run may take. Runs take up to a few
// seconds; the scheduler bounds the steps of instrumented code, so that only
// code without scheduling points (the lexer, say) can get this far.
const hangCPU = 60 * time.Second

func spawn(limit time.Duration, args ...string) *child {
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	c := &child{cmd: exec.Command(exe, args...), msgs: make(chan childMsg, 16), limit: limit, over: make(chan struct{})}
	pr, pw, err := os.Pipe()
	if err != nil {
		fatal("%v", err)
	}
	c.cmd.ExtraFiles = []*os.File{pw}
	c.cmd.Stderr = &c.errBuf
	c.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 history_size=3 exitcode=0 log_path="+raceLogBase(), "TZ=UTC", "GOTRACEBACK=single", "GOMAXPROCS=1")
	if err := c.cmd.Start(); err != nil {
		fatal("%v", err)
	}
	pw.Close()
	go c.watch()
	go func() {
		dec := json.NewDecoder(bufio.NewReaderSize(pr, 1<<20))
		for {
			var m childMsg
			if err := dec.Decode(&m); err != nil {
				break
			}
			c.said.Add(1)
			c.msgs <- m
		}
		pr.Close()
		close(c.msgs)
	}()
	return c
}

var crashLine = regexp.MustCompile(`(?m)^(panic: .*|fatal error: .*|runtime: goroutine stack exceeds.*)$`)
var frameLine = regexp.MustCompile(`(?m)^(github\.com/corywalker/expreduce/(?:expreduce|pkg)[^\s(]*(?:\([^)]*\))?[^\s(]*)\(`)

// crashViol turns the death of a simulated process into a violation; ok is
// false if it was not the code under test that died.
func crashViol(stderr string, st error) (Viol, bool) {
	if i := strings.Index(stderr, hangMark); i >= 0 {
		if fr := frameLine.FindStringSubmatch(stderr[i:]); fr != nil {
			return Viol{"hang", filepath.Base(fr[1]), fmt.Sprintf("a run does not end: it used up %s of processor time, or 4 GB of memory, in %s", hangCPU, filepath.Base(fr[1]))}, true
		}
		return Viol{}, false
	}
	m := crashLine.FindString(stderr)
	if m == "" {
		return Viol{}, false
	}
	fr := frameLine.FindStringSubmatch(stderr)
	key := ""
	if fr != nil {
		key = filepath.Base(fr[1])
	} else {
		return Viol{}, false
	}
	return Viol{"process-crash", key, fmt.Sprintf("the process died: %s in %s", clip(m, 300), key)}, true
}

type stats struct {
	evals, nontriv int
	steps          uint64
	simns          int64
	runs, sw, pre  int
	marks          map[uint64]bool
	count          map[string]int64
	viols          map[string]*found
	errs           []string
	deadline       bool
	samples        []*Case
	distinct       map[uint64]bool
}

type found struct {
	v       Viol
	idx     uint64
	n       int
	history []uint64
}

func checkMain(prop, tier string) int {
	s := scenarios[prop]
	if s == nil {
		fatal("unknown property %s", prop)
	}
	if s.Race != simrt.RaceEnabled {
		fatal("property %s needs the %s build", prop, map[bool]string{true: "race", false: "plain"}[s.Race])
	}
	t0 := time.Now()
	seed := baseSeed()
	total, limit := s.Quick, 300*time.Second
	if tier == "thorough" {
		total, limit = s.Thor, 3*time.Hour
		if v, err := strconv.Atoi(os.Getenv("VERIF_THOROUGH_MIN")); err == nil {
			limit = time.Duration(v) * time.Minute
		}
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_CASES")); err == nil {
		total = v
	}
	known := loadKnown(prop)
	st := &stats{marks: map[uint64]bool{}, count: map[string]int64{}, viols: map[string]*found{}, distinct: map[uint64]bool{}}
	var mu sync.Mutex
	var wg sync.WaitGroup
	nw := nWorkers()
	if nw > total {
		nw = total
	}
	stop := false
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			next := uint64(w)
			for next < uint64(total) {
				mu.Lock()
				quit := stop
				mu.Unlock()
				left := limit - time.Since(t0)
				if quit {
					return
				}
				if left <= 0 {
					mu.Lock()
					st.deadline = true
					mu.Unlock()
					return
				}
				c := spawn(hangCPU, "worker", prop, tier, fmt.Sprint(seed), fmt.Sprint(next), fmt.Sprint(nw), fmt.Sprint(total), fmt.Sprint(left.Milliseconds()))
				var history []uint64
				var cur *uint64
				done := false
				for {
					var m childMsg
					ok := false
					select {
					case m, ok = <-c.msgs:
					case <-time.After(240 * time.Second):
						c.cmd.Process.Kill()
						mu.Lock()
						st.errs = append(st.errs, fmt.Sprintf("watchdog: case %v made no progress for 240 s of real time", deref(cur)))
						stop = true
						mu.Unlock()
						for range c.msgs {
						}
						c.wait()
						return
					}
					if !ok {
						break
					}
					switch {
					case m.Begin != nil:
						cur = m.Begin
					case m.Report != nil:
						mu.Lock()
						st.add(s, seed, tier, m.Report, history)
						if len(st.viols) > 40 {
							stop = true
						}
						quit = stop
						mu.Unlock()
						history = append(history, *cur)
						next = *cur + uint64(nw)
						cur = nil
					case m.Recycle != nil:
						next = *m.Recycle
						done = true
					case m.Deadline:
						mu.Lock()
						st.deadline = true
						mu.Unlock()
						next = uint64(total)
						done = true
					case m.End:
						next = uint64(total)
						done = true
					}
					if quit && !done {
						c.cmd.Process.Kill()
						for range c.msgs {
						}
						c.wait()
						return
					}
				}
				err := c.wait()
				if done {
					continue
				}
				mu.Lock()
				if cur == nil {
					st.errs = append(st.errs, fmt.Sprintf("worker died outside a case: %v: %s", err, clip(c.errBuf.String(), 2000)))
					stop = true
				} else if v, ok := crashViol(c.errBuf.String(), err); ok {
					st.evals++
					st.addViol(v, *cur, history)
					next = *cur + uint64(nw)
					if v.Class == "hang" { // one is enough: each takes a minute
						stop = true
					}
				} else {
					st.errs = append(st.errs, fmt.Sprintf("worker died in case %d: %v: %s", *cur, err, clip(c.errBuf.String(), 3000)))
					stop = true
				}
				quit = stop
				mu.Unlock()
				if quit {
					return
				}
			}
		}(w)
	}
	wg.Wait()
	searchWall := time.Since(t0)

	// Sort out what was found.
	exit := 0
	var fs []*found
	for _, f := range st.viols {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool {
		if fs[i].idx != fs[j].idx {
			return fs[i].idx < fs[j].idx
		}
		return fs[i].v.Class+fs[i].v.Key < fs[j].v.Class+fs[j].v.Key
	})
	if os.Getenv("VERIF_VERBOSE") != "" {
		for _, f := range fs {
			fmt.Printf("# found %s [%s] in %d cases, first %d: %s\n", f.v.Class, f.v.Key, f.n, f.idx, oneLine(clip(f.v.Msg, 600)))
		}
	}
	seenKnown := map[int]int{}
	nViol := 0
	reported := map[string]bool{}
	for _, f := range fs {
		if k := matchKnown(known, f.v); k >= 0 {
			seenKnown[k] += f.n
			continue
		}
		nViol++
		if reported[f.v.Class] || len(reported) >= 3 {
			continue
		}
		path, note, ok := shrinkAndSave(s, seed, tier, f, known)
		if !ok {
			st.errs = append(st.errs, fmt.Sprintf("case %d: %s: %s: does not repeat in a fresh process (%s)", f.idx, f.v.Class, f.v.Msg, note))
			continue
		}
		reported[f.v.Class] = true
		fmt.Printf("# %s [%s] %s (case %d; seen in %d cases; %s)\n", f.v.Class, f.v.Key, oneLine(f.v.Msg), f.idx, f.n, note)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		exit = 1
	}
	for i, k := range known {
		if k.Status == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs of this check)\n", prop, k.What, seenKnown[i])
		}
	}
	if exit == 0 && len(st.errs) > 0 {
		exit = 2
	}
	for _, e := range st.errs {
		fmt.Fprintln(os.Stderr, "error:", e)
	}
	writeEvidence(s, tier, seed, st, nViol, time.Since(t0), searchWall)
	fmt.Printf("# %s %s: %d runs (%d non-trivial, %d distinct), %d scheduling points, %d preemptions, %.3g s simulated, %.1f s; exit %d\n",
		prop, tier, st.evals, st.nontriv, len(st.distinct), st.steps, st.pre, float64(st.simns)/1e9, time.Since(t0).Seconds(), exit)
	return exit
}

func deref(p *uint64) any {
	if p == nil {
		return "none"
	}
	return *p
}

func (st *stats) add(s *Scenario, seed uint64, tier string, r *Report, history []uint64) {
	st.evals++
	st.steps += r.Steps
	st.simns += r.SimNs
	st.runs += r.Runs
	st.sw += r.Switches
	st.pre += r.Preempts
	for _, m := range r.Marks {
		st.marks[m] = true
	}
	for k, n := range r.Count {
		st.count[k] += n
	}
	if r.Nontriv {
		st.nontriv++
		st.distinct[r.Hash] = true
		if len(st.samples) < 3 {
			st.samples = append(st.samples, genCase(s, seed, tier, r.Idx))
		}
	}
	if r.Err != "" {
		st.errs = append(st.errs, fmt.Sprintf("case %d: %s", r.Idx, r.Err))
	}
	for _, v := range r.Viols {
		st.addViol(v, r.Idx, history)
	}
}

func (st *stats) addViol(v Viol, idx uint64, history []uint64) {
	id := v.Class + "\x00" + v.Key
	f := st.viols[id]
	if f == nil {
		st.viols[id] = &found{v: v, idx: idx, n: 1, history: append([]uint64(nil), history...)}
		return
	}
	f.n++
	if idx < f.idx {
		f.v, f.idx, f.history = v, idx, append([]uint64(nil), history...)
	}
}

// ---- known findings --------------------------------------------------------

type Known struct {
	Status   string `json:"status"` // known | fixed
	Property string `json:"property"`
	Class    string `json:"class"`
	Key      string `json:"key"` // regular expression for the violation's key
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	re       *regexp.Regexp
}

func loadKnown(prop string) []Known {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.json"))
	if os.IsNotExist(err) {
		return nil
	}
	if err != nil {
		fatal("%v", err)
	}
	var all, mine []Known
	if err := json.Unmarshal(b, &all); err != nil {
		fatal("known-findings.json: %v", err)
	}
	for _, k := range all {
		if k.Property == prop && k.Status == "known" {
			k.re = regexp.MustCompile("^(?:" + k.Key + ")$")
			mine = append(mine, k)
		}
	}
	return mine
}

func matchKnown(known []Known, v Viol) int {
	for i, k := range known {
		if k.Status == "known" && k.Class == v.Class && k.re.MatchString(v.Key) {
			return i
		}
	}
	return -1
}

// ---- replay and minimisation -------------------------------------------------

type outcome struct {
	viols  []Viol
	script []simrt.Switch
	hash   uint64
	err    string
	died   bool
}

func tmpDir() string {
	d, err := os.MkdirTemp("", "verif-sim")
	if err != nil {
		fatal("%v", err)
	}
	return d
}

// execCase runs one case in a fresh process.
func execCase(rp *Replay, dir string, n int) outcome { return execCase1(rp, dir, n, false) }

func execCase1(rp *Replay, dir string, n int, hung bool) outcome {
	f := filepath.Join(dir, fmt.Sprintf("case%d.json", n))
	b, _ := json.Marshal(rp)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		fatal("%v", err)
	}
	defer os.Remove(f)
	limit := hangCPU * time.Duration(1+len(rp.History)/4)
	if hung {
		limit = 15 * time.Second
	}
	c := spawn(limit, "exec", f)
	var o outcome
	got := false
	timer := time.AfterFunc(4*limit, func() { c.cmd.Process.Kill() })
	for m := range c.msgs {
		if m.Report != nil {
			o.viols, o.script, o.hash, o.err = m.Report.Viols, m.Script, m.Report.Hash, m.Report.Err
			got = true
		}
	}
	err := c.wait()
	timer.Stop()
	if !got {
		if v, ok := crashViol(c.errBuf.String(), err); ok {
			o.viols = []Viol{v}
			o.died = true
		} else {
			o.err = fmt.Sprintf("%v: %s", err, clip(c.errBuf.String(), 2000))
		}
	}
	return o
}

func (o outcome) has(v Viol, known []Known, exact bool) bool {
	for _, x := range o.viols {
		if x.Class == v.Class && matchKnown(known, x) < 0 && (!exact || x.Key == v.Key) {
			return true
		}
	}
	return false
}

type shrinker struct {
	s        *Scenario
	base     Replay
	v        Viol
	known    []Known
	dir      string
	deadline time.Time
	n        int
	tried    int
	mu       sync.Mutex
}

// first runs the candidates (up to 8 at a time) and returns the index of the
// first one that still fails, or -1.
func (k *shrinker) first(cands []*Case) int {
	const par = 8
	for lo := 0; lo < len(cands); lo += par {
		if time.Now().After(k.deadline) {
			return -1
		}
		hi := lo + par
		if hi > len(cands) {
			hi = len(cands)
		}
		ok := make([]bool, hi-lo)
		var wg sync.WaitGroup
		for i := lo; i < hi; i++ {
			wg.Add(1)
			k.n++
			k.tried++
			go func(i, n int) {
				defer wg.Done()
				rp := k.base
				rp.Case = cands[i]
				ok[i-lo] = execCase1(&rp, k.dir, n, k.v.Class == "hang").has(k.v, k.known, false)
			}(i, k.n)
		}
		wg.Wait()
		for i := range ok {
			if ok[i] {
				return lo + i
			}
		}
	}
	return -1
}

// ddmin shrinks a list of n elements; build makes the case with the given ones.
func (k *shrinker) ddmin(n int, build func(keep []int) *Case) []int {
	keep := make([]int, n)
	for i := range keep {
		keep[i] = i
	}
	for chunk := (len(keep) + 1) / 2; chunk >= 1 && len(keep) > 0; {
		var cands []*Case
		var sets [][]int
		for lo := 0; lo < len(keep); lo += chunk {
			hi := lo + chunk
			if hi > len(keep) {
				hi = len(keep)
			}
			set := append(append([]int(nil), keep[:lo]...), keep[hi:]...)
			sets = append(sets, set)
			cands = append(cands, build(set))
			if len(cands) >= 64 {
				break
			}
		}
		i := k.first(cands)
		if time.Now().After(k.deadline) && i < 0 {
			return keep
		}
		if i >= 0 {
			keep = sets[i]
			if chunk > len(keep) {
				chunk = len(keep)
			}
			continue
		}
		if chunk == 1 {
			break
		}
		chunk = (chunk + 1) / 2
		if chunk > 1 && chunk*2 > len(keep) && len(keep) <= 2 {
			chunk = 1
		}
	}
	return keep
}

func pickOps(ops []Op, keep []int) []Op {
	var out []Op
	for _, i := range keep {
		out = append(out, ops[i])
	}
	return out
}

func (k *shrinker) ops(c *Case) *Case {
	slot := func(c *Case, l int) *[]Op {
		switch {
		case l == -1:
			return &c.Pre
		case l == -2:
			return &c.Post
		}
		return &c.Lanes[l]
	}
	for l := -2; l < len(c.Lanes); l++ {
		src := *slot(c, l)
		if len(src) == 0 {
			continue
		}
		var fixed []bool
		var idx []int
		for i, o := range src {
			f := k.s.Keep != nil && k.s.Keep(o)
			fixed = append(fixed, f)
			if !f {
				idx = append(idx, i)
			}
		}
		build := func(keep []int) *Case {
			d := c.clone()
			want := map[int]bool{}
			for _, j := range keep {
				want[idx[j]] = true
			}
			var out []Op
			for i, o := range src {
				if fixed[i] || want[i] {
					out = append(out, o)
				}
			}
			*slot(d, l) = out
			return d
		}
		keep := k.ddmin(len(idx), build)
		if len(keep) < len(idx) {
			c = build(keep)
		}
	}
	if len(c.Faults) > 0 {
		build := func(keep []int) *Case {
			d := c.clone()
			d.Faults = nil
			for _, i := range keep {
				d.Faults = append(d.Faults, c.Faults[i])
			}
			return d
		}
		if keep := k.ddmin(len(c.Faults), build); len(keep) < len(c.Faults) {
			c = build(keep)
		}
	}
	if len(c.Plan.Events) > 0 {
		build := func(keep []int) *Case {
			d := c.clone()
			d.Plan.Events = nil
			for _, i := range keep {
				d.Plan.Events = append(d.Plan.Events, c.Plan.Events[i])
			}
			return d
		}
		if keep := k.ddmin(len(c.Plan.Events), build); len(keep) < len(c.Plan.Events) {
			c = build(keep)
		}
	}
	return c
}

// shrinkAndSave verifies that the violation repeats in a fresh process,
// minimises it and writes the replay file.
func shrinkAndSave(s *Scenario, seed uint64, tier string, f *found, known []Known) (path, note string, ok bool) {
	dir := tmpDir()
	defer os.RemoveAll(dir)
	k := &shrinker{s: s, v: f.v, known: known, dir: dir}
	k.base = Replay{Property: s.Prop, Seed: seed, Tier: tier, Violation: f.v}
	c := genCase(s, seed, tier, f.idx)
	rp := k.base
	rp.Case = c
	o := execCase(&rp, dir, 0)
	if !o.has(f.v, known, false) {
		rp.History = f.history
		o = execCase(&rp, dir, 0)
		if !o.has(f.v, known, false) {
			return "", clip(o.err, 500), false
		}
		k.base.History = f.history
		note = fmt.Sprintf("needs the %d cases run before it in its process; ", len(f.history))
	}
	budget := 60 * time.Second
	if tier == "thorough" {
		budget = 5 * time.Minute
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_SHRINK_S")); err == nil {
		budget = time.Duration(v) * time.Second
	}
	start := time.Now()
	k.deadline = start.Add(budget / 2)
	best := k.ops(c)
	k.deadline = start.Add(budget)
	// Then the schedule: as an explicit list of decisions.
	rp = k.base
	rp.Case = best
	o = execCase(&rp, dir, 0)
	if len(o.script) > 0 && len(o.script) < 300_000 && best.Plan.Mode != "script" {
		d := best.clone()
		d.Plan.Mode = "script"
		d.Plan.Script = o.script
		d.Plan.Sites, d.Plan.Quantum, d.Plan.SiteP, d.Plan.Depth, d.Plan.Horizon = nil, 0, 0, 0, 0
		if k.first([]*Case{d}) == 0 {
			sc := o.script
			build := func(keep []int) *Case {
				e := *d
				e.Plan.Script = make([]simrt.Switch, 0, len(keep))
				for _, i := range keep {
					e.Plan.Script = append(e.Plan.Script, sc[i])
				}
				return &e
			}
			keep := k.ddmin(len(sc), build)
			best = build(keep)
			note += fmt.Sprintf("schedule reduced from %d to %d decisions; ", len(sc), len(keep))
			best = k.ops(best)
		}
	}
	rp = k.base
	rp.Case = best
	o = execCase(&rp, dir, 0)
	for _, v := range o.viols {
		if v.Class == f.v.Class {
			rp.Violation = v
		}
	}
	if !o.has(f.v, known, false) {
		rp.Case = c
		rp.Violation = f.v
		note += "minimisation abandoned; "
	}
	note += fmt.Sprintf("%d candidates tried in %.0f s", k.tried, time.Since(start).Seconds())
	rp.Minimised = note
	b, _ := json.MarshalIndent(&rp, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "replays"), 0o755)
	path = filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%016x.json", s.Prop, mix64(strHash(string(b)))))
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}
	return path, note, true
}

func replayMain(f string) int {
	rp := readReplay(f)
	dir := tmpDir()
	defer os.RemoveAll(dir)
	o := execCase(rp, dir, 0)
	if o.err != "" {
		fmt.Fprintln(os.Stderr, "error:", o.err)
		return 2
	}
	for _, v := range o.viols {
		fmt.Printf("# %s [%s] %s\n", v.Class, v.Key, v.Msg)
		if v.Class == rp.Violation.Class {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, f)
			return 1
		}
	}
	fmt.Printf("# not reproduced: %s no longer shows %s\n", rp.Property, rp.Violation.Class)
	return 0
}

// determinismMain runs n cases twice, in different processes and at different
// positions of their process's history, and compares everything observed.
func determinismMain(prop string, n int) int {

	dir := tmpDir()
	defer os.RemoveAll(dir)
	seed := baseSeed()
	get := func(stride int) map[uint64]uint64 {
		out := map[uint64]uint64{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		for w := 0; w < stride; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				next := uint64(w)
				for next < uint64(n) {
					c := spawn(hangCPU, "worker", prop, "quick", fmt.Sprint(seed), fmt.Sprint(next), fmt.Sprint(stride), fmt.Sprint(n), "3600000")
					next = uint64(n)
					var cur uint64
					clean := false
					for m := range c.msgs {
						if m.Begin != nil {
							cur = *m.Begin
						}
						if m.Report != nil {
							mu.Lock()
							out[m.Report.Idx] = m.Report.Hash
							mu.Unlock()
						}
						if m.Recycle != nil {
							next = *m.Recycle
							clean = true
						}
						clean = clean || m.End
					}
					c.wait()
					if !clean {
						mu.Lock()
						out[cur] = 1
						mu.Unlock()
						next = cur + uint64(stride)
					}
				}
			}(w)
		}
		wg.Wait()
		return out
	}
	a, b := get(8), get(5)
	bad := 0
	for i := uint64(0); i < uint64(n); i++ {
		if a[i] != b[i] || a[i] == 0 {
			bad++
			if bad < 10 {
				fmt.Printf("case %d: %x vs %x\n", i, a[i], b[i])
			}
		}
	}
	fmt.Printf("%s: %d of %d cases differ between two sets of processes\n", prop, bad, n)
	if bad > 0 {
		return 1
	}
	return 0
}

func writeEvidence(s *Scenario, tier string, seed uint64, st *stats, nViol int, wall, search time.Duration) {
	faults := map[string]int64{}
	probes := map[string]int64{}
	for k, n := range st.count {
		if strings.HasPrefix(k, "fault.") {
			faults[k[6:]] = n
		} else {
			probes[k] = n
		}
	}
	hours := search.Hours()
	samples := []any{}
	for _, c := range st.samples {
		c.Plan.Sites = nil
		samples = append(samples, c)
	}
	if len(samples) == 0 {
		samples = append(samples, genCase(s, seed, tier, 0))
	}
	ev := map[string]any{
		"property": s.Prop, "tier": tier, "seed": int64(seed), "level": "exploration",
		"wall_s": wall.Seconds(), "violations": nViol,
		"coverage": map[string]any{
			"evaluations":            st.evals,
			"distinct_nontrivial":    len(st.distinct),
			"rule":                   s.Rule,
			"samples":                samples,
			"simulated_executions":   st.runs,
			"runs_per_hour":          float64(st.evals) / hours,
			"seeds_per_hour":         float64(st.evals) / hours,
			"simulated_seconds":      float64(st.simns) / 1e9,
			"scheduling_points":      st.steps,
			"context_switches":       st.sw,
			"preemptions":            st.pre,
			"distinct_interleavings": len(st.marks),
			"interleaving_measure":   "hash of the sequence (task leaving, task entering, program point) over all processor hand-overs of a run; scenarios without concurrent tasks hash the states they reach instead",
			"faults_injected":        faults,
			"probes":                 probes,
			"components_real":        s.Real,
			"components_simulated":   s.Stub,
			"stopped_by_time_limit":  st.deadline,
		},
		"assumptions": []string{
			"steps between two scheduling points (one per statement) are atomic; the processor is sequentially consistent",
			"a clean batch of sampled runs is evidence, not proof",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", s.Prop+".json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}
