package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"syscall"
	"time"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

var siteNames []struct {
	P string `json:"p"`
	F string `json:"f"`
}

func nSites() int { return len(siteNames) - 1 }

func loadSites() {
	f := os.Getenv("VERIF_SITES")
	if f == "" {
		exe, _ := os.Executable()
		f = filepath.Join(filepath.Dir(exe), "overlay", "sites.json")
	}
	b, err := os.ReadFile(f)
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(b, &siteNames); err != nil {
		fatal("%v", err)
	}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(2)
}

func usage() {
	fatal("usage: harness check PROP TIER | replay FILE | worker ... | exec FILE | gen PROP IDX | determinism PROP N")
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	loadSites()
	a := os.Args[2:]
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(a[0], a[1]))
	case "replay":
		os.Exit(replayMain(a[0]))
	case "worker":
		workerMain(a)
	case "exec":
		execMain(a[0])
	case "gen":
		idx, _ := strconv.ParseUint(a[1], 10, 64)
		b, _ := json.MarshalIndent(genCase(scenarios[a[0]], baseSeed(), tierArg(a), idx), "", " ")
		fmt.Println(string(b))
	case "fresh":
		freshMain(a[0])
	case "eval":
		evalTool(len(a) > 0)
	case "hits":
		hitsTool(a)
	case "corpus":
		corpusMain(a[0], a[1])
	case "determinism":
		n, _ := strconv.Atoi(a[1])
		os.Exit(determinismMain(a[0], n))
	default:
		usage()
	}
}

func tierArg(a []string) string {
	if len(a) > 2 {
		return a[2]
	}
	return "quick"
}

func baseSeed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

// genCase is a pure function of its arguments and the code.
func genCase(s *Scenario, seed uint64, tier string, idx uint64) *Case {
	if s == nil {
		fatal("unknown property")
	}
	if s.Fixed != nil {
		if fx := s.Fixed(); idx < uint64(len(fx)) {
			c := fx[idx]
			c.Prop, c.Idx = s.Prop, idx
			return c
		}
	}
	g := &Gen{R: simrt.NewRand(mix64(seed, strHash(s.Prop), idx)), Idx: idx, Tier: tier}
	c := s.Gen(g)
	c.Prop, c.Idx = s.Prop, idx
	return c
}

// inSim prepares this process for simulated executions.
func inSim() {
	hangHandler()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	warmUp()
}

const hangMark = "verif-hang:"

// hangHandler waits for the parent process to say that the run takes too
// long, or too much memory. If the simulation makes no step for some seconds
// then, it writes down where it is and ends the process.
func hangHandler() {
	ch := make(chan os.Signal, 3)
	signal.Notify(ch, syscall.SIGQUIT, syscall.SIGUSR1, syscall.SIGUSR2)
	go func() {
		for s := range ch {
			if s == syscall.SIGUSR2 {
				debug.SetGCPercent(100)
				continue
			}
			wait := syscall.Timespec{Sec: 20}
			if s == syscall.SIGUSR1 {
				wait.Sec = 3
			}
			was := simrt.Steps()
			syscall.Nanosleep(&wait, nil)
			if simrt.Steps() != was {
				continue
			}
			buf := make([]byte, 16<<20)
			buf = buf[:runtime.Stack(buf, true)]
			out := []byte(hangMark + "\n")
			for _, g := range bytes.Split(buf, []byte("\n\n")) {
				if h, _, _ := bytes.Cut(g, []byte("\n")); bytes.Contains(h, []byte("[runnable")) {
					out = append(out, g...)
					out = append(out, "\n\n"...)
				}
			}
			if len(out) > 15000 {
				out = out[:15000]
			}
			syscall.Write(2, out)
			syscall.Exit(3)
		}
	}()
}

var memCheck int

func tidy() {
	memCheck++
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 600<<20 {
		runtime.GC()
	}
}

func runCase(s *Scenario, c *Case) *Report {
	r := &Report{Idx: c.Idx}
	s.Exec(c, r)
	r.mix(fmt.Sprint(r.Viols))
	return r
}

// workerMain: worker PROP TIER SEED START STRIDE END DEADLINE_MS; reports go to fd 3.
func workerMain(a []string) {
	inSim()
	s := scenarios[a[0]]
	tier := a[1]
	num := func(i int) uint64 { v, _ := strconv.ParseUint(a[i], 10, 64); return v }
	seed, start, stride, end, ms := num(2), num(3), num(4), num(5), num(6)
	out := os.NewFile(3, "results")
	deadline := time.Now().Add(time.Duration(ms) * time.Millisecond)
	enc := json.NewEncoder(out)
	t0 := time.Now()
	done := 0
	for i := start; i < end; i += stride {
		if time.Now().After(deadline) {
			enc.Encode(map[string]any{"deadline": true})
			return
		}
		enc.Encode(map[string]any{"begin": i})
		t1 := time.Now()
		r := runCase(s, genCase(s, seed, tier, i))
		if f := os.Getenv("VERIF_SLOW"); f != "" { // for finding out what takes long
			if w, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
				fmt.Fprintf(w, "%8d ms case %d %d steps\n", time.Since(t1).Milliseconds(), i, r.Steps)
				w.Close()
			}
		}
		enc.Encode(map[string]any{"report": r})
		done++
		tidy()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if s.Fresh || m.HeapAlloc > 1500<<20 || m.Sys > 3<<30 || (time.Since(t0) > 60*time.Second && done > 20) {
			enc.Encode(map[string]any{"recycle": i + stride})
			return
		}
	}
	enc.Encode(map[string]any{"end": true})
}

// Replay is a replay file.
type Replay struct {
	Property  string   `json:"property"`
	Seed      uint64   `json:"verif_seed"`
	Violation Viol     `json:"violation"`
	Case      *Case    `json:"case"`
	History   []uint64 `json:"history,omitempty"` // cases the process ran before, if they matter
	Tier      string   `json:"tier"`
	Minimised string   `json:"minimised"`
	RepoNote  string   `json:"note,omitempty"`
}

func readReplay(f string) *Replay {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	return &r
}

// execMain runs the case of a replay file in this process and prints its report.
func execMain(f string) {
	rp := readReplay(f)
	inSim()
	s := scenarios[rp.Property]
	if s == nil {
		fatal("unknown property %s", rp.Property)
	}
	for _, i := range rp.History {
		runCase(s, genCase(s, rp.Seed, rp.Tier, i))
		tidy()
	}
	r := runCase(s, rp.Case)
	out := os.NewFile(3, "results")
	json.NewEncoder(out).Encode(map[string]any{"report": r, "script": r.script})
}
