package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// Op is one step of a simulated client.
type Op struct {
	K string  `json:"k"`
	S string  `json:"s,omitempty"`
	T string  `json:"t,omitempty"`
	N int64   `json:"n,omitempty"`
	M int64   `json:"m,omitempty"`
	A []int64 `json:"a,omitempty"`
}

// Fault is a disk or stream fault: the Nth operation of kind Op on a matching
// target misbehaves as How says.
type Fault struct {
	Op  string `json:"op"` // open write fsync close rename read trunc unlink any
	N   int64  `json:"n"`
	How string `json:"how"` // enospc eio eacces emfile short eintr crash ...
	Arg int64  `json:"arg,omitempty"`
}

// Case is one simulated run, complete: with the code it determines everything.
type Case struct {
	Prop   string            `json:"prop"`
	Kind   string            `json:"kind"`
	Idx    uint64            `json:"idx"`
	Pre    []Op              `json:"pre,omitempty"`
	Lanes  [][]Op            `json:"lanes,omitempty"`
	Post   []Op              `json:"post,omitempty"`
	Faults []Fault           `json:"faults,omitempty"`
	Opt    map[string]int64  `json:"opt,omitempty"`
	Str    map[string]string `json:"str,omitempty"`
	Plan   simrt.Plan        `json:"plan"`
}

func (c *Case) clone() *Case {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	var d Case
	if err := json.Unmarshal(b, &d); err != nil {
		panic(err)
	}
	return &d
}

// Viol is one violation of the property.
type Viol struct {
	Class string `json:"class"` // kind of violation; minimisation preserves it
	Key   string `json:"key"`   // identifies the failing input or call site (for known findings)
	Msg   string `json:"msg"`
}

// Report is the outcome of one simulated run.
type Report struct {
	Idx      uint64           `json:"idx"`
	Viols    []Viol           `json:"viols,omitempty"`
	Steps    uint64           `json:"steps"`
	SimNs    int64            `json:"simns"`
	Runs     int              `json:"runs"` // executions of the scheduler
	Switches int              `json:"sw"`
	Preempts int              `json:"pre"`
	Hash     uint64           `json:"hash"`  // of everything observed: determinism checks compare it
	Marks    []uint64         `json:"marks"` // states or interleavings reached
	Nontriv  bool             `json:"nt"`    // by the scenario's rule
	Count    map[string]int64 `json:"count,omitempty"`
	Err      string           `json:"err,omitempty"` // the harness could not decide (never a violation)

	script []simrt.Switch
}

func (r *Report) viol(class, key, f string, a ...any) {
	if len(r.Viols) < 8 {
		m := fmt.Sprintf(f, a...)
		if len(m) > 1500 {
			m = m[:1500] + "..."
		}
		r.Viols = append(r.Viols, Viol{class, key, m})
	}
}

func (r *Report) inc(k string, n int64) {
	if r.Count == nil {
		r.Count = map[string]int64{}
	}
	r.Count[k] += n
}

func (r *Report) mix(s string) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%x|", r.Hash)
	h.Write([]byte(s))
	r.Hash = h.Sum64()
}

func (r *Report) mark(h uint64) { r.Marks = append(r.Marks, h) }

// sim runs one simulated execution and accounts for it.
func (r *Report) sim(p *simrt.Plan, setup func() []simrt.Spec) *simrt.Result {
	res := simrt.Run(p, setup)
	r.Runs++
	r.Steps += res.Steps
	r.SimNs += res.SimNs
	r.Switches += len(res.Switches)
	r.Preempts += res.Preempts
	for k, n := range res.Fired {
		r.inc("fault."+k, int64(n))
	}
	r.mix(fmt.Sprintf("%s %d %d %x", res.Status, res.Steps, res.SimNs, res.SwitchHash))
	return res
}

// mainSim is sim for the execution whose schedule is the one under test.
func (r *Report) mainSim(p *simrt.Plan, setup func() []simrt.Spec) *simrt.Result {
	res := r.sim(p, setup)
	r.script = res.Switches
	r.mark(res.SwitchHash)
	return res
}

// Scenario decides one property.
type Scenario struct {
	Prop  string
	Race  bool // needs the race-detector build
	Rule  string
	Real  []string // components that ran real code
	Stub  []string // components replaced by the simulator
	Quick int      // cases per quick run
	Thor  int      // cases per thorough run
	Gen   func(g *Gen) *Case
	Exec  func(c *Case, r *Report)
	// MinOps keeps the minimiser from dropping operations the oracle relies on.
	Keep  func(o Op) bool
	Fixed func() []*Case // cases run before the random ones
	Fresh bool           // every case in its own process
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.Prop] = s }

// Gen draws a case.
type Gen struct {
	R     simrt.Rand
	Idx   uint64
	Tier  string
	Total int
}

func (g *Gen) N(n int) int             { return g.R.Intn(n) }
func (g *Gen) P(p float64) bool        { return g.R.Float() < p }
func (g *Gen) Between(a, b int) int    { return a + g.R.Intn(b-a+1) }
func (g *Gen) Pick(s ...string) string { return s[g.R.Intn(len(s))] }
func (g *Gen) PickI(s ...int64) int64  { return s[g.R.Intn(len(s))] }

// plan draws a scheduling policy.
func (g *Gen) plan() simrt.Plan {
	p := simrt.Plan{Seed: g.R.Next() >> 1, MapSeed: g.R.Next() >> 33, Epoch: 1_700_000_000_000_000_000 + int64(g.R.Next()%1_000_000_000_000_000), Tick: g.PickI(1, 100, 10_000), Max: 60_000_000}
	switch g.N(6) {
	case 0:
		p.Mode, p.Quantum = "quantum", 3
	case 1:
		p.Mode, p.Quantum = "quantum", 25
	case 2:
		p.Mode, p.Quantum = "quantum", 300
	case 3:
		p.Mode, p.Quantum = "quantum", 5000
	case 4:
		p.Mode, p.Quantum, p.Depth, p.Horizon = "pct", 20, 1+g.N(6), 200_000
	case 5:
		p.Mode, p.SiteP = "sites", 0.5
		for i := 0; i < 3+g.N(40); i++ {
			p.Sites = append(p.Sites, uint32(1+g.N(nSites())))
		}
		p.Quantum = 2000
	}
	return p
}

func mix64(a ...uint64) uint64 {
	r := simrt.NewRand(0x1234567)
	h := r.Next()
	for _, x := range a {
		q := simrt.NewRand(h ^ x)
		h = q.Next()
	}
	return h
}

func strHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func oneLine(s string) string { return strings.ReplaceAll(strings.TrimSpace(s), "\n", "\\n") }

func itoa(n int) string { return fmt.Sprint(n) }
