package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

//go:embed corpus.jsonl
var corpusText string

// corpusGroup is the inputs of one of the repository's own language-level
// tests, in order; each group assumes a fresh session.
type corpusGroup struct {
	G  string   `json:"g"`
	In []string `json:"in"`
	C  []uint64 `json:"c"` // scheduling points each took when the corpus was made
	// Pure groups define nothing and depend on nothing.
	Pure bool `json:"pure,omitempty"`
}

var corpusGroups []corpusGroup

func init() {
	for _, l := range strings.Split(corpusText, "\n") {
		if l == "" {
			continue
		}
		var g corpusGroup
		if err := json.Unmarshal([]byte(l), &g); err != nil {
			panic(err)
		}
		corpusGroups = append(corpusGroups, g)
	}
}

// corpusMain makes corpus.jsonl from raw lines {"g":group,"in":input}.
func corpusMain(raw, out string) {
	inSim()
	b, err := os.ReadFile(raw)
	if err != nil {
		fatal("%v", err)
	}
	groups := map[string][]string{}
	var order []string
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		var x struct{ G, In string }
		json.Unmarshal([]byte(l), &x)
		if groups[x.G] == nil {
			order = append(order, x.G)
		}
		groups[x.G] = append(groups[x.G], x.In)
	}
	var res strings.Builder
	for _, gname := range order {
		g := corpusGroup{G: gname}
		run := func(seed uint64, ins []string) ([]string, []uint64) {
			var outs []string
			var costs []uint64
			p := &simrt.Plan{Seed: seed, Mode: "serial", MapSeed: seed, Epoch: int64(1_700_000_000+seed*77777) * 1e9, Tick: 100, Max: 400_000_000}
			simrt.Run(p, func() []simrt.Spec {
				l := &Lane{Es: newSession()}
				return []simrt.Spec{{Data: l, Fn: func() {
					for _, in := range ins {
						s0 := simrt.Steps()
						o := l.raw(in)
						outs = append(outs, o+"|"+l.takeOut())
						costs = append(costs, simrt.Steps()-s0)
					}
				}}}
			})
			return outs, costs
		}
		var ins []string
		for _, in := range groups[gname] {
			skip := false
			for _, w := range []string{"Save", "Get[", "<<", "LoadRubi", "Timing", "UnixTime", "ExpreduceMaskNon", "Rubi", "RandomReal", "RandomInteger", "Pause", "Streams", "Quit", "Exit", "Plot"} {
				if strings.Contains(in, w) {
					skip = true
				}
			}
			if !skip {
				ins = append(ins, in)
			}
		}
		o1, c1 := run(1, ins)
		o2, _ := run(2, ins)
		for i, in := range ins {
			switch {
			case i >= len(o1) || i >= len(o2):
				fmt.Fprintf(os.Stderr, "drop %s: %q: ended the run\n", gname, in)
				continue
			case strings.HasPrefix(o1[i], "PANIC"):
				fmt.Fprintf(os.Stderr, "drop %s: %q: %s\n", gname, in, clip(o1[i], 200))
			case o1[i] != o2[i]:
				fmt.Fprintf(os.Stderr, "drop %s: %q: %q vs %q\n", gname, in, clip(o1[i], 200), clip(o2[i], 200))
			case c1[i] > 3_000_000:
				fmt.Fprintf(os.Stderr, "drop %s: %q: %d steps\n", gname, in, c1[i])
			default:
				g.In = append(g.In, in)
				g.C = append(g.C, c1[i])
				continue
			}
		}
		tidy()
		if len(g.In) == 0 {
			continue
		}
		j, _ := json.Marshal(g)
		res.Write(j)
		res.WriteString("\n")
	}
	if err := os.WriteFile(out, []byte(res.String()), 0o644); err != nil {
		fatal("%v", err)
	}
}
func corpus() []corpusGroup { return corpusGroups }
