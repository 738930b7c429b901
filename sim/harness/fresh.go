package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// freshFns are computations a case can have done by a process of its own, whose
// past cannot influence them.
var freshFns = map[string]func(c *Case) [][]string{}

// inFresh runs freshFns[fn] on c in a new process.
func inFresh(fn string, c *Case) ([][]string, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	in, _ := json.Marshal(c)
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	defer pr.Close()
	ir, iw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	var eb tailBuf
	cmd := exec.Command(exe, "fresh", fn)
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Stdin = ir
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	ir.Close()
	go func() {
		iw.Write(in)
		iw.Close()
	}()
	b, _ := io.ReadAll(pr)
	werr := cmd.Wait()
	var out [][]string
	if err := json.Unmarshal(b, &out); err != nil {
		return nil, fmt.Errorf("fresh process: %v; %v; %s", werr, err, clip(eb.String(), 1500))
	}
	return out, nil
}

func freshMain(fn string) {
	inSim()
	b, _ := io.ReadAll(os.Stdin)
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fatal("%v", err)
	}
	out := freshFns[fn](&c)
	json.NewEncoder(os.NewFile(3, "results")).Encode(out)
}

// script of one lane: what a client does with its session.
func (l *Lane) do(o Op) string {
	var s string
	switch o.K {
	case "top":
		s = l.top(o.S)
	case "raw":
		s = l.raw(o.S)
	case "new":
		l.Es = newSession()
	case "clearall":
		l.Es.ClearAll()
	default:
		s = "bad op " + o.K
	}
	if out := l.takeOut(); out != "" {
		s += " |printed| " + out
	}
	return s
}

// runLane carries out a lane's operations, recording what the client observes.
func (l *Lane) run(ops []Op) {
	for _, o := range ops {
		l.Log = append(l.Log, l.do(o))
	}
}

// lanesRun runs every lane's operations as one task each.  Lanes whose first
// operation is "new" make their session themselves, during the run; the others
// get one beforehand, or share one.
func lanesSetup(lanes [][]Op, shared bool, out *[]*Lane, prep func(l *Lane)) func() []simrt.Spec {
	return func() []simrt.Spec {
		var specs []simrt.Spec
		var es = (*Lane)(nil)
		for i, ops := range lanes {
			l := &Lane{ID: i}
			ops := ops
			switch {
			case shared && es != nil:
				l.Es = es.Es
			case len(ops) > 0 && ops[0].K == "new":
			default:
				inLane(i, func() { l.Es = newSession() })
			}
			if es == nil {
				es = l
			}
			if prep != nil {
				prep(l)
			}
			*out = append(*out, l)
			specs = append(specs, simrt.Spec{Data: l, Fn: func() { inLane(l.ID, func() { l.run(ops) }) }})
		}
		return specs
	}
}

func serialPlan(p simrt.Plan) *simrt.Plan {
	return &simrt.Plan{Seed: p.Seed, Mode: "serial", MapSeed: p.MapSeed, Epoch: p.Epoch, Tick: p.Tick, Max: min(p.Max, 60_000_000)}
}

// solo runs each lane by itself.
func solo(c *Case) [][]string {
	var out [][]string
	for _, ops := range c.Lanes {
		var ls []*Lane
		res := simrt.Run(serialPlan(c.Plan), lanesSetup([][]Op{ops}, false, &ls, nil))
		log := ls[0].Log
		if res.Status != "ok" {
			log = append(log, "STATUS "+res.Status)
		}
		out = append(out, log)
	}
	return out
}

func init() { freshFns["solo"] = solo }
