package main

import (
	"bufio"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// evalTool evaluates the lines of standard input in one simulated session;
// for trying things out.
func evalTool(top bool) {
	inSim()
	var ins []string
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		if sc.Text() != "" {
			ins = append(ins, sc.Text())
		}
	}
	var out []string
	p := &simrt.Plan{Seed: 1, Mode: "quantum", Quantum: 25, MapSeed: 1, Epoch: 1_700_000_000_000_000_000, Tick: 100, Max: 400_000_000}
	r := simrt.Run(p, func() []simrt.Spec {
		l := &Lane{Es: newSession(), Disk: newDisk()}
		return []simrt.Spec{{Data: l, Fn: func() {
			defer l.Disk.remove()
			for _, in := range ins {
				in = strings.ReplaceAll(in, "/sim/", l.Disk.Dir+"/")
				s0 := simrt.Steps()
				var o string
				if top {
					o = l.top(in)
				} else {
					o = l.raw(in)
				}
				out = append(out, fmt.Sprintf("%-40s %8d  %s  %q", in, simrt.Steps()-s0, o, l.takeOut()))
			}
		}}}
	})
	for _, o := range out {
		fmt.Println(o)
	}
	fmt.Println(r.Status, r.Steps, r.Stuck)
}

// hitsTool: hits PROP IDX [HISTORY...]: which program points a case passes how
// often, to find out why two runs of it differ.
func hitsTool(a []string) {
	inSim()
	s := scenarios[a[0]]
	num := func(x string) uint64 { v, _ := strconv.ParseUint(x, 10, 64); return v }
	for _, h := range a[2:] {
		runCase(s, genCase(s, baseSeed(), "quick", num(h)))
	}
	before := simrt.Hits
	r := runCase(s, genCase(s, baseSeed(), "quick", num(a[1])))
	for i := range before {
		if n := simrt.Hits[i] - before[i]; n != 0 {
			fmt.Println(siteNames[i].P, siteNames[i].F, n)
		}
	}
	fmt.Printf("hash %x\n", r.Hash)
}
