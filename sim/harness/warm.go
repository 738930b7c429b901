package main

import (
	"math/big"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/matcher"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
)

// warmUp fills the caches that live as long as the process, so that a run does
// not depend on what its process did before.
func warmUp() {
	es := &expreduce.EvalState{}
	es.Init(false)
	for h, a := range map[string]expreduceapi.Ex{
		"Integer":  atoms.NewInteger(big.NewInt(1)),
		"Real":     atoms.NewReal(big.NewFloat(1.5)),
		"Rational": atoms.NewRational(big.NewInt(1), big.NewInt(2)),
		"String":   atoms.NewString("s"),
		"Symbol":   atoms.NewSymbol("Global`s"),
		"Complex":  atoms.NewComplex(atoms.NewInteger(big.NewInt(1)), atoms.NewInteger(big.NewInt(1))),
	} {
		matcher.IsMatchQ(a, atoms.E(atoms.S("Blank"), atoms.S(h)), matcher.EmptyPD(), es)
		matcher.IsMatchQ(a, atoms.E(atoms.S("Pattern"), atoms.NewSymbol("Global`p"), atoms.E(atoms.S("Blank"), atoms.S(h))), matcher.EmptyPD(), es)
	}
}
