//go:build race

package simrt

import "runtime"

const RaceEnabled = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

// RaceErrors is the number of data races the detector has reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
