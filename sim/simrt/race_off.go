//go:build !race

package simrt

const RaceEnabled = false

func raceDisable() {}
func raceEnable()  {}

func RaceErrors() int { return 0 }
