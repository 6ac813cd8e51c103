//go:build !race && go1.21

package vsync

const RaceEnabled = false

func raceDisable() {}
func raceEnable()  {}

func RaceErrors() int { return 0 }
