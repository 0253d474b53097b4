//go:build go1.21 && !race

package harness

const raceMode = false

func raceOff()           {}
func raceOn()            {}
func raceLeave()         {}
func raceJoin()          {}
func raceReport() string { return "" }
