//go:build race

package checks

import "runtime"

// raceErrors is how many data races there were so far.
func raceErrors() int { return runtime.RaceErrors() }

const raceBuild = true
