//go:build race

package c16

import "runtime"

// races returns the number of data races found so far.
func races() int { return runtime.RaceErrors() }

const haveRace = true
