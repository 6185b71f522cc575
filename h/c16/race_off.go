//go:build !race

package c16

func races() int { return 0 }

const haveRace = false
