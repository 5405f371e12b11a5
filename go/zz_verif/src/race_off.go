//go:build !race
// +build !race

package src

// RaceMode reports whether the race detector is on.
const RaceMode = false

// Races counts the data races reported so far.
func Races() int { return 0 }
