//go:build race
// +build race

package src

import "runtime"

// RaceMode reports whether the race detector is on.
const RaceMode = true

// Races counts the data races reported so far.
func Races() int { return runtime.RaceErrors() }
