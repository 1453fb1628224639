//go:build !race

package run

// RaceEnabled says whether this binary has the race detector.
const RaceEnabled = false
