//go:build go1.22 && !race

package simrt

// Race tells whether the race detector watches.
const Race = false

// Silent does nothing without the race detector.
func Silent() {}

// Loud does nothing without the race detector.
func Loud() {}
