//go:build go1.22 && race

package simrt

import "runtime"

// Race tells whether the race detector watches.
const Race = true

// Silent stops the harness's own synchronisation from ordering the goroutines of the system under test.
func Silent() { runtime.RaceDisable() }

// Loud ends Silent.
func Loud() { runtime.RaceEnable() }
