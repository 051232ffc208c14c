//go:build go1.22

package simrt

import "sync"

// Mutex is a lock of the harness; the race detector does not see it.
type Mutex struct{ mu sync.Mutex }

// Lock locks.
func (m *Mutex) Lock() { Silent(); m.mu.Lock(); Loud() }

// Unlock unlocks.
func (m *Mutex) Unlock() { Silent(); m.mu.Unlock(); Loud() }

// Order is a point that goroutines pass one after the other, as the race detector can see.
type Order struct{ mu sync.Mutex }

// Pass passes it.
func (o *Order) Pass() { o.mu.Lock(); o.mu.Unlock() }
