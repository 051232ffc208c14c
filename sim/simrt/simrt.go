//go:build go1.22

// Package simrt is the harness' view of the patched runtime: seeded
// scheduling, virtual time, per-node labels, yield points.
package simrt

import (
	"fmt"
	"hash/fnv"
	"io"
	"math/big"
	"runtime"
	"strings"
	"time"
	_ "unsafe"
)

//go:linkname simStart runtime.simStart
func simStart(seed uint64, mode uint32)

//go:linkname simStop runtime.simStop
func simStop()

//go:linkname simRand runtime.simRand
func simRand() uint64

//go:linkname simStats runtime.simStats
func simStats() (picks, multi, hash uint64)

//go:linkname simActive runtime.simActive
func simActive() bool

//go:linkname simRepri runtime.simRepri
func simRepri()

//go:linkname simGoid runtime.simGoid
func simGoid() uint64

//go:linkname simLabel runtime.simLabel
func simLabel() uint64

//go:linkname simSetLabel runtime.simSetLabel
func simSetLabel(l uint64)

//go:linkname simSetNCPU runtime.simSetNCPU
func simSetNCPU(n int32)

//go:linkname simBubbleRun runtime.simBubbleRun
func simBubbleRun(f func())

// Label returns the node label of the calling goroutine (0: the harness).
func Label() uint64 { return simLabel() }

// SetLabel changes it; goroutines started later inherit it.
func SetLabel(l uint64) { simSetLabel(l) }

// Go starts f in a goroutine that carries the given label.
func Go(label uint64, f func()) {
	go func() {
		simSetLabel(label)
		f()
	}()
}

// Stats reports scheduling decisions taken so far.
func Stats() (picks, multi, hash uint64) { return simStats() }

// SetNCPU makes runtime.NumCPU report n.
func SetNCPU(n int) { simSetNCPU(int32(n)) }

// Run executes f as the root of a simulated bubble.
func Run(seed uint64, mode uint32, f func()) {
	simStart(seed, mode)
	time.Sleep(2 * time.Millisecond) // settle on the scheduler
	simBubbleRun(f)
}

// ---- yield points

// Knobs of the yield points.
var (
	on        bool
	yieldP    uint64 // of 65536
	slowP     uint64 // of 65536, only at slow sites
	slowMask  uint32
	slowVal   uint32
	slowMax   time.Duration
	dead      = map[uint64]bool{}
	paused    = map[uint64]time.Time{}
	anyStop   bool
	Yields    uint64
	Sleeps    uint64
	SiteHits  [4096]bool
	SiteCount int
	calls     uint64
	callsAt   time.Time
	stuck     int
)

// Yielding configures the yield points: with probability yield/65536 a
// statement boundary gives up the processor; sites with id&mask==val stall for
// up to max with probability slow/65536.
func Yielding(yield, slow uint64, mask, val uint32, max time.Duration) {
	yieldP, slowP, slowMask, slowVal, slowMax = yield, slow, mask, val, max
	on = true
}

// Quiet turns random yields and stalls off.
func Quiet() { yieldP, slowP = 0, 0 }

// Kill freezes every goroutine carrying the label at its next yield point.
func Kill(label uint64) { dead[label] = true; anyStop = true }

// Pause freezes them until the given instant.
func Pause(label uint64, until time.Time) { paused[label] = until; anyStop = true }

// Dead reports whether the label was killed.
func Dead(label uint64) bool { return anyStop && dead[label] }

// Check freezes the caller when its node is dead or paused.
func Check() {
	if !anyStop {
		return
	}
	l := simLabel()
	if l == 0 {
		return
	}
	if u, ok := paused[l]; ok {
		if d := time.Until(u); d > 0 {
			time.Sleep(d)
		}
	}
	if dead[l] {
		select {}
	}
}

// Y is called at every statement boundary of the code under test.
func Y(id uint32) {
	if !on || !simActive() {
		return
	}
	if calls++; calls&0xfffff == 0 {
		if t := time.Now(); !t.Equal(callsAt) {
			callsAt, stuck = t, 0
		} else if stuck++; stuck >= 40 {
			panic("livelock: 40 million steps without any progress of time")
		}
	}
	if h := id & 4095; !SiteHits[h] {
		SiteHits[h] = true
		SiteCount++
	}
	if anyStop {
		Check()
	}
	if yieldP != 0 {
		r := simRand()
		if r&0xffff < yieldP {
			Yields++
			if r&0x30000 == 0 {
				simRepri()
			}
			runtime.Gosched()
		}
		if slowP != 0 && id&slowMask == slowVal && (r>>20)&0xffff < slowP {
			Sleeps++
			time.Sleep(time.Duration((r >> 36) % uint64(slowMax+1)))
		}
		if anyStop {
			Check()
		}
	}
}

// ---- random numbers

// RNG is a splitmix64 generator; each purpose has its own stream.
type RNG struct{ s uint64 }

// NewRNG derives a stream from a seed and a purpose.
func NewRNG(seed uint64, purpose string) *RNG {
	h := fnv.New64a()
	io.WriteString(h, purpose)
	r := &RNG{s: seed*0x9e3779b97f4a7c15 ^ h.Sum64()}
	r.Uint64()
	return r
}

// Uint64 returns the next value.
func (r *RNG) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a value in [0,n).
func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a value in [a,b].
func (r *RNG) Range(a, b int) int { return a + r.Intn(b-a+1) }

// P is true with probability num/den.
func (r *RNG) P(num, den int) bool { return r.Intn(den) < num }

// Dur returns a duration in [a,b].
func (r *RNG) Dur(a, b time.Duration) time.Duration {
	if b <= a {
		return a
	}
	return a + time.Duration(r.Uint64()%uint64(b-a+1))
}

// Perm returns a permutation of [0,n).
func (r *RNG) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Read fills b (io.Reader).
func (r *RNG) Read(b []byte) (int, error) {
	for i := 0; i < len(b); {
		v := r.Uint64()
		for k := 0; k < 8 && i < len(b); k++ {
			b[i] = byte(v)
			v >>= 8
			i++
		}
	}
	return len(b), nil
}

// Big returns a number in [0,n).
func (r *RNG) Big(n *big.Int) *big.Int {
	b := make([]byte, n.BitLen()/8+16)
	r.Read(b)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), n)
}

// ---- event log

var (
	Trace   bool
	Live    bool // print events as they happen
	events  []string
	evSeq   int
	evHash  uint64 = 14695981039346656037
	evStart time.Time
)

// StartLog sets time zero of the log.
func StartLog() { evStart = time.Now() }

// Now returns simulated time since StartLog.
func Now() time.Duration { return time.Since(evStart) }

// Seq is the number of events logged so far: the global order of the history.
func Seq() int { evSeq++; return evSeq }

// Logf appends an event.  It draws no randomness and never blocks.
func Logf(format string, a ...interface{}) {
	evSeq++
	s := fmt.Sprintf("%10.4f ", Now().Seconds()) + fmt.Sprintf(format, a...)
	for i := 0; i < len(s); i++ {
		evHash = (evHash ^ uint64(s[i])) * 1099511628211
	}
	if Live {
		println(s)
	}
	events = append(events, s)
}

// LogHash is a hash over all events.
func LogHash() uint64 { return evHash }

// Events returns the last n events.
func Events(n int) string {
	e := events
	if n > 0 && len(e) > n {
		e = e[len(e)-n:]
	}
	return strings.Join(e, "\n")
}

// NumEvents returns the number of events.
func NumEvents() int { return len(events) }
