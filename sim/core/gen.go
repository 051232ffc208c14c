//go:build go1.22

package core

import (
	"fmt"

	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

const (
	vNew = "0.14.0" // leader-based joining
	vOld = "0.13.0" // leaderless joining
)

// env draws the environment of a run: size, timeouts, scheduler and network.
func env(r *simrt.RNG, p *Plan, lo, hi int) {
	p.N = r.Range(lo, hi)
	p.Boot = []int{r.Intn(p.N)}
	if r.P(1, 4) {
		b := r.Intn(p.N)
		if b != p.Boot[0] {
			p.Boot = append(p.Boot, b)
		}
	}
	p.PartyT, p.KeygenT, p.KeysignT = 10000, 20000, 20000
	sched(r, p)
	netw(r, p)
}

func sched(r *simrt.RNG, p *Plan) {
	p.Sched.Mode = uint32(r.Intn(3))
	p.Sched.Yield = []uint64{0, 300, 1500, 6000}[r.Intn(4)]
	p.Sched.NCPU = r.Range(1, 3)
	if r.P(1, 3) { // a few statements of the program are slow
		p.Sched.SlowMask = 15
		p.Sched.SlowVal = uint32(r.Intn(16))
		p.Sched.SlowP = []uint64{100, 600, 2000}[r.Intn(3)]
		p.Sched.SlowMax = []Ms{5, 40}[r.Intn(2)]
	}
}

func netw(r *simrt.RNG, p *Plan) {
	switch r.Intn(4) {
	case 0:
		p.Net = NetK{LatMin: 1, LatMax: 3}
	case 1:
		p.Net = NetK{LatMin: 1, LatMax: 60}
	case 2:
		p.Net = NetK{LatMin: 5, LatMax: 40, SlowP: 30, SlowMax: 400}
	case 3:
		p.Net = NetK{LatMin: 1, LatMax: 20, SlowP: 5, SlowMax: 900}
	}
	if r.P(1, 3) {
		p.Net.FragP = []int{100, 700}[r.Intn(2)]
	}
	if r.P(1, 6) {
		p.Net.Window = 4096
	}
	if r.P(1, 3) {
		p.Net.NegP = 300
	}
}

func seq(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	return l
}

// pick draws k of l, in l's order.
func pick(r *simrt.RNG, l []int, k int) []int {
	in := map[int]bool{}
	for _, i := range r.Perm(len(l))[:k] {
		in[i] = true
	}
	var out []int
	for i, v := range l {
		if in[i] {
			out = append(out, v)
		}
	}
	return out
}

func without(l []int, x ...int) []int {
	var out []int
	for _, v := range l {
		if !contains(x, v) {
			out = append(out, v)
		}
	}
	return out
}

func contains(l []int, x int) bool {
	for _, v := range l {
		if v == x {
			return true
		}
	}
	return false
}

// message draws something to sign.
func message(r *simrt.RNG) []byte {
	n := 32
	switch r.Intn(8) {
	case 0:
		n = r.Range(1, 31)
	case 1:
		n = r.Range(33, 70)
	}
	b := make([]byte, n)
	r.Read(b)
	if r.Intn(10) == 0 {
		b[0] = 0 // leading zero
	}
	if r.Intn(10) == 0 {
		for i := range b {
			b[i] = 0xff
		}
		b[len(b)-1] = byte(r.Intn(256))
		if n >= 32 { // the group order is the limit of what can be signed
			b[15] = 0xfd
		}
	}
	return b
}

func messagesN(r *simrt.RNG, k int) [][]byte {
	var out [][]byte
	seen := map[string]bool{}
	for len(out) < k {
		m := message(r)
		if truncHash(m).Sign() == 0 || truncHash(m).Cmp(curveN) >= 0 {
			continue // zero and the group order are outside of what can be signed
		}
		if !seen[string(m)] {
			seen[string(m)] = true
			out = append(out, m)
		}
	}
	return out
}

// batch draws the number of messages signed at once.
func batch(r *simrt.RNG) int { return []int{1, 1, 1, 1, 2, 2, 3, 5}[r.Intn(8)] }

func skews(r *simrt.RNG, nodes []int, max Ms) map[int]Ms {
	if max == 0 || r.P(1, 3) {
		return nil
	}
	m := map[int]Ms{}
	for _, i := range nodes {
		m[i] = Ms(r.Intn(int(max) + 1))
	}
	return m
}

func version(r *simrt.RNG, old int) string {
	if r.P(old, 100) {
		return []string{"0.13.0", "0.13.9", "0.1.0", "0.9.2"}[r.Intn(4)]
	}
	return []string{"0.14.0", "0.14.0", "0.14.1", "0.15.0", "1.0.0"}[r.Intn(5)]
}

// kg makes a key generation operation.
func kg(r *simrt.RNG, id int, party []int) Op {
	return Op{ID: id, Kind: "keygen", Nodes: party, Keys: party, Version: vNew, Height: int64(r.Range(1, 1000000)), Skew: skews(r, party, 1500)}
}

// ks makes a signing operation by all holders of a key.
func ks(r *simrt.RNG, id int, wallet int, party []int) Op {
	return Op{ID: id, Kind: "keysign", Nodes: party, Keys: party, Wallet: wallet, Version: vNew, Height: int64(r.Range(1, 1000000)),
		Msgs: messagesN(r, batch(r)), Skew: skews(r, party, 1500)}
}

// leaderAt finds a block height at which one of the wanted nodes leads a
// signing (or keygen) session.
func (p *Plan) leaderAt(op *Op, party []int, want func(leader int) bool) {
	for h := op.Height; ; h++ {
		op.Height = h
		if want(p.Leader(op, party)) {
			return
		}
		if h > op.Height+10000 {
			panic("no leader")
		}
	}
}

// dups makes frames arrive more than once.
func dups(r *simrt.RNG, p *Plan) {
	p.Faults = append(p.Faults, Fault{Kind: "dup", Node: -1, M: &Match{Type: -1, Op: -1}, P: r.Range(20, 200), Arg: Ms(r.Range(1, 1500)), Seed: r.Uint64()})
}

var _ = fmt.Sprint
