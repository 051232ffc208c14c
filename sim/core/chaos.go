//go:build go1.22

package core

import (
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

var kgRounds = []string{"KGRound1Message", "KGRound2Message1", "KGRound2Message2", "KGRound3Message"}
var ksRounds = []string{"SignRound1Message1", "SignRound1Message2", "SignRound2Message", "SignRound3Message", "SignRound4Message", "SignRound5Message", "SignRound6Message", "SignRound7Message"}

// message types on the wire
const (
	tKG, tKS, tKGVer, tKSVer, tCtl, tDone = 0, 1, 2, 3, 4, 5
)

// point draws a frame of an operation: somewhere inside the ceremony.
func point(r *simrt.RNG, op *Op) *Match {
	m := &Match{Type: -1, Op: op.ID}
	kgen := op.Kind == "keygen"
	switch op.Kind {
	case "join":
		m.Proto, m.Nth = "joinl", r.Intn(4)
		if isOld(op.Version) {
			m.Proto = "join"
		} else if r.P(1, 3) {
			m.Round = "response"
		}
		return m
	case "stream":
		m.Proto = "raw"
		return m
	case "bcast":
		m.Proto, m.Nth = "tss", r.Intn(3)
		return m
	case "notify", "wait":
		m.Proto, m.Nth = "sig", r.Intn(2)
		return m
	}
	switch r.Intn(10) {
	case 0:
		m.Proto = "joinl"
		if isOld(op.Version) {
			m.Proto = "join"
		}
	case 1:
		m.Proto, m.Type = "tss", tDone
	case 2, 3:
		m.Proto, m.Type = "tss", tKSVer
		if kgen {
			m.Type = tKGVer
		}
		m.Nth = r.Intn(12)
	case 4:
		if kgen {
			m.Proto, m.Type, m.Round = "tss", tKG, kgRounds[3]
		} else {
			m.Proto = "sig"
		}
	default:
		m.Proto = "tss"
		if kgen {
			m.Type, m.Round = tKG, kgRounds[r.Intn(len(kgRounds))]
		} else {
			m.Type, m.Round = tKS, ksRounds[r.Intn(len(ksRounds))]
		}
		m.Nth = r.Intn(3)
	}
	return m
}

// span estimates how long an operation runs without faults.
func span(op *Op) int {
	if op.Kind == "keygen" {
		return 2500
	}
	return 3500
}

// benign draws a fault that leaves nodes honest.
func benign(r *simrt.RNG, p *Plan, op *Op) Fault {
	party := op.Keys
	n := party[r.Intn(len(party))]
	others := without(op.Nodes, n)
	if len(others) == 0 {
		others = []int{(n + 1) % p.N}
	}
	peers := pick(r, others, r.Range(1, len(others)))
	at := Ms(r.Intn(span(op)))
	switch r.Intn(12) {
	case 0, 1:
		f := Fault{Kind: []string{"crash", "crash_after"}[r.Intn(2)], Node: n, M: point(r, op), Arg: []Ms{0, 100, 60000}[r.Intn(3)]}
		f.M.Count = 1
		if r.P(1, 2) {
			f.Dur = Ms(r.Range(100, 8000))
		}
		return f
	case 2:
		f := Fault{Kind: "crash", Op: op.ID, At: at, Node: n, Arg: []Ms{0, 100, 60000}[r.Intn(3)]}
		if r.P(1, 2) {
			f.Dur = Ms(r.Range(100, 8000))
		}
		return f
	case 3:
		f := Fault{Kind: "stop", Op: op.ID, At: at, Node: n}
		if r.P(1, 2) {
			f.Dur = Ms(r.Range(1000, 20000))
		}
		return f
	case 4:
		f := Fault{Kind: "cut", Node: n, Peer: peers, M: point(r, op), Arg: []Ms{0, 200, 30000}[r.Intn(3)], Dur: Ms(r.Range(50, 30000))}
		f.M.Count = 1
		return f
	case 5:
		return Fault{Kind: "cut", Op: op.ID, At: at, Node: n, Peer: peers, Arg: []Ms{0, 200, 30000}[r.Intn(3)], Dur: Ms(r.Range(50, 30000))}
	case 6:
		return Fault{Kind: "break", Op: op.ID, At: at, Node: n, Peer: peers}
	case 7:
		return Fault{Kind: "lag", Op: op.ID, At: at, Node: n, Arg: Ms(r.Range(100, 12000)), Dur: Ms(r.Range(200, 20000))}
	case 8:
		return Fault{Kind: "pause", Op: op.ID, At: at, Node: n, Dur: Ms(r.Range(100, 15000))}
	case 9:
		f := Fault{Kind: "loss", Op: op.ID, At: 0, Node: -1, P: r.Range(10, 300), Dur: Ms(r.Range(1000, 20000)), Seed: r.Uint64()}
		if r.P(1, 2) {
			f.Node = n
		}
		return f
	case 10:
		m := point(r, op)
		m.To = pick(r, others, r.Range(1, len(others)))
		m.Count = r.Intn(4)
		return Fault{Kind: []string{"drop", "stall", "trunc"}[r.Intn(3)], Node: n, M: m, Arg: Ms(r.Intn(2)), Seed: r.Uint64()}
	default:
		m := point(r, op)
		m.Count = r.Intn(4)
		if r.P(1, 2) {
			m = &Match{Type: -1, Op: op.ID}
		}
		return Fault{Kind: "delay", Node: n, M: m, P: r.Range(100, 1000), Arg: Ms(r.Range(200, 9000)), Seed: r.Uint64()}
	}
}

// hostile draws a fault that makes a node lie.
func hostile(r *simrt.RNG, op *Op, n int) Fault {
	others := without(op.Nodes, n)
	if len(others) == 0 {
		others = without(op.Keys, n)
	}
	kgen := op.Kind == "keygen"
	m := &Match{Proto: "tss", Type: tKS, Round: ksRounds[r.Intn(len(ksRounds))], Op: op.ID}
	if kgen {
		m.Type, m.Round = tKG, kgRounds[r.Intn(len(kgRounds))]
	}
	if r.P(1, 2) {
		m.To = pick(r, others, r.Range(1, len(others)))
	}
	f := Fault{Kind: []string{"badshare", "equiv", "tamper", "badsig", "garbage", "verflip", "flip", "silent"}[r.Intn(8)], Node: n, M: m, Seed: r.Uint64()}
	switch f.Kind {
	case "verflip":
		m.Type, m.Round = tKSVer, ""
		if kgen {
			m.Type = tKGVer
		}
		m.To = nil
		f.P = r.Range(200, 1000)
		f.Arg = Ms(r.Intn(2))
	case "equiv":
		m.To = pick(r, others, r.Range(1, len(others)))
		if kgen && m.Round == kgRounds[1] {
			m.Round = kgRounds[0]
		}
	case "flip":
		m.Type, m.Round = -1, ""
		m.Proto = []string{"", "tss"}[r.Intn(2)]
		f.P = r.Range(20, 300)
	case "silent":
		f.M = point(r, op)
	}
	return f
}

var lies = map[string]bool{"badshare": true, "equiv": true, "tamper": true, "badsig": true, "garbage": true, "verflip": true, "flip": true, "silent": true}

// markFaulty flags nodes whose plan makes them lie.
func (c *Cluster) markFaulty() {
	for _, i := range c.P.Bad {
		c.Nodes[i].Faulty = true
	}
	for _, f := range c.P.Faults {
		if f.M != nil && lies[f.Kind] && f.Node >= 0 {
			c.Nodes[f.Node].Faulty = true
		}
	}
}
