//go:build go1.22

package core

import (
	"bytes"

	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

func counts(quick, thorough int) func(string) int {
	return func(t string) int {
		if t == "thorough" {
			return thorough
		}
		return quick
	}
}

func init() {
	// C01: key generations under every kind of fault
	register(&Prop{ID: "C01", Count: counts(700, 30000),
		Gen: func(r *simrt.RNG, p *Plan, tier string) {
			env(r, p, 2, 5)
			all := seq(p.N)
			k := 1 + r.Intn(2)
			for i := 0; i < k; i++ {
				party := all
				if p.N > 2 && r.P(1, 3) {
					party = pick(r, all, r.Range(2, p.N))
				}
				op := kg(r, i, party)
				op.Version = version(r, 15)
				op.Shuffle = r.P(1, 2)
				if i > 0 && (r.P(3, 4) || sessionID(&op, "") == sessionID(&p.Ops[0], "")) {
					op.After = []int{i - 1}
				} else if i > 0 {
					op.At = Ms(r.Intn(3000))
				}
				p.Ops = append(p.Ops, op)
			}
			p.Scn = "clean"
			switch r.Intn(6) {
			case 0:
			case 1, 2:
				p.Scn = "benign"
				for i := 0; i < r.Range(1, 3); i++ {
					p.Faults = append(p.Faults, benign(r, p, &p.Ops[r.Intn(k)]))
				}
			case 3:
				p.Scn = "hostile"
				op := &p.Ops[r.Intn(k)]
				n := op.Keys[r.Intn(len(op.Keys))]
				p.Faults = append(p.Faults, hostile(r, op, n))
				if r.P(1, 2) {
					p.Faults = append(p.Faults, hostile(r, op, n))
				}
			case 4:
				p.Scn = "late"
				// the end of the ceremony: some nodes finish, some do not
				op := &p.Ops[r.Intn(k)]
				for i := 0; i < r.Range(1, 3); i++ {
					n := op.Keys[r.Intn(len(op.Keys))]
					m := &Match{Proto: "tss", Type: []int{tKGVer, tKG, tDone}[r.Intn(3)], Round: "KGRound3Message", Op: op.ID, Count: 1, Nth: r.Intn(3)}
					if m.Type == tDone {
						m.Round = ""
					}
					p.Faults = append(p.Faults, Fault{Kind: []string{"crash", "crash_after", "drop", "stall"}[r.Intn(4)], Node: n, M: m, Arg: []Ms{0, 60000}[r.Intn(2)]})
				}
			case 5:
				p.Scn = "disk"
				// the share cannot be stored, or only half of it
				op := &p.Ops[r.Intn(k)]
				for i := 0; i < r.Range(1, 2); i++ {
					p.Faults = append(p.Faults, diskFault(r, op.Keys[r.Intn(len(op.Keys))], "localstate", []string{"enospc", "eio", "short", "crash_before", "crash_mid", "crash_after"}))
				}
			}
		},
		Setup: func(c *Cluster) { c.armDisk() },
		Judge: func(c *Cluster) { c.JudgeKeygen("C01") },
	})

	// C02: signatures under every kind of fault
	register(&Prop{ID: "C02", Count: counts(800, 30000),
		Gen: func(r *simrt.RNG, p *Plan, tier string) {
			env(r, p, 2, 6)
			all := seq(p.N)
			p.Wallets = []WalletSpec{{Party: all}}
			if r.P(1, 3) {
				p.Wallets = append(p.Wallets, WalletSpec{Party: pick(r, all, r.Range(2, p.N))})
			}
			k := 1 + r.Intn(2)
			for i := 0; i < k; i++ {
				w := r.Intn(len(p.Wallets))
				op := ks(r, i, w, p.Wallets[w].Party)
				op.Shuffle = r.P(1, 2)
				oldSigners(r, &op, 20)
				if i > 0 && r.P(3, 4) {
					op.After = []int{i - 1}
				} else if i > 0 {
					op.At = Ms(r.Intn(3000))
				}
				p.Ops = append(p.Ops, op)
			}
			p.Scn = "clean"
			switch r.Intn(5) {
			case 0:
			case 1, 2:
				p.Scn = "benign"
				for i := 0; i < r.Range(1, 3); i++ {
					p.Faults = append(p.Faults, benign(r, p, &p.Ops[r.Intn(k)]))
				}
			case 3:
				p.Scn = "hostile"
				op := &p.Ops[r.Intn(k)]
				n := op.Keys[r.Intn(len(op.Keys))]
				p.Faults = append(p.Faults, hostile(r, op, n))
				if r.P(1, 2) {
					p.Faults = append(p.Faults, hostile(r, op, n))
				}
			case 4:
				p.Scn = "notify"
				op := &p.Ops[r.Intn(k)]
				for i := 0; i < r.Range(1, 3); i++ {
					n := op.Keys[r.Intn(len(op.Keys))]
					p.Faults = append(p.Faults, Fault{Kind: []string{"drop", "stall", "flip", "trunc", "delay", "dup", "crash_after"}[r.Intn(7)], Node: n,
						M: &Match{Proto: "sig", Type: -1, Op: op.ID, Count: r.Intn(3)}, Arg: Ms(r.Range(1, 4000)), Seed: r.Uint64()})
				}
			}
		},
		Judge: func(c *Cluster) { c.JudgeKeysign("C02") },
	})

	// C03: no faults
	register(&Prop{ID: "C03", Count: counts(700, 30000),
		Gen: func(r *simrt.RNG, p *Plan, tier string) {
			env(r, p, 2, 6)
			all := seq(p.N)
			p.Scn = "keygen"
			if r.P(1, 2) {
				p.Scn = "keysign"
				p.Wallets = []WalletSpec{{Party: all}}
			}
			nops := 1 + r.Intn(3)
			for i := 0; i < nops; i++ {
				var op Op
				switch {
				case i == 0 && p.Scn == "keygen":
					party := all
					if p.N > 2 && r.P(1, 4) {
						party = pick(r, all, r.Range(2, p.N))
					}
					op = kg(r, i, party)
					op.Version = version(r, 20)
				case p.Scn == "keygen":
					op = ks(r, i, -1, p.Ops[0].Keys)
				default:
					op = ks(r, i, 0, all)
				}
				oldSigners(r, &op, 20)
				op.Shuffle = r.P(1, 2)
				if i > 0 {
					op.After = []int{i - 1}
					op.At = Ms(r.Intn(2000))
				}
				p.Ops = append(p.Ops, op)
			}
			if r.P(1, 3) {
				dups(r, p)
			}
		},
		Judge: func(c *Cluster) {
			c.nontrivial = true
			c.JudgeAllSucceed("C03", nil)
		},
	})

	// C05: every call returns
	register(&Prop{ID: "C05", Count: counts(800, 30000),
		Gen: func(r *simrt.RNG, p *Plan, tier string) {
			env(r, p, 2, 5)
			p.PartyT, p.KeygenT, p.KeysignT = Ms(r.Range(3, 12)*1000), Ms(r.Range(5, 25)*1000), Ms(r.Range(5, 25)*1000)
			all := seq(p.N)
			p.Wallets = []WalletSpec{{Party: all}}
			k := 1 + r.Intn(2)
			for i := 0; i < k; i++ {
				var op Op
				if r.P(2, 5) {
					op = kg(r, i, all)
					op.Version = version(r, 20)
				} else {
					op = ks(r, i, 0, all)
					oldSigners(r, &op, 20)
				}
				if r.P(1, 5) { // not everyone takes part
					op.Nodes = pick(r, op.Nodes, r.Range(1, len(op.Nodes)))
				}
				op.Shuffle = r.P(1, 2)
				if op.Kind == "keysign" && r.P(1, 8) {
					// what cannot be signed
					op.Msgs[r.Intn(len(op.Msgs))] = [][]byte{{}, {0}, make([]byte, 32), make([]byte, 40), curveN.Bytes(), bytes.Repeat([]byte{0xff}, 32)}[r.Intn(6)]
				}
				if op.Kind == "keysign" && r.P(1, 12) {
					op.Msgs = append(op.Msgs, op.Msgs[0])
				}
				if r.P(1, 6) {
					how := oddGen
					if op.Kind == "keysign" {
						how = oddSign
					}
					op.Tag, op.T = "odd "+how[r.Intn(len(how))], r.Intn(2)
				}
				if i > 0 {
					op.At = Ms(r.Intn(4000))
					if r.P(1, 2) {
						op.After = []int{0}
					}
				}
				p.Ops = append(p.Ops, op)
			}
			p.Scn = "mixed"
			for i := 0; i < r.Range(1, 4); i++ {
				op := &p.Ops[r.Intn(k)]
				if r.P(1, 4) {
					p.Faults = append(p.Faults, hostile(r, op, op.Keys[r.Intn(len(op.Keys))]))
				} else {
					p.Faults = append(p.Faults, benign(r, p, op))
				}
			}
		},
		Judge: func(c *Cluster) { c.JudgeReturns("C05") },
	})
}

// oldSigners turns a signing request into one of the leaderless mode in some
// percentage of cases: only the named signers sign, the others just wait.
func oldSigners(r *simrt.RNG, op *Op, pct int) {
	if op.Kind != "keysign" || !r.P(pct, 100) {
		return
	}
	op.Version = version(r, 100)
	n := len(op.Keys)
	op.Keys = pick(r, op.Nodes, r.Range(Threshold(n)+1, n))
}
