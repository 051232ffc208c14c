//go:build go1.22

package core

import (
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

func init() {
	// C12: ceremonies beside each other
	register(&Prop{ID: "C12", Count: counts(600, 20000),
		Gen: func(r *simrt.RNG, p *Plan, tier string) {
			env(r, p, 3, 6)
			all := seq(p.N)
			for i := 0; i < r.Range(1, 3); i++ {
				party := all
				if r.P(2, 3) {
					party = pick(r, all, r.Range(2, p.N))
				}
				p.Wallets = append(p.Wallets, WalletSpec{Party: party})
			}
			k := r.Range(2, 4)
			seen := map[string]bool{}
			keygen := false
			for i := 0; len(p.Ops) < k; i++ {
				var op Op
				id := len(p.Ops)
				if !keygen && r.P(1, 4) {
					party := all
					if r.P(1, 2) {
						party = pick(r, all, r.Range(2, p.N))
					}
					op = kg(r, id, party)
					op.Version = version(r, 20)
					keygen = true
				} else {
					w := r.Intn(len(p.Wallets))
					op = ks(r, id, w, p.Wallets[w].Party)
					oldSigners(r, &op, 25)
					if id > 0 && p.Ops[id-1].Kind == "keysign" && r.P(1, 3) {
						op.Msgs = p.Ops[id-1].Msgs // the same messages by others
						if len(op.Msgs) > 1 && r.P(1, 2) {
							op.Msgs = op.Msgs[:1]
						}
					}
				}
				op.Skew = skews(r, op.Nodes, 800)
				op.Shuffle = r.P(2, 3)
				op.At = Ms([]int{0, r.Intn(300), r.Intn(3000), r.Intn(9000)}[r.Intn(4)])
				if s := sessionID(&op, ""); !seen[s] || i > 50 {
					seen[s] = true
					p.Ops = append(p.Ops, op)
				}
			}
			p.Scn = "clean"
			if r.P(2, 5) {
				dups(r, p)
			}
			if r.P(2, 5) {
				// one of them fails
				op := &p.Ops[r.Intn(k)]
				op.Tag = "fails"
				p.Scn = "beside a failing one"
				if r.P(1, 3) && len(op.Nodes) > 1 {
					op.Nodes = pick(r, op.Nodes, r.Range(1, len(op.Nodes)-1))
				} else {
					n := op.Keys[r.Intn(len(op.Keys))]
					p.Bad = []int{n}
					for {
						f := hostile(r, op, n)
						if f.M != nil && f.Kind != "silent" && f.Kind != "crash" && f.Kind != "crash_after" {
							f.M.Own = true
							p.Faults = append(p.Faults, f)
							break
						}
					}
				}
			}
		},
		Judge: func(c *Cluster) {
			c.JudgeSucceed("C12", func(cl *Call) bool { return cl.Op.Tag != "fails" })
			c.JudgeKeygen("C12")
			c.JudgeKeysign("C12")
		},
	})
}
