//go:build go1.22

package core

import (
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

var kgCasts = []string{"KGRound1Message", "KGRound2Message2", "KGRound3Message"}
var ksCasts = []string{"SignRound1Message2", "SignRound3Message", "SignRound4Message", "SignRound5Message", "SignRound6Message", "SignRound7Message"}

func init() {
	// C20: lost broadcasts are recovered
	register(&Prop{ID: "C20", Count: counts(900, 30000), Setup: func(c *Cluster) { c.TrackViews() },
		Gen: func(r *simrt.RNG, p *Plan, tier string) {
			env(r, p, 3, 6)
			p.Net.SlowP = 0
			all := seq(p.N)
			p.Wallets = []WalletSpec{{Party: all}}
			var op Op
			casts := kgCasts
			typ := tKG
			if r.P(1, 2) {
				op = kg(r, 0, all)
				op.Version = version(r, 30)
			} else {
				op = ks(r, 0, 0, all)
				op.Version = vOld
				op.Keys = all
				if m := Threshold(p.N) + 1; m >= 3 && r.P(1, 2) {
					op.Keys = pick(r, all, r.Range(m, p.N))
				}
				casts, typ = ksCasts, tKS
			}
			op.Nodes = all
			op.Skew = skews(r, op.Nodes, 300)
			op.Shuffle = r.P(1, 2)
			party := op.Keys
			bad := -1 // answers requests wrongly, and is otherwise as good as the others
			if len(party) >= 4 && r.P(1, 2) {
				bad = party[r.Intn(len(party))]
				p.Bad = []int{bad}
				f := Fault{Kind: "ctllie", Node: bad, Seed: r.Uint64(), M: &Match{Proto: "tss", Type: tCtl, Op: 0}}
				if r.P(1, 4) {
					f.Arg = 8
				}
				p.Faults = append(p.Faults, f)
				p.Scn = "bad helper"
			}
			used := map[string]bool{} // the same message is lost only once, or it reaches too few
			for i := 0; i < r.Range(1, 3); i++ {
				s := party[r.Intn(len(party))]
				round := casts[r.Intn(len(casts))]
				others := without(party, s)
				good := without(others, bad)
				if used[round] && r.P(2, 3) || s == bad || used[NodeName(s)+round] {
					continue
				}
				used[round], used[NodeName(s)+round] = true, true
				// enough receive it to confirm it, somebody good among them
				keep := good[r.Intn(len(good))]
				rest := without(others, keep)
				most := len(others) - Threshold(len(party))
				if most < 1 {
					continue
				}
				lose := pick(r, rest, r.Range(1, most))
				p.Faults = append(p.Faults, Fault{Kind: []string{"drop", "stall", "trunc"}[r.Intn(3)], Node: s, Arg: Ms(r.Intn(2)), Seed: r.Uint64(),
					M: &Match{Proto: "tss", Type: typ, Round: round, To: lose, Op: 0, Own: true}})
			}
			p.Ops = []Op{op}
		},
		Judge: func(c *Cluster) {
			lost := false
			for k := range c.Stat {
				if k == "fault.frame.drop" || k == "fault.frame.stall" || k == "fault.frame.trunc" {
					lost = true
				}
			}
			for _, cl := range c.Calls {
				if !contains(cl.Op.Keys, cl.Node) || contains(c.P.Bad, cl.Node) || c.Late(cl) {
					continue
				}
				c.nontrivial = c.nontrivial || lost
				b := cl.KG.Blame
				if cl.Op.Kind == "keysign" {
					b = cl.KS.Blame
				}
				if !cl.OK() {
					c.Fail("C20", cl.Op.Kind+" not recovered", "op%d on %s: %s", cl.Op.ID, NodeName(cl.Node), cl.Brief())
				} else if len(b.BlameNodes) > 0 {
					c.Fail("C20", "blame", "op%d on %s succeeded but blames somebody: %s", cl.Op.ID, NodeName(cl.Node), cl.Brief())
				}
			}
			c.JudgeKeygen("C20")
			c.JudgeSignaturesOnly("C20")
		},
	})
}
