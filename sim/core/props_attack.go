//go:build go1.22

package core

import (
	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// attack draws an injection around an operation.
func attack(r *simrt.RNG, op *Op, node int, act string, to []int) Fault {
	f := Fault{Kind: "inject", Act: act, Node: node, Peer: to, Seed: r.Uint64()}
	if r.P(2, 3) {
		m := point(r, op)
		m.Own = true
		m.Count = 1 + r.Intn(3)
		f.M = m
		if r.P(1, 3) {
			f.Arg = Ms(r.Intn(1500))
		}
	} else {
		f.Op, f.At = op.ID, Ms(r.Intn(span(op)+1500))
		if r.P(1, 6) {
			f.Op, f.At = -1, Ms(r.Intn(4000))
		}
		if r.P(1, 5) {
			f.At += 8000
		}
	}
	if r.P(1, 3) {
		f.P = r.Range(2, 6)
	}
	return f
}

// ceremonyOn draws a key generation or signing of a few nodes.
func ceremonyOn(r *simrt.RNG, p *Plan, id int, old int) Op {
	var op Op
	all := seq(p.N)
	if r.P(2, 5) {
		op = kg(r, id, all)
		op.Version = version(r, old)
	} else {
		op = ks(r, id, 0, all)
		oldSigners(r, &op, old)
	}
	op.Skew = skews(r, op.Nodes, 400)
	op.Shuffle = r.P(1, 2)
	return op
}

func init() {
	// C18: no bytes from the network crash a node
	register(&Prop{ID: "C18", Count: counts(1200, 40000), Setup: func(c *Cluster) { c.Injecting() },
		Gen: func(r *simrt.RNG, p *Plan, tier string) {
			env(r, p, 2, 5)
			all := seq(p.N)
			p.Wallets = []WalletSpec{{Party: all}}
			op := ceremonyOn(r, p, 0, 25)
			op.At = Ms(r.Intn(2000))
			attackers := []int{p.N}
			p.Scn = "outsider"
			switch r.Intn(3) {
			case 0:
				attackers = []int{p.N, p.N + 1}
			case 1:
				p.Scn = "insider"
				attackers = []int{op.Keys[r.Intn(len(op.Keys))]}
				p.Bad = attackers
			}
			if r.P(1, 6) { // while nothing can succeed
				op.Nodes = pick(r, op.Nodes, r.Range(1, len(op.Nodes)))
				p.Scn += " incomplete"
			}
			p.Ops = []Op{op}
			acts := []string{"raw", "json", "mutjson", "mutjson", "wire", "wire", "ver", "done", "ctl", "ctl", "join", "joinl", "sig", "replay"}
			for i := 0; i < r.Range(1, 10); i++ {
				to := all
				if r.P(1, 2) {
					to = pick(r, all, r.Range(1, p.N))
				}
				p.Faults = append(p.Faults, attack(r, &op, attackers[r.Intn(len(attackers))], acts[r.Intn(len(acts))], to))
			}
			// attacks on the session of the first ceremony must not hit the second
			re := ceremonyOn(r, p, 1, 25)
			for sessionID(&re, "") == sessionID(&op, "") {
				re = ceremonyOn(r, p, 1, 25)
			}
			re.After, re.At = []int{0}, Ms(r.Intn(3000))
			p.Ops = append(p.Ops, re)
		},
		Judge: func(c *Cluster) {
			c.JudgeSucceed("C18", func(cl *Call) bool { return cl.Op.ID == 1 || c.P.Scn == "outsider" })
			for i := range c.Nodes {
				if n := c.Nodes[i]; !n.Up {
					c.Fail("C18", "node down", "%s does not run any more", NodeName(i))
				}
			}
		},
	})

	// C10: what is not signed by the one it names changes nothing
	register(&Prop{ID: "C10", Count: counts(1200, 40000), Setup: func(c *Cluster) { c.Injecting() },
		Gen: func(r *simrt.RNG, p *Plan, tier string) {
			env(r, p, 2, 5)
			all := seq(p.N)
			p.Wallets = []WalletSpec{{Party: all}}
			op := ceremonyOn(r, p, 0, 25)
			op.At = Ms(r.Intn(1000))
			p.Ops = []Op{op}
			target := &op
			if r.P(1, 2) { // another session of the same kind before or beside it
				o := ceremonyOn(r, p, 1, 25)
				for i := 0; i < 20 && o.Kind != op.Kind; i++ {
					o = ceremonyOn(r, p, 1, 25)
				}
				if o.Kind == "keygen" && op.Kind == "keygen" && r.P(2, 3) {
					o.Keys = pick(r, all, r.Range(2, p.N))
					o.Nodes = o.Keys
					o.Skew = nil
				}
				if o.Kind == "keygen" || r.P(1, 2) {
					o.After = []int{0}
				}
				if sessionID(&o, "") != sessionID(&op, "") { // a repeated request has the same session
					p.Ops = append(p.Ops, o)
					target = &p.Ops[1]
				}
			}
			if r.P(1, 8) { // a participant speaks for the others
				env(r, p, 5, 7)
				all = seq(p.N)
				p.Wallets = []WalletSpec{{Party: all}}
				o := kg(r, 0, all)
				o.Version = version(r, 30)
				typ, casts := tKG, kgCasts
				if r.P(1, 2) {
					o = ks(r, 0, 0, all)
					o.Version, o.Keys = vOld, all
					typ, casts = tKS, ksCasts
				}
				o.Nodes = all
				p.Ops = []Op{o}
				p.Scn = "claims"
				a := all[r.Intn(p.N)]
				for i := r.Range(1, 3); i > 0; i-- {
					p.Faults = append(p.Faults, Fault{Kind: "inject", Act: "claim", Node: a, Peer: pick(r, without(all, a), r.Range(1, p.N-1)), Seed: r.Uint64(), P: r.Range(2, 8),
						M: &Match{Proto: "tss", Type: typ, Round: casts[r.Intn(len(casts))], Op: 0, Own: true, Nth: r.Intn(8), Count: r.Range(1, 12)}})
				}
				return
			}
			var attackers []int
			acts := []string{"forge", "forge", "relabel", "relabel", "impersonate", "impersonate", "oldsession", "replay"}
			p.Scn = "insider"
			switch r.Intn(4) {
			case 0:
				attackers = []int{target.Keys[r.Intn(len(target.Keys))]}
				if r.P(1, 3) {
					p.Scn = "envelope"
					p.Bad = attackers
					acts = []string{"inner"}
				}
			default:
				p.Scn = "outsider"
				for i := 0; i < r.Range(1, 4); i++ {
					attackers = append(attackers, p.N+i)
				}
				acts = append(acts, "ver", "ver", "done", "ctl", "ctl")
			}
			same := r.Uint64()
			for i := 0; i < r.Range(1, 8); i++ {
				to := all
				if r.P(1, 3) {
					to = pick(r, all, r.Range(1, p.N))
				}
				act := acts[r.Intn(len(acts))]
				f := attack(r, target, attackers[0], act, to)
				if act == "ver" || act == "done" { // together
					f.Seed = same
				}
				for _, a := range attackers {
					f.Node = a
					p.Faults = append(p.Faults, f)
					if act != "ver" && act != "done" {
						break
					}
				}
			}
		},
		Judge: func(c *Cluster) {
			if c.P.Scn != "envelope" {
				c.JudgeSucceed("C10", nil)
			}
			for _, cl := range c.Calls {
				if cl.OK() || cl.Skipped || contains(c.P.Bad, cl.Node) {
					continue
				}
				if cl.Reason() != blame.TssBrokenMsg && c.P.Scn == "envelope" {
					continue
				}
				for _, b := range cl.Culprits() {
					if !contains(c.P.Bad, b) {
						c.Fail("C10", "framed", "op%d: %s blames %s (%s), who did nothing wrong", cl.Op.ID, NodeName(cl.Node), NodeName(b), cl.Brief())
					}
				}
			}
			c.JudgeKeygen("C10")
			c.JudgeKeysign("C10")
		},
	})
}
