//go:build go1.22

package core

import (
	"fmt"
	"strings"
	"time"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// tolerated is how many of n holders may be missing.
func tolerated(n int) int { return n - Threshold(n) - 1 }

// JudgeSucceed demands success, except from requests made only after the
// signatures had been announced (a listed finding of C03).
func (c *Cluster) JudgeSucceed(prop string, sel func(cl *Call) bool) {
	for _, cl := range c.Calls {
		if sel != nil && !sel(cl) {
			continue
		}
		if cl.Skipped {
			c.Fail(prop, "node down", "%s is not running for op%d (start: %v)", NodeName(cl.Node), cl.Op.ID, c.Nodes[cl.Node].StartErr)
			continue
		}
		if c.Late(cl) {
			continue
		}
		c.nontrivial = true
		if !cl.OK() {
			c.Fail(prop, cl.Op.Kind+" failed", "op%d on %s: %s", cl.Op.ID, NodeName(cl.Node), cl.Brief())
		}
	}
}

// retry makes op's request again, or a different one on the same key.
func retry(r *simrt.RNG, p *Plan, id int, op *Op) Op {
	n := *op
	n.ID = id
	n.Nodes = n.Keys
	if op.Kind == "keysign" {
		if r.P(1, 2) {
			n.Msgs = messagesN(r, batch(r))
		}
		if r.P(1, 2) {
			n.Version = vNew
			n.Keys = p.Wallets[op.Wallet].Party
		}
		n.Nodes = p.Wallets[op.Wallet].Party
	}
	n.Height += int64(r.Intn(3))
	n.After = []int{op.ID}
	n.At = Ms(r.Intn(2000))
	n.Skew = skews(r, n.Nodes, 300)
	n.Heal = true
	return n
}

func init() {
	// C04: threshold signing and recovery
	register(&Prop{ID: "C04", Count: counts(500, 20000),
		Gen: func(r *simrt.RNG, p *Plan, tier string) {
			if r.P(1, 2) {
				p.Scn = "threshold"
				env(r, p, 3, 7)
				all := seq(p.N)
				p.Wallets = []WalletSpec{{Party: all}}
				k := tolerated(p.N)
				down := pick(r, all, 1+r.Intn(k))
				up := without(all, down...)
				for _, d := range down {
					f := Fault{Kind: []string{"crash", "stop", "cut", "cut", "pause"}[r.Intn(5)], Op: -1, At: Ms(r.Intn(2000)), Node: d}
					switch f.Kind {
					case "crash", "cut":
						f.Arg = []Ms{0, 200, 60000}[r.Intn(3)]
						f.Peer = without(all, d)
					case "pause":
						f.Dur = 300000
					}
					p.Faults = append(p.Faults, f)
				}
				nops := 1 + r.Intn(2)
				for i := 0; i < nops; i++ {
					op := ks(r, i, 0, all)
					op.Nodes = up
					op.Skew = skews(r, up, 300)
					op.Shuffle = r.P(1, 2)
					op.At = Ms(r.Range(2500, 6000))
					if i > 0 {
						op.After = []int{i - 1}
					}
					p.leaderAt(&op, all, func(l int) bool { return contains(up, l) })
					p.Ops = append(p.Ops, op)
				}
				return
			}
			p.Scn = "recover"
			env(r, p, 2, 5)
			all := seq(p.N)
			p.Wallets = []WalletSpec{{Party: all}}
			var op Op
			if r.P(2, 5) {
				op = kg(r, 0, all)
				op.Version = version(r, 20)
			} else {
				op = ks(r, 0, 0, all)
				oldSigners(r, &op, 20)
			}
			full := op.Nodes
			if r.P(1, 4) {
				op.Nodes = pick(r, op.Nodes, r.Range(1, len(op.Nodes)))
			}
			p.Ops = append(p.Ops, op)
			if r.P(1, 4) { // several failures in a row
				o := ks(r, 1, 0, all)
				o.Nodes = pick(r, all, r.Range(1, p.N))
				p.Ops = append(p.Ops, o)
			}
			for i := 0; i < r.Range(1, 4); i++ {
				f := benign(r, p, &p.Ops[r.Intn(len(p.Ops))])
				p.Faults = append(p.Faults, f)
			}
			if r.P(1, 4) {
				p.Faults = append(p.Faults, hostile(r, &p.Ops[0], all[r.Intn(p.N)]))
			}
			op.Nodes = full
			n := len(p.Ops)
			re := retry(r, p, n, &op)
			if n == 2 {
				re.After = []int{0, 1}
			}
			p.Ops = append(p.Ops, re)
		},
		Judge: func(c *Cluster) {
			last := c.P.Ops[len(c.P.Ops)-1].ID
			c.JudgeSucceed("C04", func(cl *Call) bool { return c.P.Scn == "threshold" || cl.Op.ID == last })
			c.JudgeSignaturesOnly("C04")
		},
	})

	// C06: blame is sound
	register(&Prop{ID: "C06", Count: counts(700, 20000),
		Gen:   func(r *simrt.RNG, p *Plan, tier string) { genFaulty(r, p, true) },
		Setup: func(c *Cluster) { c.TrackViews() },
		Judge: func(c *Cluster) {
			c.JudgeBlameSound("C06", c.P.Bad)
		},
	})

	// C07: blame is complete
	register(&Prop{ID: "C07", Count: counts(700, 20000),
		Gen:   func(r *simrt.RNG, p *Plan, tier string) { genFaulty(r, p, false) },
		Setup: func(c *Cluster) { c.TrackViews() },
		Judge: func(c *Cluster) {
			c.JudgeBlameComplete("C07", c.P.Bad)
		},
	})
}

// JudgeSignaturesOnly checks the contents of successful signing replies.
func (c *Cluster) JudgeSignaturesOnly(prop string) {
	for _, cl := range c.Calls {
		if cl.Op.Kind != "keysign" || !cl.OK() || c.Nodes[cl.Node].Faulty {
			continue
		}
		if err := CheckSignatures(cl, c.PoolOf(cl.Op)); err != nil {
			c.Fail(prop, "bad reply: "+err.Error(), "%s reports success of op%d but: %v", NodeName(cl.Node), cl.Op.ID, err)
		}
	}
}

// genFaulty plans one ceremony in which a known set of nodes misbehaves.
func genFaulty(r *simrt.RNG, p *Plan, many bool) {
	env(r, p, 3, 6)
	p.Sched.SlowP = 0
	if p.Net.LatMax > 60 {
		p.Net.LatMax = 60
	}
	p.Net.SlowP = 0
	all := seq(p.N)
	p.Wallets = []WalletSpec{{Party: all}}
	var op Op
	if r.P(1, 2) {
		op = kg(r, 0, all)
		op.Version = version(r, 30)
	} else {
		op = ks(r, 0, 0, all)
		oldSigners(r, &op, 30)
	}
	op.At = 5000
	op.Skew = skews(r, op.Nodes, 300)
	op.Shuffle = r.P(1, 2)
	party := op.Keys
	k := 1
	if many && r.P(1, 3) {
		k = 1 + r.Intn(tolerated(p.N)+1)
		if k >= len(party) {
			k = len(party) - 1
		}
	}
	kinds := []string{"absent", "down", "crash", "cut", "silent", "lie", "lie", "lie"}
	if !many && len(party) > 3 && r.P(1, 6) { // several never join
		k, kinds = r.Range(2, len(party)-2), kinds[:2]
	}
	p.Bad = pick(r, party, k)
	for _, b := range p.Bad {
		kind := kinds[r.Intn(len(kinds))]
		p.Scn += kind + " "
		switch kind {
		case "absent":
			op.Nodes = without(op.Nodes, b)
			if !many {
				p.Params = map[string]int64{"uniform": 1}
			}
		case "down":
			if !many {
				p.Params = map[string]int64{"uniform": 1}
			}
			p.Faults = append(p.Faults, Fault{Kind: "crash", Op: -1, At: Ms(r.Intn(2000)), Node: b, Arg: []Ms{0, 200, 60000}[r.Intn(3)]})
		case "crash":
			m := point(r, &op)
			m.Count = 1
			p.Faults = append(p.Faults, Fault{Kind: []string{"crash", "crash_after"}[r.Intn(2)], Node: b, M: m, Arg: []Ms{0, 200, 60000}[r.Intn(3)]})
		case "cut":
			m := point(r, &op)
			m.Count = 1
			p.Faults = append(p.Faults, Fault{Kind: "cut", Node: b, M: m, Peer: without(all, b), Arg: []Ms{0, 200, 30000}[r.Intn(3)]})
		case "silent":
			m := point(r, &op)
			if !many && r.P(2, 3) && m.Proto == "tss" && (m.Type == tKG || m.Type == tKS) {
				m.Nth = 0
				p.Params = map[string]int64{"uniform": 1}
			}
			p.Faults = append(p.Faults, Fault{Kind: "silent", Node: b, M: m})
		case "lie":
			f := hostile(r, &op, b)
			for f.Kind == "silent" || f.Kind == "flip" || (f.Kind == "verflip" && (!many || strings.Contains(p.Scn, "verflip"))) {
				f = hostile(r, &op, b)
			}
			p.Scn += f.Kind + " "
			p.Faults = append(p.Faults, f)
		}
	}
	p.Ops = append(p.Ops, op)
}

// Culprits lists who a reply names (-1 for keys of nobody).
func (cl *Call) Culprits() []int {
	b := cl.KS.Blame
	if cl.Op.Kind == "keygen" {
		b = cl.KG.Blame
	}
	var out []int
	for _, n := range b.BlameNodes {
		out = append(out, ByPub(n.Pubkey))
	}
	return out
}

// Reason is the reported reason of a failure.
func (cl *Call) Reason() string {
	if cl.Op.Kind == "keygen" {
		return cl.KG.Blame.FailReason
	}
	return cl.KS.Blame.FailReason
}

// Ceremony lists who takes part in a call's ceremony, as far as known.
func (c *Cluster) Ceremony(op *Op) []int {
	if op.Kind == "keysign" && !isOld(op.Version) {
		if p, ok := c.picked[c.SessionID(op)]; ok {
			return p
		}
	}
	if isOld(op.Version) || op.Kind == "keygen" {
		return op.Keys
	}
	return c.PartyOf(op)
}

// weak marks what comes from the low quorum of the confirmation of
// broadcasts: with it two versions of a broadcast can both be accepted, and
// among three participants a false confirmation ties with a true one.
func (c *Cluster) weak(cl *Call) string {
	party := c.Ceremony(cl.Op)
	q := Threshold(len(party)) - 1
	if q < 1 {
		q = 1
	}
	session := c.SessionID(cl.Op)
	for k, got := range c.Bcast {
		if !strings.HasPrefix(k, session+"/") {
			continue
		}
		count := map[string]int{}
		for _, h := range got {
			count[h]++
		}
		acc := 0
		for _, n := range count {
			if n >= q {
				acc++
			}
		}
		if acc > 1 {
			return ", two broadcasts confirmed"
		}
	}
	if len(party) <= 3 {
		for _, f := range c.P.Faults {
			if f.Kind == "verflip" {
				return ", false confirmation among 3"
			}
		}
	}
	return ""
}

// JudgeBlameSound demands that only bad nodes are named.
func (c *Cluster) JudgeBlameSound(prop string, bad []int) {
	for _, cl := range c.Calls {
		if !cl.Done || contains(bad, cl.Node) || cl.Inc != c.Nodes[cl.Node].Inc {
			continue
		}
		c.nontrivial = true
		who := cl.Culprits()
		if c.Late(cl) {
			continue
		}
		c.judgeEvidence(prop, cl)
		for _, w := range who {
			if w < 0 || !contains(c.PartyOf(cl.Op), w) {
				c.Fail(prop, cl.Op.Kind+" names a stranger", "op%d on %s names a node that is no participant: %s", cl.Op.ID, NodeName(cl.Node), cl.Brief())
			} else if !contains(bad, w) && !c.Excused(cl, w) {
				key := fmt.Sprintf("%s names a correct node (%s)", cl.Op.Kind, cl.Reason())
				if w := c.weak(cl); w != "" {
					key = "a correct node is named" + w
				}
				c.Fail(prop, key, "op%d on %s names correct %s (faulty: %v, %s): %s", cl.Op.ID, NodeName(cl.Node), NodeName(w), bad, c.P.Scn, cl.Brief())
			}
		}
	}
}

// JudgeBlameComplete demands that failures name a bad node and say why.
func (c *Cluster) JudgeBlameComplete(prop string, bad []int) {
	for _, cl := range c.Calls {
		if !cl.Done || contains(bad, cl.Node) || cl.Inc != c.Nodes[cl.Node].Inc || cl.OK() {
			continue
		}
		op := cl.Op
		picked, formed := c.picked[c.SessionID(op)]
		old := isOld(op.Version)
		if old && !contains(op.Keys, cl.Node) {
			continue // only waits for the result
		}
		if !old && formed && !contains(picked, cl.Node) {
			continue
		}
		miss, half := 0, false
		party := op.Keys
		if formed {
			party = picked
		}
		for _, w := range party {
			if w != cl.Node && len(c.Missing(cl, w)) > 0 {
				miss++
			}
			// the joining succeeded here and failed for somebody correct
			half = half || (!contains(bad, w) && c.View(c.SessionID(op), cl.Node).Round > 0 && c.View(c.SessionID(op), w).Round == 0)
		}
		if miss > Threshold(len(party)) || miss == len(party)-1 || half || len(party) == 2 {
			continue // so many are missing that it may as well be this node's own fault
		}
		c.nontrivial = true
		l := c.leaderOf(op)
		who := cl.Culprits()
		hit, all := false, true
		for _, w := range who {
			hit = hit || contains(bad, w) || (w >= 0 && c.Excused(cl, w))
		}
		uniform := c.P.Params["uniform"] > 0
		if uniform && !(l >= 0 && l != cl.Node && !within(c.View(c.SessionID(op), cl.Node).Leader, cl.Start, cl.Start+c.P.PartyT.D()-100*time.Millisecond)) {
			// everybody sees the same: the faulty ones themselves are known
			for _, b := range bad {
				all = all && contains(who, b)
			}
		}
		if w := c.weak(cl); w != "" && (!hit || !all) {
			c.Fail(prop, "the faulty node is not named"+w, "op%d on %s (faulty: %v, %s): %s", op.ID, NodeName(cl.Node), bad, c.P.Scn, cl.Brief())
			continue
		}
		switch {
		case len(who) == 0:
			c.Fail(prop, fmt.Sprintf("%s names nobody (%s)", op.Kind, cl.Reason()), "op%d on %s (faulty: %v, %s): %s", op.ID, NodeName(cl.Node), bad, c.P.Scn, cl.Brief())
		case !hit:
			c.Fail(prop, fmt.Sprintf("%s names no faulty node (%s)", op.Kind, cl.Reason()), "op%d on %s (faulty: %v, %s): %s", op.ID, NodeName(cl.Node), bad, c.P.Scn, cl.Brief())
		case !all:
			c.Fail(prop, fmt.Sprintf("%s does not name the faulty node (%s)", op.Kind, cl.Reason()), "op%d on %s (faulty: %v, %s): %s", op.ID, NodeName(cl.Node), bad, c.P.Scn, cl.Brief())
		case cl.Reason() == "":
			c.Fail(prop, op.Kind+" gives no reason", "op%d on %s (faulty: %v, %s): %s", op.ID, NodeName(cl.Node), bad, c.P.Scn, cl.Brief())
		}
		joined := cl.Reason() == blame.TssSyncFail
		if strings.Trim(strings.NewReplacer("absent", "", "down", "").Replace(c.P.Scn), " ") == "" {
			if !joined && cl.Reason() != "" {
				c.Fail(prop, op.Kind+" misreports a join failure", "op%d on %s (faulty: %v, %s): %s", op.ID, NodeName(cl.Node), bad, c.P.Scn, cl.Brief())
			}
		}
	}
}

// judgeEvidence demands that what is reported as the message of a culprit carries its signature.
func (c *Cluster) judgeEvidence(prop string, cl *Call) {
	b := cl.KG.Blame
	if cl.Op.Kind == "keysign" {
		b = cl.KS.Blame
	}
	id := c.SessionID(cl.Op)
	for _, n := range b.BlameNodes {
		w := ByPub(n.Pubkey)
		if w < 0 || len(n.BlameData) == 0 && len(n.BlameSignature) == 0 {
			if b.FailReason == blame.TssBrokenMsg || b.FailReason == blame.HashCheckFail {
				c.Stat["blame.no_evidence"]++
				simrt.Logf("no evidence in %s", cl.Brief())
			}
			continue
		}
		c.Stat["blame.evidence"]++
		if !Ids[w].Priv.PubKey().VerifySignature(append(append([]byte{}, n.BlameData...), id...), n.BlameSignature) {
			c.Fail(prop, "evidence", "op%d on %s reports a message of %s as evidence which %s has not signed: %s", cl.Op.ID, NodeName(cl.Node), NodeName(w), NodeName(w), cl.Brief())
		}
	}
}
