//go:build go1.22

package core

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	btss "github.com/binance-chain/tss-lib/tss"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// TrackFeeds records what every node gives to its protocol parties.
func (c *Cluster) TrackFeeds() {
	c.Fed = map[string]map[int]bool{}
	btss.SimFeed = func(_ btss.Party, msg btss.ParsedMessage) {
		l := simrt.Label()
		b, _, err := msg.WireBytes()
		if l == 0 || err != nil {
			return
		}
		k := msg.GetFrom().Id + "/" + string(b)
		if c.Fed[k] == nil {
			c.Fed[k] = map[int]bool{}
		}
		c.Fed[k][labelNode(l)] = true
	}
}

// judgeVersions demands that the correct nodes go on with one version of every broadcast.
func (c *Cluster) judgeVersions(prop string, cl *Call) {
	session := c.SessionID(cl.Op)
	party := c.Ceremony(cl.Op)
	idx := map[int]string{} // how a node is called in the protocol
	for id, n := range PartyIndex(party) {
		idx[n] = id
	}
	var keys []string
	for k := range c.Bcast {
		if strings.HasPrefix(k, session+"/") {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		part := strings.Split(strings.TrimPrefix(k, session+"/"), "/")
		from := 0
		fmt.Sscan(part[0], &from)
		pid := &btss.PartyID{MessageWrapper_PartyID: &btss.MessageWrapper_PartyID{Id: idx[from], Key: []byte{1}}}
		vers := map[string]map[string]bool{} // part of the bulk -> its versions
		for _, m := range c.Bcast[k] {
			var bulk []common.BulkWireMsg
			if json.Unmarshal([]byte(m), &bulk) != nil {
				continue
			}
			for _, b := range bulk {
				p, err := btss.ParseWireMessage(b.WiredBulkMsgs, pid, true)
				if err != nil {
					continue
				}
				w, _, err := p.WireBytes()
				if err != nil {
					continue
				}
				if vers[b.MsgIdentifier] == nil {
					vers[b.MsgIdentifier] = map[string]bool{}
				}
				vers[b.MsgIdentifier][pid.Id+"/"+string(w)] = true
			}
		}
		for id, vs := range vers {
			if len(vs) < 2 {
				continue
			}
			c.nontrivial = true
			var used [][]int
			for v := range vs {
				var who []int
				for n := range c.Fed[v] {
					if !contains(c.P.Bad, n) {
						who = append(who, n)
					}
				}
				if len(who) > 0 {
					sort.Ints(who)
					used = append(used, who)
				}
			}
			sort.Slice(used, func(i, j int) bool { return fmt.Sprint(used[i]) < fmt.Sprint(used[j]) })
			if len(used) > 1 {
				c.Fail(prop, "correct nodes use two versions of a broadcast"+c.weak(cl), "op%d: %s of %s, part %q: one version is used by nodes %v, another by %v", cl.Op.ID, part[1], NodeName(from), id, used[0], used[1])
				return
			}
			c.Stat["equiv.used."+fmt.Sprint(len(used))]++
		}
	}
}

func init() {
	// C11: an equivocator does not split the correct nodes
	register(&Prop{ID: "C11", Count: counts(700, 30000), Setup: func(c *Cluster) { c.TrackViews(); c.TrackFeeds(); c.Injecting() },
		Gen: func(r *simrt.RNG, p *Plan, tier string) {
			env(r, p, 5, 8)
			if r.P(1, 12) {
				p.N = 4
				p.Boot = []int{r.Intn(4)}
			}
			p.Sched.SlowP = 0
			p.Net.SlowP = 0
			all := seq(p.N)
			p.Wallets = []WalletSpec{{Party: all}}
			var op Op
			casts, typ, ver := kgCasts, tKG, tKGVer
			if r.P(1, 2) {
				op = kg(r, 0, all)
				op.Version = version(r, 30)
			} else {
				op = ks(r, 0, 0, all)
				op.Version = vOld
				op.Keys = all
				if m := Threshold(p.N) + 1; r.P(1, 3) {
					op.Keys = pick(r, all, r.Range(m, p.N))
				}
				casts, typ, ver = ksCasts, tKS, tKSVer
			}
			op.Nodes = all
			op.Skew = skews(r, op.Nodes, 300)
			party := op.Keys
			s := party[r.Intn(len(party))]
			p.Bad = []int{s}
			others := without(party, s)
			quorum := Threshold(len(party)) - 1
			most := len(others) // how many may get the other version
			round := casts[r.Intn(len(casts))]
			if r.P(1, 2) {
				round = casts[0] // the later ones are often invalid when altered
			}
			g := r.Range(1, most)
			if quorum > 1 && r.P(4, 5) { // a split that cannot be confirmed twice
				g = r.Range(1, quorum-1)
				if r.P(1, 4) {
					g = len(others) - g
				}
			}
			alt := pick(r, others, g)
			kind := "equiv"
			if r.P(1, 4) {
				kind = "badshare" // a version for each
			}
			p.Faults = append(p.Faults, Fault{Kind: kind, Node: s, Seed: r.Uint64(), Arg: Ms(r.Intn(3)), M: &Match{Proto: "tss", Type: typ, Round: round, To: alt, Op: 0, Own: true}})
			rest := without(others, alt...)
			if len(rest) > 1 && r.P(1, 4) { // some get nothing
				p.Faults = append(p.Faults, Fault{Kind: []string{"drop", "stall"}[r.Intn(2)], Node: s, Seed: r.Uint64(), M: &Match{Proto: "tss", Type: typ, Round: round, To: pick(r, rest, r.Range(1, len(rest)-1)), Op: 0, Own: true}})
			}
			for i := r.Intn(4); i > 0; i-- { // the order of messages and confirmations
				n := party[r.Intn(len(party))]
				m := &Match{Proto: "tss", Type: ver, Op: 0, Own: true, To: pick(r, without(party, n), r.Range(1, len(others)))}
				if n == s || r.P(1, 4) {
					m.Type, m.Round = typ, round
				}
				p.Faults = append(p.Faults, Fault{Kind: "delay", Node: n, M: m, Arg: Ms([]int{20, 200, 1000}[r.Intn(3)]), Seed: r.Uint64()})
			}
			if r.P(1, 3) {
				p.Faults = append(p.Faults, Fault{Kind: "inject", Act: "ownver", Node: s, Peer: pick(r, others, r.Range(1, len(others))), Seed: r.Uint64(), P: r.Range(1, 3),
					Arg: Ms(r.Intn(100)), M: &Match{Proto: "tss", Type: typ, Round: round, Op: 0, Own: true, Count: 1 + r.Intn(3)}})
			}
			p.Ops = []Op{op}
		},
		Judge: func(c *Cluster) {
			weak := ""
			for _, cl := range c.OpCalls(0) {
				if contains(c.P.Bad, cl.Node) || !contains(cl.Op.Keys, cl.Node) {
					continue
				}
				if weak == "" {
					weak = c.weak(cl)
					c.judgeVersions("C11", cl)
				}
			}
			c.JudgeKeygen("C11")
			c.JudgeSignaturesOnly("C11")
			if weak == "" {
				c.JudgeBlameSound("C11", c.P.Bad)
			}
		},
	})
}
