//go:build go1.22

package core

import (
	"encoding/json"
	"fmt"
	"sort"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	maddr "github.com/multiformats/go-multiaddr"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simnet"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// delivery is one message a subscriber was given.
type delivery struct {
	sub     *Call
	at      time.Duration
	from    int
	payload string
}

func comms(c *Cluster) {
	cs := map[int]*p2p.Communication{}
	var got []*delivery
	c.Extra["got"] = &got
	c.Boot = func(i int) error {
		var boot []maddr.Multiaddr
		for _, b := range c.P.Boot {
			if b != i {
				boot = append(boot, Addr(b))
			}
		}
		cm, err := p2p.NewCommunication("sim", boot, Port, "")
		if err != nil {
			return err
		}
		if err := cm.Start(Ids[i].Priv); err != nil {
			return err
		}
		cs[i] = cm
		return nil
	}
	c.Limit = func(op *Op) time.Duration { return op.Dur.D() + 2*time.Minute }
	c.Exec = func(cl *Call) {
		op := cl.Op
		cm := cs[cl.Node]
		id := c.SessionID(op)
		typ := messages.THORChainTSSMessageType(op.T)
		switch op.Kind {
		case "sub":
			ch := make(chan *p2p.Message, op.Size)
			cm.SetSubscribe(typ, id, ch)
			end := time.After(op.Dur.D())
			for on := true; on; {
				if op.Tag == "never" {
					<-end
					break
				}
				select {
				case m := <-ch:
					got = append(got, &delivery{cl, simrt.Now(), ByPeer(m.PeerID), string(m.Payload)})
					if op.Tag == "slow" {
						time.Sleep(300 * time.Millisecond)
					}
				case <-end:
					on = false
				}
			}
			cm.CancelSubscribe(typ, id)
		case "bcast":
			w := messages.WrappedMessage{MessageType: typ, MsgID: id, Payload: []byte(fmt.Sprintf("op%d from %d %s", op.ID, cl.Node, blobText(op.Height)))}
			var to []peer.ID
			for _, k := range op.Keys {
				to = append(to, Ids[k].Peer)
			}
			if op.Tag == "chan" {
				cm.BroadcastMsgChan <- &messages.BroadcastMsgChan{WrappedMessage: w, PeersID: to}
			} else {
				b, err := json.Marshal(w)
				must(err)
				cm.Broadcast(to, b, id)
			}
		case "release":
			cm.ReleaseStream(id)
		case "garbage":
			for k, to := range op.Keys {
				rng := simrt.NewRNG(c.P.Seed, fmt.Sprint("garbage", op.ID, k))
				var b []byte
				switch op.Tag {
				case "raw":
					b = make([]byte, rng.Range(0, 300))
					rng.Read(b)
					b = simnet.Frame4(b)
				case "huge":
					b = []byte{255, 255, 255, 127, 1, 2, 3}
				case "short":
					b = []byte{100, 0, 0, 0, 1, 2, 3}
				case "json":
					b = simnet.Frame4([]byte([]string{`null`, `{}`, `[]`, `{"message_type":200,"message_id":"` + id + `"}`, `{"message_type":"x"}`, `{"message_type":1,"message_id":null,"payload":5}`}[rng.Intn(6)]))
				case "none":
					b = nil
				}
				c.Net.Inject(Ids[cl.Node].Peer, Ids[to].Peer, PTss, b, 0, op.Shuffle)
			}
		}
	}
}

func blobText(n int64) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%26)
	}
	return string(b)
}

func genComm(r *simrt.RNG, p *Plan) {
	env(r, p, 2, 6)
	if r.P(1, 2) && p.N > 2 {
		p.Bad = []int{r.Intn(p.N)}
	}
	all := seq(p.N)
	sess := r.Range(1, 3)
	id := 0
	add := func(op Op) {
		op.ID = id
		id++
		p.Ops = append(p.Ops, op)
	}
	for s := 0; s < sess; s++ {
		for t := 0; t < 6; t++ {
			if r.P(1, 2) {
				continue
			}
			nodes := all
			if r.P(1, 2) {
				nodes = pick(r, all, r.Range(1, p.N))
			}
			op := Op{Kind: "sub", Nodes: nodes, Keys: nodes, Wallet: s, T: t, Dur: Ms(r.Range(500, 40000)), Size: int64([]int{0, 0, 1, 4, 100}[r.Intn(5)])}
			op.At = Ms(r.Intn(6000))
			op.Skew = skews(r, nodes, 2000)
			op.Tag = []string{"", "", "", "", "slow", "never"}[r.Intn(6)]
			add(op)
		}
	}
	for k := 0; k < r.Range(2, 14); k++ {
		from := r.Intn(p.N)
		op := Op{Kind: "bcast", Nodes: []int{from}, Keys: pick(r, all, r.Range(1, p.N)), Wallet: r.Intn(sess), T: r.Intn(6), Height: int64(r.Intn(300)), At: Ms(r.Intn(12000))}
		if r.P(1, 8) {
			op.Height = int64(r.Range(1000, 60000))
		}
		if r.P(1, 2) {
			op.Tag = "chan"
		}
		if r.P(1, 2) {
			op.Keys = all
		}
		for j := 0; j < []int{1, 1, 3, 20}[r.Intn(4)]; j++ {
			if j > 0 {
				op.At += Ms(r.Intn(30))
			}
			add(op)
		}
	}
	if r.P(1, 3) {
		for k := 0; k < r.Range(1, 3); k++ {
			add(Op{Kind: "release", Nodes: []int{r.Intn(p.N)}, Keys: all, Wallet: 10 + r.Intn(2), At: Ms(r.Intn(12000))})
		}
	}
	p.Scn = "clean"
	for _, b := range p.Bad {
		p.Scn = "faulty peer"
		others := without(all, b)
		op := &p.Ops[r.Intn(len(p.Ops))]
		for k := 0; k < r.Range(1, 3); k++ {
			switch r.Intn(8) {
			case 0:
				p.Faults = append(p.Faults, Fault{Kind: "cut", Op: op.ID, At: Ms(r.Intn(3000)), Node: b, Peer: others, Arg: []Ms{0, 200, 30000}[r.Intn(3)], Dur: Ms(r.Range(500, 30000))})
			case 1:
				p.Faults = append(p.Faults, Fault{Kind: "lag", Op: op.ID, Node: b, Arg: Ms(r.Range(100, 12000)), Dur: Ms(r.Range(200, 20000))})
			case 2:
				p.Faults = append(p.Faults, Fault{Kind: "crash", Op: op.ID, At: Ms(r.Intn(3000)), Node: b, Arg: []Ms{0, 30000}[r.Intn(2)]})
			case 3:
				p.Faults = append(p.Faults, Fault{Kind: "pause", Op: op.ID, At: Ms(r.Intn(3000)), Node: b, Dur: Ms(r.Range(500, 20000))})
			case 4:
				p.Faults = append(p.Faults, Fault{Kind: []string{"drop", "stall", "delay", "trunc"}[r.Intn(4)], Node: b, M: &Match{Proto: "tss", Type: -1, Op: -1, Nth: r.Intn(3), Count: r.Intn(3)}, Arg: Ms(r.Range(0, 5000)), Seed: r.Uint64()})
			default:
				for j := 0; j < r.Range(1, 20); j++ {
					add(Op{Kind: "garbage", Nodes: []int{b}, Keys: others, Wallet: r.Intn(sess), At: Ms(r.Intn(12000)), Tag: []string{"raw", "huge", "short", "json", "none"}[r.Intn(5)], Shuffle: r.P(1, 2)})
				}
			}
		}
	}
}

func judgeComm(c *Cluster) {
	got := *(c.Extra["got"].(*[]*delivery))
	lat := stallBound(c) + 6*time.Duration(len(c.P.Ops))*time.Millisecond
	D := 2*time.Second + lat
	bc := map[string]*Call{}
	for _, cl := range c.Calls {
		if cl.Op.Kind == "bcast" && !cl.Skipped && cl.Start > 0 {
			bc[fmt.Sprintf("op%d from %d", cl.Op.ID, cl.Node)] = cl
		}
	}
	seen := map[string]*delivery{}
	for _, d := range got {
		var w messages.WrappedMessage
		if json.Unmarshal([]byte(d.payload), &w) != nil {
			c.Fail("C14", "junk", "%s was given something that is not a message", NodeName(d.sub.Node))
			continue
		}
		sub := d.sub.Op
		if int(w.MessageType) != sub.T || w.MsgID != c.SessionID(sub) {
			c.Fail("C14", "foreign", "the subscriber op%d on %s got a message of type %d of session %.8s", sub.ID, NodeName(d.sub.Node), w.MessageType, w.MsgID)
		}
		var id, from int
		if n, _ := fmt.Sscanf(string(w.Payload), "op%d from %d", &id, &from); n != 2 {
			continue // injected
		}
		k := fmt.Sprintf("op%d from %d", id, from)
		b := bc[k]
		if b == nil || string(w.Payload) != fmt.Sprintf("%s %s", k, blobText(b.Op.Height)) {
			c.Fail("C14", "altered", "%s got a message nobody sent or that was altered", NodeName(d.sub.Node))
			continue
		}
		if d.from != from {
			c.Fail("C14", "sender", "a message of %s was delivered to %s as coming from %s", NodeName(from), NodeName(d.sub.Node), NodeName(d.from))
		}
		if !contains(b.Op.Keys, d.sub.Node) {
			c.Fail("C14", "astray", "a message for %v was delivered to %s", b.Op.Keys, NodeName(d.sub.Node))
		}
		kk := fmt.Sprint(k, "/", d.sub.Node)
		if seen[kk] != nil {
			c.Fail("C14", "twice", "the message %s was delivered twice on %s", k, NodeName(d.sub.Node))
		}
		seen[kk] = d
		if d.at > b.Start+D && !contains(c.P.Bad, from) && !contains(c.P.Bad, d.sub.Node) && d.sub.Op.Tag == "" && d.sub.Start < b.Start {
			c.Fail("C14", "late", "the message %s reached %s only after %.1fs", k, NodeName(d.sub.Node), (d.at - b.Start).Seconds())
		}
	}
	for _, k := range sortedNames(bc) {
		b := bc[k]
		if contains(c.P.Bad, b.Node) || !c.Nodes[b.Node].Up {
			continue
		}
		for _, to := range b.Op.Keys {
			if to == b.Node || contains(c.P.Bad, to) || !c.Nodes[to].Up {
				continue
			}
			n, ok := 0, false
			var s *Call
			for _, x := range c.Calls {
				if x.Op.Kind != "sub" || x.Node != to || x.Skipped || x.Op.T != b.Op.T || x.Op.Wallet != b.Op.Wallet {
					continue
				}
				n++
				s = x
				ok = x.Op.Tag == "" && x.Start < b.Start && (x.End == 0 || x.End > b.Start+D)
			}
			if n != 1 || !ok {
				continue
			}
			c.nontrivial = true
			if seen[fmt.Sprint(k, "/", to)] == nil {
				c.Fail("C14", "lost", "the message %s sent at %.2fs never reached the subscriber op%d on %s", k, b.Start.Seconds(), s.Op.ID, NodeName(to))
			}
		}
	}
}

func sortedNames(m map[string]*Call) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func init() {
	// C14: the message exchange
	register(&Prop{ID: "C14", Count: counts(2500, 60000), Setup: comms, Judge: judgeComm,
		Gen: func(r *simrt.RNG, p *Plan, tier string) { genComm(r, p) }})
}
