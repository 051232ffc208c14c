//go:build go1.22

package core

import (
	"context"
	"fmt"
	"sort"
	"time"

	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	maddr "github.com/multiformats/go-multiaddr"
	"google.golang.org/protobuf/proto"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simnet"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// BareHost gives the calling node a network endpoint and nothing else.
func BareHost(i int) (host.Host, error) {
	a, err := maddr.NewMultiaddr(fmt.Sprintf("/ip4/0.0.0.0/tcp/%d", Port))
	must(err)
	return libp2p.New(context.Background(), libp2p.ListenAddrs(a), libp2p.Identity(Ids[i].Net))
}

// Outsider makes sure that an identity outside the cluster has an endpoint
// known to everybody.
func (c *Cluster) Outsider(i int) {
	if i < len(c.Nodes) {
		return
	}
	k := fmt.Sprint("outsider", i)
	if d, ok := c.Extra[k]; ok {
		<-d.(chan struct{})
		return
	}
	done := make(chan struct{})
	c.Extra[k] = done
	defer func() {
		for j := range c.Nodes {
			c.Net.Introduce(Ids[i].Peer, Ids[j].Peer)
		}
	}()
	simrt.Go(Label(i, 0), func() {
		_, err := BareHost(i)
		must(err)
		close(done)
	})
	<-done
}

func peersOf(l []int) []string {
	var out []string
	for _, i := range l {
		out = append(out, Ids[i].Peer.String())
	}
	return out
}

func idxOf(l []peer.ID) []int {
	var out []int
	for _, p := range l {
		out = append(out, ByPeer(p))
	}
	return out
}

// joining sets up nodes that only run the party coordinator.
func joining(c *Cluster) {
	pcs := map[int]*p2p.PartyCoordinator{}
	c.Boot = func(i int) error {
		h, err := BareHost(i)
		if err != nil {
			return err
		}
		pcs[i] = p2p.NewPartyCoordinator(h, c.P.PartyT.D())
		return nil
	}
	c.Limit = func(op *Op) time.Duration { return time.Duration(len(op.Keys)+1)*c.P.PartyT.D() + 60*time.Second }
	c.Exec = func(cl *Call) {
		op := cl.Op
		keys := peersOf(op.Keys)
		if op.Shuffle {
			keys = perm(c.P.Seed, fmt.Sprint("peers", op.ID, cl.Node), keys)
		}
		id := c.SessionID(op)
		pc := pcs[cl.Node]
		if isOld(op.Version) {
			l, err := pc.JoinPartyWithRetry(id, keys)
			cl.Peers, cl.Err = idxOf(l), err
		} else {
			l, leader, err := pc.JoinPartyWithLeader(id, op.Height, keys, op.T, make(chan string, 2))
			cl.Peers, cl.Err = idxOf(l), err
			cl.Leader = -1
			if p, e := peer.Decode(leader); e == nil {
				cl.Leader = ByPeer(p)
			}
		}
		if c.P.Params["release"] > 0 {
			go func() { // as a ceremony does when it ends
				time.Sleep(8 * time.Second)
				pc.ReleaseStream(id)
			}()
		}
	}
	// who was heard by whom
	c.TrackViews()
	runInjections(c)
}

// runInjections sends the crafted join messages of the plan.
func runInjections(c *Cluster) {
	for k := range c.P.Steps {
		st := &c.P.Steps[k]
		if st.Do != "inject" {
			continue
		}
		st2 := *st
		go func() {
			if st2.C >= 0 {
				<-c.opBegan[st2.C]
			}
			time.Sleep(st2.At.D())
			c.Outsider(st2.Node)
			op := c.Op(st2.C)
			if op == nil {
				op = &c.P.Ops[0]
			}
			c.Stat["fault.inject."+st2.S]++
			c.shapef("%s", st2.S)
			for _, to := range without(st2.L, st2.Node) {
				pid, b := joinBytes(c, st2.S, op, st2.Node, to)
				simrt.Logf("inject %s %s->%s", st2.S, NodeName(st2.Node), NodeName(to))
				c.Net.Inject(Ids[st2.Node].Peer, Ids[to].Peer, simnet.Proto(pid), simnet.Frame4(b), 0, false)
			}
		}()
	}
}

func joinBytes(c *Cluster, kind string, op *Op, from, to int) (string, []byte) {
	id := c.SessionID(op)
	lead := func(m *messages.JoinPartyLeaderComm) (string, []byte) {
		b, err := proto.Marshal(m)
		must(err)
		return PJoinL, b
	}
	switch kind {
	case "response": // a made-up party, sent by somebody who is not the leader
		return lead(&messages.JoinPartyLeaderComm{ID: id, MsgType: "response", Type: messages.JoinPartyLeaderComm_Success,
			PeerIDs: peersOf(append([]int{from, to}, op.Keys[:1]...))})
	case "refuse":
		return lead(&messages.JoinPartyLeaderComm{ID: id, MsgType: "response", Type: messages.JoinPartyLeaderComm_Timeout, PeerIDs: peersOf([]int{from})})
	case "request":
		return lead(&messages.JoinPartyLeaderComm{ID: id, MsgType: "request", PeerIDs: peersOf(op.Keys)})
	case "otherreq":
		return lead(&messages.JoinPartyLeaderComm{ID: id[:20], MsgType: "request"})
	case "join":
		b, err := proto.Marshal(&messages.JoinPartyRequest{ID: id})
		must(err)
		return PJoin, b
	case "otherjoin":
		b, err := proto.Marshal(&messages.JoinPartyRequest{ID: id[:20] + "0"})
		must(err)
		return PJoin, b
	}
	panic(kind)
}

// netFaults draws disturbances of nodes that stay honest (no pauses).
func netFaults(r *simrt.RNG, p *Plan, k int) {
	for i := 0; i < k; i++ {
		op := &p.Ops[r.Intn(len(p.Ops))]
		f := benign(r, p, op)
		if f.Kind == "pause" || f.Kind == "stop" || (f.Node >= 0 && f.Node >= p.N) {
			continue
		}
		if f.Kind == "crash" || f.Kind == "crash_after" {
			f.Dur = 0
		}
		p.Faults = append(p.Faults, f)
	}
}

func genJoin(r *simrt.RNG, p *Plan, version string) {
	env(r, p, 2, 7)
	rush := r.P(1, 4)
	if rush { // everything arrives at once, and the nodes are slow between any two statements
		p.N = r.Range(3, 8)
		p.Boot = []int{r.Intn(p.N)}
		p.Net = NetK{LatMin: 1, LatMax: Ms(r.Range(1, 5))}
		p.Sched.Yield = 6000
		p.Sched.SlowMask = []uint32{1, 3, 7}[r.Intn(3)]
		p.Sched.SlowVal = uint32(r.Intn(int(p.Sched.SlowMask) + 1))
		p.Sched.SlowP, p.Sched.SlowMax = []uint64{3000, 12000}[r.Intn(2)], Ms(r.Range(2, 12))
	}
	p.PartyT = Ms(r.Range(3, 10)) * 1000
	p.Params = map[string]int64{"release": int64(r.Intn(2))}
	k := 1 + r.Intn(2)
	for i := 0; i < k; i++ {
		party := seq(p.N)
		if r.P(1, 3) && p.N > 2 {
			party = pick(r, party, r.Range(2, p.N))
		}
		op := Op{ID: i, Kind: "join", Keys: party, Version: version, Height: int64(r.Range(1, 1000)), Shuffle: true, Wallet: i}
		op.T = Threshold(len(party))
		if r.P(1, 4) {
			op.T = len(party) - 1
		}
		op.At = Ms(r.Intn(2000))
		op.Nodes = party
		if r.P(1, 3) {
			op.Nodes = pick(r, party, r.Range(1, len(party)))
		}
		top := []int{0, 300, 1500, int(p.PartyT), int(p.PartyT) * 3 / 2}[r.Intn(5)]
		if rush {
			op.Nodes, top = party, 0
		}
		op.Skew = skews(r, op.Nodes, Ms(top))
		if i > 0 && r.P(1, 4) {
			op.Wallet = 0 // the same session again
			op.Keys, op.Height, op.T = p.Ops[0].Keys, p.Ops[0].Height, p.Ops[0].T
			op.Nodes = p.Ops[0].Nodes
			op.After = []int{0}
		}
		p.Ops = append(p.Ops, op)
	}
	p.Scn = "clean"
	if r.P(1, 2) {
		p.Scn = "faults"
		netFaults(r, p, r.Range(1, 3))
	}
	if r.P(1, 3) {
		p.Scn += "+inject"
		kinds := []string{"response", "refuse", "request", "otherreq"}
		if isOld(version) {
			kinds = []string{"join", "otherjoin", "request"}
		}
		for i := 0; i < r.Range(1, 4); i++ {
			op := &p.Ops[r.Intn(len(p.Ops))]
			st := Step{At: Ms(r.Intn(4000)), Do: "inject", S: kinds[r.Intn(len(kinds))], C: op.ID, Node: p.N + r.Intn(2), L: op.Keys}
			if st.S == "response" || st.S == "refuse" || st.S[0] == 'o' {
				if r.P(1, 2) {
					st.Node = without(op.Keys, leaderAt(op, op.Keys))[0] // a participant
				}
			}
			p.Steps = append(p.Steps, st)
		}
	}
}

func leaderAt(op *Op, party []int) int { return (*Plan)(nil).Leader(op, party) }

func heard(l []time.Duration, a, b time.Duration) bool {
	for _, t := range l {
		if t >= a && t <= b {
			return true
		}
	}
	return false
}

const slack = 1500 * time.Millisecond

// sessionsOverlap: another operation uses the same session at the same time.
func (c *Cluster) quietOp(op *Op) bool {
	return len(c.P.Faults) == 0
}

func judgeLeaderJoin(c *Cluster) {
	T := c.P.PartyT.D()
	for k := range c.P.Ops {
		op := &c.P.Ops[k]
		id := c.SessionID(op)
		lead := leaderAt(op, op.Keys)
		calls := c.OpCalls(op.ID)
		var L *Call
		for _, cl := range calls {
			if cl.Node == lead {
				L = cl
			}
		}
		asked := map[int]bool{lead: true}
		for _, cl := range calls {
			if !cl.Skipped {
				asked[cl.Node] = true
			}
		}
		for _, st := range c.P.Steps {
			if st.S == "request" && st.C == op.ID {
				asked[st.Node] = true
			}
		}
		var ref []int
		refBy := -1
		for _, cl := range calls {
			if !cl.Done {
				continue
			}
			if cl.Leader != lead {
				c.Fail("C08", "leader", "op%d: %s takes %s for the leader, by the rule it is %s", op.ID, NodeName(cl.Node), NodeName(cl.Leader), NodeName(lead))
			}
			if cl.Err != nil {
				continue
			}
			c.nontrivial = true
			got := sortedInts(cl.Peers)
			if len(got) != op.T+1 {
				c.Fail("C08", "size", "op%d: %s succeeded with a party of %d, %d are needed: %v", op.ID, NodeName(cl.Node), len(got), op.T+1, got)
			}
			if !contains(got, lead) {
				c.Fail("C08", "noleader", "op%d: the party %v of %s lacks the leader %s", op.ID, got, NodeName(cl.Node), NodeName(lead))
			}
			for i, x := range got {
				if i > 0 && got[i-1] == x {
					c.Fail("C08", "twice", "op%d: the party %v of %s has a member twice", op.ID, got, NodeName(cl.Node))
				}
				if !asked[x] || !contains(op.Keys, x) {
					c.Fail("C08", "notasked", "op%d: the party %v of %s contains %s, which did not ask to join", op.ID, got, NodeName(cl.Node), NodeName(x))
				}
			}
			if ref == nil || cl == L {
				ref, refBy = got, cl.Node
			}
		}
		for _, cl := range calls {
			if cl.Done && cl.Err == nil && fmt.Sprint(sortedInts(cl.Peers)) != fmt.Sprint(ref) {
				c.Fail("C08", "differ", "op%d: %s has the party %v, %s has %v", op.ID, NodeName(cl.Node), sortedInts(cl.Peers), NodeName(refBy), ref)
			}
		}
		if L == nil || L.Skipped || !L.Done {
			for _, cl := range calls {
				if cl.Done && cl.Err == nil && (L == nil || L.Skipped) {
					c.Fail("C08", "leaderless", "op%d: %s succeeded although the leader %s never took part", op.ID, NodeName(cl.Node), NodeName(lead))
				}
			}
			continue
		}
		if L.Err != nil {
			for _, cl := range calls {
				if cl.Done && cl.Err == nil {
					c.Fail("C08", "despite", "op%d: %s succeeded although the leader reported %v", op.ID, NodeName(cl.Node), L.Err)
				}
			}
		}
		// what the leader heard
		v := c.View(id, lead)
		var first []time.Duration
		for _, j := range sortedInts(op.Keys) {
			if j == lead {
				continue
			}
			in := heard(v.Joins[j], L.Start+50*time.Millisecond, L.Start+T-slack)
			may := heard(v.Joins[j], L.Start-slack, L.End+slack)
			if L.Err != nil {
				has := contains(L.Peers, j)
				if has && !may {
					c.Fail("C08", "phantom", "op%d: the leader %s reports %s as joined, which it never heard of", op.ID, NodeName(lead), NodeName(j))
				}
				if !has && in {
					c.Fail("C08", "forgotten", "op%d: the leader %s does not report %s, which asked to join in time", op.ID, NodeName(lead), NodeName(j))
				}
			} else if contains(L.Peers, j) && !may {
				c.Fail("C08", "phantom", "op%d: the leader %s counts %s, which it never heard of", op.ID, NodeName(lead), NodeName(j))
			}
			if in {
				for _, t := range v.Joins[j] {
					if t >= L.Start+50*time.Millisecond {
						first = append(first, t)
						break
					}
				}
			}
		}
		if L.Err != nil {
			c.nontrivial = true
			if len(L.Peers) >= op.T+1 {
				c.Fail("C08", "enough", "op%d: the leader %s failed although %v joined and %d are enough", op.ID, NodeName(lead), L.Peers, op.T+1)
			}
			if !contains(L.Peers, lead) {
				c.Fail("C08", "self", "op%d: the leader %s does not report itself as present: %v", op.ID, NodeName(lead), L.Peers)
			}
		}
		if len(first) >= op.T {
			sort.Slice(first, func(i, j int) bool { return first[i] < first[j] })
			at := first[op.T-1]
			if L.Err != nil {
				c.Fail("C08", "gaveup", "op%d: %d others had asked the leader %s by %.1fs but it failed: %v", op.ID, len(first), NodeName(lead), at.Seconds(), L.Err)
			}
			if c.quietOp(op) && L.End > at+4*time.Second+stallBound(c) {
				c.Fail("C08", "slow", "op%d: enough had asked at %.1fs, the leader %s was done at %.1fs", op.ID, at.Seconds(), NodeName(lead), L.End.Seconds())
			}
		}
		if !c.quietOp(op) || len(op.After) > 0 {
			continue
		}
		// no faults: everybody who waits at the time of the decision learns it
		lat := stallBound(c)
		var askers int
		for _, cl := range calls {
			if cl.Node != lead && cl.Start+slack+lat < L.Start+T && cl.Start+T > L.Start+slack+lat && cl.Start-L.Start < T-slack-lat {
				askers++
			}
		}
		if askers >= op.T && L.Err != nil {
			c.Fail("C08", "liveness", "op%d: %d others asked in time but the leader %s failed: %v", op.ID, askers, NodeName(lead), L.Err)
		}
		for _, cl := range calls {
			if L.Err == nil && cl.Node != lead && cl.Done && cl.Err != nil && L.End-2*lat-slack > cl.Start && cl.Start+T > L.End+slack {
				c.Fail("C08", "untold", "op%d: %s was waiting when the leader formed the party but reports %v", op.ID, NodeName(cl.Node), cl.Err)
			}
		}
	}
}

// stallBound is how long a fault-free exchange may take with the plan's
// latencies and stalls.
func stallBound(c *Cluster) time.Duration {
	d := 6 * (c.P.Net.LatMax.D() + 20*time.Millisecond)
	if c.P.Net.SlowP > 0 {
		d += 3 * c.P.Net.SlowMax.D()
	}
	if c.P.Sched.SlowP > 0 {
		d += 20 * c.P.Sched.SlowMax.D()
	}
	return d
}

func judgeOldJoin(c *Cluster) {
	T := c.P.PartyT.D()
	for k := range c.P.Ops {
		op := &c.P.Ops[k]
		id := c.SessionID(op)
		calls := c.OpCalls(op.ID)
		lat := stallBound(c)
		quiet := c.quietOp(op)
		all := len(calls) == len(op.Keys)
		var lo, hi time.Duration
		for i, cl := range calls {
			if cl.Skipped {
				all = false
			}
			if i == 0 || cl.Start < lo {
				lo = cl.Start
			}
			if i == 0 || cl.Start > hi {
				hi = cl.Start
			}
		}
		for _, cl := range calls {
			if !cl.Done {
				continue
			}
			v := c.View(id, cl.Node)
			amb := 10 * time.Second // the last requests may be counted or not: it is still talking to the others
			if quiet {
				amb = slack + lat
			}
			var ats []time.Duration
			missing, dubious := []int{}, false
			for _, j := range sortedInts(op.Keys) {
				if j == cl.Node {
					if !contains(cl.Peers, j) {
						c.Fail("C09", "self", "op%d: %s does not list itself: %v", op.ID, NodeName(j), cl.Peers)
					}
					continue
				}
				has := contains(cl.Peers, j)
				if !heard(v.Joins[j], cl.Start-slack, cl.End) {
					missing = append(missing, j)
					if has {
						c.Fail("C09", "phantom", "op%d: %s lists %s, which did not ask it to join: %v", op.ID, NodeName(cl.Node), NodeName(j), cl.Peers)
					}
					continue
				}
				var at time.Duration
				for _, t := range v.Joins[j] {
					if t >= cl.Start+50*time.Millisecond {
						at = t
						break
					}
				}
				if at == 0 || at > cl.End-amb && cl.Err != nil {
					dubious = true
					continue
				}
				ats = append(ats, at)
				if !has {
					c.Fail("C09", "forgotten", "op%d: %s does not list %s, which asked at %.2fs (it started at %.2fs and ended at %.2fs): %v", op.ID, NodeName(cl.Node), NodeName(j), at.Seconds(), cl.Start.Seconds(), cl.End.Seconds(), cl.Peers)
				}
			}
			for _, x := range cl.Peers {
				if !contains(op.Keys, x) {
					c.Fail("C09", "outsider", "op%d: %s lists %s, which is not in the party", op.ID, NodeName(cl.Node), NodeName(x))
				}
			}
			if s := sortedInts(cl.Peers); len(s) > 0 {
				for i := 1; i < len(s); i++ {
					if s[i] == s[i-1] {
						c.Fail("C09", "twice", "op%d: %s lists a node twice: %v", op.ID, NodeName(cl.Node), s)
					}
				}
			}
			c.nontrivial = true
			if cl.Err == nil && len(missing) > 0 {
				c.Fail("C09", "early", "op%d: %s completed although %v never asked it", op.ID, NodeName(cl.Node), missing)
			}
			if cl.Err != nil && len(missing) == 0 && !dubious {
				c.Fail("C09", "missed", "op%d: all others asked %s in time, but it reports %v", op.ID, NodeName(cl.Node), cl.Err)
			}
			if cl.Err == nil && !dubious && len(ats) > 0 {
				sort.Slice(ats, func(i, j int) bool { return ats[i] < ats[j] })
				last := ats[len(ats)-1]
				lim := 10 * time.Second
				if quiet {
					lim = 2*time.Second + 2*lat
				}
				if cl.End > last+lim {
					c.Fail("C09", "slow", "op%d: the last participant asked %s at %.2fs, it completed at %.2fs", op.ID, NodeName(cl.Node), last.Seconds(), cl.End.Seconds())
				}
			}
			if cl.Err != nil && cl.End < cl.Start+T-50*time.Millisecond {
				c.Fail("C09", "impatient", "op%d: %s gave up after %.2fs, the time-out is %s", op.ID, NodeName(cl.Node), (cl.End - cl.Start).Seconds(), T)
			}
			if quiet && all && hi-lo < T-3*time.Second-2*lat && len(op.After) == 0 {
				if cl.Err != nil {
					c.Fail("C09", "liveness", "op%d: all of %v asked within %.1fs but %s reports %v", op.ID, op.Keys, (hi - lo).Seconds(), NodeName(cl.Node), cl.Err)
				} else if cl.End > hi+3*time.Second+2*lat {
					c.Fail("C09", "late", "op%d: all had asked by %.1fs, %s completed at %.1fs", op.ID, hi.Seconds(), NodeName(cl.Node), cl.End.Seconds())
				}
			}
		}
	}
}

func init() {
	// C08: forming a party with a leader
	register(&Prop{ID: "C08", Count: counts(4000, 100000), Setup: joining, Judge: judgeLeaderJoin,
		Gen: func(r *simrt.RNG, p *Plan, tier string) { genJoin(r, p, vNew) }})
	// C09: forming a party without one
	register(&Prop{ID: "C09", Count: counts(4000, 100000), Setup: joining, Judge: judgeOldJoin,
		Gen: func(r *simrt.RNG, p *Plan, tier string) { genJoin(r, p, vOld) }})
}
