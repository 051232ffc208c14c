//go:build go1.22

package core

import (
	"context"
	"crypto/ecdsa"
	"fmt"
	"math/big"
	"time"

	bcommon "github.com/binance-chain/tss-lib/common"
	"github.com/btcsuite/btcd/btcec"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"google.golang.org/protobuf/proto"

	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simnet"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// SignWith makes an ordinary ECDSA signature the way a ceremony does.
func SignWith(rng *simrt.RNG, d *big.Int, m []byte) *bcommon.ECSignature {
	cv := btcec.S256()
	n := cv.Params().N
	for {
		k := rng.Big(n)
		if k.Sign() == 0 {
			continue
		}
		x, y := cv.ScalarBaseMult(k.Bytes())
		r := new(big.Int).Mod(x, n)
		v := byte(y.Bit(0))
		if x.Cmp(n) >= 0 {
			v |= 2
		}
		s := new(big.Int).Mul(r, d)
		s.Add(s, truncHash(m))
		s.Mul(s, new(big.Int).ModInverse(k, n))
		s.Mod(s, n)
		if r.Sign() == 0 || s.Sign() == 0 {
			continue
		}
		if s.Cmp(new(big.Int).Rsh(n, 1)) > 0 {
			s.Sub(n, s)
			v ^= 1
		}
		R, S := make([]byte, 32), make([]byte, 32)
		r.FillBytes(R)
		s.FillBytes(S)
		return &bcommon.ECSignature{Signature: append(append([]byte{}, R...), S...), SignatureRecovery: []byte{v}, R: R, S: S, M: m}
	}
}

// goodSet reports whether a notification is a complete and valid answer.
func goodSet(w *Wallet, msgs [][]byte, m *messages.KeysignSignature) bool {
	if m.KeysignStatus != messages.KeysignSignature_Success || len(m.Signatures) != len(msgs) {
		return false
	}
	for i, b := range m.Signatures {
		var s bcommon.ECSignature
		if proto.Unmarshal(b, &s) != nil || !goodSig(w, msgs[i], &s) {
			return false
		}
	}
	return true
}

func goodSig(w *Wallet, msg []byte, s *bcommon.ECSignature) bool {
	r, x := new(big.Int).SetBytes(s.R), new(big.Int).SetBytes(s.S)
	pk := &ecdsa.PublicKey{Curve: btcec.S256(), X: w.X, Y: w.Y}
	pt, err := pointOf(w.Pub)
	must(err)
	return len(s.Signature) > 0 && r.Sign() != 0 && x.Sign() != 0 && verifyECDSA(pk, msg, r, x) && len(s.SignatureRecovery) == 1 && s.SignatureRecovery[0] < 4 && recovers(msg, r, x, s.SignatureRecovery[0], pt)
}

type heardSig struct {
	at   time.Duration
	to   int
	id   string
	from int
	m    *messages.KeysignSignature
}

func notifying(c *Cluster) {
	sns := map[int]*keysign.SignatureNotifier{}
	hosts := map[int]host.Host{}
	var heard []heardSig
	c.Extra["heard"] = &heard
	c.Net.OnRead = func(f *simnet.Frame) {
		if m := Parse(f); m.Sig != nil {
			heard = append(heard, heardSig{simrt.Now(), m.To, m.MsgID, m.From, m.Sig})
		}
	}
	c.Boot = func(i int) error {
		h, err := BareHost(i)
		if err != nil {
			return err
		}
		hosts[i], sns[i] = h, keysign.NewSignatureNotifier(h)
		return nil
	}
	c.Limit = func(op *Op) time.Duration { return op.Dur.D() + 2*time.Minute }
	c.Exec = func(cl *Call) {
		op := cl.Op
		id := c.SessionID(op)
		w := c.Wallets[0]
		rng := simrt.NewRNG(c.P.Seed, fmt.Sprint("sig", op.ID))
		var sigs []*bcommon.ECSignature
		if op.Kind == "notify" {
			for _, m := range op.Msgs {
				sigs = append(sigs, SignWith(rng, w.Secret, m))
			}
		}
		switch op.Kind {
		case "wait":
			sc := make(chan string, 2)
			if op.Tag == "generated" {
				time.AfterFunc(op.Dur.D()/2, func() { sc <- "signature generated" })
			}
			l, err := sns[cl.Node].WaitForSignature(id, op.Msgs, w.Pub, op.Dur.D(), sc)
			cl.Err = err
			for _, s := range l {
				b, err := proto.Marshal(s)
				must(err)
				cl.Data = append(cl.Data, b)
			}
		case "notify":
			var to []peer.ID
			for _, k := range op.Keys {
				to = append(to, Ids[k].Peer)
			}
			if op.Tag == "ok" {
				cl.Err = sns[cl.Node].BroadcastSignature(id, sigs, to)
				return
			}
			if op.Tag == "failed" {
				cl.Err = sns[cl.Node].BroadcastFailed(id, to)
				return
			}
			b := badNotice(rng, op.Tag, id, w, op.Msgs, sigs)
			for _, k := range op.Keys {
				ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
				s, err := hosts[cl.Node].NewStream(ctx, Ids[k].Peer, PSig)
				if err == nil {
					p2p.WriteStreamWithBuffer(b, s)
					if op.Shuffle {
						s.Close()
					}
				}
				cancel()
			}
		}
	}
}

var badNotices = []string{"wrongkey", "wrongmsg", "partial", "long", "longjunk", "dup", "nilrs", "nilsig", "badbytes", "badentry", "foreign", "empty", "badrec", "norec", "reorder", "lastbad", "firstbad", "failsigs", "bigrs"}

func badNotice(rng *simrt.RNG, kind, id string, w *Wallet, msgs [][]byte, sigs []*bcommon.ECSignature) []byte {
	m := &messages.KeysignSignature{ID: id, KeysignStatus: messages.KeysignSignature_Success}
	other := new(big.Int).Add(w.Secret, big.NewInt(1))
	n := len(sigs)
	var extra [][]byte
	switch kind {
	case "wrongkey":
		for i := range sigs {
			sigs[i] = SignWith(rng, other, msgs[i])
		}
	case "wrongmsg":
		for i := range sigs {
			sigs[i] = SignWith(rng, w.Secret, append([]byte{9}, msgs[i]...))
		}
	case "partial":
		sigs = sigs[:rng.Intn(n)]
	case "long":
		for k := 0; k < 1+rng.Intn(3); k++ {
			sigs = append(sigs, SignWith(rng, w.Secret, msgs[rng.Intn(n)]))
		}
	case "longjunk":
		b := make([]byte, rng.Intn(40))
		rng.Read(b)
		extra = append(extra, b)
	case "dup":
		for i := range sigs {
			sigs[i] = sigs[0]
		}
	case "nilrs":
		sigs[rng.Intn(n)].R = nil
		sigs[rng.Intn(n)].S = nil
	case "nilsig":
		sigs[rng.Intn(n)].Signature = nil
	case "badbytes":
		b := make([]byte, rng.Intn(100))
		rng.Read(b)
		return b
	case "badentry":
		extra = append(extra, []byte{0xff, 0xff, 0xff})
		sigs = sigs[:n-1]
	case "foreign":
		m.ID = id[:40]
	case "empty":
		sigs = nil
	case "badrec":
		sigs[rng.Intn(n)].SignatureRecovery[0] ^= 1
	case "norec":
		sigs[rng.Intn(n)].SignatureRecovery = nil
	case "reorder":
		p := rng.Perm(n)
		l := make([]*bcommon.ECSignature, n)
		for i, k := range p {
			l[i] = sigs[k]
		}
		sigs = l
	case "lastbad":
		sigs[n-1] = SignWith(rng, other, msgs[n-1])
	case "firstbad":
		sigs[0] = SignWith(rng, other, msgs[0])
	case "failsigs":
		m.KeysignStatus = messages.KeysignSignature_Failed
	case "bigrs":
		k := rng.Intn(n)
		b := make([]byte, 40+rng.Intn(3000))
		rng.Read(b)
		sigs[k].R, sigs[k].S = b, b
	}
	for _, s := range sigs {
		b, err := proto.Marshal(s)
		must(err)
		m.Signatures = append(m.Signatures, b)
	}
	m.Signatures = append(m.Signatures, extra...)
	b, err := proto.Marshal(m)
	must(err)
	return b
}

func genNotify(r *simrt.RNG, p *Plan) {
	env(r, p, 2, 5)
	p.Wallets = []WalletSpec{{Party: []int{0, 1}}}
	all := seq(p.N)
	p.Scn = "clean"
	for s := 0; s < r.Range(1, 2); s++ {
		msgs := messagesN(r, r.Range(1, 5))
		at := Ms(r.Intn(2000))
		w := Op{ID: len(p.Ops), Kind: "wait", Nodes: pick(r, all, r.Range(1, p.N)), Wallet: s, Msgs: msgs, At: at, Dur: Ms(r.Range(3000, 15000))}
		w.Skew = skews(r, w.Nodes, 1000)
		if r.P(1, 8) {
			w.Tag = "generated"
		}
		w.Keys = w.Nodes
		p.Ops = append(p.Ops, w)
		top := int(w.Dur) + 2000
		for k := 0; k < r.Range(0, 6); k++ {
			p.Scn = "bad notices"
			tag := badNotices[r.Intn(len(badNotices))]
			if r.P(1, 10) {
				tag = "failed"
			}
			p.Ops = append(p.Ops, Op{ID: len(p.Ops), Kind: "notify", Nodes: []int{r.Intn(p.N)}, Keys: all, Wallet: s, Msgs: msgs, At: at + Ms(r.Intn(top)), Tag: tag, Shuffle: r.P(1, 2)})
		}
		for k := 0; k < r.Range(0, 3); k++ {
			p.Ops = append(p.Ops, Op{ID: len(p.Ops), Kind: "notify", Nodes: []int{r.Intn(p.N)}, Keys: all, Wallet: s, Msgs: msgs, At: at + Ms(r.Intn(top)), Tag: "ok"})
		}
	}
	for i := range p.Ops {
		p.Ops[i].Keys = without(p.Ops[i].Keys, p.Ops[i].Nodes[0])
		if p.Ops[i].Kind == "wait" {
			p.Ops[i].Keys = p.Ops[i].Nodes
		}
	}
	if r.P(1, 3) {
		p.Scn += "+faults"
		for k := 0; k < r.Range(1, 2); k++ {
			op := &p.Ops[r.Intn(len(p.Ops))]
			n := op.Nodes[0]
			switch r.Intn(4) {
			case 0:
				p.Faults = append(p.Faults, Fault{Kind: []string{"drop", "stall", "trunc", "delay", "flip", "flip"}[r.Intn(6)], Node: n, M: &Match{Proto: "sig", Type: -1, Op: -1, Nth: r.Intn(3), Count: r.Range(1, 3)}, Arg: Ms(r.Range(0, 4000)), Seed: r.Uint64()})
			case 1:
				p.Faults = append(p.Faults, Fault{Kind: "lag", Op: op.ID, Node: n, Arg: Ms(r.Range(100, 3000)), Dur: Ms(r.Range(200, 20000))})
			case 2:
				p.Faults = append(p.Faults, Fault{Kind: "dup", Node: n, M: &Match{Proto: "sig", Type: -1, Op: -1}, Arg: 500, Seed: r.Uint64()})
			case 3:
				p.Faults = append(p.Faults, Fault{Kind: "break", Op: op.ID, At: Ms(r.Intn(1000)), Node: n, Peer: without(all, n)})
			}
		}
	}
}

func judgeNotify(c *Cluster) {
	heard := *(c.Extra["heard"].(*[]heardSig))
	w := c.Wallets[0]
	lat := stallBound(c)
	for _, cl := range c.Calls {
		op := cl.Op
		if op.Kind != "wait" || cl.Skipped {
			continue
		}
		id := c.SessionID(op)
		if !cl.Done {
			c.Fail("C17", "hang", "op%d: the wait on %s has not ended", op.ID, NodeName(cl.Node))
			continue
		}
		if cl.End > cl.Start+op.Dur.D()+lat+time.Second {
			c.Fail("C17", "overdue", "op%d: the wait on %s took %.1fs of %dms", op.ID, NodeName(cl.Node), (cl.End - cl.Start).Seconds(), op.Dur)
		}
		var first time.Duration
		possible := false
		bad := 0
		for _, h := range heard {
			if h.to != cl.Node || h.id != id || h.at > cl.End {
				continue
			}
			if goodSet(w, op.Msgs, h.m) {
				if h.at >= cl.Start-slack {
					possible = true
				}
				if first == 0 && h.at > cl.Start+10*time.Millisecond {
					first = h.at
				}
			} else {
				bad++
			}
		}
		if cl.Err == nil {
			c.nontrivial = true
			okay := len(cl.Data) == len(op.Msgs)
			for i, b := range cl.Data {
				var s bcommon.ECSignature
				must(proto.Unmarshal(b, &s))
				okay = okay && i < len(op.Msgs) && goodSig(w, op.Msgs[i], &s)
			}
			if !okay {
				c.Fail("C17", "accepted", "op%d: %s accepted %d signatures for %d messages that are not all valid", op.ID, NodeName(cl.Node), len(cl.Data), len(op.Msgs))
			} else if !possible {
				c.Fail("C17", "invented", "op%d: %s succeeded though nobody sent it a valid set", op.ID, NodeName(cl.Node))
			}
		}
		if bad > 0 {
			c.nontrivial = true
		}
		if first > 0 && first < cl.Start+op.Dur.D()-slack-lat {
			if cl.Err != nil && !(op.Tag == "generated" && first > cl.Start+op.Dur.D()/2-slack-lat) {
				c.Fail("C17", "missed", "op%d: %s was sent a valid set at %.2fs, %d wrong ones before it, but ended at %.2fs with %v", op.ID, NodeName(cl.Node), first.Seconds(), bad, cl.End.Seconds(), cl.Err)
			}
			if cl.Err == nil && cl.End > first+time.Second+lat {
				c.Fail("C17", "slow", "op%d: %s was sent a valid set at %.2fs and finished at %.2fs", op.ID, NodeName(cl.Node), first.Seconds(), cl.End.Seconds())
			}
		}
		if cl.Err != nil && op.Tag != "generated" && cl.End < cl.Start+op.Dur.D()-time.Millisecond {
			c.Fail("C17", "aborted", "op%d: %s gave up after %.1fs of %dms: %v", op.ID, NodeName(cl.Node), (cl.End - cl.Start).Seconds(), op.Dur, cl.Err)
		}
		if op.Tag == "generated" && cl.End > cl.Start+op.Dur.D()/2+time.Second+lat {
			c.Fail("C17", "deafened", "op%d: %s did not stop waiting when its own signature was ready", op.ID, NodeName(cl.Node))
		}
	}
}

func init() {
	// C17: waiting for the signatures of others
	register(&Prop{ID: "C17", Count: counts(3000, 60000), Setup: notifying, Judge: judgeNotify,
		Gen: func(r *simrt.RNG, p *Plan, tier string) { genNotify(r, p) }})
}
