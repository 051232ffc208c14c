//go:build go1.22

package core

import (
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/ptypes"
	"github.com/golang/protobuf/ptypes/any"
	"github.com/libp2p/go-libp2p-core/peer"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simnet"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// Protocols of the system.
const (
	PTss   = "/p2p/tss"
	PJoin  = "/p2p/join-party"
	PJoinL = "/p2p/join-party-leader"
	PSig   = "/p2p/signatureNotifier"
)

// Short names used in plans.
var protoShort = map[string]string{PTss: "tss", PJoin: "join", PJoinL: "joinl", PSig: "sig"}

// ProtoLong maps them back.
var ProtoLong = map[string]string{"tss": PTss, "join": PJoin, "joinl": PJoinL, "sig": PSig}

// Msg is a parsed frame.
type Msg struct {
	F        *simnet.Frame
	From, To int
	Proto    string
	Type     int // -1 unless tss
	MsgID    string
	Round    string
	Wrapped  *messages.WrappedMessage
	Wire     *messages.WireMessage
	Ver      *messages.BroadcastConfirmMessage
	Ctl      *messages.TssControl
	Lead     *messages.JoinPartyLeaderComm
	Sig      *messages.KeysignSignature
}

// Parse decodes a frame as far as possible.
func Parse(f *simnet.Frame) *Msg {
	m := &Msg{F: f, From: ByPeer(f.From), To: ByPeer(f.To), Type: -1, Proto: protoShort[string(f.Proto)]}
	if m.Proto == "" {
		m.Proto = "ping"
		if strings.HasPrefix(string(f.Proto), "/sim/") {
			m.Proto = "raw"
		}
	}
	switch m.Proto {
	case "tss":
		var w messages.WrappedMessage
		if json.Unmarshal(f.Payload, &w) != nil {
			return m
		}
		m.Wrapped, m.Type, m.MsgID = &w, int(w.MessageType), w.MsgID
		switch w.MessageType {
		case messages.TSSKeyGenMsg, messages.TSSKeySignMsg:
			var x messages.WireMessage
			if json.Unmarshal(w.Payload, &x) == nil {
				m.Wire, m.Round = &x, x.RoundInfo
			}
		case messages.TSSKeyGenVerMsg, messages.TSSKeySignVerMsg:
			var x messages.BroadcastConfirmMessage
			if json.Unmarshal(w.Payload, &x) == nil {
				m.Ver = &x
				if i := strings.IndexByte(x.Key, '-'); i >= 0 {
					m.Round = x.Key[i+1:]
				}
			}
		case messages.TSSControlMsg:
			var x messages.TssControl
			if json.Unmarshal(w.Payload, &x) == nil {
				m.Ctl = &x
				if i := strings.IndexByte(x.ReqKey, '-'); i >= 0 {
					m.Round = x.ReqKey[i+1:]
				}
			}
		}
	case "join":
		var x messages.JoinPartyRequest
		if f.Opener && proto.Unmarshal(f.Payload, &x) == nil {
			m.MsgID = x.ID
		}
	case "joinl":
		var x messages.JoinPartyLeaderComm
		if f.Opener && proto.Unmarshal(f.Payload, &x) == nil {
			m.Lead, m.MsgID, m.Round = &x, x.ID, x.MsgType
		}
	case "sig":
		var x messages.KeysignSignature
		if f.Opener && proto.Unmarshal(f.Payload, &x) == nil {
			m.Sig, m.MsgID = &x, x.ID
		}
	}
	return m
}

type frameFault struct {
	f     *Fault
	real  *Fault // injections: the plan's entry
	seen  int
	fired int
	rng   *simrt.RNG
}

func (c *Cluster) opActive(id int) bool {
	if id < 0 {
		return true
	}
	return c.running[id] > 0
}

func (x *frameFault) match(c *Cluster, m *Msg) bool {
	f, q := x.f, x.f.M
	if f.Node >= 0 && m.From != f.Node {
		return false
	}
	if q.Proto != "" && q.Proto != m.Proto {
		return false
	}
	if q.Proto == "" && m.Proto == "ping" {
		return false
	}
	if q.Reply == m.F.Opener {
		return false
	}
	if q.Type >= 0 && q.Type != m.Type {
		return false
	}
	if q.Round != "" && !strings.HasPrefix(m.Round, q.Round) {
		return false
	}
	if len(q.To) > 0 {
		in := false
		for _, t := range q.To {
			in = in || t == m.To
		}
		if !in {
			return false
		}
	}
	if q.Op >= 0 && !c.opActive(q.Op) {
		return false
	}
	if q.Own && (q.Op < 0 || m.MsgID != c.SessionID(c.Op(q.Op))) {
		return false
	}
	x.seen++
	if x.seen <= q.Nth {
		return false
	}
	if q.Count > 0 && x.fired >= q.Count {
		return false
	}
	x.fired++
	return true
}

// armFrames connects frame-triggered faults to the network.
func (c *Cluster) armFrames() {
	who := map[peer.ID]bool{}
	all := false
	for i := range c.P.Faults {
		f := &c.P.Faults[i]
		if f.M == nil || f.Kind == "inject" || f.Kind == "disk" {
			continue
		}
		if f.Act == "" {
			f.Act = f.Kind
		}
		c.frames = append(c.frames, &frameFault{f: f, rng: simrt.NewRNG(c.P.Seed^f.Seed, "frame"+f.Act)})
		if f.Node < 0 {
			all = true
		} else {
			who[Ids[f.Node].Peer] = true
		}
	}
	c.Net.OnFrame = func(f *simnet.Frame) {
		if f.Proto == PSig && f.Opener {
			if m := Parse(f); m.Sig != nil && m.Sig.KeysignStatus == messages.KeysignSignature_Success {
				k := fmt.Sprint(m.MsgID, m.To)
				c.announced[k] = append(c.announced[k], simrt.Now())
			}
		}
		if f.Proto == PJoinL && f.Opener {
			if m := Parse(f); m.Lead != nil && m.Lead.MsgType == "response" && m.Lead.Type == messages.JoinPartyLeaderComm_Success && c.picked[m.MsgID] == nil {
				l := []int{}
				for _, s := range m.Lead.PeerIDs {
					if p, err := peer.Decode(s); err == nil {
						l = append(l, ByPeer(p))
					}
				}
				c.picked[m.MsgID] = l
			}
		}
		if len(c.OnMsg) == 0 {
			return
		}
		m := Parse(f)
		for _, h := range c.OnMsg {
			h(m)
		}
	}
	if len(c.frames) == 0 {
		return
	}
	c.Net.Rewrites = func(p peer.ID) bool { return all || who[p] }
	c.Net.Rewrite = c.rewrite
}

// rewrite applies the first matching fault of each kind to a frame.
func (c *Cluster) rewrite(f *simnet.Frame) (bool, []simnet.Out) {
	var m *Msg
	for _, x := range c.frames {
		if x.f.Node >= 0 && Ids[x.f.Node].Peer != f.From {
			continue
		}
		if m == nil {
			m = Parse(f)
		}
		if !x.match(c, m) {
			continue
		}
		if outs, ok := c.act(x, m); ok {
			return true, outs
		}
	}
	return false, nil
}

// Resign signs a wire message as its owner would.
func Resign(w *messages.WireMessage, as int, msgID string) {
	s, err := Ids[as].Priv.Sign(append(append([]byte{}, w.Message...), msgID...))
	must(err)
	w.Sig = s
}

// FrameOf encodes a protocol message.
func FrameOf(t messages.THORChainTSSMessageType, msgID string, payload interface{}) []byte {
	p, err := json.Marshal(payload)
	must(err)
	b, err := json.Marshal(messages.WrappedMessage{MessageType: t, MsgID: msgID, Payload: p})
	must(err)
	return simnet.Frame4(b)
}

func (c *Cluster) act(x *frameFault, m *Msg) ([]simnet.Out, bool) {
	f := x.f
	raw := simnet.Frame4(m.F.Payload)
	note := func() {
		simrt.Logf("fault %s %s->%s %s/%d %s", f.Act, NodeName(m.From), NodeName(m.To), m.Proto, m.Type, m.Round)
		c.Stat["fault.frame."+f.Act]++
		if x.fired == 1 {
			c.shapef("%s@%s%d%s", f.Act, m.Proto, m.Type, m.Round)
		}
	}
	node := f.Node
	if node < 0 {
		node = m.From
	}
	if f.P > 0 && !x.rng.P(f.P, 1000) {
		x.fired--
		return nil, false
	}
	switch f.Act {
	case "drop": // lost on the way; the stream breaks
		note()
		return []simnet.Out{{Reset: true}}, true
	case "stall": // lost, the stream stays silent
		note()
		return []simnet.Out{{Stall: true}}, true
	case "trunc":
		note()
		k := 1 + x.rng.Intn(len(raw)-1)
		return []simnet.Out{{Raw: raw[:k]}, {Reset: f.Arg == 0, Stall: f.Arg != 0}}, true
	case "delay":
		note()
		return []simnet.Out{{Raw: raw, Delay: f.Arg.D()}}, true
	case "dup":
		note()
		if m.F.Opener {
			n := 1 + x.rng.Intn(2)
			for i := 0; i < n; i++ {
				c.Net.Inject(m.F.From, m.F.To, m.F.Proto, raw, x.rng.Dur(0, f.Arg.D()), false)
			}
		}
		return []simnet.Out{{Raw: raw}}, true
	case "silent": // the node says nothing any more, on any protocol
		note()
		c.silence(node)
		return []simnet.Out{{Stall: true}}, true
	case "crash", "crash_after":
		note()
		i := node
		inc := c.Nodes[i].Inc
		simrt.Kill(Label(i, inc))
		c.faults++
		simrt.Go(0, func() {
			defer func() { c.faults-- }()
			if c.Nodes[i].Inc != inc || !c.Nodes[i].Up {
				return
			}
			c.Crash(i, f.Arg.D())
			if f.Dur > 0 {
				time.Sleep(f.Dur.D())
				c.Start(i)
			}
		})
		if f.Act == "crash" {
			return []simnet.Out{{Stall: true}}, true
		}
		return []simnet.Out{{Raw: raw}}, true
	case "cut": // a partition begins just here
		note()
		c.Net.Cut2(f.Node, f.Peer, func(i int) peer.ID { return Ids[i].Peer }, f.Arg.D(), f.Dur.D())
		return []simnet.Out{{Raw: raw}}, true
	case "flip": // damaged bytes
		if len(raw) < 5 {
			return nil, false
		}
		note()
		b := append([]byte{}, raw...)
		for k := 0; k < 1+x.rng.Intn(3); k++ {
			b[4+x.rng.Intn(len(b)-4)] ^= byte(1 + x.rng.Intn(255))
		}
		return []simnet.Out{{Raw: b}}, true
	}
	if f.Kind == "ctllie" && f.Arg == 8 && m.Ctl != nil && m.Ctl.Msg != nil { // no answer at all
		note()
		return []simnet.Out{{Stall: true}}, true
	}
	if out := c.byz(x, m); out != nil {
		note()
		return []simnet.Out{{Raw: out}}, true
	}
	return nil, false
}

func (c *Cluster) silence(i int) {
	f := &Fault{Kind: "muted", Act: "stall", Node: i, M: &Match{Type: -1, Op: -1}}
	g := &Fault{Kind: "muted", Act: "stall", Node: i, M: &Match{Type: -1, Op: -1, Reply: true}}
	nf := []*frameFault{{f: f, rng: simrt.NewRNG(1, "x")}, {f: g, rng: simrt.NewRNG(1, "x")}}
	c.frames = append(nf, c.frames...)
	c.Nodes[i].Faulty = true
}

// Mutate changes one byte-string of a protobuf message.
func Mutate(v reflect.Value, rng *simrt.RNG, field int) bool {
	v = reflect.Indirect(v)
	var targets []reflect.Value
	for i := 0; i < v.NumField(); i++ {
		ft := v.Type().Field(i)
		if ft.PkgPath != "" || strings.HasPrefix(ft.Name, "XXX") {
			continue
		}
		fv := v.Field(i)
		if fv.Kind() == reflect.Slice && fv.Type().Elem().Kind() == reflect.Uint8 {
			targets = append(targets, fv)
		} else if fv.Kind() == reflect.Slice && fv.Type().Elem().Kind() == reflect.Slice && fv.Len() > 0 {
			targets = append(targets, fv.Index(rng.Intn(fv.Len())))
		}
	}
	if len(targets) == 0 {
		return false
	}
	t := targets[0]
	if field < 0 {
		t = targets[rng.Intn(len(targets))]
	} else if field < len(targets) {
		t = targets[field]
	}
	b := append([]byte{}, t.Bytes()...)
	if len(b) == 0 {
		return false
	}
	b[len(b)-1-rng.Intn((len(b)+1)/2)] ^= byte(1 << uint(rng.Intn(8)))
	t.SetBytes(b)
	return true
}

// mutateBulk alters the protocol content of a wire message (not its signature).
func mutateBulk(w *messages.WireMessage, rng *simrt.RNG, field int, only int) bool {
	var bulk []common.BulkWireMsg
	if json.Unmarshal(w.Message, &bulk) != nil || len(bulk) == 0 {
		return false
	}
	done := false
	for i := range bulk {
		if only >= 0 && i != only%len(bulk) {
			continue
		}
		var a any.Any
		if proto.Unmarshal(bulk[i].WiredBulkMsgs, &a) != nil {
			continue
		}
		var dyn ptypes.DynamicAny
		if ptypes.UnmarshalAny(&a, &dyn) != nil {
			continue
		}
		if !Mutate(reflect.ValueOf(dyn.Message), rng, field) {
			continue
		}
		b, err := ptypes.MarshalAny(dyn.Message)
		must(err)
		bulk[i].WiredBulkMsgs, err = proto.Marshal(b)
		must(err)
		done = true
	}
	if done {
		var err error
		w.Message, err = json.Marshal(bulk)
		must(err)
	}
	return done
}

// byz produces a replacement frame, nil if the act does not apply.
func (c *Cluster) byz(x *frameFault, m *Msg) []byte {
	f := x.f
	if m.Type < 0 {
		return nil
	}
	switch f.Act {
	case "badshare", "equiv": // properly signed, wrong content
		if m.Wire == nil {
			return nil
		}
		w := *m.Wire
		rng := x.rng
		if f.Act == "equiv" { // the same altered version for everyone it is sent to
			rng = simrt.NewRNG(c.P.Seed^f.Seed, "equiv"+w.RoundInfo)
		}
		if !mutateBulk(&w, rng, int(f.Arg)-1, -1) {
			return nil
		}
		Resign(&w, m.From, m.MsgID)
		return FrameOf(m.Wrapped.MessageType, m.MsgID, &w)
	case "tamper": // content altered, signature kept
		if m.Wire == nil {
			return nil
		}
		w := *m.Wire
		if !mutateBulk(&w, x.rng, int(f.Arg)-1, -1) {
			return nil
		}
		return FrameOf(m.Wrapped.MessageType, m.MsgID, &w)
	case "badsig":
		if m.Wire == nil || len(m.Wire.Sig) == 0 {
			return nil
		}
		w := *m.Wire
		w.Sig = append([]byte{}, w.Sig...)
		switch x.rng.Intn(3) {
		case 0:
			w.Sig[x.rng.Intn(len(w.Sig))] ^= 1
		case 1:
			w.Sig = w.Sig[:len(w.Sig)-1]
		case 2:
			w.Sig = nil
		}
		return FrameOf(m.Wrapped.MessageType, m.MsgID, &w)
	case "garbage": // signed, but not a protocol message
		if m.Wire == nil {
			return nil
		}
		w := *m.Wire
		b := make([]byte, 1+x.rng.Intn(60))
		x.rng.Read(b)
		switch x.rng.Intn(5) {
		case 0:
			w.Message = b
		case 3, 4: // part of a batch
			var bulk []common.BulkWireMsg
			if json.Unmarshal(w.Message, &bulk) != nil || len(bulk) == 0 {
				return nil
			}
			k := x.rng.Intn(len(bulk))
			if len(bulk) > 1 && x.rng.Intn(2) == 0 { // one twice instead of another
				bulk[k] = bulk[(k+1)%len(bulk)]
			} else {
				bulk = append(bulk[:k:k], bulk[k+1:]...)
			}
			w.Message, _ = json.Marshal(bulk)
		case 1:
			var bulk []common.BulkWireMsg
			if json.Unmarshal(w.Message, &bulk) != nil {
				return nil
			}
			for i := range bulk {
				bulk[i].WiredBulkMsgs = b
			}
			w.Message, _ = json.Marshal(bulk)
		case 2:
			w.Message = []byte("[]")
		}
		Resign(&w, m.From, m.MsgID)
		return FrameOf(m.Wrapped.MessageType, m.MsgID, &w)
	case "ctllie": // answers a request for a broadcast wrongly
		if m.Ctl == nil || m.Ctl.Msg == nil {
			return nil
		}
		v := *m.Ctl
		w := *v.Msg
		how := int(f.Arg)
		if how == 0 {
			how = 1 + x.rng.Intn(7)
		}
		hash := false
		switch how {
		case 1: // the right content without the sender's signature
			w.Sig = append([]byte{}, w.Sig...)
			if len(w.Sig) > 0 {
				w.Sig[x.rng.Intn(len(w.Sig))] ^= 1
			}
		case 2: // signed by the one who answers
			Resign(&w, m.From, m.MsgID)
		case 3: // other content, the sender's signature
			hash = mutateBulk(&w, x.rng, -1, -1)
		case 4: // other content, signed by the one who answers
			hash = mutateBulk(&w, x.rng, -1, -1)
			Resign(&w, m.From, m.MsgID)
		case 5: // other content under the requested hash
			mutateBulk(&w, x.rng, -1, -1)
		case 6: // under another sender's name
			if w.Routing != nil && w.Routing.From != nil {
				r, id := *w.Routing, *w.Routing.From
				mp := *id.MessageWrapper_PartyID
				mp.Id = fmt.Sprint(x.rng.Intn(c.P.N))
				id.MessageWrapper_PartyID = &mp
				r.From = &id
				w.Routing = &r
			}
		case 7: // as its own message
			if w.Routing != nil {
				for id, n := range PartyIndex(c.partyKeys(m.MsgID)) {
					if n == m.From {
						r := *w.Routing
						r.From = btss.NewPartyID(id, "", Ids[n].Key)
						w.Routing = &r
						v.ReqKey = w.GetCacheKey()
						Resign(&w, m.From, m.MsgID)
					}
				}
			}
		}
		if hash && x.rng.P(1, 2) {
			v.ReqHash, _ = conversion.BytesToHashString(w.Message)
		}
		v.Msg = &w
		return FrameOf(m.Wrapped.MessageType, m.MsgID, &v)
	case "verflip": // reports a wrong hash
		if m.Ver == nil {
			return nil
		}
		v := *m.Ver
		b := make([]byte, 32)
		x.rng.Read(b)
		if f.Arg == 1 { // consistently the same lie
			simrt.NewRNG(f.Seed, "lie").Read(b)
		}
		v.Hash, _ = conversion.BytesToHashString(b)
		return FrameOf(m.Wrapped.MessageType, m.MsgID, &v)
	}
	return nil
}

// partyKeys lists the holders of the key a session is about.
func (c *Cluster) partyKeys(msgID string) []int {
	for i := range c.P.Ops {
		op := &c.P.Ops[i]
		if c.SessionID(op) == msgID {
			if op.Kind == "keysign" && op.Wallet >= 0 {
				return c.P.Wallets[op.Wallet].Party
			}
			return op.Keys
		}
	}
	return nil
}

// PartyIndex maps the Id of a party ("0", "1", ...) of a key's holders to a node.
func PartyIndex(keys []int) map[string]int {
	out := map[string]int{}
	pubs := Pubs(keys)
	ids := sortedPubs(pubs)
	for i, p := range ids {
		out[big.NewInt(int64(i)).String()] = ByPub(p)
	}
	return out
}

var _ = btss.NewPartyID
