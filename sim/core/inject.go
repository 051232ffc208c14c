//go:build go1.22

package core

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	bcommon "github.com/binance-chain/tss-lib/common"
	btss "github.com/binance-chain/tss-lib/tss"
	"google.golang.org/protobuf/proto"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simnet"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// packet is one stream opened by an attacker.
type packet struct {
	pid  string
	raw  []byte
	hold bool
}

// injector sends what the plan's "inject" faults describe.
type injector struct {
	c      *Cluster
	caught []*Msg
	trig   []*frameFault
}

// Injecting arms the plan's injections: at an instant, or when a matching
// frame of anybody is sent.
func (c *Cluster) Injecting() {
	in := &injector{c: c}
	c.Extra["injector"] = in
	for i := range c.P.Faults {
		f := &c.P.Faults[i]
		if f.Kind == "inject" && f.M != nil {
			g := *f
			g.Node = -1
			in.trig = append(in.trig, &frameFault{f: &g, real: f, rng: simrt.NewRNG(f.Seed, "trig")})
		}
	}
	c.OnMsg = append(c.OnMsg, func(m *Msg) {
		if m.From < 0 || m.To < 0 {
			return
		}
		if m.Proto == "tss" || m.Proto == "joinl" || m.Proto == "join" || m.Proto == "sig" {
			if len(in.caught) < 600 {
				in.caught = append(in.caught, m)
			} else {
				in.caught[len(m.F.Payload)%600] = m
			}
		}
		for _, x := range in.trig {
			if x.match(c, m) {
				x := x
				simrt.Go(0, func() { in.fire(x.real, m) })
			}
		}
	})
}

// fire performs one injection; m is the frame that set it off, if any.
func (in *injector) fire(f *Fault, m *Msg) {
	c := in.c
	id := f.Op
	if f.M != nil {
		id = f.M.Op
	}
	op := c.Op(id)
	if op == nil {
		op = &c.P.Ops[0]
	}
	if f.Node >= len(c.Nodes) {
		c.Outsider(f.Node)
	}
	if f.Arg > 0 {
		time.Sleep(f.Arg.D())
	}
	c.Stat["fault.inject."+f.Act]++
	c.shapef("%s", f.Act)
	rng := simrt.NewRNG(c.P.Seed^f.Seed, "inject"+f.Act)
	to := f.Peer
	if len(to) == 0 {
		to = seq(len(c.Nodes))
	}
	k := f.P
	if k == 0 {
		k = 1
	}
	for i := 0; i < k; i++ {
		seed := rng.Uint64()
		for _, t := range to {
			if t == f.Node {
				continue
			}
			pk := in.build(f, op, m, t, simrt.NewRNG(seed, "packet"))
			if pk == nil {
				continue
			}
			simrt.Logf("inject %s %s->%s %s %d bytes", f.Act, NodeName(f.Node), NodeName(t), pk.pid, len(pk.raw))
			c.Net.Inject(Ids[f.Node].Peer, Ids[t].Peer, simnet.Proto(pk.pid), pk.raw, 0, pk.hold)
		}
	}
}

func (in *injector) pickWire(rng *simrt.RNG, sel func(m *Msg) bool) *Msg {
	var l []*Msg
	for _, m := range in.caught {
		if sel(m) {
			l = append(l, m)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[rng.Intn(len(l))]
}

func framed(pid string, b []byte) *packet { return &packet{pid: pid, raw: simnet.Frame4(b)} }

func wrap(t int, id string, payload []byte) *packet {
	b, err := json.Marshal(messages.WrappedMessage{MessageType: messages.THORChainTSSMessageType(t), MsgID: id, Payload: payload})
	must(err)
	return framed(PTss, b)
}

func wrapJ(t int, id string, v interface{}) *packet {
	b, err := json.Marshal(v)
	must(err)
	return wrap(t, id, b)
}

func randBytes(rng *simrt.RNG, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

func hashString(b []byte) string {
	s, err := conversion.BytesToHashString(b)
	must(err)
	return s
}

// roundKey draws the name under which a broadcast of the ceremony is kept.
func roundKey(rng *simrt.RNG, op *Op, n int) string {
	l := []string{"KGRound1Message", "KGRound2Message2", "KGRound3Message"}
	if op.Kind == "keysign" {
		l = []string{"SignRound1Message2", "SignRound3Message", "SignRound4Message", "SignRound5Message", "SignRound6Message", "SignRound7Message"}
	}
	return fmt.Sprintf("%d-%s", rng.Intn(n), l[rng.Intn(len(l))])
}

func bulkOf(w *messages.WireMessage) []common.BulkWireMsg {
	var bulk []common.BulkWireMsg
	if w == nil || json.Unmarshal(w.Message, &bulk) != nil {
		return nil
	}
	return bulk
}

func (in *injector) build(f *Fault, op *Op, m *Msg, to int, rng *simrt.RNG) *packet {
	c := in.c
	id := c.SessionID(op)
	party := c.PartyOf(op)
	kgen := op.Kind == "keygen"
	tW, tV := tKS, tKSVer
	if kgen {
		tW, tV = tKG, tKGVer
	}
	// a genuine protocol message of somebody else to start from
	wire := func(sel func(m *Msg) bool) *Msg {
		if m != nil && m.Wire != nil && m.From != f.Node && rng.P(3, 4) && (sel == nil || sel(m)) {
			return m
		}
		return in.pickWire(rng, func(x *Msg) bool {
			return x.Wire != nil && x.From != f.Node && x.MsgID == id && (sel == nil || sel(x))
		})
	}
	switch f.Act {
	// --- without meaning
	case "raw":
		pid := []string{PTss, PTss, PJoin, PJoinL, PSig, "/ipfs/ping/1.0.0", "/nobody"}[rng.Intn(7)]
		b := randBytes(rng, []int{0, 1, 3, 4, 5, 40, 300, 6000}[rng.Intn(8)])
		p := &packet{pid: pid, raw: b, hold: rng.P(1, 3)}
		switch rng.Intn(4) {
		case 0:
			p.raw = simnet.Frame4(b)
		case 1: // claims more than there is
			p.raw = simnet.Frame4(b)
			p.raw[rng.Intn(4)] ^= byte(1 << uint(rng.Intn(8)))
		case 2:
			if len(b) >= 4 {
				copy(b, []byte{byte(rng.Intn(256)), byte(rng.Intn(2)), 0, 0})
			}
		}
		return p
	case "json":
		odd := [][]byte{nil, []byte("null"), []byte("{}"), []byte("[]"), []byte(`""`), []byte("0"), []byte("true"), []byte(`{"routing":{}}`), []byte(`{"message_body":{}}`), []byte(`{"message_body":{"routing":{}}}`), []byte(`{"task_done":true}`), []byte(`{"key":"x"}`), randBytes(rng, 1+rng.Intn(50)), []byte(strings.Repeat("[", 100+rng.Intn(9000)))}
		if rng.P(1, 5) {
			return framed(PTss, odd[rng.Intn(len(odd))])
		}
		return wrap(rng.Intn(9), []string{id, id, id, "", "x"}[rng.Intn(5)], odd[rng.Intn(len(odd))])
	case "mutjson": // a genuine message with parts missing or replaced
		b := in.pickWire(rng, func(x *Msg) bool { return x.Wrapped != nil && x.MsgID == id })
		if m != nil && m.Wrapped != nil && rng.P(1, 2) {
			b = m
		}
		if b == nil {
			return nil
		}
		return in.mutateJSON(f, b, id, rng)
	// --- well-formed, in the wrong place
	case "wire":
		b := wire(nil)
		if b == nil {
			return nil
		}
		w := *b.Wire
		as := f.Node
		self := fmt.Sprint(rng.Intn(len(party)))
		bulk := bulkOf(&w)
		if contains(party, as) { // an insider can sign whatever it likes
			for k, i := range PartyIndex(party) {
				if i == as {
					self = k
				}
			}
		}
		rt := func() *btss.MessageRouting {
			return &btss.MessageRouting{From: &btss.PartyID{MessageWrapper_PartyID: &btss.MessageWrapper_PartyID{Id: self, Moniker: "x", Key: []byte{1}}, Index: rng.Intn(5) - 1}, IsBroadcast: rng.P(1, 2)}
		}
		w.Routing = rt()
		for i := range bulk {
			bulk[i].Routing = rt()
		}
		k := 0
		if len(bulk) > 0 {
			k = rng.Intn(len(bulk))
		}
		switch rng.Intn(12) {
		case 0:
			w.Routing = nil
		case 1:
			w.Routing.From = nil
		case 2:
			w.Routing.From.MessageWrapper_PartyID = nil
		case 3:
			w.Routing.From.Id = []string{"", "99", "-1", "x"}[rng.Intn(4)]
		case 4:
			if len(bulk) > 0 {
				bulk[k].Routing = nil
			}
		case 5:
			if len(bulk) > 0 {
				bulk[k].Routing.From = nil
			}
		case 6:
			if len(bulk) > 0 {
				bulk[k].Routing.From.MessageWrapper_PartyID = nil
			}
		case 7:
			if len(bulk) > 0 {
				bulk[k].Routing.From.Id = []string{"", "99", "-1", "x"}[rng.Intn(4)]
			}
		case 8:
			if len(bulk) > 0 {
				bulk[k].MsgIdentifier = []string{"", "x"}[rng.Intn(2)]
			}
		case 9:
			if len(bulk) > 0 {
				bulk[k].WiredBulkMsgs = randBytes(rng, rng.Intn(30))
			}
		case 10:
			bulk = nil
		case 11:
			bulk = append(bulk, bulk...)
		}
		if w.Routing != nil && w.Routing.From != nil && w.Routing.From.MessageWrapper_PartyID == nil {
			// JSON cannot express it: the field is simply absent
			w.Message, _ = json.Marshal(bulk)
			Resign(&w, as, id)
			return wrap(tW, id, []byte(fmt.Sprintf(`{"routing":{"From":{"index":0},"IsBroadcast":%v},"round_info":%q,"message":null}`, rng.P(1, 2), w.RoundInfo)))
		}
		var err error
		if w.Message, err = safeJSON(bulk); err != nil {
			w.Message = []byte(`[{"WiredBulkMsgs":null,"MsgIdentifier":"","Routing":{"From":{}}}]`)
		}
		Resign(&w, as, id)
		return wrapJ(tW, id, &w)
	case "ver":
		key := roundKey(rng, op, len(party))
		if rng.P(1, 3) {
			key = []string{"", "-", "x", "0", "0-", "-KGRound1Message", "99-KGRound1Message", "0-nothing"}[rng.Intn(8)]
		}
		h := hashString(randBytes(simrt.NewRNG(f.Seed&7, "h"), 32)) // attackers may agree
		if rng.P(1, 4) {
			h = []string{"", "x"}[rng.Intn(2)]
		}
		return wrapJ([]int{tV, tV, tV, tKGVer, tKSVer}[rng.Intn(5)], id, &messages.BroadcastConfirmMessage{P2PID: Ids[party[rng.Intn(len(party))]].Peer.String(), Key: key, Hash: h})
	case "claim": // confirms a broadcast in the name of others, with a hash nobody else has
		b := m
		if b == nil || b.Wire == nil || b.Wire.Routing == nil || !b.Wire.Routing.IsBroadcast || b.From == f.Node {
			return nil
		}
		return wrapJ(tV, id, &messages.BroadcastConfirmMessage{P2PID: Ids[party[rng.Intn(len(party))]].Peer.String(), Key: b.Wire.GetCacheKey(), Hash: hashString(randBytes(simrt.NewRNG(f.Seed, "h"), 32))})
	case "ownver": // a sender confirms its own broadcast
		b := in.pickWire(rng, func(x *Msg) bool {
			return x.MsgID == id && x.From == f.Node && x.Wire != nil && x.Wire.Routing != nil && x.Wire.Routing.IsBroadcast
		})
		if b == nil {
			return nil
		}
		return wrapJ(tV, id, &messages.BroadcastConfirmMessage{P2PID: Ids[f.Node].Peer.String(), Key: b.Wire.GetCacheKey(), Hash: hashString(b.Wire.Message)})
	case "done":
		return wrapJ(tDone, id, &messages.TssTaskNotifier{TaskDone: !rng.P(1, 8)})
	case "ctl":
		x := &messages.TssControl{ReqKey: roundKey(rng, op, len(party)), ReqHash: hashString(randBytes(rng, 32)), RequestType: messages.THORChainTSSMessageType(rng.Intn(7))}
		b := wire(func(x *Msg) bool { return x.Wire.Routing != nil && x.Wire.Routing.IsBroadcast })
		if b != nil && rng.P(3, 4) {
			x.ReqHash = hashString(b.Wire.Message)
			x.ReqKey = b.Wire.GetCacheKey()
			x.RequestType = b.Wrapped.MessageType
			w := *b.Wire
			switch rng.Intn(5) {
			case 0:
			case 1:
				x.Msg = &w
			case 2:
				w.Routing = nil
				x.Msg = &w
			case 3:
				w.Sig = nil
				x.Msg = &w
			case 4:
				mutateBulk(&w, rng, -1, -1)
				x.Msg = &w
			}
		} else {
			x.Msg = []*messages.WireMessage{nil, {}, {Routing: &btss.MessageRouting{}}}[rng.Intn(3)]
			if rng.P(1, 3) {
				x.ReqKey = []string{"", "x", "-"}[rng.Intn(3)]
			}
		}
		return wrapJ(tCtl, id, x)
	case "join":
		ids := []string{id, id, "", "x", strings.Repeat("a", 5000)}
		b, err := proto.Marshal(&messages.JoinPartyRequest{ID: ids[rng.Intn(len(ids))]})
		must(err)
		return framed(PJoin, b)
	case "joinl":
		all := peersOf(seq(len(c.Nodes)))
		lists := [][]string{nil, {""}, {"x"}, all, all[:1], peersOf([]int{f.Node}), append(append([]string{}, all...), all...)}
		x := &messages.JoinPartyLeaderComm{ID: []string{id, id, id, "", "x"}[rng.Intn(5)], MsgType: []string{"request", "response", "", "x"}[rng.Intn(4)],
			PeerIDs: lists[rng.Intn(len(lists))], Type: messages.JoinPartyLeaderComm_ResponseType(rng.Intn(6))}
		b, err := proto.Marshal(x)
		must(err)
		return framed(PJoinL, b)
	case "sig":
		if !kgen && op.Wallet >= 0 && rng.P(2, 3) {
			w := c.Wallets[op.Wallet]
			var sigs []*bcommon.ECSignature
			for _, x := range op.Msgs {
				sigs = append(sigs, SignWith(rng, w.Secret, x))
			}
			return framed(PSig, badNotice(rng, badNotices[rng.Intn(len(badNotices))], id, w, op.Msgs, sigs))
		}
		x := &messages.KeysignSignature{ID: []string{id, id, "", "x"}[rng.Intn(4)], KeysignStatus: messages.KeysignSignature_Status(rng.Intn(4))}
		for i := 0; i < rng.Intn(3); i++ {
			x.Signatures = append(x.Signatures, randBytes(rng, rng.Intn(80)))
		}
		b, err := proto.Marshal(x)
		must(err)
		return framed(PSig, b)
	case "replay": // something that was really sent once, to anybody
		b := in.pickWire(rng, func(x *Msg) bool { return x.F.Opener })
		if b == nil {
			return nil
		}
		return framed(string(b.F.Proto), b.F.Payload)

	// --- forgeries
	case "forge": // the content of another participant's message changed
		b := wire(nil)
		if b == nil {
			return nil
		}
		w := *b.Wire
		if !mutateBulk(&w, rng, -1, -1) {
			return nil
		}
		switch rng.Intn(3) {
		case 0:
			Resign(&w, f.Node, id)
		case 1:
			w.Sig = nil
		}
		return wrapJ(b.Type, id, &w)
	case "relabel": // the signed content kept, what is around it changed
		b := wire(nil)
		if b == nil || b.Wire.Routing == nil {
			return nil
		}
		w := *b.Wire
		r := *w.Routing
		w.Routing = &r
		switch rng.Intn(3) {
		case 0:
			w.Routing.IsBroadcast = !w.Routing.IsBroadcast
		case 1:
			key := roundKey(rng, op, len(party))
			w.RoundInfo = key[strings.IndexByte(key, '-')+1:]
		case 2:
			key := roundKey(rng, op, len(party))
			w.RoundInfo = key[strings.IndexByte(key, '-')+1:]
			w.Routing.IsBroadcast = true
		}
		return wrapJ(b.Type, id, &w)
	case "impersonate": // somebody else's name on the attacker's own words
		b := wire(nil)
		if b == nil || b.Wire.Routing == nil {
			return nil
		}
		w := *b.Wire
		other := party[rng.Intn(len(party))]
		if o := in.pickWire(rng, func(x *Msg) bool { return x.Wire != nil && x.From == other && x.Wire.Routing != nil }); o != nil {
			r := *w.Routing
			r.From = o.Wire.Routing.From
			w.Routing = &r
		}
		if rng.P(1, 2) {
			Resign(&w, f.Node, id)
		}
		return wrapJ(b.Type, id, &w)
	case "oldsession": // from another session, under this one's name
		b := in.pickWire(rng, func(x *Msg) bool { return x.Wire != nil && x.MsgID != id && x.Type == tW })
		if b == nil {
			return nil
		}
		return wrapJ(b.Type, id, b.Wire)
	case "inner": // an insider's own envelope with another's shares inside
		b := wire(func(x *Msg) bool { return x.From != f.Node })
		own := in.pickWire(rng, func(x *Msg) bool { return x.Wire != nil && x.From == f.Node && x.MsgID == id && x.Wire.Routing != nil })
		if b == nil || own == nil || b.Wire.Routing == nil {
			return nil
		}
		w := *b.Wire
		if !mutateBulk(&w, rng, -1, -1) {
			return nil
		}
		r := *w.Routing
		r.From = own.Wire.Routing.From
		w.Routing = &r
		if rng.P(1, 2) {
			w.RoundInfo = own.Wire.RoundInfo
		}
		Resign(&w, f.Node, id)
		return wrapJ(b.Type, id, &w)
	}
	panic("injection " + f.Act)
}

func safeJSON(v interface{}) (b []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return json.Marshal(v)
}

// mutateJSON removes or replaces a part of a message; an insider signs it.
func (in *injector) mutateJSON(f *Fault, b *Msg, id string, rng *simrt.RNG) *packet {
	var p interface{}
	if json.Unmarshal(b.Wrapped.Payload, &p) != nil {
		return nil
	}
	if b.Wire != nil && rng.P(2, 3) { // the inside
		var l interface{}
		if json.Unmarshal(b.Wire.Message, &l) != nil {
			return nil
		}
		l = oddly(l, rng)
		x, err := json.Marshal(l)
		must(err)
		w := *b.Wire
		w.Message = x
		if contains(in.c.P.Ops[0].Keys, f.Node) {
			if o := in.pickWire(rng, func(x *Msg) bool { return x.Wire != nil && x.From == f.Node && x.Wire.Routing != nil }); o != nil {
				w.Routing = o.Wire.Routing
			}
			Resign(&w, f.Node, id)
		}
		return wrapJ(b.Type, id, &w)
	}
	p = oddly(p, rng)
	x, err := json.Marshal(p)
	must(err)
	return wrap(b.Type, id, x)
}

// oddly changes one place of a JSON value.
func oddly(v interface{}, rng *simrt.RNG) interface{} {
	odd := []interface{}{nil, "", 0.0, -1.0, true, []interface{}{}, map[string]interface{}{}, "x", 1e30, "AAAA"}
	var places []func(interface{})
	var dels []func()
	var walk func(v interface{}, set func(interface{}))
	walk = func(v interface{}, set func(interface{})) {
		places = append(places, set)
		switch x := v.(type) {
		case map[string]interface{}:
			keys := []string{}
			for k := range x {
				keys = append(keys, k)
			}
			for _, k := range sortedPubs(keys) {
				k := k
				dels = append(dels, func() { delete(x, k) })
				walk(x[k], func(n interface{}) { x[k] = n })
			}
		case []interface{}:
			for i := range x {
				i := i
				if i < 40 {
					walk(x[i], func(n interface{}) { x[i] = n })
				}
			}
		}
	}
	out := v
	walk(v, func(n interface{}) { out = n })
	if len(dels) > 0 && rng.P(1, 2) {
		dels[rng.Intn(len(dels))]()
		return out
	}
	places[rng.Intn(len(places))](odd[rng.Intn(len(odd))])
	return out
}
