//go:build go1.22

package core

import (
	"encoding/json"
	"time"
)

// Ms is a duration in milliseconds in plans.
type Ms int64

// D converts to a duration.
func (m Ms) D() time.Duration { return time.Duration(m) * time.Millisecond }

// Sched configures the scheduler of a run.
type Sched struct {
	Mode     uint32 `json:"mode"`
	Yield    uint64 `json:"yield,omitempty"`
	SlowP    uint64 `json:"slow_p,omitempty"`
	SlowMask uint32 `json:"slow_mask,omitempty"`
	SlowVal  uint32 `json:"slow_val,omitempty"`
	SlowMax  Ms     `json:"slow_max,omitempty"`
	NCPU     int    `json:"ncpu,omitempty"`
}

// NetK configures the network of a run.
type NetK struct {
	LatMin, LatMax Ms
	SlowP          int `json:",omitempty"`
	SlowMax        Ms  `json:",omitempty"`
	FragP          int `json:",omitempty"`
	Window         int `json:",omitempty"`
	NegP           int `json:",omitempty"`
}

// Op is something the embedding applications do.
type Op struct {
	ID      int            `json:"id"`
	Kind    string         `json:"kind"` // keygen, keysign
	At      Ms             `json:"at"`   // after the operations in After have ended (or the start)
	After   []int          `json:"after,omitempty"`
	Nodes   []int          `json:"nodes"`          // who calls
	Keys    []int          `json:"keys,omitempty"` // Request.Keys / SignerPubKeys
	Skew    map[int]Ms     `json:"skew,omitempty"`
	Wallet  int            `json:"wallet,omitempty"` // dealt wallet, or -1-k: the key made by op k
	Msgs    [][]byte       `json:"msgs,omitempty"`
	Version string         `json:"version"`
	Height  int64          `json:"height"`
	Shuffle bool           `json:"shuffle,omitempty"` // each caller lists keys and messages in its own order
	Per     map[int][]byte `json:"per,omitempty"`
	Tag     string         `json:"tag,omitempty"`
	Heal    bool           `json:"heal,omitempty"` // everything broken is repaired first
	T       int            `json:"t,omitempty"`    // component scenarios: threshold, count or type
	Dur     Ms             `json:"dur,omitempty"`
	Size    int64          `json:"size,omitempty"`
}

// Match selects frames.
type Match struct {
	Proto string `json:"proto,omitempty"` // tss join joinl sig ping
	Type  int    `json:"type"`            // message type, -1: any
	Round string `json:"round,omitempty"` // prefix of the round name
	To    []int  `json:"to,omitempty"`    // empty: anyone
	Nth   int    `json:"nth,omitempty"`   // skip that many matching frames first
	Count int    `json:"count,omitempty"` // 0: all following
	Op    int    `json:"op"`              // -1: any
	Reply bool   `json:"reply,omitempty"` // frames of the stream's acceptor
	Own   bool   `json:"own,omitempty"`   // of that operation's session only
}

// Fault is something that goes wrong.
type Fault struct {
	Kind string `json:"kind"`
	At   Ms     `json:"at,omitempty"`
	Op   int    `json:"op,omitempty"` // time counts from the start of this operation (-1: from the beginning)
	Node int    `json:"node"`
	Peer []int  `json:"peer,omitempty"`
	Dur  Ms     `json:"dur,omitempty"`
	Arg  Ms     `json:"arg,omitempty"`
	P    int    `json:"p,omitempty"`
	M    *Match `json:"m,omitempty"`
	Act  string `json:"act,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
}

// WalletSpec is a key that exists before the run.
type WalletSpec struct {
	Party []int `json:"party"`
}

// Plan is one run.
type Plan struct {
	Prop     string           `json:"prop"`
	Scn      string           `json:"scn"`
	Seed     uint64           `json:"seed"`
	N        int              `json:"n"`
	Boot     []int            `json:"boot"` // bootstrap nodes
	Wallets  []WalletSpec     `json:"wallets,omitempty"`
	Ops      []Op             `json:"ops,omitempty"`
	Faults   []Fault          `json:"faults,omitempty"`
	Sched    Sched            `json:"sched"`
	Net      NetK             `json:"net"`
	PartyT   Ms               `json:"party_t"`
	KeygenT  Ms               `json:"keygen_t"`
	KeysignT Ms               `json:"keysign_t"`
	Monitor  int              `json:"monitor"` // node with metrics enabled, -1: none
	Params   map[string]int64 `json:"params,omitempty"`
	Steps    []Step           `json:"steps,omitempty"` // component scenarios
	Bad      []int            `json:"bad,omitempty"`   // nodes that are faulty by plan
}

// Step is one action of a component-level scenario.
type Step struct {
	At   Ms     `json:"at"`
	Node int    `json:"node"`
	Do   string `json:"do"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
	C    int    `json:"c,omitempty"`
	L    []int  `json:"l,omitempty"`
	S    string `json:"s,omitempty"`
	Data []byte `json:"data,omitempty"`
}

// JSON renders a plan.
func (p *Plan) JSON() []byte {
	b, err := json.MarshalIndent(p, "", " ")
	must(err)
	return b
}

// Clone copies a plan.
func (p *Plan) Clone() *Plan {
	var q Plan
	must(json.Unmarshal(p.JSON(), &q))
	return &q
}

// Violation is a broken property.
type Violation struct {
	Prop string `json:"prop"`
	Key  string `json:"key"`  // stable identification of what failed
	What string `json:"what"` // human readable
}

// Result of one run.
type Result struct {
	Plan      *Plan          `json:"-"`
	Viol      []Violation    `json:"viol,omitempty"`
	Stat      map[string]int `json:"stat"`
	SimTime   float64        `json:"sim_s"`
	Wall      float64        `json:"wall_s"`
	Picks     uint64         `json:"picks"`
	Multi     uint64         `json:"multi"`
	SchedHash uint64         `json:"sched_hash"`
	LogHash   uint64         `json:"log_hash"`
	Sites     int            `json:"sites"`
	Nontriv   bool           `json:"nontriv"`
	Shape     string         `json:"shape"`
	Trace     string         `json:"trace,omitempty"`
	Fatal     string         `json:"fatal,omitempty"`
}
