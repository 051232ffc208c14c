//go:build go1.22

package core

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simnet"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// roundNo orders the protocol messages by the round they belong to.
var roundNo = map[string]int{
	"KGRound1Message": 1, "KGRound2Message1": 2, "KGRound2Message2": 2, "KGRound3Message": 3,
	"SignRound1Message1": 1, "SignRound1Message2": 1, "SignRound2Message": 2, "SignRound3Message": 3, "SignRound4Message": 4,
	"SignRound5Message": 5, "SignRound6Message": 6, "SignRound7Message": 7,
}

// View is what one node has sent and received in one session.
type View struct {
	Round  int                                // the last round this node sent messages of
	At     time.Duration                      // when it first did
	Got    map[int]map[string][]time.Duration // sender -> message -> when it was read
	Joins  map[int][]time.Duration            // join requests read, by sender
	Leader []time.Duration                    // replies of the leader read
	Ctl    map[int]int
}

// Views records what every node sees of every session.
func (c *Cluster) TrackViews() {
	c.Views = map[string]*View{}
	c.Bcast = map[string]map[int]string{}
	c.OnMsg = append(c.OnMsg, func(m *Msg) {
		if r := roundNo[m.Round]; m.Proto == "tss" && m.Wire != nil && r > 0 {
			v := c.View(m.MsgID, m.From)
			if r > v.Round {
				v.Round, v.At = r, simrt.Now()
			}
		}
	})
	c.Net.OnRead = func(f *simnet.Frame) {
		m := Parse(f)
		if m.From < 0 || m.To < 0 || m.MsgID == "" {
			return
		}
		v := c.View(m.MsgID, m.To)
		now := simrt.Now()
		switch m.Proto {
		case "tss":
			if m.Wire != nil && roundNo[m.Round] > 0 {
				g := v.Got[m.From]
				if g == nil {
					g = map[string][]time.Duration{}
					v.Got[m.From] = g
				}
				g[m.Round] = append(g[m.Round], now)
				if m.Wire.Routing != nil && m.Wire.Routing.IsBroadcast {
					k := fmt.Sprint(m.MsgID, "/", m.From, "/", m.Round)
					if c.Bcast[k] == nil {
						c.Bcast[k] = map[int]string{}
					}
					c.Bcast[k][m.To] = string(m.Wire.Message)
				}
			}
		case "join":
			v.Joins[m.From] = append(v.Joins[m.From], now)
		case "joinl":
			if m.Lead != nil && m.Lead.MsgType == "request" {
				v.Joins[m.From] = append(v.Joins[m.From], now)
			} else if m.Lead != nil {
				v.Leader = append(v.Leader, now)
			}
		}
	}
}

// View of a session by a node.
func (c *Cluster) View(msgID string, node int) *View {
	k := fmt.Sprint(msgID, "/", node)
	v := c.Views[k]
	if v == nil {
		v = &View{Got: map[int]map[string][]time.Duration{}, Joins: map[int][]time.Duration{}}
		c.Views[k] = v
	}
	return v
}

func within(l []time.Duration, from, to time.Duration) bool {
	for _, t := range l {
		if t >= from && t <= to {
			return true
		}
	}
	return false
}

// Missing lists what a node had not received from another one of all that was
// due by the round the node itself had reached, at a second before it gave up.
func (c *Cluster) Missing(cl *Call, w int) []string {
	v := c.View(c.SessionID(cl.Op), cl.Node)
	var out []string
	pre := "Sign"
	if cl.Op.Kind == "keygen" {
		pre = "KG"
	}
	for name, r := range roundNo {
		if strings.HasPrefix(name, pre) && r <= v.Round && !within(v.Got[w][name], cl.Start, cl.End-time.Second) {
			out = append(out, name)
		}
	}
	sort.Strings(out)
	return out
}

// leaderOf tells who leads a call's session (-1: nobody).
func (c *Cluster) leaderOf(op *Op) int {
	if isOld(op.Version) {
		return -1
	}
	return c.P.Leader(op, c.PartyOf(op))
}

// Excused reports whether a node had reason to suspect a correct one.
func (c *Cluster) Excused(cl *Call, w int) bool {
	if cl.Reason() == blame.TssSyncFail {
		l := c.leaderOf(cl.Op)
		if l < 0 {
			v := c.View(c.SessionID(cl.Op), cl.Node)
			return !within(v.Joins[w], cl.Start+10*time.Millisecond, cl.End-time.Second)
		}
		if w == l {
			return true // whoever leads answers for the joining
		}
		if contains(c.P.Bad, l) {
			return true
		}
		for _, o := range c.OpCalls(cl.Op.ID) {
			if o.Node == l && o.Done {
				v := c.View(c.SessionID(cl.Op), l)
				return !within(v.Joins[w], o.Start+10*time.Millisecond, o.End-time.Second)
			}
		}
		return true
	}
	// broadcasts need the confirmation of others: with too many faulty ones
	// nobody can be sure who is to blame
	nbad := 0
	party := c.Ceremony(cl.Op)
	for _, b := range c.P.Bad {
		if contains(party, b) {
			nbad++
		}
	}
	return nbad > tolerated(len(party)) || len(c.Missing(cl, w)) > 0
}
