//go:build go1.22

package core

import (
	"fmt"
	"strings"
	"time"

	"github.com/prometheus/client_golang/prometheus"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// gauges reads what the monitored node exports.
func gauges() map[string]float64 {
	out := map[string]float64{}
	fams, err := prometheus.DefaultGatherer.Gather()
	must(err)
	for _, f := range fams {
		if !strings.HasPrefix(f.GetName(), "Tss_Tss_") {
			continue
		}
		for _, m := range f.GetMetric() {
			k := strings.TrimPrefix(f.GetName(), "Tss_Tss_")
			for _, l := range m.GetLabel() { // sorted by name
				k += " " + l.GetValue()
			}
			v := 0.0
			if m.GetCounter() != nil {
				v = m.GetCounter().GetValue()
			} else {
				v = m.GetGauge().GetValue()
			}
			out[k] += v
		}
	}
	return out
}

type account struct {
	c    *Cluster
	prop string
	node int
	prev map[string]float64
	span map[string][2]time.Duration // session -> when its first and last round message left
}

// expect computes the counters from the replies the node gave.
func (a *account) expect() (want map[string]float64, busy int) {
	want = map[string]float64{}
	for _, cl := range a.c.Calls {
		if cl.Node != a.node || cl.Inc != 0 || cl.Skipped {
			continue
		}
		if !cl.Done {
			busy++
			continue
		}
		k := cl.Op.Kind + " failure"
		if cl.OK() {
			k = cl.Op.Kind + " success"
		}
		want[k]++
	}
	return
}

func (a *account) check(cl *Call) {
	c := a.c
	got := gauges()
	want, busy := a.expect()
	prev := a.prev
	a.prev = got
	if busy > 0 {
		return
	}
	c.nontrivial = true
	c.Stat["metric.quiescent"]++
	for _, kind := range []string{"keygen", "keysign"} {
		for _, res := range []string{"success", "failure"} {
			k := kind + " " + res
			if got[k] != want[k] {
				c.Fail(a.prop, "counter "+k, "%s has counted %v for %q, but %v of its calls ended that way (after op%d: %s)", NodeName(a.node), got[k], k, want[k], cl.Op.ID, cl.Brief())
			}
		}
		n := want[kind+" success"] + want[kind+" failure"]
		joins := got["join_party success "+kind] + got["join_party failure "+kind]
		if kind == "keygen" && joins != n || joins > n {
			c.Fail(a.prop, "join counter", "%s has counted %v joins for %v %s calls", NodeName(a.node), joins, n, kind)
		}
		if kind == "keygen" && got["join_party success keygen"] < want["keygen success"] {
			c.Fail(a.prop, "join counter", "%s has counted %v successful joins for %v successful key generations", NodeName(a.node), got["join_party success keygen"], want["keygen success"])
		}
	}
	// the reply says whether joining succeeded
	b := cl.KG.Blame
	if cl.Op.Kind == "keysign" {
		b = cl.KS.Blame
	}
	if prev != nil && !cl.OK() && b.FailReason != "" && c.alone(cl) {
		k := "join_party success " + cl.Op.Kind
		if b.FailReason == blame.TssSyncFail {
			k = "join_party failure " + cl.Op.Kind
		}
		if b.FailReason != blame.InternalError && cl.Status() == common.Fail && got[k] != prev[k]+1 {
			c.Fail(a.prop, "join counter", "%s: op%d failed with %q, but %q went from %v to %v", NodeName(a.node), cl.Op.ID, b.FailReason, k, prev[k], got[k])
		}
	}
	// timings
	took := float64(cl.End - cl.Start)
	slack := float64(50 * time.Millisecond)
	for _, g := range []string{"keygen_time", "keysign_time", "joinparty_time keygen", "joinparty_time keysign"} {
		if got[g] < 0 {
			c.Fail(a.prop, "timing "+g, "%s is %v", g, got[g])
		}
		if prev == nil || !c.alone(cl) || got[g] == prev[g] {
			continue
		}
		if !strings.Contains(g, cl.Op.Kind) {
			c.Fail(a.prop, "timing "+g, "%s changed during a %s", g, cl.Op.Kind)
		} else if strings.HasPrefix(g, "key") && !cl.OK() {
			c.Fail(a.prop, "timing "+g, "%s was set by a failed %s (op%d: %s)", g, cl.Op.Kind, cl.Op.ID, cl.Brief())
		} else if got[g] > took+slack {
			c.Fail(a.prop, "timing "+g, "%s is %v although op%d took %v", g, time.Duration(got[g]), cl.Op.ID, time.Duration(took))
		}
	}
	if cl.OK() && c.alone(cl) {
		kind := cl.Op.Kind
		if got[kind+"_time"] <= 0 {
			c.Fail(a.prop, "timing "+kind+"_time", "%s_time is %v after a successful %s of %v", kind, got[kind+"_time"], kind, time.Duration(took))
		}
		if kind == "keygen" && got["keygen_time"]+got["joinparty_time keygen"] > took+slack {
			c.Fail(a.prop, "timing keygen_time", "keygen_time %v and joinparty_time %v exceed the %v op%d took", time.Duration(got["keygen_time"]), time.Duration(got["joinparty_time keygen"]), time.Duration(took), cl.Op.ID)
		}
		if sp, ok := a.span[c.SessionID(cl.Op)]; ok {
			if sp[0] > cl.Start && sp[1] < cl.End {
				if d := float64(sp[1] - sp[0]); got[kind+"_time"]+slack < d {
					c.Fail(a.prop, "timing "+kind+"_time", "%s_time is %v although the node exchanged round messages of op%d for %v", kind, time.Duration(got[kind+"_time"]), cl.Op.ID, time.Duration(d))
				}
				if d := float64(sp[0] - cl.Start); got["joinparty_time "+kind] > d+slack {
					c.Fail(a.prop, "timing joinparty_time", "joinparty_time is %v although round messages of op%d were sent after %v", time.Duration(got["joinparty_time "+kind]), cl.Op.ID, time.Duration(d))
				}
				c.Stat["metric.spans"]++
			}
		}
	}
}

// alone: no other call of the node overlapped this one.
func (c *Cluster) alone(cl *Call) bool {
	for _, o := range c.Calls {
		if o != cl && o.Node == cl.Node && !o.Skipped && o.Start <= cl.End && (!o.Done || o.End >= cl.Start) {
			return false
		}
	}
	return true
}

func init() {
	register(&Prop{ID: "C21", Count: counts(700, 25000),
		Gen: func(r *simrt.RNG, p *Plan, tier string) {
			env(r, p, 2, 5)
			p.Monitor = r.Intn(p.N)
			all := seq(p.N)
			p.Wallets = []WalletSpec{{Party: all}}
			seen := map[string]bool{}
			k := r.Range(1, 5)
			for i := 0; len(p.Ops) < k; i++ {
				id := len(p.Ops)
				var op Op
				if r.P(1, 3) {
					party := all
					if p.N > 2 && r.P(1, 4) {
						party = pick(r, without(all, p.Monitor), r.Range(1, p.N-1))
						party = sortedInts(append(party, p.Monitor))
					}
					op = kg(r, id, party)
					op.Version = version(r, 30)
				} else {
					op = ks(r, id, 0, all)
					oldSigners(r, &op, 35)
				}
				op.Skew = skews(r, op.Nodes, 800)
				op.Shuffle = r.P(1, 2)
				op.At = Ms(r.Intn(3000))
				if id > 0 && (r.P(3, 4) || op.Kind == "keygen") {
					op.After = []int{id - 1}
				}
				if s := sessionID(&op, ""); seen[s] && i < 50 && len(op.After) == 0 {
					continue
				} else {
					seen[s] = true
				}
				switch r.Intn(5) {
				case 0: // somebody does not take part
					if len(op.Nodes) > 1 {
						miss := op.Keys[r.Intn(len(op.Keys))]
						if miss != p.Monitor {
							op.Nodes = without(op.Nodes, miss)
						}
					}
				case 1:
					f := benign(r, p, &op)
					if f.Node != p.Monitor || !strings.HasPrefix(f.Kind, "crash") {
						p.Faults = append(p.Faults, f)
					}
				case 2:
					n := op.Keys[r.Intn(len(op.Keys))]
					if n != p.Monitor {
						f := hostile(r, &op, n)
						if !contains(p.Bad, n) {
							p.Bad = append(p.Bad, n)
						}
						p.Faults = append(p.Faults, f)
					}
				}
				p.Ops = append(p.Ops, op)
			}
		},
		Setup: func(c *Cluster) {
			a := &account{c: c, prop: "C21", node: c.P.Monitor, span: map[string][2]time.Duration{}}
			c.OnMsg = append(c.OnMsg, func(m *Msg) {
				if m.From == a.node && m.Proto == "tss" && (m.Type == tKG || m.Type == tKS) {
					now := simrt.Now()
					sp, ok := a.span[m.MsgID]
					if ok {
						for _, cl := range c.Calls { // of an earlier call
							if cl.Node == a.node && cl.Done && cl.End > sp[0] && c.SessionID(cl.Op) == m.MsgID {
								ok = false
							}
						}
					}
					if !ok {
						sp[0] = now
					}
					sp[1] = now
					a.span[m.MsgID] = sp
				}
			})
			c.Extra["account"] = a
			c.OnCall = append(c.OnCall, func(cl *Call) {
				if cl.Node == a.node && cl.Inc == 0 {
					a.check(cl)
				}
			})
		},
		Judge: func(c *Cluster) {
			for _, cl := range c.Calls {
				if cl.Node == c.P.Monitor && cl.Inc == 0 && cl.Done {
					c.Stat[fmt.Sprint("metric.", cl.Op.Kind, ".", cl.OK())]++
				}
			}
		},
	})
}
