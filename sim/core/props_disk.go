//go:build go1.22

package core

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"gitlab.com/thorchain/tss/go-tss/verifsim/simfs"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// armDisk lets the plan's disk faults happen: the Nth matching operation on a
// file whose path contains M.Round fails in the way Act names.
func (c *Cluster) armDisk() {
	type arm struct {
		f          *Fault
		seen, hits int
	}
	var arms []*arm
	for i := range c.P.Faults {
		if f := &c.P.Faults[i]; f.Kind == "disk" && f.M != nil {
			arms = append(arms, &arm{f: f})
		}
	}
	if len(arms) == 0 {
		return
	}
	crash := map[string]*Fault{}
	c.FS.On = func(node, op, path string) *simfs.Fault {
		for _, a := range arms {
			m := a.f.M
			if NodeName(a.f.Node) != node || !strings.Contains(filepath.Base(path), m.Round) || (m.Proto != "" && m.Proto != op) {
				continue
			}
			if m.Op >= 0 && c.running[m.Op] == 0 {
				continue
			}
			a.seen++
			if a.seen <= m.Nth || (m.Count > 0 && a.hits >= m.Count) {
				continue
			}
			a.hits++
			crash[node] = a.f
			c.shapef("disk %s %s", a.f.Act, op)
			simrt.Logf("disk fault %s %s %s %s", node, op, filepath.Base(path), a.f.Act)
			c.Stat["fault.disk"]++
			if d, ok := c.Extra["diskhit"].(map[int]string); ok {
				d[a.f.Node] = a.f.Act
			}
			return &simfs.Fault{Act: a.f.Act, Frac: a.f.P}
		}
		return nil
	}
	c.FS.Crashed = func(node string) {
		f := crash[node]
		i := f.Node
		nd := c.Nodes[i]
		inc := nd.Inc
		simrt.Kill(Label(i, inc))
		c.faults++
		simrt.Go(0, func() {
			defer func() { c.faults-- }()
			if nd.Inc != inc {
				return
			}
			c.Crash(i, f.Arg.D())
			if f.Dur > 0 {
				time.Sleep(f.Dur.D())
				if nd.Inc == inc+1 && !nd.Up {
					c.Start(i)
				}
			}
		})
	}
}

// diskFault draws a fault at some operation on the named file.
func diskFault(r *simrt.RNG, node int, file string, acts []string) Fault {
	f := Fault{Kind: "disk", Node: node, Act: acts[r.Intn(len(acts))], P: r.Intn(1001), M: &Match{Round: file, Type: -1, Op: -1, Count: 1}}
	f.M.Proto = []string{"", "", "write", "write", "fsync", "rename", "open", "close"}[r.Intn(8)]
	if f.M.Proto == "" {
		f.M.Nth = r.Intn(6)
	}
	if f.Act == "short" {
		f.M.Proto, f.M.Nth = "write", 0
	}
	if r.P(1, 5) {
		f.M.Count = 0 // the disk stays like that
	}
	if strings.HasPrefix(f.Act, "crash") {
		f.M.Count = 1
		f.Arg = Ms([]int{0, 0, 50, 3000}[r.Intn(4)])
		f.Dur = Ms([]int{0, 300, 5000, 20000}[r.Intn(4)])
	}
	return f
}

var localState = regexp.MustCompile(`^localstate-(.*)\.json$`)

// judgeDisks looks at what the nodes' disks hold after losing power.
func (c *Cluster) judgeDisks(prop string) {
	c.FS.On, c.FS.Crashed = nil, nil
	owner := map[string][]int{}
	for _, w := range c.Wallets {
		owner[w.Pub] = w.Party
	}
	for _, cl := range c.Calls {
		if cl.Op.Kind == "keygen" && cl.OK() {
			owner[cl.KG.PubKey] = cl.Op.Keys
		}
	}
	for i, nd := range c.Nodes {
		simrt.Kill(Label(i, nd.Inc))
		c.FS.Crash(nd.Dir)
		for _, w := range c.Wallets {
			if !contains(w.Party, i) {
				continue
			}
			st, err := c.LoadShare(i, w.Pub)
			if err != nil {
				c.Fail(prop, "old share lost", "the share of an earlier key on %s cannot be loaded any more: %v", NodeName(i), err)
				continue
			}
			if err := CheckShare(&st, i, w.Party, w.Pub); err != nil {
				c.Fail(prop, "old share damaged", "the share of an earlier key on %s: %v", NodeName(i), err)
			} else if st.LocalData.Xi.Cmp(w.States[i].LocalData.Xi) != 0 {
				c.Fail(prop, "old share damaged", "the share of an earlier key on %s is another one", NodeName(i))
			}
		}
		es, _ := os.ReadDir(nd.Dir)
		for _, e := range es {
			m := localState.FindStringSubmatch(e.Name())
			if m == nil {
				continue
			}
			st, err := c.LoadShare(i, m[1])
			if err != nil {
				c.Stat["share.unloadable"]++
				continue
			}
			party := owner[m[1]]
			if party == nil { // of a key generation that nobody reported as successful
				for _, k := range st.ParticipantKeys {
					party = append(party, ByPub(k))
				}
			}
			c.Stat["share.loaded"]++
			if err := CheckShare(&st, i, party, m[1]); err != nil {
				c.Fail(prop, "damaged share loads", "%s of %s loads, but: %v", e.Name()[:20], NodeName(i), err)
			}
		}
	}
}

var bookLine = regexp.MustCompile(`^/ip4/10\.0\.0\.(\d+)/tcp/(\d+)/p2p/([A-Za-z0-9]+)$`)

// book lists the peers whose addresses a node's address book holds completely.
func (c *Cluster) book(i int) []int {
	b, err := os.ReadFile(filepath.Join(c.Nodes[i].Dir, "address_book.seed"))
	if err != nil {
		return nil
	}
	seen := map[int]bool{}
	for _, l := range strings.Split(string(b), "\n") {
		m := bookLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		k, _ := strconv.Atoi(m[1])
		if k--; k >= 0 && k < c.P.N && k != i && m[2] == fmt.Sprint(Port) && m[3] == Ids[k].Peer.String() {
			seen[k] = true
		}
	}
	var l []int
	for k := range seen {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}

// damage does to a file what a power failure does to one that was being
// rewritten in place, or to its last sector.
func (c *Cluster) damage(r *simrt.RNG, path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return "absent"
	}
	how := ""
	switch r.Intn(6) {
	case 0:
		how, b = "emptied", nil
	case 1, 2:
		k := r.Intn(len(b) + 1)
		how, b = fmt.Sprint("cut at ", k), b[:k]
	case 3:
		k := r.Intn(len(b) + 1)
		how = fmt.Sprint("zeros from ", k)
		for ; k < len(b); k++ {
			b[k] = 0
		}
	case 4: // the tail of a longer, older version
		ls := strings.SplitAfter(string(b), "\n")
		l := ls[r.Intn(len(ls))]
		k := r.Intn(len(l) + 1)
		how = fmt.Sprint("followed by ", len(l)-k, " old bytes")
		b = append(b, l[k:]...)
	case 5: // one line lost its beginning or its end
		ls := strings.SplitAfter(string(b), "\n")
		j := r.Intn(len(ls))
		if n := len(ls[j]); n > 0 {
			if r.P(1, 2) {
				ls[j] = ls[j][r.Intn(n):]
			} else {
				ls[j] = ls[j][:r.Intn(n)] + "\n"
			}
		}
		how, b = fmt.Sprint("line ", j, " torn"), []byte(strings.Join(ls, ""))
	}
	os.WriteFile(path, b, 0o655)
	return how
}

// onlyEntry leaves the entries of one peer.
func onlyEntry(path, peer string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return "absent"
	}
	var keep []string
	for _, l := range strings.SplitAfter(string(b), "\n") {
		if strings.Contains(l, peer) {
			keep = append(keep, l)
		}
	}
	must(os.WriteFile(path, []byte(strings.Join(keep, "")), 0o655))
	return fmt.Sprint(len(keep), " entries left")
}

// watchStarts demands that a node comes up whenever somebody it knows is there.
func (c *Cluster) watchStarts(prop string) {
	c.OnStart = func(i int) func(error) {
		nd := c.Nodes[i]
		known := c.book(i)
		inBook := len(known)
		for _, b := range c.P.Boot {
			if b != i && !contains(known, b) {
				known = append(known, b)
			}
		}
		live := map[int]int{}
		for _, k := range known {
			if c.Nodes[k].Up && !c.Net.IsCut(Ids[i].Peer, Ids[k].Peer) {
				live[k] = c.Nodes[k].Inc
			}
		}
		inc := nd.Inc
		return func(err error) {
			if inc > 0 {
				c.nontrivial = true
				c.Stat["restart"]++
				bootUp := false
				for _, b := range c.P.Boot {
					bootUp = bootUp || (b != i && c.Nodes[b].Up)
				}
				if !bootUp && err == nil && inBook > 0 {
					c.Stat["restart.by_book"]++
				}
			}
			if err == nil {
				if inc > 0 {
					// the DHT tells everybody who is there
					simrt.Go(0, func() {
						time.Sleep(60 * time.Second)
						for k := range c.Nodes {
							if k != i && c.Nodes[k].Up && nd.Up {
								c.Net.Introduce(Ids[i].Peer, Ids[k].Peer)
							}
						}
					})
				}
				return
			}
			for k, in := range live {
				if c.Nodes[k].Up && c.Nodes[k].Inc == in && !c.Net.IsCut(Ids[i].Peer, Ids[k].Peer) {
					c.Fail(prop, "restart fails", "%s does not start on the files it left behind although it knows %s, which is up: %v", NodeName(i), NodeName(k), err)
					return
				}
			}
			c.Stat["restart.alone"]++
		}
	}
}

func init() {
	acts := []string{"crash_before", "crash_after", "crash_mid", "enospc", "eio", "short"}

	// C15: shares survive crashes and disk faults
	register(&Prop{ID: "C15", Count: counts(900, 30000),
		Gen: func(r *simrt.RNG, p *Plan, tier string) {
			env(r, p, 2, 5)
			p.Net.SlowP = 0
			all := seq(p.N)
			p.Wallets = []WalletSpec{{Party: all}}
			op := kg(r, 0, all)
			op.Version = version(r, 25)
			op.Shuffle = r.P(1, 2)
			op.Skew = skews(r, all, 300)
			if p.N > 2 && r.P(1, 3) {
				op.Keys = pick(r, all, r.Range(2, p.N-1))
				op.Nodes = op.Keys
			}
			p.Ops = []Op{op}
			p.Params = map[string]int64{}
			if r.P(1, 2) { // power fails just when, or soon after, success is reported
				p.Params["crash_ok"] = int64(r.Range(1, 1<<p.N-1))
				p.Params["crash_delay"] = int64([]int{0, 0, 0, 1, 20, 3000}[r.Intn(6)])
			}
			for i := 0; i < r.Intn(4); i++ {
				v := op.Keys[r.Intn(len(op.Keys))]
				switch {
				case r.P(1, 6):
					p.Faults = append(p.Faults, Fault{Kind: "crash", Op: 0, Node: v, At: Ms(r.Intn(span(&op))), Arg: Ms(r.Intn(2) * 200)})
				case r.P(1, 8):
					p.Faults = append(p.Faults, Fault{Kind: "stop", Op: 0, Node: v, At: Ms(r.Intn(span(&op)))})
				default:
					file := "localstate"
					if r.P(1, 6) {
						file = "address_book"
					}
					p.Faults = append(p.Faults, diskFault(r, v, file, acts))
				}
			}
			// sign with the new key, and with the old one
			a := ks(r, 1, -1, op.Keys)
			a.Msgs = messagesN(r, batch(r))
			a.After, a.At, a.Heal = []int{0}, Ms(r.Intn(8000)), true
			oldSigners(r, &a, 30)
			a.Skew = skews(r, a.Nodes, 300)
			b := ks(r, 2, 0, all)
			b.After, b.At = []int{1}, Ms(r.Intn(1000))
			oldSigners(r, &b, 30)
			p.Ops = append(p.Ops, a, b)
		},
		Setup: func(c *Cluster) {
			c.armDisk()
			mask, delay := c.P.Params["crash_ok"], Ms(c.P.Params["crash_delay"])
			c.OnCall = append(c.OnCall, func(cl *Call) {
				if cl.Op.ID != 0 || !cl.OK() || mask&(1<<cl.Node) == 0 || c.Nodes[cl.Node].Inc != cl.Inc {
					return
				}
				fire := func() {
					if c.Nodes[cl.Node].Inc == cl.Inc {
						c.Stat["fault.crash_at_success"]++
						c.shapef("crash_ok")
						c.Crash(cl.Node, 0)
					}
				}
				if delay == 0 {
					fire()
				} else {
					c.faults++
					simrt.Go(0, func() { time.Sleep(delay.D()); fire(); c.faults-- })
				}
			})
		},
		Judge: func(c *Cluster) {
			all := len(c.OpCalls(0)) > 0
			for _, cl := range c.OpCalls(0) {
				all = all && cl.OK()
				if cl.OK() {
					c.Stat["keygen.ok"]++
				} else {
					c.Stat["keygen.failed"]++
				}
			}
			c.JudgeSucceed("C15", func(cl *Call) bool { return cl.Op.ID == 2 || cl.Op.ID == 1 && all })
			c.FS.Loss = 800
			c.judgeDisks("C15")
			c.JudgeKeygen("C15")
		}})

	// C16: a node restarts after any crash and rejoins
	register(&Prop{ID: "C16", Count: counts(700, 25000),
		Gen: func(r *simrt.RNG, p *Plan, tier string) {
			env(r, p, 3, 5)
			p.Net.SlowP = 0
			all := seq(p.N)
			p.Wallets = []WalletSpec{{Party: all}}
			p.Params = map[string]int64{}
			op := kg(r, 0, all)
			if r.P(1, 2) {
				op = ks(r, 0, 0, all)
			}
			oldSigners(r, &op, 40)
			op.Nodes = all
			p.Ops = []Op{op}
			t := Threshold(p.N)
			down := 0 // nodes that stay down during the second ceremony
			if p.N-t-1 > 0 {
				down = r.Intn(p.N - t)
			}
			var gone []int
			if down > 0 {
				if r.P(2, 3) {
					gone = append(gone, p.Boot...)
				}
				for _, i := range r.Perm(p.N) {
					if len(gone) < down && !contains(gone, i) && (len(gone) > 0 || !contains(p.Boot, i)) {
						gone = append(gone, i)
					}
				}
				if len(gone) > down {
					gone = gone[:down]
				}
			}
			up := without(all, gone...)
			// some nodes restart, some with a damaged address book
			var back []int
			for i := 0; i < r.Range(1, 3); i++ {
				v := up[r.Intn(len(up))]
				if contains(back, v) {
					continue
				}
				back = append(back, v)
				when := Ms(r.Intn(span(&op)))
				after := 0 // the operation it counts from
				if r.P(1, 2) {
					after, when = 0, Ms(span(&op)+r.Intn(20000))
				}
				dur := Ms([]int{200, 4000, 12000, 25000}[r.Intn(4)])
				switch r.Intn(5) {
				case 0, 1:
					p.Faults = append(p.Faults, Fault{Kind: "crash", Op: after, Node: v, At: when, Dur: dur, Arg: Ms(r.Intn(2) * 300)})
				case 2:
					p.Faults = append(p.Faults, Fault{Kind: "stop", Op: after, Node: v, At: when, Dur: dur})
				default:
					f := diskFault(r, v, "address_book", []string{"crash_before", "crash_after", "crash_mid"})
					f.Dur = dur
					f.M.Op = 0
					p.Faults = append(p.Faults, f)
					if r.P(1, 2) { // if the ceremony never gets there
						p.Faults = append(p.Faults, Fault{Kind: "crash", Op: 0, Node: v, At: Ms(span(&op) + 9000), Dur: dur})
					}
				}
				if r.P(1, 2) {
					p.Params[fmt.Sprint("torn", v)] = int64(1 + r.Intn(1<<30))
					if len(gone) > 0 && r.P(1, 2) { // of all entries one remains whose node is gone
						p.Params[fmt.Sprint("only", v)] = int64(1 + gone[r.Intn(len(gone))])
					}
				}
			}
			for _, v := range gone {
				p.Faults = append(p.Faults, Fault{Kind: []string{"crash", "stop"}[r.Intn(2)], Op: 0, Node: v, At: Ms(r.Intn(span(&op) + 8000))})
			}
			if lone := without(up, p.Boot...); len(gone) > 0 && !contains(gone, p.Boot[0]) && len(lone) > 0 && r.P(1, 2) {
				// a node comes back with the address of one node that is gone and the bootstrap nodes up
				v := lone[r.Intn(len(lone))]
				var kept []Fault
				for _, f := range p.Faults {
					if f.Node != v {
						kept = append(kept, f)
					}
				}
				p.Faults = append(kept, Fault{Kind: "crash", Op: 0, Node: v, At: Ms(span(&op) + 9000 + r.Intn(5000)), Dur: Ms(8000 + r.Intn(4000))})
				p.Params[fmt.Sprint("torn", v)] = int64(1 + r.Intn(1<<30))
				p.Params[fmt.Sprint("only", v)] = int64(1 + gone[r.Intn(len(gone))])
			}
			if r.P(1, 4) {
				p.Faults = append(p.Faults, diskFault(r, up[r.Intn(len(up))], "address_book", []string{"enospc", "eio", "short"}))
			}
			a := ks(r, 1, 0, up)
			a.Version = vOld
			if len(gone) == 0 {
				a.Version = version(r, 50)
			}
			a.After, a.At = []int{0}, Ms(150000)
			a.Skew = skews(r, a.Nodes, 300)
			b := ks(r, 2, 0, all)
			b.After, b.At, b.Heal = []int{1}, Ms(r.Intn(1000)), true
			b.Version = version(r, 30)
			p.Ops = append(p.Ops, a, b)
		},
		Setup: func(c *Cluster) {
			c.armDisk()
			c.watchStarts("C16")
			c.OnCrash = func(i int) {
				if s := c.P.Params[fmt.Sprint("torn", i)]; s != 0 && c.Nodes[i].Inc == 1 {
					book := filepath.Join(c.Nodes[i].Dir, "address_book.seed")
					how := ""
					if only := c.P.Params[fmt.Sprint("only", i)]; only != 0 {
						how = onlyEntry(book, Ids[only-1].Peer.String())
					} else {
						how = c.damage(simrt.NewRNG(uint64(s), "torn"), book)
					}
					c.Stat["fault.torn_book"]++
					c.shapef("torn")
					simrt.Logf("address book of %s %s", NodeName(i), how)
				}
			}
			c.OnCall = append(c.OnCall, func(cl *Call) {
				// what a successful ceremony leaves behind
				if !cl.OK() || cl.Op.Kind != "keygen" || len(c.P.Faults) > 0 && c.diskFaulted(cl.Node) {
					return
				}
				known := c.book(cl.Node)
				for _, k := range cl.Op.Keys {
					if k != cl.Node && !contains(known, k) && c.Nodes[k].Inc == 0 && c.Nodes[cl.Node].Inc == cl.Inc {
						c.Fail("C16", "address not stored", "%s has not stored the address of %s after a successful key generation", NodeName(cl.Node), NodeName(k))
					}
				}
			})
		},
		Judge: func(c *Cluster) {
			alone := c.Stat["restart.alone"] > 0
			c.JudgeSucceed("C16", func(cl *Call) bool { return cl.Op.ID == 2 || cl.Op.ID == 1 && !alone })
		}})
}

func (c *Cluster) diskFaulted(i int) bool {
	for _, f := range c.P.Faults {
		if f.Kind == "disk" && f.Node == i {
			return true
		}
	}
	return false
}
