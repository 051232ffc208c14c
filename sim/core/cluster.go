//go:build go1.22

package core

import (
	"context"
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	discovery "github.com/libp2p/go-libp2p-discovery"
	dht "github.com/libp2p/go-libp2p-kad-dht"
	"github.com/libp2p/go-libp2p-peerstore/addr"
	maddr "github.com/multiformats/go-multiaddr"

	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"gitlab.com/thorchain/tss/go-tss/tss"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simfs"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simnet"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// Port all nodes listen on.
const Port = 6668

// Node is a machine of the cluster.
type Node struct {
	Idx      int
	Inc      int
	Srv      *tss.TssServer
	Up       bool
	Faulty   bool // not covered by promises made to correct nodes
	StartErr error
	Dir      string
	Started  int // successful starts
	Goal     bool
	born     simrt.Order // requests come after the start
}

// Call is one request made to one node.
type Call struct {
	Op         *Op
	Node, Inc  int
	Start, End time.Duration
	StartSeq   int
	EndSeq     int
	Skipped    bool // the node was down
	Done       bool
	KG         keygen.Response
	KS         keysign.Response
	Err        error
	KGReq      keygen.Request
	KSReq      keysign.Request
	Peers      []int // component scenarios: what came back
	Leader     int
	Data       [][]byte
	Info       map[string]int64
	Msgs       []string // as given, before the callee saw them
	Keys       []string
}

// OK reports whether the call succeeded.
func (c *Call) OK() bool {
	if !c.Done || c.Err != nil {
		return false
	}
	switch c.Op.Kind {
	case "keygen":
		return c.KG.Status == common.Success
	case "keysign":
		return c.KS.Status == common.Success
	}
	return true
}

// Status is the reported status.
func (c *Call) Status() common.Status {
	if c.Op.Kind == "keygen" {
		return c.KG.Status
	}
	return c.KS.Status
}

var rootDir string

// Brief renders a call's outcome.
func (c *Call) Brief() string {
	if c.Skipped {
		return "skipped"
	}
	if !c.Done {
		return "running"
	}
	if c.Op.Kind != "keygen" && c.Op.Kind != "keysign" {
		return fmt.Sprintf("%s err=%v peers=%v leader=%d data=%d info=%v", c.Op.Kind, c.Err, c.Peers, c.Leader, len(c.Data), c.Info)
	}
	b := c.KS.Blame
	extra := fmt.Sprintf("%d sigs", len(c.KS.Signatures))
	if c.Op.Kind == "keygen" {
		b = c.KG.Blame
		extra = c.KG.PubKey
	}
	var who []string
	for _, n := range b.BlameNodes {
		who = append(who, NodeName(ByPub(n.Pubkey)))
	}
	st := map[common.Status]string{common.NA: "NA", common.Success: "success", common.Fail: "fail"}[c.Status()]
	e := strings.ReplaceAll(fmt.Sprint(c.Err), rootDir, "")
	return fmt.Sprintf("%s err=%v %s blame=%q %v unicast=%v", st, e, extra, b.FailReason, who, b.IsUnicast)
}

// NodeName names nodes in reports.
func NodeName(i int) string {
	if i < 0 {
		return "?"
	}
	return fmt.Sprintf("n%d", i)
}

// Cluster is the system under simulation.
type Cluster struct {
	P          *Plan
	Net        *simnet.Net
	FS         *simfs.FS
	Nodes      []*Node
	Wallets    []*Wallet
	Calls      []*Call
	Root       string
	rng        *simrt.RNG
	opEnd      map[int]chan struct{}
	opStart    map[int]time.Duration
	opBegan    map[int]chan struct{}
	running    map[int]int
	frames     []*frameFault
	Stat       map[string]int
	Viol       []Violation
	OnMsg      []func(m *Msg)
	OnJudge    []func(c *Cluster) // oracles
	Extra      map[string]interface{}
	shape      []string
	keyOf      map[int]string // op -> key made
	OnCall     []func(*Call)
	OnStart    func(i int) func(error) // start of a node, and its outcome
	OnCrash    func(i int)             // after a node died and its disk settled
	Boot       func(i int) error       // component scenarios: starts a node
	Exec       func(cl *Call)          // component scenarios: performs a request
	Limit      func(op *Op) time.Duration
	nontrivial bool
	announced  map[string][]time.Duration // session+node -> when signatures were sent there
	picked     map[string][]int           // session -> the party its leader announced
	faults     int                        // timed faults under way
	Views      map[string]*View
	Bcast      map[string]map[int]string // what each node read of every broadcast
	Fed        map[string]map[int]bool   // which nodes gave what to their parties
}

// Label of a node's goroutines.
func Label(i, inc int) uint64 { return uint64(inc*64 + i + 1) }

func labelNode(l uint64) int { return int(l%64) - 1 }

// NewCluster prepares the environment of a plan.
func NewCluster(p *Plan, root string) *Cluster {
	c := &Cluster{P: p, Root: root, rng: simrt.NewRNG(p.Seed, "cluster"), opEnd: map[int]chan struct{}{}, opStart: map[int]time.Duration{},
		opBegan: map[int]chan struct{}{}, running: map[int]int{}, Stat: map[string]int{}, Extra: map[string]interface{}{}, keyOf: map[int]string{}, announced: map[string][]time.Duration{}, picked: map[string][]int{}}
	rootDir = root
	k := simnet.DefaultKnobs()
	if p.Net.LatMax > 0 {
		k.LatMin, k.LatMax = p.Net.LatMin.D(), p.Net.LatMax.D()
	}
	k.SlowP, k.SlowMax, k.FragP, k.NegotiateP = p.Net.SlowP, p.Net.SlowMax.D(), p.Net.FragP, p.Net.NegP
	if p.Net.Window > 0 {
		k.Window = p.Net.Window
	}
	c.Net = simnet.New(simrt.NewRNG(p.Seed, "net"), k)
	libp2p.SimNew = func(ctx context.Context, cfg *libp2p.Config) (host.Host, error) {
		return c.Net.NewHost(ctx, cfg, func(l uint64) (string, string) {
			i := labelNode(l)
			return fmt.Sprintf("10.0.0.%d", i+1), NodeName(i)
		})
	}
	dht.SimOff, discovery.SimOff = true, true
	for i := 0; i < p.N; i++ {
		c.Nodes = append(c.Nodes, &Node{Idx: i, Dir: filepath.Join(root, NodeName(i))})
	}
	for i := range p.Ops {
		c.opEnd[p.Ops[i].ID] = make(chan struct{})
		c.opBegan[p.Ops[i].ID] = make(chan struct{})
	}
	for k, w := range p.Wallets {
		wal := Deal(simrt.NewRNG(p.Seed, fmt.Sprint("wallet", k)), w.Party)
		c.Wallets = append(c.Wallets, wal)
		for _, i := range w.Party {
			if i < p.N {
				m, err := storage.NewFileStateMgr(c.Nodes[i].Dir)
				must(err)
				must(m.SaveLocalState(wal.States[i]))
			}
		}
	}
	for i := 0; i < p.N; i++ {
		must(os.MkdirAll(c.Nodes[i].Dir, 0o755))
	}
	c.FS = simfs.New(root, simrt.NewRNG(p.Seed, "disk"))
	c.markFaulty()
	c.armFrames()
	return c
}

// Conf of every node.
func (c *Cluster) Conf(i int) common.TssConfig {
	return common.TssConfig{PartyTimeout: c.P.PartyT.D(), KeyGenTimeout: c.P.KeygenT.D(), KeySignTimeout: c.P.KeysignT.D(),
		PreParamTimeout: time.Second, EnableMonitor: i == c.P.Monitor && c.Nodes[i].Inc == 0}
}

// Addr is a node's multiaddr.
func Addr(i int) maddr.Multiaddr {
	a, err := maddr.NewMultiaddr(fmt.Sprintf("/ip4/10.0.0.%d/tcp/%d/p2p/%s", i+1, Port, Ids[i].Peer))
	must(err)
	return a
}

// Start launches a node; it returns when the node is up or has failed to start.
func (c *Cluster) Start(i int) error {
	nd := c.Nodes[i]
	inc := nd.Inc
	done := make(chan struct{})
	var srv *tss.TssServer
	var err, err0 error
	ended := func(error) {}
	if c.OnStart != nil {
		ended = c.OnStart(i)
	}
	simrt.Go(Label(i, inc), func() {
		defer close(done)
		if c.Boot != nil {
			err0 = c.Boot(i)
			nd.born.Pass()
			return
		}
		var boot addr.AddrList
		for _, b := range c.P.Boot {
			if b != i {
				boot = append(boot, Addr(b))
			}
		}
		srv, err0 = tss.NewTss(boot, Port, Ids[i].Priv, "sim", nd.Dir, c.Conf(i), Ids[i].Pre, "")
		if err0 == nil {
			err0 = srv.Start()
		}
		nd.born.Pass()
	})
	err = fmt.Errorf("start did not return")
	for k := 0; k < 600 && nd.Inc == inc; k++ {
		t := time.NewTimer(time.Second)
		select {
		case <-done:
			k = 600
			err = err0
		case <-t.C:
		}
		t.Stop()
	}
	if nd.Inc != inc {
		return nil // crashed meanwhile
	}
	nd.StartErr = err
	simrt.Logf("start %s.%d err=%v", NodeName(i), inc, err)
	if err == nil {
		nd.Srv, nd.Up = srv, true
		nd.Started++
	}
	ended(err)
	if err != nil {
		return err
	}
	return nil
}

// Crash kills a node at this very point; only what its disk holds survives.
func (c *Cluster) Crash(i int, notice time.Duration) {
	nd := c.Nodes[i]
	simrt.Kill(Label(i, nd.Inc))
	nd.Inc++
	nd.Up = false
	simrt.Logf("crash %s", NodeName(i))
	c.Stat["fault.crash"]++
	c.Net.Crash(Ids[i].Peer, notice)
	c.FS.Crash(nd.Dir)
	if c.OnCrash != nil {
		c.OnCrash(i)
	}
}

// Stop shuts a node down in an orderly way.
func (c *Cluster) Stop(i int) bool {
	nd := c.Nodes[i]
	if !nd.Up {
		return true
	}
	srv := nd.Srv
	if srv == nil {
		return true
	}
	nd.Up = false
	c.Stat["fault.stop"]++
	done := make(chan struct{})
	simrt.Go(Label(i, nd.Inc), func() { nd.born.Pass(); srv.Stop(); close(done) })
	t := time.NewTimer(5 * time.Minute)
	defer t.Stop()
	select {
	case <-done:
		simrt.Logf("stopped %s", NodeName(i))
		return true
	case <-t.C:
		simrt.Logf("stop of %s hangs", NodeName(i))
		return false
	}
}

// StartAll brings every node up, bootstrap nodes first.
func (c *Cluster) StartAll() {
	isBoot := map[int]bool{}
	for _, b := range c.P.Boot {
		isBoot[b] = true
	}
	run := func(boot bool) {
		var wait []chan struct{}
		for i := range c.Nodes {
			if isBoot[i] != boot {
				continue
			}
			i := i
			d := make(chan struct{})
			wait = append(wait, d)
			go func() { c.Start(i); close(d) }()
		}
		for _, d := range wait {
			<-d
		}
	}
	run(true)
	run(false)
	time.Sleep(2 * time.Second)
	// everybody knows everybody once discovery has run
	for round := 0; round < 2; round++ {
		for i := range c.Nodes {
			for j := range c.Nodes {
				if i != j && c.Nodes[i].Up && c.Nodes[j].Up {
					c.Net.Introduce(Ids[i].Peer, Ids[j].Peer)
				}
			}
		}
	}
}

// AllUp reports whether every node runs.
func (c *Cluster) AllUp() bool {
	for _, n := range c.Nodes {
		if !n.Up {
			return false
		}
	}
	return true
}

// Fail records a violation.
func (c *Cluster) Fail(prop, key, format string, a ...interface{}) {
	w := fmt.Sprintf(format, a...)
	for _, v := range c.Viol {
		if v.Prop == prop && v.Key == key {
			return
		}
	}
	simrt.Logf("VIOLATION %s %s: %s", prop, key, w)
	c.Viol = append(c.Viol, Violation{prop, key, w})
}

// perm gives a per-node ordering of a list.
func perm(seed uint64, tag string, l []string) []string {
	r := simrt.NewRNG(seed, tag)
	out := make([]string, len(l))
	for i, k := range r.Perm(len(l)) {
		out[i] = l[k]
	}
	return out
}

// Bound on the duration of a call.
func (c *Cluster) Bound(op *Op) time.Duration {
	p := c.P
	if c.Limit != nil {
		return c.Limit(op)
	}
	if op.Kind == "keygen" {
		// joining, up to five round time-outs, task-done wait, stream operations
		return p.PartyT.D() + 6*p.KeygenT.D() + 60*time.Second
	}
	return p.PartyT.D() + 9*p.KeysignT.D() + 60*time.Second
}

// call performs one request on one node.
func (c *Cluster) call(op *Op, i int, opBase time.Duration) {
	time.Sleep(op.Skew[i].D())
	nd := c.Nodes[i]
	cl := &Call{Op: op, Node: i, Inc: nd.Inc}
	c.Calls = append(c.Calls, cl)
	if !nd.Up {
		cl.Skipped = true
		return
	}
	keys := Pubs(op.Keys)
	if op.Shuffle {
		keys = perm(c.P.Seed, fmt.Sprint("keys", op.ID, i), keys)
	}
	var msgs []string
	for _, m := range op.Msgs {
		msgs = append(msgs, base64.StdEncoding.EncodeToString(m))
	}
	if op.Shuffle {
		msgs = perm(c.P.Seed, fmt.Sprint("msgs", op.ID, i), msgs)
	}
	cl.Keys = append([]string{}, keys...)
	cl.Msgs = append([]string{}, msgs...)
	pool := ""
	switch op.Kind {
	case "keysign":
		pool = c.PoolOf(op)
		cl.KSReq = keysign.NewRequest(pool, msgs, op.Height, keys, op.Version)
	case "keygen":
		cl.KGReq = keygen.NewRequest(keys, op.Height, op.Version)
	}
	if strings.HasPrefix(op.Tag, "odd ") && (op.T == 0 || op.Nodes[0] == i) {
		odd(cl, op.Tag[4:])
	}
	cl.Start, cl.StartSeq = simrt.Now(), simrt.Seq()
	simrt.Logf("call op%d %s on %s.%d", op.ID, op.Kind, NodeName(i), cl.Inc)
	done := make(chan struct{})
	srv := nd.Srv
	simrt.Go(Label(i, cl.Inc), func() {
		nd.born.Pass()
		var kg keygen.Response
		var ks keysign.Response
		var err error
		switch op.Kind {
		case "keygen":
			kg, err = srv.Keygen(cl.KGReq)
		case "keysign":
			ks, err = srv.KeySign(cl.KSReq)
		default:
			c.Exec(cl)
			err = cl.Err
		}
		simrt.Check()
		cl.KG, cl.KS, cl.Err = kg, ks, err
		cl.End, cl.EndSeq = simrt.Now(), simrt.Seq()
		cl.Done = true
		close(done)
	})
	t := time.NewTimer(c.Bound(op))
	defer t.Stop()
	select {
	case <-done:
		simrt.Logf("ret  op%d on %s.%d after %.3fs: %s", op.ID, NodeName(i), cl.Inc, (cl.End - cl.Start).Seconds(), cl.Brief())
		if op.Kind == "keygen" && cl.OK() {
			c.keyOf[op.ID] = cl.KG.PubKey
		}
		for _, f := range c.OnCall {
			f(cl)
		}
	case <-t.C:
		if nd.Inc == cl.Inc {
			simrt.Logf("op%d on %s.%d has not returned after %s", op.ID, NodeName(i), cl.Inc, c.Bound(op))
		}
	}
}

// PoolOf names the key an operation signs with.
func (c *Cluster) PoolOf(op *Op) string {
	if op.Wallet >= 0 {
		return c.Wallets[op.Wallet].Pub
	}
	return c.keyOf[-1-op.Wallet]
}

// runOp performs an operation on all its callers.
func (c *Cluster) runOp(op *Op) {
	for _, a := range op.After {
		if ch := c.opEnd[a]; ch != nil {
			<-ch
		}
	}
	if op.Heal {
		c.Recover()
	}
	time.Sleep(op.At.D())
	c.opStart[op.ID] = simrt.Now()
	close(c.opBegan[op.ID])
	c.running[op.ID]++
	var wait []chan struct{}
	for _, i := range op.Nodes {
		i := i
		if i >= len(c.Nodes) {
			continue
		}
		d := make(chan struct{})
		wait = append(wait, d)
		go func() { c.call(op, i, c.opStart[op.ID]); close(d) }()
	}
	for _, d := range wait {
		<-d
	}
	c.running[op.ID]--
	close(c.opEnd[op.ID])
}

// RunOps executes the plan's operations and faults.
func (c *Cluster) RunOps() {
	for i := range c.P.Faults {
		f := &c.P.Faults[i]
		if f.M == nil && f.Kind != "disk" {
			c.faults++
			go func() { c.runFault(f); c.faults-- }()
		}
	}
	for i := range c.P.Ops {
		go c.runOp(&c.P.Ops[i])
	}
	for i := range c.P.Ops {
		<-c.opEnd[c.P.Ops[i].ID]
	}
}

// Recover ends every fault, brings every node back up and lets things settle.
func (c *Cluster) Recover() {
	for i := 0; i < 600 && c.faults > 0; i++ {
		time.Sleep(time.Second)
	}
	c.frames = nil
	c.Net.LoseP = nil
	c.FS.On = nil
	c.Net.HealAll()
	simrt.Logf("recover")
	for _, nd := range c.Nodes {
		nd.Faulty = contains(c.P.Bad, nd.Idx)
	}
	time.Sleep(2 * time.Second)
	for try := 0; try < 3; try++ {
		var wait []chan struct{}
		for i := range c.Nodes {
			if c.Nodes[i].Up {
				continue
			}
			i := i
			d := make(chan struct{})
			wait = append(wait, d)
			go func() {
				nd := c.Nodes[i]
				simrt.Kill(Label(i, nd.Inc))
				c.Net.Crash(Ids[i].Peer, 0)
				nd.Inc++
				c.Start(i)
				close(d)
			}()
		}
		for _, d := range wait {
			<-d
		}
	}
	for i := range c.Nodes {
		for j := range c.Nodes {
			if i != j && c.Nodes[i].Up && c.Nodes[j].Up {
				c.Net.Introduce(Ids[i].Peer, Ids[j].Peer)
			}
		}
	}
	time.Sleep(45 * time.Second)
}

// OpCalls lists the calls of an operation.
func (c *Cluster) OpCalls(id int) []*Call {
	var out []*Call
	for _, cl := range c.Calls {
		if cl.Op.ID == id {
			out = append(out, cl)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Node < out[j].Node })
	return out
}

// Op finds an operation.
func (c *Cluster) Op(id int) *Op {
	for i := range c.P.Ops {
		if c.P.Ops[i].ID == id {
			return &c.P.Ops[i]
		}
	}
	return nil
}

// runFault performs a timed fault.
func (c *Cluster) runFault(f *Fault) {
	if f.Op >= 0 {
		ch := c.opBegan[f.Op]
		if ch == nil {
			return
		}
		<-ch
	}
	time.Sleep(f.At.D())
	c.doFault(f)
}

func (c *Cluster) doFault(f *Fault) {
	c.shapef("%s", f.Kind)
	simrt.Logf("fault %s %s peers=%v dur=%dms", f.Kind, NodeName(f.Node), f.Peer, f.Dur)
	c.Stat["fault."+f.Kind]++
	switch f.Kind {
	case "crash":
		c.Stat["fault.crash"]--
		if !c.Nodes[f.Node].Up {
			return
		}
		c.Crash(f.Node, f.Arg.D())
		if f.Dur > 0 {
			time.Sleep(f.Dur.D())
			c.Start(f.Node)
		}
	case "stop":
		c.Stat["fault.stop"]--
		if !c.Nodes[f.Node].Up {
			return
		}
		if !c.Stop(f.Node) {
			c.Extra["stophang"] = f.Node
		}
		if f.Dur > 0 {
			time.Sleep(f.Dur.D())
			nd := c.Nodes[f.Node]
			if nd.Up {
				return
			}
			simrt.Kill(Label(f.Node, nd.Inc)) // the old process exits
			nd.Inc++
			c.Start(f.Node)
		}
	case "inject":
		c.Stat["fault.inject"]--
		c.Extra["injector"].(*injector).fire(f, nil)
	case "cut":
		for _, q := range f.Peer {
			c.Net.Cut(Ids[f.Node].Peer, Ids[q].Peer, f.Arg.D())
		}
		if f.Dur > 0 {
			time.Sleep(f.Dur.D())
			for _, q := range f.Peer {
				c.Net.Heal(Ids[f.Node].Peer, Ids[q].Peer)
			}
		}
	case "break":
		for _, q := range f.Peer {
			c.Net.Break(Ids[f.Node].Peer, Ids[q].Peer)
		}
	case "lag":
		c.Net.SetLag(Ids[f.Node].Peer, f.Arg.D())
		if f.Dur > 0 {
			time.Sleep(f.Dur.D())
			c.Net.SetLag(Ids[f.Node].Peer, 0)
		}
	case "pause":
		simrt.Pause(Label(f.Node, c.Nodes[f.Node].Inc), time.Now().Add(f.Dur.D()))
		time.Sleep(f.Dur.D())
	case "loss":
		rng := simrt.NewRNG(f.Seed, "loss")
		on := true
		prev := c.Net.LoseP
		c.Net.LoseP = func(from, to peer.ID, pid simnet.Proto) bool {
			if prev != nil && prev(from, to, pid) {
				return true
			}
			if !on || (f.Node >= 0 && from != Ids[f.Node].Peer && to != Ids[f.Node].Peer) {
				return false
			}
			return rng.P(f.P, 1000)
		}
		if f.Dur > 0 {
			time.Sleep(f.Dur.D())
			on = false
		}
	default:
		panic("fault kind " + f.Kind)
	}
}

func (c *Cluster) shapef(format string, a ...interface{}) {
	c.shape = append(c.shape, fmt.Sprintf(format, a...))
}

// Shape is a coarse description of what happened, for counting distinct runs.
func (c *Cluster) Shape() string {
	var s []string
	for _, cl := range c.Calls {
		st := "?"
		switch {
		case cl.Skipped:
			st = "-"
		case !cl.Done:
			st = "H"
		case cl.Err != nil:
			st = "E"
		case c.Exec != nil:
			st = "K"
		default:
			st = fmt.Sprint(cl.Status())
		}
		s = append(s, fmt.Sprintf("%d:%d%s", cl.Op.ID, cl.Node, st))
	}
	sort.Strings(s)
	return strings.Join(s, ",") + "|" + strings.Join(c.shape, ",")
}

// odd turns a request into one no sensible application makes.
func odd(cl *Call, how string) {
	keys, ver, height := &cl.KGReq.Keys, &cl.KGReq.Version, &cl.KGReq.BlockHeight
	if cl.Op.Kind == "keysign" {
		keys, ver, height = &cl.KSReq.SignerPubKeys, &cl.KSReq.Version, &cl.KSReq.BlockHeight
	}
	own, alien := Ids[cl.Node].Pub, Ids[len(Ids)-1].Pub
	switch how {
	case "no messages":
		cl.KSReq.Messages = nil
	case "bad message":
		cl.KSReq.Messages[len(cl.KSReq.Messages)-1] = "!"
	case "bad pool":
		cl.KSReq.PoolPubKey = "thorpub1"
	case "other pool":
		cl.KSReq.PoolPubKey = alien
	case "no keys":
		*keys = nil
	case "bad key":
		*keys = append(append([]string{}, *keys...), "thorpub1")
	case "double key":
		*keys = append(append([]string{}, *keys...), (*keys)[0])
	case "not me":
		var rest []string
		for _, k := range *keys {
			if k != own {
				rest = append(rest, k)
			}
		}
		*keys = rest
	case "only me":
		*keys = []string{own}
	case "alien":
		*keys = append(append([]string{}, *keys...), alien)
	case "bad version":
		*ver = "0.x"
	case "no version":
		*ver = ""
	case "negative height":
		*height = -3
	}
}

var oddSign = []string{"no messages", "bad message", "bad pool", "other pool", "no keys", "bad key", "double key", "not me", "only me", "alien", "bad version", "no version", "negative height"}
var oddGen = oddSign[4:]
