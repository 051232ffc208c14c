//go:build go1.22

// Package simnet is the simulated network: libp2p hosts whose connections and
// streams live in this process and whose every delay and fault is drawn from
// a seeded generator.
package simnet

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/libp2p/go-libp2p-core/connmgr"
	ic "github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/event"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/mux"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/libp2p/go-libp2p-peerstore/pstoremem"
	"github.com/libp2p/go-libp2p/config"
	"github.com/libp2p/go-libp2p/p2p/protocol/ping"
	ma "github.com/multiformats/go-multiaddr"

	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// Knobs of one run.
type Knobs struct {
	LatMin, LatMax time.Duration // one way latency of a chunk
	SlowP          int           // of 1000: chunk takes up to SlowMax instead
	SlowMax        time.Duration
	FragP          int // of 1000: a written chunk is split
	FragMax        int // into at most this many pieces
	Window         int // bytes in flight before a writer blocks
	NegotiateP     int // of 1000: NewStream waits for the remote's answer
	DiscoverMax    time.Duration
}

// DefaultKnobs returns a calm network.
func DefaultKnobs() Knobs {
	return Knobs{LatMin: time.Millisecond, LatMax: 5 * time.Millisecond, Window: 256 << 10, DiscoverMax: 200 * time.Millisecond, FragMax: 4}
}

// Frame is one length-prefixed message on its way.
type Frame struct {
	From, To peer.ID
	Proto    protocol.ID
	Opener   bool // sent by the side that opened the stream
	Index    int  // frame number within this direction of the stream
	Payload  []byte
	StreamID int
}

// Out is one thing to put on the wire instead of a frame.
type Out struct {
	Delay time.Duration
	Raw   []byte // complete bytes, including the length prefix
	Reset bool   // reset the stream after Raw
	Stall bool   // deliver nothing more on this stream
}

// Net is the network.
type Net struct {
	mu       simrt.Mutex
	rng      *simrt.RNG
	K        Knobs
	hosts    map[peer.ID]*Host // current incarnation
	addrs    map[string]*Host
	conns    map[[2]peer.ID]*conn
	cuts     map[[2]peer.ID]bool
	lag      map[peer.ID]time.Duration // extra latency from and to a node
	streams  int
	OnFrame  func(f *Frame)               // observes every complete frame
	OnRead   func(f *Frame)               // observes every frame that was read in full by the receiving program
	Rewrite  func(f *Frame) (bool, []Out) // true: replace the frame by the list
	Rewrites func(from peer.ID) bool      // nodes whose frames are offered to Rewrite
	LoseP    func(from, to peer.ID, proto protocol.ID) bool
	Stat     map[string]int
	live     map[*stream]bool
	held     []*stream // streams whose reset waits behind a cut
	lastID   int
}

// New creates a network.
func New(rng *simrt.RNG, k Knobs) *Net {
	return &Net{rng: rng, K: k, hosts: map[peer.ID]*Host{}, addrs: map[string]*Host{}, conns: map[[2]peer.ID]*conn{},
		cuts: map[[2]peer.ID]bool{}, lag: map[peer.ID]time.Duration{}, Stat: map[string]int{}, live: map[*stream]bool{}}
}

func pair(a, b peer.ID) [2]peer.ID {
	if a < b {
		return [2]peer.ID{a, b}
	}
	return [2]peer.ID{b, a}
}

// StormLimit is far beyond what any run needs.
const StormLimit = 60000

func (n *Net) latency(a, b peer.ID) time.Duration {
	d := n.rng.Dur(n.K.LatMin, n.K.LatMax)
	if n.K.SlowP > 0 && n.rng.P(n.K.SlowP, 1000) {
		d = n.rng.Dur(d, n.K.SlowMax)
		n.Stat["slow_chunk"]++
	}
	return d + n.lag[a] + n.lag[b]
}

// SetLag adds latency to everything from and to p.
func (n *Net) SetLag(p peer.ID, d time.Duration) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.lag[p] = d
}

// Cut blocks the link between a and b.  After kill the connection is gone.
func (n *Net) Cut(a, b peer.ID, kill time.Duration) {
	n.mu.Lock()
	defer n.mu.Unlock()
	k := pair(a, b)
	if n.cuts[k] {
		return
	}
	n.cuts[k] = true
	n.Stat["cut"]++
	if c := n.conns[k]; c != nil {
		time.AfterFunc(kill, func() {
			n.mu.Lock()
			defer n.mu.Unlock()
			if n.cuts[k] && n.conns[k] == c {
				n.Stat["conn_killed"]++
				n.dropConn(k)
			}
		})
	}
}

// IsCut reports whether nothing passes between two hosts.
func (n *Net) IsCut(a, b peer.ID) bool {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.cuts[pair(a, b)]
}

// Heal unblocks the link.
func (n *Net) Heal(a, b peer.ID) {
	n.mu.Lock()
	defer n.mu.Unlock()
	k := pair(a, b)
	if !n.cuts[k] {
		return
	}
	delete(n.cuts, k)
	n.Stat["heal"]++
	for _, s := range n.sortedLive() {
		if pair(s.local.id, s.remote.id) == k {
			n.pump(s.out)
		}
	}
	var rest []*stream
	for _, s := range n.held {
		if pair(s.local.id, s.remote.id) != k {
			rest = append(rest, s)
			continue
		}
		s := s
		time.AfterFunc(n.latency(a, b), func() {
			n.mu.Lock()
			defer n.mu.Unlock()
			s.arrived = true
			s.resetLocked(false)
		})
	}
	n.held = rest
}

// HealAll removes all cuts.
func (n *Net) HealAll() {
	n.mu.Lock()
	ks := make([][2]peer.ID, 0, len(n.cuts))
	for k := range n.cuts {
		ks = append(ks, k)
	}
	n.mu.Unlock()
	sort.Slice(ks, func(i, j int) bool { return ks[i][0]+ks[i][1] < ks[j][0]+ks[j][1] })
	for _, k := range ks {
		n.Heal(k[0], k[1])
	}
	n.mu.Lock()
	n.lag = map[peer.ID]time.Duration{}
	n.mu.Unlock()
}

// Break resets the connection between a and b and everything on it.
func (n *Net) Break(a, b peer.ID) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.Stat["conn_break"]++
	n.dropConn(pair(a, b))
}

func (n *Net) dropConn(k [2]peer.ID) {
	delete(n.conns, k)
	for _, s := range n.sortedLive() {
		if pair(s.local.id, s.remote.id) == k {
			s.resetLocked(true)
		}
	}
}

func (n *Net) sortedLive() []*stream {
	l := make([]*stream, 0, len(n.live))
	for s := range n.live {
		l = append(l, s)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// Crash removes the host from the network; its peers notice after notice.
func (n *Net) Crash(p peer.ID, notice time.Duration) {
	n.mu.Lock()
	defer n.mu.Unlock()
	h := n.hosts[p]
	if h == nil {
		return
	}
	h.dead = true
	delete(n.hosts, p)
	for _, a := range h.listen {
		delete(n.addrs, a.String())
	}
	for _, s := range n.sortedLive() {
		if s.local == h || s.remote == h {
			s.out.mute = true
			s.peer.out.mute = true
		}
	}
	time.AfterFunc(notice, func() {
		n.mu.Lock()
		defer n.mu.Unlock()
		for _, s := range n.sortedLive() {
			if s.remote == h {
				s.resetLocked(true)
			}
		}
		for k, c := range n.conns {
			if c.a == h || c.b == h {
				delete(n.conns, k)
			}
		}
	})
	for k, c := range n.conns {
		if c.a == h || c.b == h {
			delete(n.conns, k)
		}
	}
}

// LiveStreams lists open streams whose local side belongs to p.
func (n *Net) LiveStreams(p peer.ID) []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	var out []string
	for _, s := range n.sortedLive() {
		if s.local.id == p && !s.closedBoth() {
			out = append(out, fmt.Sprintf("#%d %s %s->%s", s.id, s.proto, n.name(s.local), n.name(s.remote)))
		}
	}
	return out
}

func (n *Net) name(h *Host) string { return h.Name }

// Host returns the host of a peer.
func (n *Net) Host(p peer.ID) *Host {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.hosts[p]
}

type conn struct {
	a, b *Host
	id   int
}

// Host implements host.Host.
type Host struct {
	n        *Net
	id       peer.ID
	key      ic.PrivKey
	label    uint64
	Name     string
	ps       peerstore.Peerstore
	handlers map[protocol.ID]network.StreamHandler
	listen   []ma.Multiaddr
	factory  config.AddrsFactory
	closed   bool
	dead     bool
	reg      simrt.Order      // whoever handles a stream sees what happened before the handler was registered
	known    map[peer.ID]bool // discovered through bootstrap
}

// Namer maps a label to an address octet and a name.
type Namer func(label uint64) (ip string, name string)

// NewHost builds a host from libp2p options (the libp2p.SimNew seam).
func (n *Net) NewHost(ctx context.Context, cfg *config.Config, namer Namer) (host.Host, error) {
	if cfg.PeerKey == nil {
		return nil, errors.New("simnet: no identity")
	}
	id, err := peer.IDFromPrivateKey(cfg.PeerKey)
	if err != nil {
		return nil, err
	}
	label := simrt.Label()
	ip, name := namer(label)
	h := &Host{n: n, id: id, key: cfg.PeerKey, label: label, Name: name, ps: pstoremem.NewPeerstore(),
		handlers: map[protocol.ID]network.StreamHandler{}, factory: cfg.AddrsFactory, known: map[peer.ID]bool{}}
	if err := h.ps.AddPrivKey(id, cfg.PeerKey); err != nil {
		return nil, err
	}
	if err := h.ps.AddPubKey(id, cfg.PeerKey.GetPublic()); err != nil {
		return nil, err
	}
	for _, a := range cfg.ListenAddrs {
		port, err := a.ValueForProtocol(ma.P_TCP)
		if err != nil {
			return nil, err
		}
		la, err := ma.NewMultiaddr("/ip4/" + ip + "/tcp/" + port)
		if err != nil {
			return nil, err
		}
		n.mu.Lock()
		if n.addrs[la.String()] != nil {
			n.mu.Unlock()
			return nil, fmt.Errorf("failed to listen on any addresses: %s in use", la)
		}
		n.addrs[la.String()] = h
		n.mu.Unlock()
		h.listen = append(h.listen, la)
	}
	h.ps.AddAddrs(id, h.Addrs(), peerstore.PermanentAddrTTL)
	n.mu.Lock()
	n.hosts[id] = h
	n.mu.Unlock()
	ping.NewPingService(h)
	h.reg.Pass()
	return h, nil
}

func (h *Host) ID() peer.ID                      { return h.id }
func (h *Host) Peerstore() peerstore.Peerstore   { return h.ps }
func (h *Host) Network() network.Network         { return hostNet{h} }
func (h *Host) Mux() protocol.Switch             { return nil }
func (h *Host) ConnManager() connmgr.ConnManager { return connmgr.NullConnMgr{} }
func (h *Host) EventBus() event.Bus              { return nil }
func (h *Host) Addrs() []ma.Multiaddr {
	if h.factory != nil {
		h.reg.Pass()
		return h.factory(append([]ma.Multiaddr{}, h.listen...))
	}
	return append([]ma.Multiaddr{}, h.listen...)
}

// SetStreamHandler registers a protocol.
func (h *Host) SetStreamHandler(pid protocol.ID, handler network.StreamHandler) {
	simrt.Check()
	h.reg.Pass()
	h.n.mu.Lock()
	defer h.n.mu.Unlock()
	h.handlers[pid] = handler
}

// SetStreamHandlerMatch registers a protocol.
func (h *Host) SetStreamHandlerMatch(pid protocol.ID, _ func(string) bool, handler network.StreamHandler) {
	h.SetStreamHandler(pid, handler)
}

// RemoveStreamHandler unregisters a protocol.
func (h *Host) RemoveStreamHandler(pid protocol.ID) {
	simrt.Check()
	h.n.mu.Lock()
	defer h.n.mu.Unlock()
	delete(h.handlers, pid)
}

// Handlers lists registered protocols.
func (h *Host) Handlers() int { h.n.mu.Lock(); defer h.n.mu.Unlock(); return len(h.handlers) }

// Close shuts the host down.
func (h *Host) Close() error {
	simrt.Check()
	n := h.n
	n.mu.Lock()
	defer n.mu.Unlock()
	if h.closed {
		return nil
	}
	h.closed = true
	if n.hosts[h.id] == h {
		delete(n.hosts, h.id)
	}
	for _, a := range h.listen {
		if n.addrs[a.String()] == h {
			delete(n.addrs, a.String())
		}
	}
	for _, s := range n.sortedLive() {
		if s.local == h || s.remote == h {
			s.resetLocked(true)
		}
	}
	for k, c := range n.conns {
		if c.a == h || c.b == h {
			delete(n.conns, k)
		}
	}
	return h.ps.Close()
}

// learn exchanges addresses (models identify and the DHT).
func (n *Net) learn(a, b *Host) {
	a.ps.AddAddrs(b.id, b.Addrs(), peerstore.ConnectedAddrTTL)
	a.ps.AddAddrs(b.id, b.listen, peerstore.ConnectedAddrTTL)
	a.known[b.id] = true
}

func (n *Net) connectLocked(a, b *Host) *conn {
	k := pair(a.id, b.id)
	if c := n.conns[k]; c != nil {
		return c
	}
	n.lastID++
	c := &conn{a, b, n.lastID}
	n.conns[k] = c
	n.learn(a, b)
	n.learn(b, a)
	// discovery: whoever shares a neighbour hears of each other a little later
	x, y := a, b
	time.AfterFunc(n.rng.Dur(0, n.K.DiscoverMax), func() {
		n.mu.Lock()
		defer n.mu.Unlock()
		for _, e := range [][2]*Host{{x, y}, {y, x}} {
			ids := make([]peer.ID, 0, len(e[1].known))
			for id := range e[1].known {
				ids = append(ids, id)
			}
			sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
			for _, id := range ids {
				o := n.hosts[id]
				if o == nil || o == e[0] || o.dead || o.closed || e[0].dead || e[0].closed {
					continue
				}
				n.learn(e[0], o)
				n.learn(o, e[0])
			}
		}
	})
	return c
}

func (n *Net) wait(ctx context.Context, d time.Duration) error {
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return nil
	case <-ctx.Done():
		return ctx.Err()
	}
}

// dial establishes a connection to p using the addresses known for it.
func (h *Host) dial(ctx context.Context, p peer.ID) (*Host, error) {
	n := h.n
	if p == h.id {
		return nil, errors.New("dial to self attempted")
	}
	n.mu.Lock()
	if h.closed {
		n.mu.Unlock()
		return nil, errors.New("swarm closed")
	}
	if c := n.conns[pair(h.id, p)]; c != nil {
		o := c.a
		if o == h {
			o = c.b
		}
		n.mu.Unlock()
		return o, nil
	}
	n.mu.Unlock()
	addrs := h.ps.Addrs(p)
	if len(addrs) == 0 {
		return nil, errors.New("failed to dial: no addresses")
	}
	sort.Slice(addrs, func(i, j int) bool { return addrs[i].String() < addrs[j].String() })
	n.mu.Lock()
	var o *Host
	cut := n.cuts[pair(h.id, p)]
	for _, a := range addrs {
		if x := n.addrs[a.String()]; x != nil && x.id == p && !x.dead {
			o = x
		}
	}
	if o == nil { // the external address reaches the host, too
		if x := n.hosts[p]; x != nil && !x.dead {
			for _, a := range x.Addrs() {
				for _, b := range addrs {
					if a.Equal(b) {
						o = x
					}
				}
			}
		}
	}
	d := 2 * n.latency(h.id, p)
	n.mu.Unlock()
	if cut {
		n.mu.Lock()
		n.Stat["dial_blocked"]++
		n.mu.Unlock()
		<-ctx.Done()
		return nil, fmt.Errorf("failed to dial %s: %w", p, ctx.Err())
	}
	if err := n.wait(ctx, d); err != nil {
		return nil, err
	}
	simrt.Check()
	if o == nil {
		n.mu.Lock()
		n.Stat["dial_refused"]++
		n.mu.Unlock()
		return nil, fmt.Errorf("failed to dial %s: connection refused", p)
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	if o.closed || o.dead || h.closed {
		return nil, fmt.Errorf("failed to dial %s: connection reset", p)
	}
	n.connectLocked(h, o)
	return o, nil
}

// Connect dials a peer at the given addresses.
func (h *Host) Connect(ctx context.Context, pi peer.AddrInfo) error {
	simrt.Check()
	h.ps.AddAddrs(pi.ID, pi.Addrs, peerstore.TempAddrTTL)
	_, err := h.dial(ctx, pi.ID)
	return err
}

// NewStream opens a stream.
func (h *Host) NewStream(ctx context.Context, p peer.ID, pids ...protocol.ID) (network.Stream, error) {
	simrt.Check()
	o, err := h.dial(ctx, p)
	if err != nil {
		return nil, err
	}
	n := h.n
	n.mu.Lock()
	if h.closed {
		n.mu.Unlock()
		return nil, errors.New("swarm closed")
	}
	if n.conns[pair(h.id, p)] == nil {
		n.mu.Unlock()
		return nil, errors.New("connection closed")
	}
	neg := n.rng.P(n.K.NegotiateP, 1000)
	lat := n.latency(h.id, p)
	cut := n.cuts[pair(h.id, p)] || o.dead
	_, has := o.handlers[pids[0]]
	s, r := n.newPair(h, o, pids[0])
	if !cut {
		time.AfterFunc(lat, func() { n.arrive(r) })
	} else {
		s.out.opening = r // arrives when the link heals
	}
	n.mu.Unlock()
	if neg {
		if cut {
			<-ctx.Done()
			s.Reset()
			return nil, ctx.Err()
		}
		if err := n.wait(ctx, 2*lat); err != nil {
			s.Reset()
			return nil, err
		}
		simrt.Check()
		if !has {
			s.Reset()
			return nil, errors.New("protocol not supported")
		}
	}
	return s, nil
}

func (n *Net) arrive(r *stream) {
	n.mu.Lock()
	if r.arrived || r.wasReset {
		n.mu.Unlock()
		return
	}
	r.arrived = true
	h := r.local
	hd := h.handlers[r.proto]
	if h.dead {
		n.mu.Unlock()
		return
	}
	if hd == nil || h.closed {
		n.Stat["no_handler"]++
		r.resetLocked(true)
		n.mu.Unlock()
		return
	}
	n.Stat["streams"]++
	if n.Stat["streams"] == StormLimit {
		panic("message storm: the nodes opened 60000 streams")
	}
	n.mu.Unlock()
	simrt.Go(h.label, func() {
		simrt.Check()
		h.reg.Pass()
		hd(r)
	})
}

// ---- streams

type chunk struct {
	due  time.Time
	data []byte
	eof  bool
}

type half struct {
	s        *stream // writing side
	queue    []chunk // in flight
	buf      []byte  // delivered, not read
	eof      bool
	inflight int
	lastDue  time.Time
	mute     bool // nothing is delivered any more
	opening  *stream
	frame    []byte // partial frame on the writing side
	held     bool   // frames are held back until complete
	frames   int
	got      []byte // partial frame on the reading side
	reads    int
}

type stream struct {
	n             *Net
	id            int
	proto         protocol.ID
	local, remote *Host
	peer          *stream
	out           *half // what this side writes
	in            *half // what this side reads
	opener        bool
	wasReset      bool
	writeClosed   bool
	arrived       bool
	rd, wd        time.Time
	ev            chan struct{}
	st            network.Stat
}

func (n *Net) newPair(a, b *Host, pid protocol.ID) (*stream, *stream) {
	n.streams++
	s := &stream{n: n, id: n.streams, proto: pid, local: a, remote: b, opener: true, ev: make(chan struct{})}
	n.streams++
	r := &stream{n: n, id: n.streams, proto: pid, local: b, remote: a, ev: make(chan struct{})}
	s.st.Direction, r.st.Direction = network.DirOutbound, network.DirInbound
	s.peer, r.peer = r, s
	x, y := &half{s: s}, &half{s: r}
	s.out, s.in, r.out, r.in = x, y, y, x
	n.live[s], n.live[r] = true, true
	return s, r
}

func (s *stream) wake() {
	close(s.ev)
	s.ev = make(chan struct{})
}

func (s *stream) closedBoth() bool {
	return s.wasReset || (s.writeClosed && s.in.eof && len(s.in.buf) == 0)
}

func (s *stream) gc() {
	if s.closedBoth() {
		delete(s.n.live, s)
	}
}

// pump schedules delivery of queued chunks.
func (n *Net) pump(x *half) {
	if x.mute {
		return
	}
	a, b := x.s.local, x.s.remote
	if n.cuts[pair(a.id, b.id)] {
		return
	}
	if r := x.opening; r != nil {
		x.opening = nil
		time.AfterFunc(n.latency(a.id, b.id), func() { n.arrive(r) })
	}
	if len(x.queue) == 0 {
		return
	}
	d := time.Until(x.queue[0].due)
	if d < 0 {
		d = 0
	}
	time.AfterFunc(d, func() {
		n.mu.Lock()
		defer n.mu.Unlock()
		n.deliver(x)
	})
}

func (n *Net) deliver(x *half) {
	if x.mute || x.s.peer.wasReset || n.cuts[pair(x.s.local.id, x.s.remote.id)] {
		return
	}
	now := time.Now()
	k := 0
	for k < len(x.queue) && !x.queue[k].due.After(now) {
		c := x.queue[k]
		k++
		x.buf = append(x.buf, c.data...)
		if c.eof {
			x.eof = true
		}
	}
	if k > 0 {
		x.queue = x.queue[k:]
		x.s.peer.wake()
		x.s.peer.gc()
	}
	if len(x.queue) > 0 {
		n.pump(x)
	}
}

func (n *Net) enqueue(x *half, data []byte, extra time.Duration, eof bool) {
	lat := n.latency(x.s.local.id, x.s.remote.id) + extra
	due := time.Now().Add(lat)
	if due.Before(x.lastDue) {
		due = x.lastDue
	}
	x.lastDue = due
	x.queue = append(x.queue, chunk{due, data, eof})
	x.inflight += len(data)
	if len(x.queue) == 1 || eof {
		n.pump(x)
	}
}

func (n *Net) send(x *half, data []byte, extra time.Duration) {
	for len(data) > 0 {
		k := len(data)
		if k > 1 && n.K.FragP > 0 && n.rng.P(n.K.FragP, 1000) {
			k = 1 + n.rng.Intn(k)
			if n.rng.P(1, 3) && k > 3 {
				k = 1 + n.rng.Intn(3)
			}
			n.Stat["fragment"]++
		}
		n.enqueue(x, append([]byte{}, data[:k]...), extra, false)
		data = data[k:]
	}
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o deadline reached" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// waitEv waits for an event or the deadline, with the lock released.
func (s *stream) waitEv(deadline time.Time) error {
	ev := s.ev
	s.n.mu.Unlock()
	defer s.n.mu.Lock()
	simrt.Silent()
	defer simrt.Loud()
	if deadline.IsZero() {
		<-ev
		return nil
	}
	d := time.Until(deadline)
	if d <= 0 {
		return timeoutErr{}
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-ev:
		return nil
	case <-t.C:
		return timeoutErr{}
	}
}

func (s *stream) Read(b []byte) (int, error) {
	simrt.Check()
	n := s.n
	n.mu.Lock()
	defer n.mu.Unlock()
	for {
		if s.wasReset {
			return 0, mux.ErrReset
		}
		if !s.rd.IsZero() && !time.Now().Before(s.rd) {
			return 0, timeoutErr{}
		}
		if len(s.in.buf) > 0 {
			k := copy(b, s.in.buf)
			if k > 1 && n.K.FragP > 0 && n.rng.P(n.K.FragP, 2000) {
				k = 1 + n.rng.Intn(k)
			}
			s.in.buf = s.in.buf[k:]
			s.in.inflight -= k
			if n.OnRead != nil && !strings.HasPrefix(string(s.proto), "/ipfs/") {
				s.observe(b[:k])
			}
			s.peer.wake()
			s.gc()
			return k, nil
		}
		if s.in.eof {
			s.gc()
			return 0, io.EOF
		}
		if len(b) == 0 {
			return 0, nil
		}
		if err := s.waitEv(s.rd); err != nil {
			return 0, err
		}
		if simrt.Dead(simrt.Label()) {
			n.mu.Unlock()
			simrt.Check()
		}
	}
}

// observe passes completely read frames to the tap.
func (s *stream) observe(b []byte) {
	x := s.in
	x.got = append(x.got, b...)
	for len(x.got) >= 4 {
		l := int(binary.LittleEndian.Uint32(x.got))
		if l > 64<<20 || len(x.got) < 4+l {
			return
		}
		f := &Frame{From: s.remote.id, To: s.local.id, Proto: s.proto, Opener: s.peer.opener, Index: x.reads, StreamID: s.peer.id, Payload: append([]byte{}, x.got[4:4+l]...)}
		x.reads++
		x.got = x.got[4+l:]
		s.n.OnRead(f)
	}
}

func (s *stream) Write(b []byte) (int, error) {
	simrt.Check()
	n := s.n
	n.mu.Lock()
	defer n.mu.Unlock()
	done := 0
	for done < len(b) {
		if s.wasReset {
			return done, mux.ErrReset
		}
		if s.writeClosed {
			return done, errors.New("stream closed for writing")
		}
		if !s.wd.IsZero() && !time.Now().Before(s.wd) {
			return done, timeoutErr{}
		}
		room := n.K.Window - s.out.inflight
		if room <= 0 {
			n.Stat["window_full"]++
			if err := s.waitEv(s.wd); err != nil {
				return done, err
			}
			continue
		}
		k := len(b) - done
		if k > room {
			k = room
		}
		s.transmit(b[done : done+k])
		done += k
	}
	return done, nil
}

// transmit hands bytes to the wire, passing complete frames through the taps.
func (s *stream) transmit(b []byte) {
	n, x := s.n, s.out
	rew := n.Rewrites != nil && n.Rewrites(s.local.id) && !strings.HasPrefix(string(s.proto), "/ipfs/") // those streams are not framed
	if !rew {
		lose := false
		if n.LoseP != nil && n.LoseP(s.local.id, s.remote.id, s.proto) {
			lose = true
		}
		if lose {
			// the write succeeded, then the stream broke before delivery
			n.Stat["lost_frame"]++
			x.mute = true
			p := s.peer
			time.AfterFunc(n.latency(s.local.id, s.remote.id), func() {
				n.mu.Lock()
				defer n.mu.Unlock()
				p.resetLocked(false)
				s.resetLocked(false)
			})
		} else {
			n.send(x, b, 0)
		}
		x.frame = append(x.frame, b...)
		for len(x.frame) >= 4 {
			l := int(binary.LittleEndian.Uint32(x.frame))
			if l > 64<<20 || len(x.frame) < 4+l {
				break
			}
			f := &Frame{From: s.local.id, To: s.remote.id, Proto: s.proto, Opener: s.opener, Index: x.frames, StreamID: s.id, Payload: append([]byte{}, x.frame[4:4+l]...)}
			x.frames++
			x.frame = x.frame[4+l:]
			n.Stat["frames"]++
			if n.OnFrame != nil {
				n.OnFrame(f)
			}
		}
		return
	}
	x.held = true
	x.frame = append(x.frame, b...)
	for len(x.frame) >= 4 {
		l := int(binary.LittleEndian.Uint32(x.frame))
		if l > 64<<20 || len(x.frame) < 4+l {
			break
		}
		raw := append([]byte{}, x.frame[:4+l]...)
		x.frame = x.frame[4+l:]
		f := &Frame{From: s.local.id, To: s.remote.id, Proto: s.proto, Opener: s.opener, Index: x.frames, StreamID: s.id, Payload: raw[4:]}
		x.frames++
		n.Stat["frames"]++
		if n.OnFrame != nil {
			n.OnFrame(f)
		}
		ok, outs := n.Rewrite(f)
		if !ok {
			n.send(x, raw, 0)
			continue
		}
		for _, o := range outs {
			if len(o.Raw) > 0 {
				n.send(x, o.Raw, o.Delay)
			}
			if o.Stall {
				x.mute = true
			}
			if o.Reset {
				p := s.peer
				time.AfterFunc(n.latency(s.local.id, s.remote.id)+o.Delay, func() {
					n.mu.Lock()
					defer n.mu.Unlock()
					p.resetLocked(false)
					s.resetLocked(false)
				})
			}
		}
	}
}

func (s *stream) Close() error {
	simrt.Check()
	n := s.n
	n.mu.Lock()
	defer n.mu.Unlock()
	if s.wasReset || s.writeClosed {
		return nil
	}
	s.writeClosed = true
	if s.out.held && len(s.out.frame) > 0 && !s.out.mute { // an incomplete frame
		n.send(s.out, s.out.frame, 0)
		s.out.frame = nil
	}
	n.enqueue(s.out, nil, 0, true)
	s.gc()
	return nil
}

func (s *stream) resetLocked(both bool) {
	if s.wasReset {
		return
	}
	s.wasReset = true
	s.in.buf = nil
	delete(s.n.live, s)
	s.wake()
	if both {
		s.peer.resetLocked(false)
	}
}

func (s *stream) Reset() error {
	simrt.Check()
	n := s.n
	n.mu.Lock()
	defer n.mu.Unlock()
	if s.wasReset {
		return nil
	}
	s.resetLocked(false)
	if s.remote.dead {
		return nil
	}
	if n.cuts[pair(s.local.id, s.remote.id)] {
		n.held = append(n.held, s.peer) // told when the link heals
		return nil
	}
	// the remote hears of it after what was sent before
	d := n.latency(s.local.id, s.remote.id)
	if w := time.Until(s.out.lastDue); w > d {
		d = w
	}
	p := s.peer
	time.AfterFunc(d, func() {
		n.mu.Lock()
		defer n.mu.Unlock()
		if !p.arrived && !p.opener {
			p.arrived = true
		}
		p.resetLocked(false)
	})
	return nil
}

func (s *stream) SetDeadline(t time.Time) error {
	s.n.mu.Lock()
	defer s.n.mu.Unlock()
	s.rd, s.wd = t, t
	s.wake()
	return nil
}

func (s *stream) SetReadDeadline(t time.Time) error {
	s.n.mu.Lock()
	defer s.n.mu.Unlock()
	s.rd = t
	s.wake()
	return nil
}

func (s *stream) SetWriteDeadline(t time.Time) error {
	s.n.mu.Lock()
	defer s.n.mu.Unlock()
	s.wd = t
	s.wake()
	return nil
}

func (s *stream) ID() string                 { return fmt.Sprintf("%d", s.id) }
func (s *stream) Protocol() protocol.ID      { return s.proto }
func (s *stream) SetProtocol(id protocol.ID) { s.proto = id }
func (s *stream) Stat() network.Stat         { return s.st }
func (s *stream) Conn() network.Conn         { return connView{s} }

type connView struct{ s *stream }

func (c connView) Close() error                       { return nil }
func (c connView) LocalPeer() peer.ID                 { return c.s.local.id }
func (c connView) LocalPrivateKey() ic.PrivKey        { return c.s.local.key }
func (c connView) RemotePeer() peer.ID                { return c.s.remote.id }
func (c connView) RemotePublicKey() ic.PubKey         { return c.s.remote.key.GetPublic() }
func (c connView) LocalMultiaddr() ma.Multiaddr       { return first(c.s.local.listen) }
func (c connView) RemoteMultiaddr() ma.Multiaddr      { return first(c.s.remote.listen) }
func (c connView) ID() string                         { return "conn" }
func (c connView) NewStream() (network.Stream, error) { return nil, errors.New("unsupported") }
func (c connView) GetStreams() []network.Stream       { return nil }
func (c connView) Stat() network.Stat                 { return c.s.st }

func first(l []ma.Multiaddr) ma.Multiaddr {
	if len(l) == 0 {
		return nil
	}
	return l[0]
}

// Frame4 prefixes a payload with its length.
func Frame4(p []byte) []byte {
	b := make([]byte, 4+len(p))
	binary.LittleEndian.PutUint32(b, uint32(len(p)))
	copy(b[4:], p)
	return b
}

// Inject opens a stream from a to b outside a's own code and sends raw bytes
// on it after a delay; hold keeps the stream open, otherwise it is closed.
func (n *Net) Inject(from, to peer.ID, pid protocol.ID, raw []byte, delay time.Duration, hold bool) {
	time.AfterFunc(delay, func() {
		n.mu.Lock()
		defer n.mu.Unlock()
		a, b := n.hosts[from], n.hosts[to]
		if a == nil || b == nil || b.dead || b.closed || n.cuts[pair(from, to)] {
			return
		}
		n.connectLocked(a, b)
		s, r := n.newPair(a, b, pid)
		n.Stat["injected"]++
		time.AfterFunc(n.latency(from, to), func() { n.arrive(r) })
		n.send(s.out, raw, 0)
		if !hold {
			s.writeClosed = true
			n.enqueue(s.out, nil, 0, true)
		}
	})
}

// Mute silences everything p still has in flight and will send.
func (n *Net) Mute(p peer.ID) {
	n.mu.Lock()
	defer n.mu.Unlock()
	for _, s := range n.sortedLive() {
		if s.local.id == p {
			s.out.mute = true
		}
	}
}

// Proto is a protocol id.
type Proto = protocol.ID

// Introduce makes both peers know each other's addresses.
func (n *Net) Introduce(a, b peer.ID) {
	n.mu.Lock()
	defer n.mu.Unlock()
	x, y := n.hosts[a], n.hosts[b]
	if x != nil && y != nil {
		n.learn(x, y)
		n.learn(y, x)
	}
}

// Cut2 cuts a node off a set of peers for a while, from within a tap.
func (n *Net) Cut2(i int, peers []int, id func(int) peer.ID, kill, dur time.Duration) {
	simrt.Go(0, func() {
		for _, q := range peers {
			n.Cut(id(i), id(q), kill)
		}
		if dur > 0 {
			time.Sleep(dur)
			for _, q := range peers {
				n.Heal(id(i), id(q))
			}
		}
	})
}
