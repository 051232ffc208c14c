//go:build go1.22

package core

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"runtime"
	"time"

	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/protocol"

	"gitlab.com/thorchain/tss/go-tss/p2p"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// got is what one end of a stream read.
type got struct {
	start, end time.Duration
	data       []byte
	err        error
	done       bool
	alloc      uint64
}

func blob(seed uint64, tag string, n int64) []byte {
	b := make([]byte, n)
	r := simrt.NewRNG(seed, tag)
	if n <= 1<<16 {
		r.Read(b)
		return b
	}
	r.Read(b[:1<<16])
	for i := 1 << 16; i < len(b); i += 1 << 16 { // large ones repeat a numbered block
		copy(b[i:], b[:1<<16])
		if i+4 <= len(b) {
			binary.LittleEndian.PutUint32(b[i:], uint32(i))
		}
	}
	return b
}

const maxPayload = 20000000

// streams sets up bare hosts that talk over single streams.
func streams(c *Cluster) {
	hosts := map[int]host.Host{}
	recv := map[int]*got{} // op -> what the acceptor read
	back := map[int]*got{} // op -> what the opener read
	wrote := map[int]error{}
	replied := map[int]error{}
	c.Extra["recv"], c.Extra["back"], c.Extra["wrote"], c.Extra["replied"] = recv, back, wrote, replied
	read := func(s network.Stream) *got {
		g := &got{start: simrt.Now()}
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		g.data, g.err = p2p.ReadStreamWithBuffer(s)
		runtime.ReadMemStats(&b)
		g.alloc = b.TotalAlloc - a.TotalAlloc
		g.end, g.done = simrt.Now(), true
		return g
	}
	c.Boot = func(i int) error {
		h, err := BareHost(i)
		if err != nil {
			return err
		}
		hosts[i] = h
		for k := range c.P.Ops {
			op := &c.P.Ops[k]
			if op.Keys[0] != i {
				continue
			}
			h.SetStreamHandler(protocol.ID(fmt.Sprint("/sim/", op.ID)), func(s network.Stream) {
				if op.Tag == "deaf" { // never reads
					recv[op.ID] = &got{}
					return
				}
				g := &got{start: simrt.Now()}
				recv[op.ID] = g
				*g = *read(s)
				if op.Size >= 0 && g.err == nil {
					replied[op.ID] = p2p.WriteStreamWithBuffer(blob(c.P.Seed, fmt.Sprint("r", op.ID), op.Size), s)
				}
			})
		}
		return nil
	}
	c.Limit = func(op *Op) time.Duration { return 3 * time.Minute }
	c.Exec = func(cl *Call) {
		op := cl.Op
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		defer cancel()
		s, err := hosts[cl.Node].NewStream(ctx, Ids[op.Keys[0]].Peer, protocol.ID(fmt.Sprint("/sim/", op.ID)))
		if err != nil {
			cl.Err = err
			return
		}
		data := blob(c.P.Seed, fmt.Sprint("m", op.ID), op.Height)
		switch op.Version {
		case "raw": // announces T bytes, sends Height, then ends as Tag says
			s.SetWriteDeadline(time.Now().Add(40 * time.Second))
			b := make([]byte, 4)
			binary.LittleEndian.PutUint32(b, uint32(op.T))
			if op.Tag == "header" {
				s.Write(b[:2])
			} else {
				s.Write(b)
				for len(data) > 0 && err == nil {
					k := min(len(data), int(1+len(data)/3))
					_, err = s.Write(data[:k])
					data = data[k:]
					time.Sleep(op.Dur.D())
				}
			}
			switch op.Tag {
			case "close":
				s.Close()
			case "reset":
				s.Reset()
			}
			time.Sleep(20 * time.Second)
			return
		}
		t0 := simrt.Now()
		cl.Err = p2p.WriteStreamWithBuffer(data, s)
		cl.Info = map[string]int64{"write_ms": (simrt.Now() - t0).Milliseconds()}
		wrote[op.ID] = cl.Err
		if cl.Err == nil && op.Size >= 0 {
			g := &got{start: simrt.Now()}
			back[op.ID] = g
			*g = *read(s)
		}
		time.Sleep(op.Dur.D())
		s.Close()
	}
}

func genStream(r *simrt.RNG, p *Plan) {
	env(r, p, 2, 3)
	size := func() int64 {
		switch r.Intn(12) {
		case 0:
			return 0
		case 1:
			return int64(r.Range(1, 8))
		case 2:
			return int64(r.Range(4080, 4110))
		case 3:
			return int64(r.Range(1<<16-4, 1<<16+4))
		case 4:
			return int64(r.Range(100000, 1500000))
		case 5:
			if r.P(1, 4) {
				return int64([]int{maxPayload - 1, maxPayload, maxPayload + 1, maxPayload + 5000}[r.Intn(4)])
			}
		}
		return int64(r.Range(1, 20000))
	}
	big := false
	k := r.Range(1, 4)
	for i := 0; i < k; i++ {
		a := r.Intn(p.N)
		op := Op{ID: i, Kind: "stream", Nodes: []int{a}, Keys: []int{(a + 1) % p.N}, At: Ms(r.Intn(300)), Height: size(), Size: -1, Wallet: i}
		if r.P(1, 2) {
			op.Size = size()
		}
		if op.Size > 1<<20 && op.Height > 1<<20 {
			op.Size = 7
		}
		op.Dur = Ms([]int{0, 500, 15000}[r.Intn(3)])
		if r.P(1, 3) {
			op.Version = "raw"
			op.Size = -1
			op.Tag = []string{"close", "reset", "stall", "header"}[r.Intn(4)]
			op.Dur = Ms([]int{0, 100, 2000, 6000}[r.Intn(4)])
			op.T = int(op.Height)
			switch r.Intn(5) {
			case 0:
				op.T += r.Range(1, 3000)
			case 1:
				op.T = []int{maxPayload + 1, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1}[r.Intn(5)]
			case 2:
				op.T = maxPayload
			case 3:
				op.Height = 0
			}
		} else if r.P(1, 12) {
			op.Tag = "deaf"
			op.Height, op.Size = 3000000, -1
		}
		if op.Height > 100000 || op.Size > 100000 {
			big = true
		}
		p.Ops = append(p.Ops, op)
	}
	if big { // keep the number of simulated packets small
		if p.Net.FragP > 100 {
			p.Net.FragP = 100
		}
		p.Net.Window = 0
		if r.P(1, 2) {
			p.Net.FragP = 0
		}
	}
	p.Scn = "clean"
	if r.P(1, 2) {
		p.Scn = "faults"
		for i := 0; i < r.Range(1, 2); i++ {
			op := &p.Ops[r.Intn(k)]
			from, to := op.Nodes[0], op.Keys[0]
			switch r.Intn(7) {
			case 0, 1:
				f := Fault{Kind: []string{"drop", "stall", "trunc", "delay"}[r.Intn(4)], Node: []int{from, to}[r.Intn(2)], M: &Match{Proto: "raw", Type: -1, Op: op.ID}, Arg: Ms(r.Intn(2)), Seed: r.Uint64()}
				f.M.Reply = f.Node == to
				if f.Kind == "delay" {
					f.Arg = Ms(r.Range(100, 14000))
				}
				p.Faults = append(p.Faults, f)
			case 2:
				p.Faults = append(p.Faults, Fault{Kind: "crash", Op: op.ID, At: Ms(r.Intn(200)), Node: from, Arg: []Ms{0, 30000}[r.Intn(2)]})
			case 3:
				p.Faults = append(p.Faults, Fault{Kind: "cut", Op: op.ID, At: Ms(r.Intn(200)), Node: from, Peer: []int{to}, Arg: []Ms{0, 200, 30000}[r.Intn(3)], Dur: Ms(r.Range(50, 20000))})
			case 4:
				p.Faults = append(p.Faults, Fault{Kind: "break", Op: op.ID, At: Ms(r.Intn(200)), Node: from, Peer: []int{to}})
			case 5:
				p.Faults = append(p.Faults, Fault{Kind: "lag", Op: op.ID, Node: to, Arg: Ms(r.Range(100, 12000)), Dur: Ms(r.Range(200, 20000))})
			case 6:
				p.Faults = append(p.Faults, Fault{Kind: "crash", Op: op.ID, At: Ms(r.Intn(200)), Node: to, Arg: 30000})
			}
		}
	}
}

func judgeStream(c *Cluster) {
	recv, back := c.Extra["recv"].(map[int]*got), c.Extra["back"].(map[int]*got)
	wrote := c.Extra["wrote"].(map[int]error)
	replied := c.Extra["replied"].(map[int]error)
	clean := len(c.P.Faults) == 0
	lat := stallBound(c)
	check := func(op *Op, dir string, g *got, want []byte, legit bool, crashed bool) {
		if g == nil || crashed {
			return
		}
		if !g.done {
			if c.Nodes[op.Keys[0]].Up && c.Nodes[op.Nodes[0]].Up && op.Tag != "deaf" {
				c.Fail("C13", "hang", "op%d: reading the %s has not ended (began at %.1fs)", op.ID, dir, g.start.Seconds())
			}
			return
		}
		c.nontrivial = true
		lim := 10*time.Second + time.Duration(200)*time.Millisecond + lat
		if g.end-g.start > lim {
			c.Fail("C13", "late", "op%d: reading the %s took %.1fs", op.ID, dir, (g.end - g.start).Seconds())
		}
		if g.err == nil {
			if !legit {
				c.Fail("C13", "accepted", "op%d: reading the %s succeeded with %d bytes though it announced %d and carried %d", op.ID, dir, len(g.data), op.T, op.Height)
			} else if !bytes.Equal(g.data, want) {
				c.Fail("C13", "bytes", "op%d: the %s of %d bytes was read as %d other bytes", op.ID, dir, len(want), len(g.data))
			}
		} else if g.data != nil && len(g.data) > 0 {
			c.Fail("C13", "partial", "op%d: reading the %s failed and returned %d bytes", op.ID, dir, len(g.data))
		}
		lim2 := uint64(60 << 20) // other transfers of the run allocate meanwhile
		for i := range c.P.Ops {
			lim2 += 16 * uint64(c.P.Ops[i].Height+max(c.P.Ops[i].Size, 0))
		}
		if g.alloc > lim2 {
			c.Fail("C13", "alloc", "op%d: reading the %s allocated %d MB", op.ID, dir, g.alloc>>20)
		}
	}
	for k := range c.P.Ops {
		op := &c.P.Ops[k]
		msg := blob(c.P.Seed, fmt.Sprint("m", op.ID), op.Height)
		legit := op.Height <= maxPayload
		if op.Version == "raw" {
			legit = op.T <= int(op.Height) && op.T <= maxPayload && op.Tag != "header"
			if legit {
				msg = msg[:op.T]
			}
		}
		check(op, "message", recv[op.ID], msg, legit, false)
		check(op, "reply", back[op.ID], blob(c.P.Seed, fmt.Sprint("r", op.ID), max(op.Size, 0)), op.Size >= 0 && op.Size <= maxPayload, false)
		cl := c.OpCalls(op.ID)
		if len(cl) == 1 && cl[0].Inc == c.Nodes[op.Nodes[0]].Inc && !cl[0].Skipped && !cl[0].Done {
			c.Fail("C13", "hang", "op%d: the writer has not ended", op.ID)
		}
		if len(cl) == 1 && cl[0].Info["write_ms"] > 10200+lat.Milliseconds() {
			c.Fail("C13", "latewrite", "op%d: writing %d bytes took %d ms", op.ID, op.Height, cl[0].Info["write_ms"])
		}
		if !clean || c.P.Net.Window > 0 && op.Height > 1<<20 {
			continue
		}
		if op.Tag == "deaf" {
			continue
		}
		slowRaw := op.Version == "raw" && (op.Dur.D()*12 > 8*time.Second || op.Tag == "reset" || op.Tag == "stall" && false)
		if op.Version == "raw" && legit && !slowRaw {
			if g := recv[op.ID]; g == nil || !g.done || g.err != nil {
				c.Fail("C13", "refused", "op%d: a complete message of %d bytes was not read: %v", op.ID, op.T, g)
			}
		}
		if op.Version == "raw" || !legit {
			continue
		}
		if g := recv[op.ID]; wrote[op.ID] != nil || g == nil || !g.done || g.err != nil {
			e := "nothing arrived"
			if g != nil {
				e = fmt.Sprint(g.done, g.err)
			}
			c.Fail("C13", "refused", "op%d: a message of %d bytes over a healthy stream was not carried: write %v, read %s", op.ID, op.Height, wrote[op.ID], e)
		}
		if g := back[op.ID]; op.Size >= 0 && op.Size <= maxPayload && (replied[op.ID] != nil || g == nil || !g.done || g.err != nil) {
			e := "nothing arrived"
			if g != nil {
				e = fmt.Sprint(g.done, g.err)
			}
			c.Fail("C13", "refused", "op%d: a reply of %d bytes over a healthy stream was not carried: write %v, read %s", op.ID, op.Size, replied[op.ID], e)
		}
	}
}

func init() {
	// C13: one message per direction of a stream
	register(&Prop{ID: "C13", Count: counts(3000, 60000), Setup: streams, Judge: judgeStream,
		Run: func(c *Cluster) {
			RunStandard(c)
			time.Sleep(45 * time.Second)
		},
		Gen: func(r *simrt.RNG, p *Plan, tier string) { genStream(r, p) }})
}
