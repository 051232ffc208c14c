//go:build go1.22

package simnet

import (
	"context"
	"errors"
	"sort"

	"github.com/jbenet/goprocess"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	ma "github.com/multiformats/go-multiaddr"
)

// hostNet is the part of network.Network an application may ask for.
type hostNet struct{ h *Host }

func (x hostNet) Peerstore() peerstore.Peerstore { return x.h.ps }
func (x hostNet) LocalPeer() peer.ID             { return x.h.id }
func (x hostNet) DialPeer(ctx context.Context, p peer.ID) (network.Conn, error) {
	if _, err := x.h.dial(ctx, p); err != nil {
		return nil, err
	}
	return nil, errors.New("simnet: no connection handles")
}
func (x hostNet) ClosePeer(p peer.ID) error { x.h.n.Break(x.h.id, p); return nil }
func (x hostNet) Connectedness(p peer.ID) network.Connectedness {
	x.h.n.mu.Lock()
	defer x.h.n.mu.Unlock()
	if x.h.n.conns[pair(x.h.id, p)] != nil {
		return network.Connected
	}
	return network.NotConnected
}
func (x hostNet) Peers() []peer.ID {
	x.h.n.mu.Lock()
	defer x.h.n.mu.Unlock()
	var l []peer.ID
	for _, c := range x.h.n.conns {
		if c.a == x.h {
			l = append(l, c.b.id)
		} else if c.b == x.h {
			l = append(l, c.a.id)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}
func (x hostNet) Conns() []network.Conn                  { return nil }
func (x hostNet) ConnsToPeer(p peer.ID) []network.Conn   { return nil }
func (x hostNet) Notify(network.Notifiee)                {}
func (x hostNet) StopNotify(network.Notifiee)            {}
func (x hostNet) Close() error                           { return x.h.Close() }
func (x hostNet) SetStreamHandler(network.StreamHandler) {}
func (x hostNet) SetConnHandler(network.ConnHandler)     {}
func (x hostNet) NewStream(ctx context.Context, p peer.ID) (network.Stream, error) {
	return nil, errors.New("unsupported")
}
func (x hostNet) Listen(...ma.Multiaddr) error                      { return nil }
func (x hostNet) ListenAddresses() []ma.Multiaddr                   { return x.h.listen }
func (x hostNet) InterfaceListenAddresses() ([]ma.Multiaddr, error) { return x.h.listen, nil }
func (x hostNet) Process() goprocess.Process                        { return goprocess.Background() }
