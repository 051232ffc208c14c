//go:build go1.22

// Package core builds simulated clusters, runs plans on them and judges the
// recorded histories.
package core

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"

	"github.com/binance-chain/tss-lib/crypto"
	"github.com/binance-chain/tss-lib/crypto/paillier"
	bkeygen "github.com/binance-chain/tss-lib/ecdsa/keygen"
	btss "github.com/binance-chain/tss-lib/tss"
	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	ic "github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/tendermint/tendermint/crypto/secp256k1"

	"gitlab.com/thorchain/tss/go-tss/storage"
	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// MaxNodes is the size of the identity pool.
const MaxNodes = 12

// Ident is a node's long-lived identity.
type Ident struct {
	Idx  int
	Priv secp256k1.PrivKey
	Pub  string // bech32
	Key  *big.Int
	Peer peer.ID
	Net  ic.PrivKey
	Pre  *bkeygen.LocalPreParams
}

// Ids is the pool of identities.
var Ids []*Ident

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// SetupIdents builds the pool.
func SetupIdents() {
	cfg := sdk.GetConfig()
	cfg.SetBech32PrefixForAccount("thor", "thorpub")
	cfg.SetBech32PrefixForValidator("thorv", "thorvpub")
	cfg.SetBech32PrefixForConsensusNode("thorc", "thorcpub")
	var pres []*bkeygen.LocalPreParams
	must(json.Unmarshal([]byte(preParamsJSON), &pres))
	for i := 0; i < MaxNodes; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("node identity %d", i)))
		id := &Ident{Idx: i, Priv: secp256k1.PrivKey(h[:]), Pre: pres[i]}
		raw := id.Priv.PubKey().Bytes()
		var err error
		id.Pub, err = sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &coskey.PubKey{Key: raw})
		must(err)
		id.Key = new(big.Int).SetBytes(raw)
		id.Net, err = ic.UnmarshalSecp256k1PrivateKey(h[:])
		must(err)
		id.Peer, err = peer.IDFromPrivateKey(id.Net)
		must(err)
		Ids = append(Ids, id)
	}
}

// ByPub finds an identity (-1: unknown).
func ByPub(pub string) int {
	for i, d := range Ids {
		if d.Pub == pub {
			return i
		}
	}
	return -1
}

// ByPeer finds an identity (-1: unknown).
func ByPeer(p peer.ID) int {
	for i, d := range Ids {
		if d.Peer == p {
			return i
		}
	}
	return -1
}

// Pubs lists public keys.
func Pubs(idx []int) []string {
	out := make([]string, len(idx))
	for i, k := range idx {
		out[i] = Ids[k].Pub
	}
	return out
}

// Threshold is t: t+1 holders sign.
func Threshold(n int) int { return (2*n+2)/3 - 1 }

var curveN = btss.EC().Params().N

// Wallet is a dealt key.
type Wallet struct {
	Pub    string
	Secret *big.Int
	X, Y   *big.Int
	Party  []int // key holders
	States map[int]storage.KeygenLocalState
}

// PubOf encodes a point as the bech32 pool key.
func PubOf(x, y *big.Int) (string, string) {
	b := make([]byte, 33)
	b[0] = 2 + byte(y.Bit(0))
	x.FillBytes(b[1:])
	k := &coskey.PubKey{Key: b}
	s, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, k)
	must(err)
	return s, sdk.AccAddress(k.Address().Bytes()).String()
}

// Deal creates a key shared by the given holders.
func Deal(rng *simrt.RNG, party []int) *Wallet {
	party = append([]int{}, party...)
	sort.Slice(party, func(i, j int) bool { return Ids[party[i]].Key.Cmp(Ids[party[j]].Key) < 0 })
	t := Threshold(len(party))
	poly := make([]*big.Int, t+1)
	for i := range poly {
		poly[i] = rng.Big(curveN)
	}
	eval := func(x *big.Int) *big.Int {
		y := new(big.Int)
		for i := t; i >= 0; i-- {
			y.Mul(y, x)
			y.Add(y, poly[i])
			y.Mod(y, curveN)
		}
		return y
	}
	n := len(party)
	w := &Wallet{Secret: poly[0], Party: party, States: map[int]storage.KeygenLocalState{}}
	pub := crypto.ScalarBaseMult(btss.EC(), poly[0])
	w.X, w.Y = pub.X(), pub.Y()
	w.Pub, _ = PubOf(w.X, w.Y)
	keys := Pubs(party)
	sort.Strings(keys)
	shares := make([]*big.Int, n)
	for i, k := range party {
		shares[i] = eval(Ids[k].Key)
	}
	for i, k := range party {
		d := bkeygen.NewLocalPartySaveData(n)
		d.LocalPreParams = *Ids[k].Pre
		d.Xi, d.ShareID = shares[i], Ids[k].Key
		for j, m := range party {
			d.Ks[j] = Ids[m].Key
			d.NTildej[j] = Ids[m].Pre.NTildei
			d.H1j[j], d.H2j[j] = Ids[m].Pre.H1i, Ids[m].Pre.H2i
			d.BigXj[j] = crypto.ScalarBaseMult(btss.EC(), shares[j])
			pk := paillier.PublicKey{N: Ids[m].Pre.PaillierSK.N}
			d.PaillierPKs[j] = &pk
		}
		d.ECDSAPub = pub
		w.States[k] = storage.KeygenLocalState{PubKey: w.Pub, LocalData: d, ParticipantKeys: append([]string{}, keys...), LocalPartyKey: Ids[k].Pub}
	}
	return w
}

func sortedPubs(l []string) []string {
	s := append([]string{}, l...)
	sort.Strings(s)
	return s
}
