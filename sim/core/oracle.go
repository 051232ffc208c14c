//go:build go1.22

package core

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	bcrypto "github.com/binance-chain/tss-lib/crypto"
	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/btcsuite/btcd/btcec"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"gitlab.com/thorchain/tss/go-tss/storage"
)

// SessionID is the identifier of a request, computed independently.
func (c *Cluster) SessionID(op *Op) string {
	return sessionID(op, "")
}

func sessionID(op *Op, _ string) string {
	var dat string
	if op.Kind != "keygen" && op.Kind != "keysign" { // component scenarios
		h := sha256.Sum256([]byte(fmt.Sprint("session", op.Wallet)))
		return hex.EncodeToString(h[:])
	}
	if op.Kind == "keysign" {
		var ms []string
		for _, m := range op.Msgs {
			ms = append(ms, base64.StdEncoding.EncodeToString(m))
		}
		sort.Strings(ms)
		dat = strings.Join(ms, ",")
	}
	ks := sortedPubs(Pubs(op.Keys))
	h := sha256.Sum256([]byte(dat + strings.Join(ks, "")))
	return hex.EncodeToString(h[:])
}

// Leader computes who leads a session of the party.
func (p *Plan) Leader(op *Op, party []int) int {
	id := sessionID(op, "")
	best, who := "", -1
	for _, i := range party {
		s := sha256.Sum256([]byte(id + strconv.FormatInt(op.Height, 10) + Ids[i].Peer.String()))
		if h := hex.EncodeToString(s[:]); best == "" || h < best {
			best, who = h, i
		}
	}
	return who
}

// PartyOf lists the nodes a ceremony is among.
func (c *Cluster) PartyOf(op *Op) []int {
	if op.Kind == "keygen" || isOld(op.Version) {
		return op.Keys
	}
	return c.Holders(op)
}

// Holders lists the holders of the key an operation signs with.
func (c *Cluster) Holders(op *Op) []int {
	if op.Wallet >= 0 {
		return c.Wallets[op.Wallet].Party
	}
	return c.Op(-1 - op.Wallet).Keys
}

func isOld(v string) bool {
	var a, b int
	fmt.Sscanf(v, "%d.%d", &a, &b)
	return a == 0 && b < 14
}

// LoadShare reads a share from a node's disk.
func (c *Cluster) LoadShare(i int, pub string) (storage.KeygenLocalState, error) {
	m, err := storage.NewFileStateMgr(c.Nodes[i].Dir)
	if err != nil {
		return storage.KeygenLocalState{}, err
	}
	return m.GetLocalState(pub)
}

// pointOf decodes a bech32 pool key.
func pointOf(pub string) (*btcec.PublicKey, error) {
	k, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, pub)
	if err != nil {
		return nil, err
	}
	return btcec.ParsePubKey(k.Bytes(), btcec.S256())
}

// CheckShare validates a stored share by itself.
func CheckShare(s *storage.KeygenLocalState, i int, keys []int, pub string) error {
	if s.PubKey != pub {
		return fmt.Errorf("stored under another key")
	}
	if s.LocalPartyKey != Ids[i].Pub {
		return fmt.Errorf("stored local party is %s", NodeName(ByPub(s.LocalPartyKey)))
	}
	want := strings.Join(sortedPubs(Pubs(keys)), ",")
	if strings.Join(sortedPubs(s.ParticipantKeys), ",") != want {
		return fmt.Errorf("stored participants differ from the request's")
	}
	d := &s.LocalData
	pt, err := pointOf(pub)
	if err != nil {
		return err
	}
	if d.ECDSAPub == nil || d.ECDSAPub.X().Cmp(pt.X) != 0 || d.ECDSAPub.Y().Cmp(pt.Y) != 0 {
		return fmt.Errorf("stored public point is not the reported key")
	}
	if d.ShareID == nil || d.ShareID.Cmp(Ids[i].Key) != 0 {
		return fmt.Errorf("stored share id is not the node's")
	}
	if d.Xi == nil || d.Xi.Sign() == 0 {
		return fmt.Errorf("no secret share stored")
	}
	if len(d.Ks) != len(keys) || len(d.BigXj) != len(keys) || len(d.PaillierPKs) != len(keys) {
		return fmt.Errorf("stored share is for %d participants", len(d.Ks))
	}
	for j, k := range d.Ks {
		if k == nil || d.BigXj[j] == nil {
			return fmt.Errorf("stored share is incomplete")
		}
		if k.Cmp(Ids[i].Key) == 0 {
			x := bcrypto.ScalarBaseMult(btss.EC(), d.Xi)
			if !x.Equals(d.BigXj[j]) {
				return fmt.Errorf("secret share does not match its public share")
			}
		}
	}
	if d.PaillierSK == nil || d.PaillierSK.N == nil {
		return fmt.Errorf("no Paillier key stored")
	}
	return nil
}

// interpolate recovers the secret from points.
func interpolate(xs, ys []*big.Int) *big.Int {
	s := new(big.Int)
	for i := range xs {
		num, den := big.NewInt(1), big.NewInt(1)
		for j := range xs {
			if i == j {
				continue
			}
			num.Mul(num, xs[j]).Mod(num, curveN)
			d := new(big.Int).Sub(xs[j], xs[i])
			den.Mul(den, d).Mod(den, curveN)
		}
		den.ModInverse(den, curveN)
		t := new(big.Int).Mul(ys[i], num)
		t.Mul(t, den)
		s.Add(s, t).Mod(s, curveN)
	}
	return s
}

func subsets(n, k int, f func([]int) bool) {
	idx := seq(k)
	for {
		if !f(idx) {
			return
		}
		i := k - 1
		for i >= 0 && idx[i] == n-k+i {
			i--
		}
		if i < 0 {
			return
		}
		idx[i]++
		for j := i + 1; j < k; j++ {
			idx[j] = idx[j-1] + 1
		}
	}
}

// twin reports whether an equal key generation was asked for at the same time:
// both form one session, so its ceremonies cannot be told apart by request.
func (c *Cluster) twin(op *Op) bool {
	for _, a := range c.OpCalls(op.ID) {
		for _, b := range c.Calls {
			if b.Op == op || b.Op.Kind != "keygen" || a.Skipped || b.Skipped || c.SessionID(b.Op) != c.SessionID(op) {
				continue
			}
			if (!b.Done || b.End >= a.Start) && (!a.Done || a.End >= b.Start) {
				return true
			}
		}
	}
	return false
}

// JudgeKeygen is the C01 oracle.
func (c *Cluster) JudgeKeygen(prop string) {
	owner := map[string]string{} // key -> participants
	for k, w := range c.Wallets {
		owner[w.Pub] = fmt.Sprint("wallet", k)
	}
	for i := range c.P.Ops {
		op := &c.P.Ops[i]
		if op.Kind != "keygen" || c.twin(op) {
			continue
		}
		var ok []*Call
		for _, cl := range c.OpCalls(op.ID) {
			if cl.OK() {
				ok = append(ok, cl)
			}
		}
		if len(ok) == 0 {
			continue
		}
		c.nontrivial = true
		pub := ok[0].KG.PubKey
		for _, cl := range ok {
			if cl.KG.PubKey != pub {
				c.Fail(prop, "different keys", "nodes report different keys for one key generation (op%d): %s on %s, %s on %s", op.ID, pub, NodeName(ok[0].Node), cl.KG.PubKey, NodeName(cl.Node))
				return
			}
			if cl.KG.PoolAddress != ok[0].KG.PoolAddress {
				c.Fail(prop, "different addresses", "nodes report different pool addresses for one key (op%d)", op.ID)
			}
		}
		pt, err := pointOf(pub)
		if err != nil {
			c.Fail(prop, "bad key", "reported key %q is no public key: %v", pub, err)
			continue
		}
		if _, addr := PubOf(pt.X, pt.Y); addr != ok[0].KG.PoolAddress && !sameAddr(addr, ok[0].KG.PoolAddress) {
			c.Fail(prop, "wrong address", "reported address %s is not the key's address %s", ok[0].KG.PoolAddress, addr)
		}
		who := fmt.Sprint(sortedInts(op.Keys), op.ID)
		if o, dup := owner[pub]; dup && o != who {
			c.Fail(prop, "key reused", "the key of op%d was already made by another ceremony (%s)", op.ID, o)
		}
		owner[pub] = who
		t := Threshold(len(op.Keys))
		var xs, ys []*big.Int
		var nodes []int
		for _, cl := range ok {
			if c.Nodes[cl.Node].Faulty {
				continue
			}
			st, err := c.LoadShare(cl.Node, pub)
			if err != nil {
				c.Fail(prop, "no share", "%s reported success of op%d but its share cannot be loaded: %v", NodeName(cl.Node), op.ID, err)
				continue
			}
			if err := CheckShare(&st, cl.Node, op.Keys, pub); err != nil {
				c.Fail(prop, "bad share", "share of %s after op%d: %v", NodeName(cl.Node), op.ID, err)
				continue
			}
			xs = append(xs, Ids[cl.Node].Key)
			ys = append(ys, st.LocalData.Xi)
			nodes = append(nodes, cl.Node)
		}
		if len(xs) >= t+1 {
			subsets(len(xs), t+1, func(s []int) bool {
				var a, b []*big.Int
				for _, k := range s {
					a, b = append(a, xs[k]), append(b, ys[k])
				}
				if !opens(interpolate(a, b), pt) {
					c.Fail(prop, "shares do not combine", "the shares of %v do not reconstruct the key of op%d", pickBy(nodes, s), op.ID)
					return false
				}
				return true
			})
		}
		if t >= 1 && len(xs) >= t {
			if opens(interpolate(xs[:t], ys[:t]), pt) {
				c.Fail(prop, "threshold too low", "%d shares already reconstruct the key of op%d among %d", t, op.ID, len(op.Keys))
			}
		}
	}
}

func opens(s *big.Int, pt *btcec.PublicKey) bool {
	if s.Sign() == 0 {
		return false
	}
	p := bcrypto.ScalarBaseMult(btss.EC(), s)
	return p.X().Cmp(pt.X) == 0 && p.Y().Cmp(pt.Y) == 0
}

func sameAddr(a, b string) bool {
	x, e1 := sdk.GetFromBech32(a, sdk.GetConfig().GetBech32AccountAddrPrefix())
	if e1 != nil {
		return false
	}
	i := strings.LastIndexByte(b, '1')
	if i < 0 {
		return false
	}
	y, e2 := sdk.GetFromBech32(b, b[:i])
	return e2 == nil && string(x) == string(y)
}

func pickBy(l []int, idx []int) []int {
	var out []int
	for _, i := range idx {
		out = append(out, l[i])
	}
	return out
}

func sortedInts(l []int) []int {
	o := append([]int{}, l...)
	sort.Ints(o)
	return o
}

// sigEntry is a decoded signature of a reply.
type sigEntry struct {
	msg  string
	r, s *big.Int
	v    []byte
}

// CheckSignatures validates a successful signing reply.
func CheckSignatures(cl *Call, pool string) error {
	pt, err := pointOf(pool)
	if err != nil {
		return err
	}
	want := map[string]bool{}
	for _, m := range cl.Msgs {
		want[m] = true
	}
	got := map[string]bool{}
	for _, s := range cl.KS.Signatures {
		if !want[s.Msg] {
			return fmt.Errorf("a signature is paired with a message that was not requested")
		}
		if got[s.Msg] {
			return fmt.Errorf("two entries for one message")
		}
		got[s.Msg] = true
		m, _ := base64.StdEncoding.DecodeString(s.Msg)
		r, e1 := base64.StdEncoding.DecodeString(s.R)
		ss, e2 := base64.StdEncoding.DecodeString(s.S)
		v, e3 := base64.StdEncoding.DecodeString(s.RecoveryID)
		if e1 != nil || e2 != nil || e3 != nil {
			return fmt.Errorf("an entry is not base64")
		}
		R, S := new(big.Int).SetBytes(r), new(big.Int).SetBytes(ss)
		pk := &ecdsa.PublicKey{Curve: btcec.S256(), X: pt.X, Y: pt.Y}
		if R.Sign() == 0 || S.Sign() == 0 || !verifyECDSA(pk, m, R, S) {
			return fmt.Errorf("a signature does not verify for the message it is paired with")
		}
		if len(v) != 1 || v[0] > 3 {
			return fmt.Errorf("recovery id %v is not usable", v)
		}
		if !recovers(m, R, S, v[0], pt) {
			return fmt.Errorf("recovery id %d does not recover the pool key", v[0])
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d signatures for %d messages", len(got), len(want))
	}
	return nil
}

func truncHash(m []byte) *big.Int {
	if len(m) > 32 {
		m = m[:32]
	}
	return new(big.Int).SetBytes(m)
}

func verifyECDSA(pk *ecdsa.PublicKey, m []byte, r, s *big.Int) bool {
	var cv elliptic.Curve = btcec.S256()
	n := cv.Params().N
	if r.Cmp(n) >= 0 || s.Cmp(n) >= 0 {
		return false
	}
	e := truncHash(m)
	w := new(big.Int).ModInverse(s, n)
	if w == nil {
		return false
	}
	u1 := new(big.Int).Mul(e, w)
	u1.Mod(u1, n)
	u2 := new(big.Int).Mul(r, w)
	u2.Mod(u2, n)
	x2, y2 := cv.ScalarMult(pk.X, pk.Y, u2.Bytes())
	x, y := x2, y2
	if u1.Sign() != 0 {
		x1, y1 := cv.ScalarBaseMult(u1.Bytes())
		x, y = cv.Add(x1, y1, x2, y2)
	}
	if x.Sign() == 0 && y.Sign() == 0 {
		return false
	}
	x = new(big.Int).Mod(x, n)
	return x.Cmp(r) == 0
}

func recovers(m []byte, r, s *big.Int, v byte, pt *btcec.PublicKey) bool {
	cv := btcec.S256()
	n := cv.Params().N
	x := new(big.Int).Set(r)
	if v&2 != 0 {
		x.Add(x, n)
	}
	if x.Cmp(cv.Params().P) >= 0 {
		return false
	}
	b := make([]byte, 33)
	b[0] = 2 + v&1
	x.FillBytes(b[1:])
	R, err := btcec.ParsePubKey(b, cv)
	if err != nil {
		return false
	}
	rinv := new(big.Int).ModInverse(r, n)
	e := truncHash(m)
	u1 := new(big.Int).Mul(e, rinv)
	u1.Neg(u1).Mod(u1, n)
	u2 := new(big.Int).Mul(s, rinv)
	u2.Mod(u2, n)
	x2, y2 := cv.ScalarMult(R.X, R.Y, u2.Bytes())
	qx, qy := x2, y2
	if u1.Sign() != 0 {
		x1, y1 := cv.ScalarBaseMult(u1.Bytes())
		qx, qy = cv.Add(x1, y1, x2, y2)
	}
	return qx.Cmp(pt.X) == 0 && qy.Cmp(pt.Y) == 0
}

// JudgeKeysign is the C02 oracle.
func (c *Cluster) JudgeKeysign(prop string) {
	for i := range c.P.Ops {
		op := &c.P.Ops[i]
		if op.Kind != "keysign" {
			continue
		}
		var ref *Call
		var refSet string
		for _, cl := range c.OpCalls(op.ID) {
			if !cl.OK() || c.Nodes[cl.Node].Faulty {
				continue
			}
			c.nontrivial = true
			if err := CheckSignatures(cl, c.PoolOf(op)); err != nil {
				c.Fail(prop, "bad reply: "+err.Error(), "%s reports success of op%d but: %v", NodeName(cl.Node), op.ID, err)
				continue
			}
			var l []string
			for _, s := range cl.KS.Signatures {
				l = append(l, s.Msg+":"+s.R+":"+s.S+":"+s.RecoveryID)
			}
			sort.Strings(l)
			set := strings.Join(l, "\n")
			if ref == nil {
				ref, refSet = cl, set
			} else if set != refSet {
				c.Fail(prop, "different signatures", "%s and %s return different signatures for op%d", NodeName(ref.Node), NodeName(cl.Node), op.ID)
			}
		}
	}
}

// JudgeAllSucceed demands success from every call of the listed operations.
func (c *Cluster) JudgeAllSucceed(prop string, sel func(op *Op, cl *Call) bool) {
	for _, cl := range c.Calls {
		if sel != nil && !sel(cl.Op, cl) {
			continue
		}
		if cl.Skipped {
			c.Fail(prop, "node down", "%s is not running for op%d (start: %v)", NodeName(cl.Node), cl.Op.ID, c.Nodes[cl.Node].StartErr)
			continue
		}
		if !cl.OK() && c.Late(cl) {
			c.Fail(prop, "keysign failed: asked only after the signatures were announced", "op%d on %s: %s", cl.Op.ID, NodeName(cl.Node), cl.Brief())
			continue
		}
		if !cl.OK() {
			c.Fail(prop, cl.Op.Kind+" failed", "op%d on %s: %s", cl.Op.ID, NodeName(cl.Node), cl.Brief())
		}
	}
}

// Late reports whether a signing request was made only after the signers had
// announced the signatures to that node.
func (c *Cluster) Late(cl *Call) bool {
	if cl.Op.Kind != "keysign" {
		return false
	}
	l := c.announced[fmt.Sprint(c.SessionID(cl.Op), cl.Node)]
	for _, t := range l {
		if t > cl.Start+100*time.Millisecond {
			return false
		}
	}
	return len(l) > 0
}

// JudgeReturns is the C05 oracle.
func (c *Cluster) JudgeReturns(prop string) {
	for _, cl := range c.Calls {
		if cl.Skipped {
			continue
		}
		nd := c.Nodes[cl.Node]
		if !cl.Done {
			if nd.Inc == cl.Inc {
				c.Fail(prop, cl.Op.Kind+" never returns", "op%d on %s has not returned within %s", cl.Op.ID, NodeName(cl.Node), c.Bound(cl.Op))
			}
			continue
		}
		c.nontrivial = true
		st := cl.Status()
		switch {
		case cl.Err == nil && st != 1 && st != 2:
			c.Fail(prop, cl.Op.Kind+" neither success nor failure", "op%d on %s returned status %d without an error", cl.Op.ID, NodeName(cl.Node), st)
		case cl.Err != nil && st == 1:
			c.Fail(prop, cl.Op.Kind+" success with error", "op%d on %s returned success together with error %v", cl.Op.ID, NodeName(cl.Node), cl.Err)
		case st == 1 && cl.Op.Kind == "keygen" && (cl.KG.PubKey == "" || cl.KG.PoolAddress == ""):
			c.Fail(prop, "success without key", "op%d on %s returned success without a key", cl.Op.ID, NodeName(cl.Node))
		case st == 1 && cl.Op.Kind == "keysign" && len(cl.KS.Signatures) == 0:
			c.Fail(prop, "success without signatures", "op%d on %s returned success without signatures", cl.Op.ID, NodeName(cl.Node))
		}
	}
}
