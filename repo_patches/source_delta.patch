From ff73177aaa4e490d17659c0add356ca5dccc6cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 01/30] fix: store key shares and the address book atomically
 and durably

---
 storage/localstate_mgr.go | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/storage/localstate_mgr.go b/storage/localstate_mgr.go
index 67f026e..d111358 100644
--- a/storage/localstate_mgr.go
+++ b/storage/localstate_mgr.go
@@ -74,6 +74,40 @@ func (fsm *FileStateMgr) getFilePathName(pubKey string) (string, error) {
 	return localFileName, nil
 }
 
+// writeFile replaces the content of the given file. A crash or a failing write at any point leaves
+// the file with either its previous content or the complete new content.
+func writeFile(filePathName string, buf []byte, perm os.FileMode) error {
+	tmpFile := filePathName + ".tmp"
+	f, err := os.OpenFile(tmpFile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(buf)
+	if err == nil {
+		err = f.Sync()
+	}
+	if errClose := f.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = os.Rename(tmpFile, filePathName)
+	}
+	if err != nil {
+		_ = os.Remove(tmpFile)
+		return err
+	}
+	// the new directory entry has to be durable as well
+	dir, err := os.Open(filepath.Dir(filePathName))
+	if err != nil {
+		return err
+	}
+	err = dir.Sync()
+	if errClose := dir.Close(); err == nil {
+		err = errClose
+	}
+	return err
+}
+
 // SaveLocalState save the local state to file
 func (fsm *FileStateMgr) SaveLocalState(state KeygenLocalState) error {
 	buf, err := json.Marshal(state)
@@ -84,7 +118,7 @@ func (fsm *FileStateMgr) SaveLocalState(state KeygenLocalState) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filePathName, buf, 0o655)
+	return writeFile(filePathName, buf, 0o655)
 }
 
 // GetLocalState read the local state from file system
@@ -133,7 +167,7 @@ func (fsm *FileStateMgr) SaveAddressBook(address map[peer.ID]addr.AddrList) erro
 	}
 	fsm.writeLock.Lock()
 	defer fsm.writeLock.Unlock()
-	return ioutil.WriteFile(filePathName, buf.Bytes(), 0o655)
+	return writeFile(filePathName, buf.Bytes(), 0o655)
 }
 
 func (fsm *FileStateMgr) RetrieveP2PAddresses() (addr.AddrList, error) {
-- 
2.43.0


From 8b898c5c67c6e3a0f779e8747a0712e17fd75602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 02/30] fix: report a failure when a node not signing never
 gets the signature

---
 tss/keysign.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tss/keysign.go b/tss/keysign.go
index b82391c..e74a99c 100644
--- a/tss/keysign.go
+++ b/tss/keysign.go
@@ -309,6 +309,8 @@ func (t *TssServer) KeySign(req keysign.Request) (keysign.Response, error) {
 	}
 	// for this round, we are not the active signer
 	if errors.Is(errGen, p2p.ErrSignReceived) || errors.Is(errGen, p2p.ErrNotActiveSigner) {
+		// we did not get the signature from the active signers either
+		receivedSig.Status = common.Fail
 		t.updateKeySignResult(receivedSig, keysignTime)
 		return receivedSig, nil
 	}
-- 
2.43.0


From 58d7e23ecb35a3d23e3443f0bec976d8bf7374c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 03/30] fix: leaderless join ends as soon as every party has
 joined

---
 p2p/party_coordinator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 4c0836a..286c6e8 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -530,7 +530,7 @@ func (pc *PartyCoordinator) JoinPartyWithRetry(msgID string, peers []string) ([]
 		defer wg.Done()
 		for {
 			select {
-			case <-peerGroup.notify:
+			case <-peerGroup.newFound:
 				pc.logger.Debug().Msg("we have found the new peer")
 				if peerGroup.getCoordinationStatus() {
 					close(done)
-- 
2.43.0


From 8b8dab3fb039ee03913267ce62b264f5eaa40cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:53 +0000
Subject: [PATCH 04/30] fix: refuse to sign a zero message instead of crashing
 in tss-lib

---
 keysign/tss_keysign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index cd2ebe9..6cd1753 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -106,6 +106,10 @@ func (tKeySign *TssKeySign) SignMessage(msgsToSign [][]byte, localStateItem stor
 		if err != nil {
 			return nil, fmt.Errorf("fail to convert msg to hash int: %w", err)
 		}
+		// tss-lib panics on zero: it multiplies curve points by the message and cannot represent the point at infinity
+		if m.Sign() == 0 {
+			return nil, errors.New("fail to sign: the message is zero")
+		}
 		moniker := m.String() + ":" + strconv.Itoa(i)
 		partiesID, eachLocalPartyID, err := conversion.GetParties(parties, localStateItem.LocalPartyKey)
 		ctx := btss.NewPeerContext(partiesID)
-- 
2.43.0


From efeeefc0a504d7e09dbc75199d5ac5af46d399cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:14 +0000
Subject: [PATCH 05/30] fix: do not feed a failed party any further, tss-lib
 panics on it

---
 common/tss.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/common/tss.go b/common/tss.go
index 07066a5..0ad2888 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -50,6 +50,7 @@ type TssCommon struct {
 	cachedWireBroadcastMsgLists *sync.Map
 	cachedWireUnicastMsgLists   *sync.Map
 	msgNum                      int
+	partyStates                 *sync.Map
 }
 
 func NewTssCommon(peerID string, broadcastChannel chan *messages.BroadcastMsgChan, conf TssConfig, msgID string, privKey tcrypto.PrivKey, msgNum int) *TssCommon {
@@ -75,6 +76,7 @@ func NewTssCommon(peerID string, broadcastChannel chan *messages.BroadcastMsgCha
 		cachedWireBroadcastMsgLists: &sync.Map{},
 		cachedWireUnicastMsgLists:   &sync.Map{},
 		msgNum:                      msgNum,
+		partyStates:                 &sync.Map{},
 	}
 }
 
@@ -129,7 +131,7 @@ func (t *TssCommon) doTssJob(tssJobChan chan *tssJob, jobWg *sync.WaitGroup) {
 		}
 		round.MsgIdentifier = tssjob.msgIdentifier
 
-		_, errUp := party.UpdateFromBytes(wireBytes, partyID, isBroadcast)
+		errUp := t.applyToParty(party, wireBytes, partyID, isBroadcast)
 		if errUp != nil {
 			err := t.processInvalidMsgBlame(round.RoundMsg, round, errUp)
 			t.logger.Error().Err(err).Msgf("fail to apply the share to tss")
@@ -140,6 +142,26 @@ func (t *TssCommon) doTssJob(tssJobChan chan *tssJob, jobWg *sync.WaitGroup) {
 	}
 }
 
+type partyState struct {
+	sync.Mutex
+	failed bool
+}
+
+// applyToParty feeds a share to the local party. Once a party has failed, it must not be fed any more: tss-lib
+// moves on from a round that did not complete and panics on the values that are missing.
+func (t *TssCommon) applyToParty(party btss.Party, wireBytes []byte, from *btss.PartyID, isBroadcast bool) *btss.Error {
+	data, _ := t.partyStates.LoadOrStore(party, &partyState{})
+	state := data.(*partyState)
+	state.Lock()
+	defer state.Unlock()
+	if state.failed {
+		return nil
+	}
+	_, err := party.UpdateFromBytes(wireBytes, from, isBroadcast)
+	state.failed = err != nil
+	return err
+}
+
 func (t *TssCommon) renderToP2P(broadcastMsg *messages.BroadcastMsgChan) {
 	if t.broadcastChannel == nil {
 		t.logger.Warn().Msg("broadcast channel is not set")
-- 
2.43.0


From 89c867ec870ae469377138abf836863cbd393046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:30 +0000
Subject: [PATCH 06/30] fix: give the reason of a timeout whichever way the
 culprits are found

---
 keygen/tss_keygen.go   | 2 ++
 keysign/tss_keysign.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/keygen/tss_keygen.go b/keygen/tss_keygen.go
index 262509c..1925add 100644
--- a/keygen/tss_keygen.go
+++ b/keygen/tss_keygen.go
@@ -167,6 +167,8 @@ func (tKeyGen *TssKeyGen) processKeyGen(errChan chan struct{},
 			if failReason == "" {
 				failReason = blame.TssTimeout
 			}
+			// the reason must be there whichever way we find the nodes to blame
+			blameMgr.GetBlame().SetBlame(failReason, nil, blameMgr.GetBlame().IsUnicast)
 			if lastMsg == nil {
 				tKeyGen.logger.Error().Msg("fail to start the keygen, the last produced message of this node is none")
 				return nil, errors.New("timeout before shared message is generated")
diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index 6cd1753..01ae6c1 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -204,6 +204,8 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 			if failReason == "" {
 				failReason = blame.TssTimeout
 			}
+			// the reason must be there whichever way we find the nodes to blame
+			blameMgr.GetBlame().SetBlame(failReason, nil, blameMgr.GetBlame().IsUnicast)
 
 			tKeySign.tssCommonStruct.P2PPeersLock.RLock()
 			threshold, err := conversion.GetThreshold(len(tKeySign.tssCommonStruct.P2PPeers) + 1)
-- 
2.43.0


From ecef33e7e1f6292343985988e1bc93400e25fafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:17 +0000
Subject: [PATCH 07/30] fix: ignore a requested message that is not the one
 asked for

---
 common/tss.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index 0ad2888..dba26fa 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -406,6 +406,14 @@ func (t *TssCommon) ProcessOneMessage(wrappedMsg *messages.WrappedMessage, peerI
 			}
 			return t.processRequestMsgFromPeer([]peer.ID{decodedPeerID}, &wireMsg, false)
 		}
+		msgHash, err := conversion.BytesToHashString(wireMsg.Msg.Message)
+		if err != nil {
+			return fmt.Errorf("fail to calculate hash of the requested message: %w", err)
+		}
+		// the peer may hold another version of the message, accepting that one makes us ask again without end
+		if wireMsg.Msg.Routing != nil && msgHash != wireMsg.ReqHash {
+			return errors.New("the message is not the one we requested")
+		}
 		exist := t.blameMgr.GetShareMgr().QueryAndDelete(wireMsg.ReqHash)
 		if !exist {
 			t.logger.Debug().Msg("this request does not exit, maybe already processed")
-- 
2.43.0


From 6d74622e01b28da871100597a19f3c20d6cbb48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:17 +0000
Subject: [PATCH 08/30] fix: do not blame peers for round 2 of the keygen while
 waiting for round 1

---
 keygen/tss_keygen.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/keygen/tss_keygen.go b/keygen/tss_keygen.go
index 1925add..7986928 100644
--- a/keygen/tss_keygen.go
+++ b/keygen/tss_keygen.go
@@ -173,9 +173,14 @@ func (tKeyGen *TssKeyGen) processKeyGen(errChan chan struct{},
 				tKeyGen.logger.Error().Msg("fail to start the keygen, the last produced message of this node is none")
 				return nil, errors.New("timeout before shared message is generated")
 			}
-			blameNodesUnicast, err := blameMgr.GetUnicastBlame(messages.KEYGEN2aUnicast)
-			if err != nil {
-				tKeyGen.logger.Error().Err(err).Msg("error in get unicast blame")
+			var blameNodesUnicast []blame.Node
+			var err error
+			// while we wait for the first round, the peers that do so too have no unicast message for us yet
+			if lastMsg.Type() != messages.KEYGEN1 {
+				blameNodesUnicast, err = blameMgr.GetUnicastBlame(messages.KEYGEN2aUnicast)
+				if err != nil {
+					tKeyGen.logger.Error().Err(err).Msg("error in get unicast blame")
+				}
 			}
 			tKeyGen.tssCommonStruct.P2PPeersLock.RLock()
 			threshold, err := conversion.GetThreshold(len(tKeyGen.tssCommonStruct.P2PPeers) + 1)
-- 
2.43.0


From fddc791d8205f04eb58abd92cf7f4a3f531f1ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:18 +0000
Subject: [PATCH 09/30] fix: keep the message at hand while the one of the
 majority is requested

---
 common/tss.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index dba26fa..1d936d4 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -603,7 +603,6 @@ func (t *TssCommon) applyShare(localCacheItem *LocalCacheItem, threshold int, ke
 		}
 		if errors.Is(err, blame.ErrNotMajority) {
 			t.logger.Error().Err(err).Msg("we send request to get the message match with majority")
-			localCacheItem.Msg = nil
 			return t.requestShareFromPeer(localCacheItem, threshold, key, msgType)
 		}
 		blamePk, err := t.blameMgr.TssWrongShareBlame(localCacheItem.Msg)
@@ -812,7 +811,8 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 	} else {
 		// this means we received the broadcast confirm message from other party first
 		t.logger.Debug().Msgf("==%s exist", key)
-		if localCacheItem.Msg == nil {
+		// a message we requested replaces the one the majority did not confirm
+		if localCacheItem.Msg == nil || forward {
 			t.logger.Debug().Msgf("==%s exist, set message", key)
 			localCacheItem.Msg = wireMsg
 			localCacheItem.Hash = msgHash
-- 
2.43.0


From 225b807460a9811fbd68028f807b6500d560488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 10/30] fix: a proven culprit keeps the time-out from blaming
 the nodes that waited

---
 keygen/tss_keygen.go   | 4 ++++
 keysign/tss_keysign.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/keygen/tss_keygen.go b/keygen/tss_keygen.go
index 7986928..de550e2 100644
--- a/keygen/tss_keygen.go
+++ b/keygen/tss_keygen.go
@@ -169,6 +169,10 @@ func (tKeyGen *TssKeyGen) processKeyGen(errChan chan struct{},
 			}
 			// the reason must be there whichever way we find the nodes to blame
 			blameMgr.GetBlame().SetBlame(failReason, nil, blameMgr.GetBlame().IsUnicast)
+			// with the culprit caught sending a wrong share, the others could not get any further either
+			if blameMgr.GetBlame().AlreadyBlame() {
+				return nil, blame.ErrTssTimeOut
+			}
 			if lastMsg == nil {
 				tKeyGen.logger.Error().Msg("fail to start the keygen, the last produced message of this node is none")
 				return nil, errors.New("timeout before shared message is generated")
diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index 01ae6c1..c38e51e 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -206,6 +206,10 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 			}
 			// the reason must be there whichever way we find the nodes to blame
 			blameMgr.GetBlame().SetBlame(failReason, nil, blameMgr.GetBlame().IsUnicast)
+			// with the culprit caught sending a wrong share, the others could not get any further either
+			if blameMgr.GetBlame().AlreadyBlame() {
+				return nil, blame.ErrTssTimeOut
+			}
 
 			tKeySign.tssCommonStruct.P2PPeersLock.RLock()
 			threshold, err := conversion.GetThreshold(len(tKeySign.tssCommonStruct.P2PPeers) + 1)
-- 
2.43.0


From 49e6d2ca1d2dd8a4561693da5d1d400ea86ec949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 11/30] fix: count a node missing from several messages of a
 batch once

---
 blame/policy.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/blame/policy.go b/blame/policy.go
index a580d04..932b864 100644
--- a/blame/policy.go
+++ b/blame/policy.go
@@ -135,7 +135,7 @@ func (m *Manager) TssWrongShareBlame(wiredMsg *messages.WireMessage) (string, er
 func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	acceptedShareForMsg := make(map[string][][]string)
 	var blameNodes []Node
-	var peers []string
+	blamed := make(map[string]bool)
 	isUnicast := false
 	m.acceptShareLocker.Lock()
 	for roundInfo, value := range m.acceptedShares {
@@ -151,6 +151,7 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	m.acceptShareLocker.Unlock()
 
 	for _, cachedShares := range acceptedShareForMsg {
+		var peers []string
 		// we search from the first round to find the missing
 		for index, el := range cachedShares {
 			if len(el)+1 == len(m.PartyIDtoP2PID) {
@@ -181,11 +182,20 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 			}
 			break
 		}
+		// nothing is missing for this message
+		if len(peers) == 0 {
+			continue
+		}
 		blamePubKeys, err := m.getBlamePubKeysNotInList(peers)
 		if err != nil {
 			return nil, isUnicast, err
 		}
 		for _, el := range blamePubKeys {
+			// the messages of a batch are often waiting for the same node
+			if blamed[el] {
+				continue
+			}
+			blamed[el] = true
 			node := Node{
 				el,
 				nil,
-- 
2.43.0


From ff9ac32055e4e89a1c09d7ce5d663a973b0691e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 12/30] fix: accept only one signature per message from a
 signature notification

A notification with more signatures than messages crashed the waiting node
(index out of range), one with fewer ended the wait with an incomplete result.
---
 keysign/notifier.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keysign/notifier.go b/keysign/notifier.go
index dd4feed..323ac54 100644
--- a/keysign/notifier.go
+++ b/keysign/notifier.go
@@ -63,7 +63,9 @@ func (n *Notifier) ProcessSignature(data []*common.ECSignature) (bool, error) {
 	// when data is nil , which means keysign  failed, there is no signature to be verified in that case
 	// for gg20, it wrap the signature R,S into ECSignature structure
 	if len(data) != 0 {
-
+		if len(data) != len(n.messages) {
+			return false, fmt.Errorf("received %d signatures for %d messages", len(data), len(n.messages))
+		}
 		for i := 0; i < len(data); i++ {
 			eachSig := data[i]
 			msg := n.messages[i]
-- 
2.43.0


From 189325af94f9f55abb3576e886e6b57fba4aae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 13/30] fix: check the recovery id of notified signatures

A node that only receives the result returned whatever recovery id the
notification carried, also one that does not recover the pool key.
---
 keysign/notifier.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/keysign/notifier.go b/keysign/notifier.go
index 323ac54..2ab771f 100644
--- a/keysign/notifier.go
+++ b/keysign/notifier.go
@@ -52,7 +52,23 @@ func (n *Notifier) verifySignature(data *common.ECSignature, msg []byte) (bool,
 	if err != nil {
 		return false, err
 	}
-	return ecdsa.Verify(pub.ToECDSA(), msg, new(big.Int).SetBytes(data.R), new(big.Int).SetBytes(data.S)), nil
+	r, s := new(big.Int).SetBytes(data.R), new(big.Int).SetBytes(data.S)
+	if !ecdsa.Verify(pub.ToECDSA(), msg, r, s) {
+		return false, nil
+	}
+	// the recovery id is part of the result, so it has to recover the pool key
+	if len(data.SignatureRecovery) != 1 || data.SignatureRecovery[0] > 3 {
+		return false, errors.New("invalid signature recovery id")
+	}
+	compact := make([]byte, 65)
+	compact[0] = 27 + data.SignatureRecovery[0]
+	r.FillBytes(compact[1:33])
+	s.FillBytes(compact[33:])
+	recovered, _, err := btcec.RecoverCompact(btcec.S256(), compact, msg)
+	if err != nil {
+		return false, fmt.Errorf("fail to recover the pubkey from the signature:%w", err)
+	}
+	return recovered.IsEqual(pub), nil
 }
 
 // ProcessSignature is to verify whether the signature is valid
-- 
2.43.0


From 924771312f39b24b32b93664614b8ff58a74dbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:07 +0000
Subject: [PATCH 14/30] fix: do not panic on messages that do not name their
 sender

---
 common/tss.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index 1d936d4..a2ebfad 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -243,9 +243,14 @@ func (t *TssCommon) processInvalidMsgBlame(roundInfo string, round blame.RoundIn
 	return fmt.Errorf("fail to set bytes to local party: %w", err)
 }
 
+// validRouting tells whether the routing names a sender
+func validRouting(r *btss.MessageRouting) bool {
+	return r != nil && r.From != nil && r.From.MessageWrapper_PartyID != nil
+}
+
 // updateLocal will apply the wireMsg to local keygen/keysign party
 func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
-	if wireMsg == nil || wireMsg.Routing == nil || wireMsg.Routing.From == nil {
+	if wireMsg == nil || !validRouting(wireMsg.Routing) {
 		t.logger.Warn().Msg("wire msg is nil")
 		return errors.New("invalid wireMsg")
 	}
@@ -253,9 +258,9 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 	if partyInfo == nil {
 		return nil
 	}
-	partyID, ok := partyInfo.PartyIDMap[wireMsg.Routing.From.Id]
+	_, ok := partyInfo.PartyIDMap[wireMsg.Routing.From.Id]
 	if !ok {
-		return fmt.Errorf("get message from unknown party %s", partyID.Id)
+		return fmt.Errorf("get message from unknown party %s", wireMsg.Routing.From.Id)
 	}
 
 	dataOwnerPeerID, ok := t.PartyIDtoP2PID[wireMsg.Routing.From.Id]
@@ -274,6 +279,12 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		t.logger.Error().Err(err).Msg("error to unmarshal the BulkMsg")
 		return err
 	}
+	for _, msg := range bulkMsg {
+		if !validRouting(msg.Routing) {
+			t.logger.Error().Msg("a message without its sender")
+			return errors.New("invalid wireMsg")
+		}
+	}
 
 	worker := runtime.NumCPU()
 	tssJobChan := make(chan *tssJob, len(bulkMsg))
@@ -764,7 +775,7 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 	t.logger.Debug().Msg("process wire message")
 	defer t.logger.Debug().Msg("finish process wire message")
 
-	if wireMsg == nil || wireMsg.Routing == nil || wireMsg.Routing.From == nil {
+	if wireMsg == nil || !validRouting(wireMsg.Routing) {
 		t.logger.Warn().Msg("received msg invalid")
 		return errors.New("invalid wireMsg")
 	}
-- 
2.43.0


From 43a22759c59307d1e2337cad855f4410aeb33417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:11 +0000
Subject: [PATCH 15/30] fix: ignore messages of peers that are not part of the
 ceremony

---
 common/tss.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index a2ebfad..3231e03 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -881,6 +881,15 @@ func (t *TssCommon) removeKey(key string) {
 	delete(t.unConfirmedMessages, key)
 }
 
+func (t *TssCommon) isParticipant(peerID peer.ID) bool {
+	for _, el := range t.PartyIDtoP2PID {
+		if el == peerID {
+			return true
+		}
+	}
+	return false
+}
+
 func (t *TssCommon) ProcessInboundMessages(finishChan chan struct{}, wg *sync.WaitGroup) {
 	t.logger.Debug().Msg("start processing inbound messages")
 	defer wg.Done()
@@ -893,6 +902,12 @@ func (t *TssCommon) ProcessInboundMessages(finishChan chan struct{}, wg *sync.Wa
 			if !ok {
 				return
 			}
+			// only those who take part in the ceremony have a say in it
+			if !t.isParticipant(m.PeerID) {
+				t.logger.Error().Msgf("message from peer %s that is not part of the ceremony", m.PeerID)
+				continue
+			}
+
 			var wrappedMsg messages.WrappedMessage
 			if err := json.Unmarshal(m.Payload, &wrappedMsg); nil != err {
 				t.logger.Error().Err(err).Msg("fail to unmarshal wrapped message bytes")
-- 
2.43.0


From ff29c378b002c4105ce9910ba3f64c2a6442936e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 16/30] fix: accept a share only under the name, round and
 receiver its owner signed

---
 common/tss.go | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index 3231e03..ebe69b3 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -770,6 +770,42 @@ func (t *TssCommon) receiverBroadcastHashToPeers(wireMsg *messages.WireMessage,
 	return nil
 }
 
+// checkEnvelope compares the routing and the round of a message, which its signature does not cover, with the
+// content, which it does: nobody else may pass the message on under another name, round or to another receiver.
+func (t *TssCommon) checkEnvelope(wireMsg *messages.WireMessage) error {
+	var bulkMsg []BulkWireMsg
+	if err := json.Unmarshal(wireMsg.Message, &bulkMsg); err != nil {
+		// the owner signed this, so it is for the owner to answer for it
+		return nil
+	}
+	from := t.getPartyInfo().PartyIDMap[wireMsg.Routing.From.Id]
+	for _, msg := range bulkMsg {
+		if !validRouting(msg.Routing) || msg.Routing.From.Id != wireMsg.Routing.From.Id {
+			return errors.New("the sender of the share does not match")
+		}
+		if msg.Routing.IsBroadcast != wireMsg.Routing.IsBroadcast {
+			return errors.New("the receivers of the share do not match")
+		}
+		if !msg.Routing.IsBroadcast && !t.isReceiver(msg.Routing.To) {
+			return errors.New("the share is for another party")
+		}
+		round, err := GetMsgRound(msg.WiredBulkMsgs, from, msg.Routing.IsBroadcast)
+		if err == nil && round.RoundMsg != wireMsg.RoundInfo {
+			return errors.New("the round of the share does not match")
+		}
+	}
+	return nil
+}
+
+func (t *TssCommon) isReceiver(to []*btss.PartyID) bool {
+	for _, el := range to {
+		if el != nil && el.MessageWrapper_PartyID != nil && t.PartyIDtoP2PID[el.Id].String() == t.localPeerID {
+			return true
+		}
+	}
+	return false
+}
+
 // processTSSMsg
 func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType messages.THORChainTSSMessageType, forward bool) error {
 	t.logger.Debug().Msg("process wire message")
@@ -794,6 +830,11 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 		return errors.New("signature verify failed")
 	}
 
+	if err := t.checkEnvelope(wireMsg); err != nil {
+		t.logger.Error().Err(err).Msg("the message is not what its envelope says")
+		return err
+	}
+
 	// for the unicast message, we only update it local party
 	if !wireMsg.Routing.IsBroadcast {
 		t.logger.Debug().Msgf("msg from %s to %+v", wireMsg.Routing.From, wireMsg.Routing.To)
-- 
2.43.0


From 3d90adb4b591575930ae18162d2876fc32bd76be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:45 +0000
Subject: [PATCH 17/30] fix: a damaged address book entry no longer keeps a
 node from starting

---
 storage/localstate_mgr.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage/localstate_mgr.go b/storage/localstate_mgr.go
index d111358..f2c30f5 100644
--- a/storage/localstate_mgr.go
+++ b/storage/localstate_mgr.go
@@ -195,8 +195,12 @@ func (fsm *FileStateMgr) RetrieveP2PAddresses() (addr.AddrList, error) {
 			continue
 		}
 		addr, err := ma.NewMultiaddr(el)
+		if err == nil {
+			_, err = peer.AddrInfoFromP2pAddr(addr)
+		}
 		if err != nil {
-			return nil, fmt.Errorf("invalid address in address book %w", err)
+			// a damaged entry must not make the remaining ones unusable
+			continue
 		}
 		peerAddresses = append(peerAddresses, addr)
 	}
-- 
2.43.0


From 5096d4d06f9ec3bc6e86ee04e2c78f86a0d3d49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:07 +0000
Subject: [PATCH 18/30] fix: a node whose address book lists only itself starts
 like one without peers

---
 p2p/communication.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/p2p/communication.go b/p2p/communication.go
index c2bb3a7..7ee9f08 100644
--- a/p2p/communication.go
+++ b/p2p/communication.go
@@ -199,6 +199,7 @@ func (c *Communication) bootStrapConnectivityCheck() error {
 	}
 
 	var onlineNodes uint32
+	others := 0
 	var wg sync.WaitGroup
 	for _, el := range c.bootstrapPeers {
 		peer, err := peer.AddrInfoFromP2pAddr(el)
@@ -206,6 +207,10 @@ func (c *Communication) bootStrapConnectivityCheck() error {
 			c.logger.Error().Err(err).Msg("error in decode the bootstrap node, skip it")
 			continue
 		}
+		if peer.ID == c.host.ID() {
+			continue
+		}
+		others++
 		wg.Add(1)
 		go func() {
 			ctx, cancel := context.WithTimeout(context.Background(), time.Second*2)
@@ -228,6 +233,10 @@ func (c *Communication) bootStrapConnectivityCheck() error {
 	}
 	wg.Wait()
 
+	if others == 0 {
+		c.logger.Info().Msg("no other bootstrap node set, we skip the connectivity check")
+		return nil
+	}
 	if onlineNodes > 0 {
 		c.logger.Info().Msgf("we have successfully ping pong %d nodes", onlineNodes)
 		return nil
@@ -325,12 +334,18 @@ func (c *Communication) connectToBootstrapPeers() error {
 		return nil
 	}
 	var wg sync.WaitGroup
+	started := 0
 	connRet := make(chan bool, len(c.bootstrapPeers))
 	for _, peerAddr := range c.bootstrapPeers {
 		pi, err := peer.AddrInfoFromP2pAddr(peerAddr)
 		if err != nil {
 			return fmt.Errorf("fail to add peer: %w", err)
 		}
+		// the saved address book has our own address as well
+		if pi.ID == c.host.ID() {
+			continue
+		}
+		started++
 		wg.Add(1)
 		go func(connRet chan bool) {
 			defer wg.Done()
@@ -346,7 +361,11 @@ func (c *Communication) connectToBootstrapPeers() error {
 		}(connRet)
 	}
 	wg.Wait()
-	for i := 0; i < len(c.bootstrapPeers); i++ {
+	if started == 0 {
+		c.logger.Info().Msg("no other bootstrap node set, we skip the connection")
+		return nil
+	}
+	for i := 0; i < started; i++ {
 		if <-connRet {
 			return nil
 		}
-- 
2.43.0


From cecc5218014d895dee19210c8a27667dc0f23cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 19/30] fix: a forged answer no longer uses up the request for
 a lost broadcast

---
 common/tss.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index ebe69b3..a81af7f 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -425,6 +425,12 @@ func (t *TssCommon) ProcessOneMessage(wrappedMsg *messages.WrappedMessage, peerI
 		if wireMsg.Msg.Routing != nil && msgHash != wireMsg.ReqHash {
 			return errors.New("the message is not the one we requested")
 		}
+		// nor may a forged answer use up our request
+		if validRouting(wireMsg.Msg.Routing) {
+			if err := t.checkShare(wireMsg.Msg); err != nil {
+				return err
+			}
+		}
 		exist := t.blameMgr.GetShareMgr().QueryAndDelete(wireMsg.ReqHash)
 		if !exist {
 			t.logger.Debug().Msg("this request does not exit, maybe already processed")
@@ -806,11 +812,8 @@ func (t *TssCommon) isReceiver(to []*btss.PartyID) bool {
 	return false
 }
 
-// processTSSMsg
-func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType messages.THORChainTSSMessageType, forward bool) error {
-	t.logger.Debug().Msg("process wire message")
-	defer t.logger.Debug().Msg("finish process wire message")
-
+// checkShare verifies that the message comes from the party it names
+func (t *TssCommon) checkShare(wireMsg *messages.WireMessage) error {
 	if wireMsg == nil || !validRouting(wireMsg.Routing) {
 		t.logger.Warn().Msg("received msg invalid")
 		return errors.New("invalid wireMsg")
@@ -834,6 +837,17 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 		t.logger.Error().Err(err).Msg("the message is not what its envelope says")
 		return err
 	}
+	return nil
+}
+
+// processTSSMsg
+func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType messages.THORChainTSSMessageType, forward bool) error {
+	t.logger.Debug().Msg("process wire message")
+	defer t.logger.Debug().Msg("finish process wire message")
+
+	if err := t.checkShare(wireMsg); err != nil {
+		return err
+	}
 
 	// for the unicast message, we only update it local party
 	if !wireMsg.Routing.IsBroadcast {
-- 
2.43.0


From 5e03ee3c259f9a2d99bdb7ce3436be06eaa19719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 20/30] fix: a peer asked for a broadcast it has not confirmed
 yet passes on what it has

---
 common/tss_helper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/tss_helper.go b/common/tss_helper.go
index eaf713a..27786e9 100644
--- a/common/tss_helper.go
+++ b/common/tss_helper.go
@@ -247,6 +247,12 @@ func (t *TssCommon) processRequestMsgFromPeer(peersID []peer.ID, msg *messages.T
 		}
 		reqKey := msg.ReqKey
 		storedMsg := t.blameMgr.GetRoundMgr().Get(reqKey)
+		if storedMsg == nil {
+			// the peer may ask for the message that we have, but have not yet confirmed ourselves
+			if item := t.TryGetLocalCacheItem(reqKey); item != nil && item.Msg != nil && item.Hash == msg.ReqHash {
+				storedMsg = item.Msg
+			}
+		}
 		if storedMsg == nil {
 			t.logger.Debug().Msg("we do not have this message either")
 			return nil
-- 
2.43.0


From ff5f9887fda5d24dcfcb65e615328cab835a743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 21/30] fix: streams of messages sent or received after the end
 of a session are released

---
 p2p/stream_helper.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/p2p/stream_helper.go b/p2p/stream_helper.go
index 38d3759..260e379 100644
--- a/p2p/stream_helper.go
+++ b/p2p/stream_helper.go
@@ -39,10 +39,12 @@ func NewStreamMgr() *StreamMgr {
 }
 
 func (sm *StreamMgr) ReleaseStream(msgID string) {
-	sm.streamLocker.RLock()
+	sm.streamLocker.Lock()
 	usedStreams, okStream := sm.unusedStreams[msgID]
 	unknownStreams, okUnknown := sm.unusedStreams["UNKNOWN"]
-	sm.streamLocker.RUnlock()
+	delete(sm.unusedStreams, msgID)
+	delete(sm.unusedStreams, "UNKNOWN")
+	sm.streamLocker.Unlock()
 	streams := append(usedStreams, unknownStreams...)
 	if okStream || okUnknown {
 		for _, el := range streams {
@@ -51,9 +53,28 @@ func (sm *StreamMgr) ReleaseStream(msgID string) {
 				sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
 			}
 		}
-		sm.streamLocker.Lock()
-		delete(sm.unusedStreams, msgID)
-		sm.streamLocker.Unlock()
+	}
+}
+
+// expireStream resets a stream that nobody has released
+func (sm *StreamMgr) expireStream(msgID string, stream network.Stream) {
+	sm.streamLocker.Lock()
+	defer sm.streamLocker.Unlock()
+	entries := sm.unusedStreams[msgID]
+	for i, el := range entries {
+		if el != stream {
+			continue
+		}
+		entries = append(entries[:i], entries[i+1:]...)
+		if len(entries) == 0 {
+			delete(sm.unusedStreams, msgID)
+		} else {
+			sm.unusedStreams[msgID] = entries
+		}
+		if err := stream.Reset(); err != nil {
+			sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
+		}
+		return
 	}
 }
 
@@ -61,6 +82,9 @@ func (sm *StreamMgr) AddStream(msgID string, stream network.Stream) {
 	if stream == nil {
 		return
 	}
+	// the session may be over already, so do not rely on somebody releasing the stream: once the other side
+	// had the time to read what was written, the stream has no more use
+	time.AfterFunc(2*TimeoutReadPayload, func() { sm.expireStream(msgID, stream) })
 	sm.streamLocker.Lock()
 	defer sm.streamLocker.Unlock()
 	entries, ok := sm.unusedStreams[msgID]
-- 
2.43.0


From 5fa246bbb4d2bdd030b08aed782e15fc220c6c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 22/30] fix: the reader of a message nobody receives any more
 gives up

---
 p2p/communication.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/p2p/communication.go b/p2p/communication.go
index 7ee9f08..3be3293 100644
--- a/p2p/communication.go
+++ b/p2p/communication.go
@@ -177,11 +177,23 @@ func (c *Communication) readFromStream(stream network.Stream) {
 			c.logger.Debug().Msgf("no MsgID %s found for this message", wrappedMsg.MessageType)
 			return
 		}
-		channel <- &Message{
+		msg := &Message{
 			PeerID:  stream.Conn().RemotePeer(),
 			Payload: dataBuf,
 		}
-
+		for {
+			select {
+			case channel <- msg:
+				return
+			case <-c.stopChan:
+				return
+			case <-time.After(time.Second):
+				// the receiver does not read any more once it has cancelled its subscription
+				if c.getSubscriber(wrappedMsg.MessageType, wrappedMsg.MsgID) != channel {
+					return
+				}
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 22ffda0cfa644e8925b070e98981fe30b9f40f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 23/30] fix: joining a party with a leader leaves nothing
 behind

---
 p2p/party_coordinator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 286c6e8..1d0da25 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -77,7 +77,10 @@ func (pc *PartyCoordinator) processRespMsg(respMsg *messages.JoinPartyLeaderComm
 	}
 	if remotePeer == peerGroup.leader {
 		peerGroup.setLeaderResponse(respMsg)
-		peerGroup.notify <- true
+		select {
+		case peerGroup.notify <- true:
+		default: // the leader has answered before
+		}
 		err := WriteStreamWithBuffer([]byte("done"), stream)
 		if err != nil {
 			pc.logger.Error().Err(err).Msgf("fail to write the reply to peer: %s", remotePeer)
@@ -328,6 +331,7 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 	if err != nil {
 		return nil, fmt.Errorf("fail to create join party:%w", err)
 	}
+	defer pc.removePeerGroup(msgID)
 
 	leaderPeerID, err := peer.Decode(leader)
 	if err != nil {
@@ -419,6 +423,7 @@ func (pc *PartyCoordinator) joinPartyLeader(msgID string, peers []string, thresh
 		pc.logger.Error().Err(err).Msg("fail to create the join party group")
 		return nil, err
 	}
+	defer pc.removePeerGroup(msgID)
 	peerGroup.peerStatusLock.Lock()
 	peerGroup.leader = pc.host.ID().String()
 	peerGroup.peerStatusLock.Unlock()
-- 
2.43.0


From d3c99b3e3d3ec42dcc0bc4fc31c8d008506e9845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 24/30] fix: the workers of a rejected bulk message end

---
 common/tss.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index a81af7f..fb912b6 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -293,6 +293,10 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		jobWg.Add(1)
 		go t.doTssJob(tssJobChan, &jobWg)
 	}
+	defer func() {
+		close(tssJobChan)
+		jobWg.Wait()
+	}()
 	for _, msg := range bulkMsg {
 		data, ok := partyInfo.PartyMap.Load(msg.MsgIdentifier)
 		if !ok {
@@ -339,8 +343,6 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		job := newJob(localMsgParty, msg.WiredBulkMsgs, round.MsgIdentifier, partyID, msg.Routing.IsBroadcast)
 		tssJobChan <- job
 	}
-	close(tssJobChan)
-	jobWg.Wait()
 	return nil
 }
 
-- 
2.43.0


From 4c256177499079b3ea970c5905e2cc97ff9bba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:49 +0000
Subject: [PATCH 25/30] fix: the leader of a join group is set once, before
 others can read it

joinPartyMember and joinPartyLeader wrote peerGroup.leader a second time after the
group was already visible to the handlers, which read it without the lock.
---
 p2p/party_coordinator.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 1d0da25..040bd35 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -337,7 +337,6 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 	if err != nil {
 		return nil, fmt.Errorf("fail to decode peer id(%s):%w", leader, err)
 	}
-	peerGroup.leader = leader
 	msg := messages.JoinPartyLeaderComm{
 		ID: msgID,
 	}
@@ -424,9 +423,6 @@ func (pc *PartyCoordinator) joinPartyLeader(msgID string, peers []string, thresh
 		return nil, err
 	}
 	defer pc.removePeerGroup(msgID)
-	peerGroup.peerStatusLock.Lock()
-	peerGroup.leader = pc.host.ID().String()
-	peerGroup.peerStatusLock.Unlock()
 	allPeers, err := pc.getPeerIDs(peers)
 	if err != nil {
 		pc.logger.Error().Err(err).Msg("fail to parse peer id")
-- 
2.43.0


From e9cb655b8ab45140e201fba79b92ebdf90cdab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:00 +0000
Subject: [PATCH 26/30] fix: the sender's own confirmation of its broadcast
 does not count before the message has arrived

A node that has not received a broadcast yet counted the confirmation of the sender
itself, so that an equivocator could push a node to the version of its choice.
---
 common/tss.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index fb912b6..9f55e32 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -698,6 +698,10 @@ func (t *TssCommon) processVerMsg(broadcastConfirmMsg *messages.BroadcastConfirm
 	}
 	key := broadcastConfirmMsg.Key
 	localCacheItem := t.TryGetLocalCacheItem(key)
+	// the owner's word for his own message does not count, neither before nor after we have the message
+	if owner, ok := t.PartyIDtoP2PID[strings.SplitN(key, "-", 2)[0]]; ok && owner.String() == broadcastConfirmMsg.P2PID && (nil == localCacheItem || localCacheItem.Msg == nil) {
+		return blame.ErrHashFromOwner
+	}
 	if nil == localCacheItem {
 		// we didn't receive the TSS Message yet
 		localCacheItem = NewLocalCacheItem(nil, broadcastConfirmMsg.Hash)
-- 
2.43.0


From bde7bbd4c5050c570206d9860934047534ba49b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:55 +0000
Subject: [PATCH 27/30] fix: refuse a signing request without messages instead
 of crashing

---
 tss/keysign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tss/keysign.go b/tss/keysign.go
index e74a99c..e48f8bf 100644
--- a/tss/keysign.go
+++ b/tss/keysign.go
@@ -227,6 +227,10 @@ func (t *TssServer) KeySign(req keysign.Request) (keysign.Response, error) {
 		return emptyResp, fmt.Errorf("fail to get local keygen state: %w", err)
 	}
 
+	if len(req.Messages) == 0 {
+		return emptyResp, errors.New("no message to sign")
+	}
+
 	var msgsToSign [][]byte
 	for _, val := range req.Messages {
 		msgToSign, err := base64.StdEncoding.DecodeString(val)
-- 
2.43.0


From 0655401615a8caaf0cdfc9d5e4a6170dfa7ba449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 28/30] fix: in a batch only what its slowest message waits for
 is held against others

---
 blame/policy.go        | 13 +++++++++++++
 common/tss.go          |  2 ++
 keysign/tss_keysign.go |  5 ++++-
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/blame/policy.go b/blame/policy.go
index 932b864..290d3b1 100644
--- a/blame/policy.go
+++ b/blame/policy.go
@@ -150,6 +150,16 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	}
 	m.acceptShareLocker.Unlock()
 
+	// the batch cannot get any further than its slowest message: what the other messages miss later is a consequence
+	firstMissing := rounds
+	for _, cachedShares := range acceptedShareForMsg {
+		for index := 0; index < firstMissing; index++ {
+			if len(cachedShares[index])+1 != len(m.PartyIDtoP2PID) {
+				firstMissing = index
+			}
+		}
+	}
+
 	for _, cachedShares := range acceptedShareForMsg {
 		var peers []string
 		// we search from the first round to find the missing
@@ -157,6 +167,9 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 			if len(el)+1 == len(m.PartyIDtoP2PID) {
 				continue
 			}
+			if index > firstMissing {
+				break
+			}
 			// we find whether the missing share is in unicast
 			if rounds == messages.TSSKEYGENROUNDS {
 				// we are processing the keygen and if the missing shares is in second round(index=1)
diff --git a/common/tss.go b/common/tss.go
index 9f55e32..6a33736 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -588,6 +588,7 @@ func (t *TssCommon) ProcessOutCh(msg btss.Message, msgType messages.THORChainTSS
 				t.logger.Error().Err(err).Msg("error in send bulk message")
 				return true
 			}
+			t.blameMgr.SetLastMsg(msg)
 			t.cachedWireUnicastMsgLists.Delete(key)
 		}
 		return true
@@ -602,6 +603,7 @@ func (t *TssCommon) ProcessOutCh(msg btss.Message, msgType messages.THORChainTSS
 				t.logger.Error().Err(err).Msg("error in send bulk message")
 				return true
 			}
+			t.blameMgr.SetLastMsg(msg)
 			t.cachedWireBroadcastMsgLists.Delete(key)
 		}
 		return true
diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index c38e51e..ec3a835 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -257,7 +257,10 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 			return nil, blame.ErrTssTimeOut
 		case msg := <-outCh:
 			tKeySign.logger.Debug().Msgf(">>>>>>>>>>key sign msg: %s", msg.String())
-			tKeySign.tssCommonStruct.GetBlameMgr().SetLastMsg(msg)
+			// later ones count once the whole batch has got that far, see ProcessOutCh
+			if blameMgr.GetLastMsg() == nil {
+				blameMgr.SetLastMsg(msg)
+			}
 			err := tKeySign.tssCommonStruct.ProcessOutCh(msg, messages.TSSKeySignMsg)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From fca8d36e83f6452bba46736c64e7c915f924c268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:54 +0000
Subject: [PATCH 29/30] fix: a failed signing party names the participants that
 did not join

---
 tss/keysign.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tss/keysign.go b/tss/keysign.go
index e48f8bf..98c2e2c 100644
--- a/tss/keysign.go
+++ b/tss/keysign.go
@@ -108,6 +108,10 @@ func (t *TssServer) generateSignature(msgID string, msgsToSign [][]byte, req key
 		}
 
 		var blameLeader blame.Blame
+		blameNodes, err := blameMgr.NodeSyncBlame(allParticipants, onlinePeers)
+		if err != nil {
+			t.logger.Err(err).Msg("fail to get peers to blame")
+		}
 		leaderPubKey, err := conversion.GetPubKeyFromPeerID(leader)
 		if err != nil {
 			t.logger.Error().Err(errJoinParty).Msgf("fail to convert the peerID to public key %s", leader)
@@ -116,12 +120,19 @@ func (t *TssServer) generateSignature(msgID string, msgsToSign [][]byte, req key
 			blameLeader = blame.NewBlame(blame.TssSyncFail, []blame.Node{{leaderPubKey, nil, nil}})
 		}
 
+		// without the answer of the leader we do not know who else is missing
+		if len(onlinePeers) != 0 {
+			blameNodes.AddBlameNodes(blameLeader.BlameNodes...)
+		} else {
+			blameNodes = blameLeader
+		}
+
 		t.broadcastKeysignFailure(msgID, allPeersID)
 		// make sure we blame the leader as well
 		t.logger.Error().Err(errJoinParty).Msgf("messagesID(%s)fail to form keysign party with online:%v", msgID, onlinePeers)
 		return keysign.Response{
 			Status: common.Fail,
-			Blame:  blameLeader,
+			Blame:  blameNodes,
 		}, nil
 
 	}
-- 
2.43.0


From 1be9acfabf5f8e2977cb7027b81522c473d0abb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 30/30] fix: without a leader the join request goes to peers
 that asked first as well

---
 p2p/party_coordinator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 040bd35..237bbd7 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -509,7 +509,12 @@ func (pc *PartyCoordinator) JoinPartyWithRetry(msgID string, peers []string) ([]
 		return nil, err
 	}
 	defer pc.removePeerGroup(msg.ID)
-	_, offline := peerGroup.getPeersStatus()
+	// a peer that has asked us already may not have received our request yet
+	allPeers, err := pc.getPeerIDs(peers)
+	if err != nil {
+		pc.logger.Error().Err(err).Msg("fail to parse peer id")
+		return nil, err
+	}
 	var wg sync.WaitGroup
 	done := make(chan struct{})
 	wg.Add(1)
@@ -520,7 +525,7 @@ func (pc *PartyCoordinator) JoinPartyWithRetry(msgID string, peers []string) ([]
 			case <-done:
 				return
 			default:
-				pc.sendRequestToAll(msgID, msgSend, offline)
+				pc.sendRequestToAll(msgID, msgSend, allPeers)
 			}
 			time.Sleep(time.Second)
 		}
-- 
2.43.0

