"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Key generation ends with one key and a usable share on every node",
 "Whenever nodes report a key-generation ceremony as successful, they all report the same public key and pool address, and that key is never reported for different participants. "
 "Each such node has by then stored a share for exactly that key, recording its own identity and the full participant set, and every choice of a signing threshold's worth of the stored shares reconstructs the one private key that matches the reported public key, and no fewer shares do.",
 ["schedules","fault_sequences","configurations"],
 "Every party size, participant order, protocol version (leader and leaderless joining), message delay/reordering/fragmentation, goroutine interleaving, and any set of crashes, partitions or late nodes during the ceremony.",
 "The tests run one 4-node ceremony per scenario on loopback with one preset order; they compare returned strings but never reconstruct the key from the stored shares and never vary schedule or faults.",
 ["tss/keygen.go","keygen/tss_keygen.go","common/tss.go","storage/localstate_mgr.go","conversion/conversion.go"],
 [("GenerateNewKey/processKeyGen drive the ceremony and build the stored state","keygen/tss_keygen.go"),("Keygen assembles the reply","tss/keygen.go"),("ProcessInboundMessages/updateLocal feed the round machine","common/tss.go")],
 ["keygen.Response of every node","localstate file of every node"],
 [("KeygenLocalState","share, key, participants, own identity","storage/localstate_mgr.go")])
p("C02","Every signature reported as a success verifies for the message it is paired with",
 "When a signing request is reported successful on a node, the reply holds exactly one entry for each distinct requested message and each entry's signature verifies for that very message under the requested pool public key, with a recovery id that recovers that key. "
 "This holds on nodes that took part in signing and on nodes that only received the result, and all successful nodes return the same signatures. Messages that cannot be signed as given (zero, or not below the group order) fail cleanly.",
 ["schedules","fault_sequences","inputs","histories"],
 "Every batch of messages (any count and order, differing per node), every participant choice and order, every interleaving with other ceremonies, faults, and malicious participants up to the threshold.",
 "The tests sign one fixed batch with fixed shares; pairing errors and invalid results need particular batches, orders and schedules.",
 ["tss/keysign.go","keysign/tss_keysign.go","keysign/signature_notifier.go","keysign/notifier.go","conversion/tss_helper.go"],
 [("batchSignatures pairs sorted results with sorted messages","tss/keysign.go"),("verifySignature on the receiving side","keysign/notifier.go"),("SignMessage/processKeySign","keysign/tss_keysign.go")],
 ["keysign.Response of every node"])
p("C03","With no faults every ceremony succeeds on every node, whatever the schedule",
 "If all requested participants issue the same request (any distinct messages that are non-zero and below the group order), are honest and running, and can reach each other with delays well inside the configured timeouts, then key generation succeeds on every participant and signing succeeds on every requested node, including those not picked to sign. "
 "This does not depend on message ordering between peers, on how the byte streams are fragmented, on duplicate deliveries, on the order keys, messages or peers are listed in, or on how goroutines are interleaved.",
 ["schedules","configurations","inputs"],
 "Every fault-free schedule, party size, participant and message order, start skew between the nodes below the join timeout, latency distribution and protocol version.",
 "Tests exercise the schedules the machine happens to produce on loopback; a deadlock, lost wake-up or message dropped before a round is ready needs a specific order of events.",
 ["tss/keygen.go","tss/keysign.go","common/tss.go","p2p/party_coordinator.go","p2p/communication.go","keysign/signature_notifier.go"],
 [("party formation","p2p/party_coordinator.go"),("message verification and hash confirmation","common/tss.go"),("signature broadcast to the non signers","keysign/signature_notifier.go")],
 ["Response.Status of every node"])
p("C04","Signing works with any threshold of nodes and recovers once faults stop",
 "A signing request made in the leader-based mode while at most the tolerated number of key holders, not including the session's leader, is stopped or unreachable succeeds on every node that is up. "
 "After any mix of failed ceremonies, crashes, restarts, partitions or message loss has ended, a new request to the healthy nodes succeeds within its ordinary timeouts, without restarting them.",
 ["fault_sequences","crash_points","histories","schedules"],
 "Every choice of up to n-(t+1) down nodes, every fault sequence in earlier ceremonies, every instant at which faults stop, every subsequent request.",
 "The tests contain one scripted absent-node case; leftovers of earlier failures (stale sessions, peer groups, subscriptions, wedged streams) are only visible across histories.",
 ["p2p/party_coordinator.go","p2p/peer_status.go","tss/keysign.go","tss/keygen.go","p2p/communication.go"],
 [("JoinPartyWithLeader starts with the first threshold+1 peers","p2p/party_coordinator.go"),("CancelSubscribe/ReleaseStream/removePeerGroup clean a finished session","p2p/communication.go, p2p/party_coordinator.go")],
 ["keysign.Response/keygen.Response of later requests"])
p("C05","Every request ends within a bound set by the configured timeouts",
 "A key-generation or signing call always returns - with success, or with a failure status or an error - within a bounded time derived from the configured party, key-generation and key-signing timeouts, whatever peers, the network or the disk do, and even while the node is being stopped. "
 "It never reports success together with an error, an empty key, or an empty signature list, and never reports neither success nor failure.",
 ["schedules","fault_sequences","crash_points"],
 "Every peer behaviour (silent, stalled mid-message, malicious, resetting), partition, disk error and stop request at any instant.",
 "A hang shows only under particular stalls; tests use cooperative peers and would themselves just time out.",
 ["tss/keygen.go","tss/keysign.go","keygen/tss_keygen.go","keysign/tss_keysign.go","p2p/party_coordinator.go","p2p/stream_helper.go"],
 [("deadlines on every stream operation","p2p/stream_helper.go"),("timeouts of processKeyGen/processKeySign/waitForSignatures","keygen, keysign, tss"),("stop channel","tss/tss.go")],
 ["return of TssServer.Keygen / KeySign"])
p("C06","Blame never names a node that behaved correctly",
 "When a ceremony fails because at most the tolerated number of its participants are silent, crashed, unreachable, or send corrupted or inconsistent protocol messages, every node a correct node names as culprit is, as far as that node can tell, one of those: it sent wrong content, or a message it owed at that stage had not reached the accuser when it gave up. "
 "Only the leader of a leader-based joining may also be named for a joining that failed. Every named culprit belongs to the participants of the request. A message attached to a named node as evidence carries that node's valid signature for this session.",
 ["schedules","fault_sequences","crash_points","inputs"],
 "Every faulty subset up to the tolerated number, every kind and round of misbehaviour (join, each protocol round, unicast, broadcast or confirmation), every delay of the correct nodes within the timeouts.",
 "Each blame test fixes one misbehaving node at one scripted point; accusations depend on which round every other node had reached, which is schedule dependent.",
 ["blame/manager.go","blame/policy.go","blame/policy_helper.go","blame/round_mgr.go","blame/share_mgr.go","keygen/tss_keygen.go","keysign/tss_keysign.go","tss/keysign.go","tss/keygen.go","common/tss.go"],
 [("timeout blame: unicast, broadcast, missing share","blame/policy.go"),("invalid message / hash blame","common/tss.go, blame/policy_helper.go"),("join blame","tss/keygen.go, tss/keysign.go")],
 ["Response.Blame of correct nodes"])
p("C07","The culprit of a failed ceremony is identified",
 "When a ceremony cannot finish because a participant never joins, goes permanently silent part-way, or sends an invalid protocol message or share, each correct participant that reports the failure while it can still hear enough of the other participants reports a non-empty list of culprits that contains a faulty participant and a reason that says what failed; a participant that treats all others alike is itself on the list. "
 "This is for nodes picked for the party and ceremonies of more than two. For a participant that goes silent, the report distinguishes failing to join the party from failing during the protocol.",
 ["schedules","fault_sequences","crash_points"],
 "Every culprit, every point at which it goes silent or misbehaves, every schedule of the others.",
 "As for C06: the tests fix one point per phase for a fixed node.",
 ["blame/manager.go","blame/policy.go","blame/policy_helper.go","keygen/tss_keygen.go","keysign/tss_keysign.go","tss/keygen.go","tss/keysign.go","common/tss.go"],
 [("timeout blame","blame/policy.go"),("share and hash checks","common/tss.go"),("join blame","tss/keygen.go, tss/keysign.go")],
 ["Response.Blame of correct nodes"])
p("C08","Leader-based party formation gives every member the same, sufficient party",
 "For one session, all correct nodes that complete leader-based party formation successfully hold the same list of online participants, which has exactly the number of members the ceremony needs, contains the leader and only nodes that actually asked to join. "
 "All nodes pick the same leader from the same request, and if not enough nodes join, no correct node reports success and the leader reports exactly the nodes that did join.",
 ["schedules","fault_sequences","inputs","histories"],
 "Every party, threshold, order of arrival, late or missing members, duplicated, delayed, replayed or forged join messages, overlapping sessions, and a leader that is slow, absent or crashes.",
 "Tests cover a handful of arrival patterns; agreement under late arrivals, lost replies and replays is a matter of schedules.",
 ["p2p/party_coordinator.go","p2p/peer_status.go","p2p/leader_provider.go"],
 [("joinPartyLeader/joinPartyMember","p2p/party_coordinator.go"),("peerStatus/PeerStatus bookkeeping","p2p/peer_status.go"),("LeaderNode","p2p/leader_provider.go")],
 ["return values of the join calls","join frames on the wire"])
p("C09","Leaderless party formation is prompt and accurate",
 "In the leaderless mode, a node completes joining if and only if every other required participant asked to join the same session within the join timeout, and does so promptly once they have, rather than only when the timeout expires. "
 "On a timeout it reports exactly the participants that did join, and peers that are not part of the party or joined another session are never counted.",
 ["schedules","fault_sequences","histories"],
 "Every party, order of arrival, start skew, lost, delayed, duplicated or foreign join request.",
 "Tests assert only the final outcome of three arrival patterns.",
 ["p2p/party_coordinator.go","p2p/peer_status.go"],
 [("JoinPartyWithRetry/HandleStream","p2p/party_coordinator.go"),("updatePeer and its change signal","p2p/peer_status.go")],
 ["return values and duration of the join call"])
p("C10","Forged, tampered, impersonated or replayed messages change nothing",
 "Nothing a peer sends that is not genuinely signed by the participant it names for this very session - including altered payloads, another participant's identity, messages replayed from sessions of other requests, or messages from outsiders - is ever fed into the protocol or counted as that participant's word. "
 "Such traffic alone never makes a ceremony of honest participants fail, yield a different result, or blame the impersonated participant.",
 ["inputs","schedules","fault_sequences","histories"],
 "Every mutation of every message kind, every injection time, every sender inside or outside the party, replays across sessions.",
 "Tests try a few hand-made invalid messages on a stand-alone object, never inside a running ceremony.",
 ["common/tss.go","common/tss_helper.go","p2p/communication.go","keysign/notifier.go"],
 [("verifySignature of wire messages","common/tss_helper.go, common/tss.go"),("per message id subscription","p2p/communication.go"),("sender lookup","common/tss.go")],
 ["Responses of honest nodes","frames fed to the protocol"])
p("C11","An equivocating sender never makes correct nodes act on different broadcasts",
 "If a participant sends different versions of one broadcast to different nodes, no two correct nodes proceed with different versions of it: either one version is used by all of them or the ceremony fails. "
 "In particular correct nodes never finish a ceremony with different keys or signatures because of equivocation, and a correct node that aborts for this reason names only the equivocator.",
 ["schedules","inputs","fault_sequences"],
 "Every equivocator, broadcast round, split of the receivers and order of arrival of messages and confirmations.",
 "The tests feed the hash-confirmation code hand-built messages on one node; the split and order space is untouched.",
 ["common/tss.go","common/tss_helper.go","common/local_cache_item.go","blame/policy_helper.go"],
 [("hash confirmation before a broadcast is applied","common/tss.go"),("TssConfirmedMessages/threshold of confirmations","common/local_cache_item.go")],
 ["protocol messages applied by each node","Responses"])
p("C12","Concurrent ceremonies on the same nodes do not interfere",
 "Ceremonies with different participants, keys or messages that run at the same time on the same nodes each end as they would have ended alone, and no message, signature, join or blame of one shows up in another. "
 "The same request given by several participants forms one session whatever order its keys and messages are listed in, while requests that differ in signers or messages form different sessions.",
 ["schedules","histories","inputs"],
 "Every set of overlapping requests, sequential repetitions of equal requests, interleaving of their messages and faults confined to one of them.",
 "The tests run at most one kind of ceremony at a time per node set.",
 ["tss/tss.go","tss/keysign.go","tss/keygen.go","p2p/communication.go","p2p/message_id_subscriber.go","p2p/party_coordinator.go","keysign/signature_notifier.go"],
 [("requestToMsgId","tss/tss.go"),("subscription per message type and id","p2p/message_id_subscriber.go"),("peer groups per message id","p2p/party_coordinator.go")],
 ["Responses of all ceremonies"])
p("C13","The length-prefixed stream carries messages intact and fails cleanly",
 "A message written to a stream is read at the other end byte for byte as that one message, however the transport splits or delays the bytes; this holds for each direction of a stream, which carries one message each way. "
 "A stream that stalls, is reset, ends early or announces a length above the maximum yields an error within the configured deadline - never partial or stale data, a hang, or an unbounded allocation.",
 ["inputs","schedules","fault_sequences"],
 "Every message length and content including empty and maximal, every fragmentation, stall, short write, reset or truncation at every byte.",
 "The tests use an in-memory buffer that always returns whole messages.",
 ["p2p/stream_helper.go","p2p/communication.go"],
 [("ReadStreamWithBuffer/WriteStreamWithBuffer and deadlines","p2p/stream_helper.go")],
 ["bytes delivered to the subscriber","errors returned"])
p("C14","Every live subscriber gets each message once, and slow peers do not block others",
 "A message broadcast to a set of peers is delivered exactly once to the matching subscriber of every peer that is reachable and subscribed for that session, with the true sender attached, and to nobody else. "
 "An unreachable, stalled or malicious peer, or a subscriber that does not read, neither prevents nor unboundedly delays delivery to the other peers and other sessions.",
 ["schedules","fault_sequences","histories"],
 "Every set of peers, subscriptions taken and cancelled at any time, stalled or dead peers, message sizes and interleavings.",
 "The tests send one message between healthy nodes.",
 ["p2p/communication.go","p2p/message_id_subscriber.go","p2p/stream_helper.go"],
 [("Broadcast/broadcastToPeers/writeToStream","p2p/communication.go"),("readFromStream dispatch to the subscriber","p2p/communication.go"),("SetSubscribe/CancelSubscribe","p2p/communication.go, p2p/message_id_subscriber.go")],
 ["messages received on subscriber channels"])
p("C15","A key share survives crashes and disk faults, and is never corrupted",
 "Once a node has reported a key generation as successful, that key's share can be loaded again after a crash at any later instant, and the node can sign with it after a restart. "
 "A crash, a full disk or an I/O error while a share is being stored never leaves a damaged share that loads as if it were good, never damages a share stored earlier, and a failure to store is reported as a failed key generation.",
 ["crash_points","fault_sequences","histories"],
 "Every crash point among the disk operations of a node, every loss of un-synced data, torn or short write, ENOSPC/EIO at any operation, any number of earlier keys, re-runs of ceremonies.",
 "The tests save and load on a healthy file system and never crash.",
 ["storage/localstate_mgr.go","keygen/tss_keygen.go","tss/keysign.go"],
 [("SaveLocalState/GetLocalState","storage/localstate_mgr.go"),("store before the reply","keygen/tss_keygen.go")],
 ["files after the crash","keysign after restart"],
 [("localstate-<key>.json","one share","storage/localstate_mgr.go")])
p("C16","A node restarts after any crash and rejoins its peers",
 "A node that crashes or is stopped at any instant can be started again on the files it left behind, including after a torn or lost write of the peer address book, and then takes part in ceremonies again. "
 "Peer addresses that were stored completely are used after a restart, so a node can find its peers again even if a bootstrap node is down.",
 ["crash_points","fault_sequences","histories"],
 "Every crash point and disk fault during address-book and share writes, every content the address book can be left with, bootstrap nodes up or down.",
 "The tests write and read the address book once on a healthy disk.",
 ["storage/localstate_mgr.go","tss/tss.go","p2p/communication.go"],
 [("SaveAddressBook/RetrieveP2PAddresses","storage/localstate_mgr.go"),("start-up","tss/tss.go"),("connectToBootstrapPeers","p2p/communication.go")],
 ["NewTss/Start result","ceremonies after restart"],
 [("address_book.seed","addresses of known peers","storage/localstate_mgr.go")])
p("C17","Nodes that did not sign accept only a complete and valid set of signatures",
 "A node waiting for the result of a signing session it does not actively sign in finishes with success only on signatures that are all valid for its own requested messages under the pool key, one for each of them. "
 "Wrong, partial, over-long, malformed or foreign notifications neither complete the wait, crash the node, nor prevent a later correct notification from being accepted, and the wait ends when the correct one arrives.",
 ["inputs","schedules","fault_sequences"],
 "Every content, number, order, sender and timing of notifications, including ones arriving before the wait starts, repeated, or concurrent with the timeout.",
 "The tests send one correct and one plainly wrong signature.",
 ["keysign/signature_notifier.go","keysign/notifier.go","tss/keysign.go"],
 [("ProcessSignature/verifySignature","keysign/notifier.go"),("handleStream/WaitForSignature","keysign/signature_notifier.go")],
 ["return of the wait","keysign.Response"])
p("C18","No bytes from the network can crash a node",
 "Whatever bytes a connected peer sends on any of the node's protocol streams - random, truncated, well-formed but incomplete, or valid messages in unexpected states, during, before or after ceremonies - the node's process never panics and stays able to serve later requests. "
 "A ceremony among honest nodes that is under way on the same node still completes.",
 ["inputs","schedules","histories"],
 "Every byte string and every structured mutation of every message kind on every protocol, at every moment of a session's life.",
 "The tests send a few malformed messages; the crash depends on the state the session is in when they arrive.",
 ["common/tss.go","common/tss_helper.go","p2p/communication.go","p2p/party_coordinator.go","keysign/signature_notifier.go","keysign/notifier.go"],
 [("input checks of each handler","common/tss.go, p2p/party_coordinator.go, keysign/notifier.go")],
 ["process liveness","later requests"])
p("C19","Finished ceremonies release everything they held",
 "After a ceremony has ended - successfully, by timeout, by error or by stop - and the network has gone quiet for longer than the stream deadlines, the node keeps no goroutine, open stream, subscription or session record belonging to it. "
 "A long-running node therefore needs no more resources after many ceremonies than after one.",
 ["histories","schedules","fault_sequences"],
 "Every sequence of successful and failing ceremonies, late, duplicate and unsolicited messages, stalled peers.",
 "Tests end the process after each ceremony and count nothing.",
 ["p2p/communication.go","p2p/stream_helper.go","p2p/party_coordinator.go","p2p/message_id_subscriber.go","keysign/signature_notifier.go","tss/keygen.go","tss/keysign.go","common/tss.go"],
 [("CancelSubscribe, ReleaseStream, removePeerGroup, stop channels","p2p, tss")],
 ["goroutines, open streams and subscriptions at quiescence"])
p("C20","A broadcast lost on its way is recovered from the other participants",
 "If a participant's broadcast reaches enough of the others to be confirmed (at least ceil(2n/3)-1 of the n-1 others, n being the size of the party) but is lost on the way to the rest, those obtain it from their peers and the ceremony still succeeds on all of them, without anyone being blamed, even if one of the participants answers such requests wrongly or not at all, as long as somebody who received it answers. "
 "What a node obtains this way is accepted only if it carries the original sender's valid signature for this session.",
 ["fault_sequences","schedules"],
 "Every round, sender, set of receivers that miss the message, order of confirmations and requests, and malicious answers to requests.",
 "The tests build the request/response messages by hand on a single node.",
 ["common/tss.go","common/tss_helper.go","common/local_cache_item.go"],
 [("requestShareFromPeer/processRequestMsgFromPeer","common/tss.go"),("processVerMsg with nothing local","common/tss.go")],
 ["Responses","control frames on the wire"])
p("C21","Metrics account for every ceremony exactly once",
 "At any quiescent moment the node's exported counters equal the ceremonies it has finished: each ended key generation and each ended signing is counted exactly once, as success or as failure in agreement with what was reported to the caller. "
 "Timings are only recorded for the phase they name.",
 ["histories","schedules","fault_sequences"],
 "Every history of concurrent successful and failing ceremonies.",
 "No test reads the counters after ceremonies.",
 ["monitor/metric.go","tss/keygen.go","tss/keysign.go"],
 [("UpdateKeyGen/UpdateKeySign calls","monitor/metric.go, tss/keygen.go, tss/keysign.go")],
 ["prometheus registry"])
p("C22","Shared state is accessed without data races",
 "No two goroutines of a node access the same memory without synchronisation, at least one of them writing, during any sequence of ceremonies, joins, notifications and shutdown. "
 "Concurrent requests from the embedding application are safe.",
 ["schedules","histories","fault_sequences"],
 "Every interleaving and history of concurrent requests and network events.",
 "Tests run without the race detector in the baseline and exercise few overlapping operations.",
 ["p2p/communication.go","p2p/stream_helper.go","p2p/party_coordinator.go","p2p/peer_status.go","common/tss.go","keysign/signature_notifier.go","monitor/metric.go","tss/tss.go"],
 [("mutexes and channels guarding shared maps","all packages")],
 ["happens-before detector on simulated runs"])
p("C23","Pure conversions are mutually consistent",
 "Node public keys, peer identities and party identities convert into each other without loss and in an order all nodes share, the signing threshold is the same function of the party size everywhere, and the protocol-version comparison is a total order. "
 "The same inputs give the same result on every node.",
 ["inputs"],
 "Every key, party size and version string.",
 "Tests cover sample values.",
 ["conversion/conversion.go","conversion/key_provider.go","conversion/tss_helper.go"],
 [("GetParties, GetPeerIDFromPubKey, GetThreshold, VersionLTCheck","conversion")],
 ["return values"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
