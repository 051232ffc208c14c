"""Writes /verif/MANIFEST.json: python3 tools/mkmanifest.py"""
import json
T="deterministic simulation with fault injection: seeded search over schedules, network behaviour and faults of whole simulated clusters"
N={}
def c(id,note): N[id]=note
c("C01","Whole clusters of real nodes run key generations under seeded schedules and faults; every stored share is loaded, validated and every threshold subset is combined. Sampled executions; tss-lib runs with small-moduli pre-parameters.")
c("C02","Every successful signing reply of every node in every simulated run is verified independently (pairing, ECDSA verification, key recovery, agreement). Sampled executions.")
c("C03","Fault-free runs over random schedules, latencies, fragmentation, duplication, orders and start skews; every call must succeed. Sampled executions.")
c("C05","Every call in runs with any mix of faults must return within a bound derived from the time-outs and be consistent. Sampled executions; hangs are decided exactly because time is simulated.")
c("C04","Histories of failed ceremonies under any mix of faults, everything healed, then a new request that must succeed; and requests with tolerated nodes down. Sampled executions.")
c("C06","One or more nodes misbehave at any point of the ceremony in any of the simulated ways; whom correct nodes name is compared with what each of them had been sent by then. Sampled executions.")
c("C07","As C06 with one faulty node: every correct node that fails must name a faulty one and give the reason. Sampled executions.")
c("C12","Two to four ceremonies overlap on the same nodes, with shared messages, overlapping parties, duplicated frames, listing orders, one of them failing or not; all the others must succeed with right results. Sampled executions.")
c("C08","Real party coordinators on simulated hosts: staggered joiners, one or two sessions, any mix of message loss, delay, cuts, crashes, and crafted responses and requests of participants and outsiders; lists are compared across nodes and with what the leader was sent. Sampled executions.")
c("C09","As C08 for the leaderless mode: success, promptness and the reported list are compared with the requests each node read during its own wait. Sampled executions.")
c("C13","The real stream functions between simulated hosts: all sizes around the buffer and payload limits, both directions, lying headers, early ends, stalls, resets, cuts, crashes, tiny windows; results, durations and allocations are judged. Sampled executions.")
c("C14","The real Communication of simulated hosts: subscriptions, broadcasts, cancellations and garbage on many sessions and all message types, under cuts, crashes, stalls and slow subscribers; what each channel received is compared with what was sent and subscribed. Sampled executions.")
c("C17","The real signature notifier on simulated hosts: signatures delivered before, during and after the wait, by participants and outsiders, valid, invalid, partial, reordered and malformed; results are verified independently and compared with what was delivered. Sampled executions.")
c("C10","Whole clusters under forged, relabelled, impersonated, replayed and redirected protocol messages of outsiders and insiders, derived from the genuine traffic and timed by it; all ceremonies must succeed with right results and frame nobody. Sampled executions.")
c("C18","Whole clusters under arbitrary, incomplete, oddly structured and misplaced frames on every protocol, by outsiders and insiders, before, during and after ceremonies; no panic anywhere, and later (and with outsiders, current) ceremonies succeed. Sampled executions.")
c("C15","Whole clusters make keys while disks fail, lose unsynced state or fill up and while nodes die at chosen disk operations or at the instant success is reported; every share reported as stored is loaded again from what a power failure leaves, checked and signed with; earlier shares must be intact. The disk model (what survives) is an assumption. Sampled executions.")
c("C16","Nodes die during and after ceremonies, their address books are torn, and they are started again with bootstrap nodes down: start must succeed whenever a node they know is up, and later ceremonies with them must succeed. Sampled executions.")
c("C21","Whole clusters run sequences of ceremonies, some failing through faults or absent members, with metrics enabled on one node; whenever that node has no call under way its exported counters are compared with the replies it gave, and the gauges with the times the harness observed. Sampled executions.")
c("C20","Broadcasts of chosen rounds, several in one ceremony, are lost on the way to as many members as the protocol can bear, while a member may forge, alter or withhold its answers to the requests of the others: every honest member must still succeed and blame nobody, and what succeeds is checked. Sampled executions.")
c("C19","Sequences of ceremonies of every kind under the faults and attacks of the other checks; when all is over and the network has been quiet for longer than the stream deadlines, goroutines (by where they were started), open streams and the contents of the maps, lists and channels of every running node's communication, join and notification parts are compared with what they were before. Sampled executions.")
c("C11","One participant sends two or more versions of a broadcast; the split of the receivers, lost and late copies, the order of confirmations and confirmations by the sender itself are drawn. What every node gives to its protocol parties is recorded (tss-lib's entry point is tapped), and correct nodes must use one version of each broadcast, end with one key or valid signature, and name only the equivocator. Splits in which both versions reach the confirmation quorum are a known finding. Sampled executions.")
c("C22","The simulator and the system under it are built with Go's race detector, and runs of sixteen other properties' generators (ceremonies, joins, streams, notifications, attacks, disk faults, recovery) are executed under it: the simulator's own scheduling adds no ordering between goroutines of the system, so the detector sees every pair of unordered accesses of the explored schedules. Sampled executions; a race is seen only if both accesses happen in one run.")
NA=[("C23","pure functions of their input: no schedule, clock, fault or interleaving for a simulation to decide")]
import sys
todo=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
na=[{"property":i,"reason":r} for i,r in NA]
done=[i for i,_ in NA]+list(N)
for i in todo:
    if i not in done: na.append({"property":i,"reason":"check under construction"})
m={"version":1,"setup_cmd":"python3 tools/build.py","checks":[
  {"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough","technique":T,"level":"exploration","level_note":N[i]} for i in sorted(N)],
  "not_applicable":na,"notes":"No hooks in /repo: the simulator builds from an instrumented copy made by tools/build.py. known_findings.txt lists recorded and repaired defects."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
