#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program only so the file stays well-formed)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook="Guarded module giving the harness crate access to crate-private engine types"):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)
S="openraft/src/"
p("C01","Votes are ordered by leadership, and a node's vote never goes backward",
  "Votes compare first by the leader they name (term, then node) and, for the same leader, a committed vote is greater than an uncommitted one. A message carrying a vote that is not at least the node's current vote is rejected and changes neither the vote nor the role of the node; one that carries a greater vote replaces it and is saved before it is acted on. Over any sequence of messages and elections the vote a node holds only grows.",
  ["inputs","histories"],"every pair of votes; every state of a node and every incoming vote, from any sequence of messages",
  "The tests compare a dozen votes and replay a few vote sequences; the order must be a lawful total preorder for all votes and every accepted vote must dominate the previous one from every state.",
  [S+"vote/vote.rs",S+"vote/leader_id/leader_id_adv.rs",S+"vote/leader_id/leader_id_std.rs",S+"vote/committed.rs",S+"vote/non_committed.rs",S+"engine/handler/vote_handler/mod.rs",S+"engine/engine_impl.rs",S+"utime.rs"],
  [("vote partial order","vote/vote.rs: PartialOrd for Vote"),("vote update","engine/handler/vote_handler/mod.rs: update_vote"),("elect raises term","engine/engine_impl.rs: elect")],
  [("vote","the vote the node holds, with the time it was last refreshed","raft_state/mod.rs: RaftState.vote")],["RaftState::vote_ref","engine commands SaveVote"])
p("C02","A vote is granted only to an up-to-date candidate with a current vote",
  "A node grants a vote request only if the lease of any leader it follows has expired, the candidate's last log id is at least its own last log id, and the candidate's vote is at least its own vote. A request that fails any of these leaves the vote, log and role unchanged and is answered as not granted, with the node's own vote and last log id. A granted request makes the node adopt exactly the candidate's vote.",
  ["inputs","histories"],"every state of the voter (vote, lease, log, role) and every vote request",
  "The unit tests cover about six requests against fixed states; the rule must hold for every combination of vote, lease age and log position.",
  [S+"engine/engine_impl.rs",S+"engine/handler/vote_handler/mod.rs",S+"utime.rs",S+"raft/message/vote.rs"],
  [("vote request handling","engine/engine_impl.rs: handle_vote_req"),("lease test","utime.rs: Leased::is_expired")],
  [("lease","time until which the node refuses other candidates","utime.rs: Leased")],["VoteResponse"])
p("C03","A node becomes leader only after a quorum granted its own candidacy",
  "A candidate becomes leader only when the nodes that granted its current vote, itself included, form a majority of every voter set of the membership in effect; grants for another vote, refusals and duplicates never count. A higher vote or longer log seen in an answer never leads to leadership by that answer. The new leader's vote is the committed form of the vote the quorum granted. A node that is not a voter does not stand for election, and leadership is only transferred to another voter.",
  ["inputs","histories","schedules"],"every membership (uniform or joint), every order and duplication of vote answers, every mix of grants and refusals",
  "Tests elect leaders in a handful of one- to five-node clusters; here every set of granting nodes and every answer order counts.",
  [S+"engine/engine_impl.rs",S+"proposer/candidate.rs",S+"engine/handler/establish_handler/mod.rs",S+"engine/handler/vote_handler/mod.rs",S+"progress/mod.rs",S+"quorum/joint.rs",S+"quorum/quorum_set_impl.rs",S+"membership/effective_membership.rs"],
  [("grant counting","proposer/candidate.rs: grant_by"),("answer handling","engine/engine_impl.rs: handle_vote_resp")],None,["engine leader state","VoteResponse"])
p("C04","Quorums are strict majorities and always intersect",
  "A set of nodes is a quorum of a membership exactly when it contains more than half of the voters of every one of its voter sets; learners and unknown nodes never count. Hence any two quorums of the same membership have a common node, and so do quorums of two memberships that share a voter set (consecutive steps of a membership change). The bridging membership computed for a change always shares a voter set with both the old and the new side.",
  ["inputs","configurations"],"all memberships, all node sets, all target voter sets",
  "Tests enumerate small fixed voter sets; the majority arithmetic and intersection must hold for any number of voters and configs.",
  [S+"quorum/quorum_set_impl.rs",S+"quorum/joint.rs",S+"quorum/joint_impl.rs",S+"quorum/coherent_impl.rs",S+"quorum/util.rs",S+"membership/membership.rs",S+"membership/effective_membership.rs"],
  [("majority","quorum/util.rs: majority_of"),("joint quorum","quorum/joint_impl.rs"),("coherent step","quorum/coherent_impl.rs: find_coherent")],None,["QuorumSet::is_quorum","Coherent"])
p("C05","Only log ids accepted by a quorum, of the leader's own term, become committed",
  "The value the leader's progress tracker reports as granted is always the greatest value that a quorum of the current voters has reached, whatever the order of the acknowledgements and across changes of the quorum set. The leader marks a log id committed only if it is granted this way and was proposed by this leader, or by no earlier a leader. The commit position never moves backward, and the acknowledgement of one node never changes what is recorded for another.",
  ["inputs","histories","schedules"],"every sequence of acknowledgements, every voter/learner set, every quorum change in between",
  "Tests feed ten or so updates for a five-node set; the sort-and-scan must be right for every vector of positions and every joint quorum.",
  [S+"progress/mod.rs",S+"engine/handler/replication_handler/mod.rs",S+"proposer/leader.rs",S+"raft_state/mod.rs"],
  [("granted value","progress/mod.rs: VecProgress::update_with"),("commit guard","engine/handler/replication_handler/mod.rs: try_commit_quorum_accepted")],
  [("granted","greatest value a quorum reached","progress/mod.rs: VecProgress")],["RaftState::committed"])
p("C06","Membership changes go through coherent, one-at-a-time, valid steps",
  "A membership change is refused while the previous membership is not committed, and otherwise yields a membership that shares a voter set with the current one: the target itself or the joint of the current last set and the target. The resulting membership never has an empty voter set, and knows every voter as a node; nodes are dropped only when asked and an existing node's data is replaced only by an explicit request to do so.",
  ["inputs","histories","configurations"],"every current membership and every requested change",
  "The tests try about thirty changes on small memberships; the algebra must hold for all memberships and all change kinds.",
  [S+"membership/membership.rs",S+"raft_state/membership_state/change_handler.rs",S+"change_members.rs",S+"quorum/coherent_impl.rs"],
  [("apply change","raft_state/membership_state/change_handler.rs: apply"),("next coherent","membership/membership.rs: next_coherent, change")],None,["MembershipState","ChangeMembershipError"])
p("C07","Followers accept entries only on a matching log and truncate only conflicts",
  "A follower accepts entries from a leader only when it holds the log id the leader says precedes them; otherwise it reports that conflict, appends nothing, and removes at most its own logs from that position on. When accepted, its log afterwards agrees with the leader's entries at every index they cover, entries that already matched are kept, and entries are removed only from the first index that differs from what the leader sent. Entries at or before the committed position are never removed or replaced.",
  ["inputs","histories"],"every log content, purge and commit position, and every batch of entries a leader may send",
  "Unit tests use a few fixed logs and batches; stale, overlapping, duplicated and partially purged batches must be right in every combination.",
  [S+"engine/handler/following_handler/mod.rs",S+"engine/engine_impl.rs",S+"raft_state/mod.rs",S+"raft_state/log_state_reader.rs",S+"engine/log_id_list.rs"],
  [("append","engine/handler/following_handler/mod.rs: append_entries, truncate_logs"),("prefix match","raft_state/log_state_reader.rs: has_log_id; raft_state/mod.rs")],
  [("log ids","compressed index to log-id map","engine/log_id_list.rs")],["AppendEntriesResponse","Command::TruncateLog","Command::AppendInputEntries"])
p("C08","The in-memory log-id map answers exactly as the full log would",
  "For every index between the first and last retained log, looking it up yields the id of the log stored there, and nothing outside that range. Appending, truncating and purging change the answers exactly as the same operation on the full log would, and no other answer.",
  ["inputs","histories"],"every log and every sequence of append, truncate and purge operations, and every index",
  "The map keeps only the first log of each leader and binary-searches it; tests look at lists of three or four keys.",
  [S+"engine/log_id_list.rs",S+"log_id/mod.rs",S+"vote/leader_id/leader_id_adv.rs"],
  [("lookup","engine/log_id_list.rs: get"),("mutation","engine/log_id_list.rs: append, extend, truncate, purge")],
  [("key_log_ids","first log id of every leader plus the last log id","engine/log_id_list.rs")],["LogIdList::get"])
p("C09","The committed position only advances and stays within what the node accepted",
  "The committed log id of a node never decreases. A follower's commit is never beyond the log ids it has accepted from the current leader, nor beyond what the leader reported as committed. Every advance asks the state machine to apply exactly the range after the previous committed position up to the new one, so applied ranges are contiguous, in order and without gap or overlap.",
  ["inputs","histories"],"every state and every commit position reported, in any order",
  "Tests check a few advances; gaps or double application would need particular stale or out-of-order reports.",
  [S+"raft_state/mod.rs",S+"engine/handler/following_handler/mod.rs",S+"engine/handler/replication_handler/mod.rs"],
  [("follower commit","engine/handler/following_handler/mod.rs: commit_entries"),("commit","raft_state/mod.rs: update_committed"),("apply range","engine commands SaveCommittedAndApply")],
  [("committed","last committed log id","raft_state/mod.rs: RaftState.committed")],["Command::SaveCommittedAndApply"])
p("C10","Only logs in a snapshot and not in use are purged, and purging is monotone",
  "A log is purged only if it is covered by a snapshot the node holds, and, on a leader, only if no replication in flight may still be reading it. The purge position never moves backward and a request to purge what is already purged is a no-op. Purging never removes logs after the requested position, and the number of logs to keep after a snapshot is respected.",
  ["inputs","histories","configurations"],"every log, snapshot, purge request, keep setting and replication state",
  "Tests purge at five positions in one log; the combinations with in-flight replication and snapshots are unbounded.",
  [S+"engine/handler/log_handler/mod.rs",S+"engine/handler/replication_handler/mod.rs",S+"raft_state/mod.rs",S+"engine/engine_impl.rs",S+"engine/engine_config.rs"],
  [("purge schedule","engine/handler/log_handler/mod.rs: update_purge_upto, purge_log, calc_purge_upto"),("in-use check","engine/handler/replication_handler/mod.rs: try_purge_log")],None,["Command::PurgeLog"])
p("C11","Installing a snapshot never loses committed state and leaves a consistent log",
  "A snapshot whose last log id is not beyond the committed position is ignored, and so is one no newer than the snapshot held. Installing a newer one leaves the committed, snapshot and purge positions at the snapshot's last log id, removes any local log that conflicts with it, takes over its membership, and never makes the last log id fall before the snapshot's.",
  ["inputs","histories"],"every local log, snapshot and committed position, and every incoming snapshot",
  "Unit tests cover five fixed cases of the relation between log, commit and snapshot.",
  [S+"engine/handler/following_handler/mod.rs",S+"engine/handler/snapshot_handler/mod.rs",S+"raft_state/mod.rs",S+"storage/snapshot_meta.rs"],
  [("install","engine/handler/following_handler/mod.rs: install_full_snapshot"),("snapshot state","engine/handler/snapshot_handler/mod.rs: update_snapshot")],None,["Command::StateMachine(InstallFullSnapshot)"])
p("C12","Acknowledgements are sent only after the writes they promise are durable",
  "A granted vote or a successful append is answered only on condition that the vote or log it promises has been flushed to storage, and the leader counts its own log only up to what is flushed. The flushed position never exceeds the submitted one, and the submitted one never exceeds the accepted one, and each only moves forward.",
  ["inputs","histories","crash_points","schedules"],"every state and message, and every order in which storage completions arrive",
  "Tests run with storage that completes at once, so the order of reply and flush is never observable; a crash between them would be needed.",
  [S+"raft_state/io_state.rs",S+"raft_state/io_state/io_progress.rs",S+"raft_state/io_state/io_id.rs",S+"raft_state/io_state/log_io_id.rs",S+"engine/command.rs",S+"engine/engine_output.rs",S+"engine/engine_impl.rs",S+"engine/handler/vote_handler/mod.rs",S+"engine/handler/following_handler/mod.rs"],
  [("io progress","raft_state/io_state/io_progress.rs: IOProgress"),("conditional respond","engine/command.rs: Command::Respond when, Condition")],
  [("io_state","accepted, submitted and flushed positions","raft_state/io_state.rs: IOState")],["Command::Respond"])
p("C13","The membership in use is the latest one in the log, and survives truncation",
  "The effective membership is the last one in the log (or snapshot) and takes effect as soon as it is appended; the committed one is the last at or before the committed position. When the log is truncated past the effective membership, the node returns to the membership in force before it. Neither position ever moves to an older membership by commit or by appending.",
  ["inputs","histories"],"every sequence of appends, commits, truncations and snapshot installs that carry memberships",
  "The tests apply about ten such operations one at a time.",
  [S+"raft_state/membership_state/mod.rs",S+"engine/handler/following_handler/mod.rs",S+"membership/effective_membership.rs"],
  [("membership state","raft_state/membership_state/mod.rs: MembershipState"),("append membership","engine/handler/following_handler/mod.rs: append_membership")],None,["RaftState::membership_state"])
p("C14","Linearizable reads wait for everything committed before them",
  "The log id a leader hands out for a linearizable read is at least the last committed log id at that moment, and at least the first log id of its own leadership. A node that is not a leader with a committed vote never hands one out but redirects to the leader it knows.",
  ["inputs","histories"],"every leader state and commit position",
  "A stale read needs a leader that has not yet committed in its own term; tests do not reach that window deterministically.",
  [S+"engine/handler/leader_handler/mod.rs",S+"proposer/leader.rs",S+"engine/engine_impl.rs"],
  [("read log id","engine/handler/leader_handler/mod.rs: get_read_log_id")],None,["Raft::get_read_log_id"])
p("C15","A leader's lease cannot be shortened, and expires exactly when its time is over",
  "A lease is expired at an instant exactly when it was never refreshed, or when that instant is later than the last refresh plus the lease length plus the given grace; disabling a lease sets its length to zero for good, until another holder takes over. Refreshing a lease never moves its start backward; only a new holder or an explicit step to disable it ends it early. The leader's own clock of the last time a quorum acknowledged it is never later than the send time that some quorum acknowledged.",
  ["inputs","histories","schedules"],"every instant, lease length and grace, and every order of acknowledgements",
  "Timing tests sleep and check coarse thresholds; boundary instants and out-of-order acknowledgements are not reached.",
  [S+"utime.rs",S+"proposer/leader.rs",S+"engine/handler/vote_handler/mod.rs",S+"engine/time_state.rs"],
  [("lease","utime.rs: Leased::is_expired, touch, update"),("quorum clock","proposer/leader.rs: last_quorum_acked_time")],None,["RaftMetrics::millis_since_quorum_ack"])
p("C16","Replication to a follower covers the log from where it matches, without gaps",
  "What the leader records as matching on a follower is only what that follower acknowledged and never goes backward unless the follower reported losing its log and that is allowed. A conflict reply only narrows the range still to be searched, never below what is known to match, and every batch sent starts inside that range, holds no more entries than allowed, and reaches only logs the leader has; when the logs needed are purged, a snapshot is sent instead. At most one request per follower is in flight and an answer that does not belong to it is not credited.",
  ["inputs","histories","schedules"],"every progress state, every acknowledgement or conflict, and every leader log",
  "Tests step through some twenty progress states; the search must be right for all windows.",
  [S+"progress/entry/mod.rs",S+"progress/inflight/mod.rs",S+"engine/handler/replication_handler/mod.rs",S+"log_id_range.rs"],
  [("progress entry","progress/entry/mod.rs"),("in-flight","progress/inflight/mod.rs"),("result handling","engine/handler/replication_handler/mod.rs: update_matching, update_conflicting, handle_replication_result")],
  [("matching, searching_end, inflight","what a follower has, and what is being sent","progress/entry/mod.rs: ProgressEntry")],["Command::Replicate"])
p("C17","A leader gives new entries consecutive log ids of its own leadership",
  "Every entry a leader appends gets the leader's own term and the index right after its last log, in the order proposed, with no index skipped or reused. A new leader starts with an entry of its own leadership right after the last log it had, and never replaces an entry of its own.",
  ["inputs","histories"],"every last log id and every batch of proposed entries",
  "Tests append batches of up to three entries.",
  [S+"proposer/leader.rs",S+"engine/handler/leader_handler/mod.rs",S+"engine/engine_impl.rs",S+"engine/handler/establish_handler/mod.rs"],
  [("assign","proposer/leader.rs: assign_log_ids"),("append","engine/handler/leader_handler/mod.rs: leader_append_entries")],None,["Command::AppendInputEntries"])
p("C18","A node's reported role and leader follow from its vote and membership alone",
  "A node known to the membership reports itself leader exactly when its vote is committed and names itself, and candidate when its vote names itself and is not committed; otherwise it is a follower when it is a voter and a learner when it is not. The leader it reports and redirects clients to is the node of a committed vote, and only if that node is still in the membership.",
  ["inputs","histories"],"every vote, role and membership",
  "Tests read the role in a few configurations.",
  [S+"raft_state/mod.rs",S+"engine/engine_impl.rs",S+"engine/handler/server_state_handler/mod.rs"],
  [("role","raft_state/mod.rs: calc_server_state, is_leader"),("redirect","raft_state/mod.rs: forward_to_leader")],None,["RaftMetrics::state","ForwardToLeader"])
p("C19","A cluster can be initialized only once, on a pristine node that is a voter",
  "Initialization succeeds only on a node with no log and the default vote, and only with a membership in which this node is a voter. Otherwise it is refused with the reason and nothing is changed or written. When it succeeds the first log entry, at index zero, is that membership, and an election follows.",
  ["inputs","histories"],"every node state and every membership",
  "Four fixed cases are tested.",
  [S+"engine/engine_impl.rs",S+"engine/handler/following_handler/mod.rs"],
  [("initialize","engine/engine_impl.rs: initialize, check_initialize, check_members_contain_me")],None,["Raft::initialize"])
p("C20","Restart rebuilds the state from storage, as if the node had never stopped",
  "The state loaded at start-up has the vote and the purge position that storage holds, the log-id map the stored log implies, and as committed the greater of what is saved as committed (as far as the log still has it) and what the state machine has applied. Committed logs not yet applied are re-applied in order exactly once; when the state machine is ahead of the log, the log is purged up to it; and when the snapshot there is does not include what is purged, one is built from the state machine. The membership loaded is that of the last membership entries in the log or, if there are none after what is applied, that of the state machine. A node that led when it stopped has to be elected again, unless it is the only node.",
  ["inputs","crash_points","histories"],"every content of the log store and state machine that a run can leave behind",
  "The storage test-suite loads about twenty states with short logs; the search in the log works in windows and by bisection over arbitrary logs.",
  [S+"storage/helper.rs",S+"engine/log_id_list.rs",S+"raft_state/mod.rs",S+"engine/engine_impl.rs"],
  [("load","storage/helper.rs: get_initial_state, reapply_committed, get_membership"),("log ids","engine/log_id_list.rs: load_log_ids")],None,["StorageHelper::get_initial_state"])
p("C21","Unusable configurations are rejected and a node's timeouts respect them",
  "A configuration is accepted exactly when the minimum election timeout is below the maximum, the maximum batch of entries is not zero and the heartbeat interval is below the minimum election timeout. An election timeout drawn from an accepted configuration is always at least the minimum and below the maximum. The lease a follower grants its leader is the maximum election timeout.",
  ["inputs","configurations"],"every configuration value and every random draw",
  "Two or three invalid configurations are tested.",
  [S+"config/config.rs",S+"engine/engine_config.rs"],
  [("validation","config/config.rs: validate"),("random timeout","config/config.rs: new_rand_election_timeout")],None,["Config::validate"])
p("C22","Snapshot chunks are written where they belong, and only the last completes it",
  "Each accepted chunk is written at exactly the offset it carries, and nothing else of what has been received changes. A chunk at offset zero of another snapshot starts over; any other chunk of a snapshot not being received is refused with offset zero as the position expected. The chunk marked last completes the snapshot only if everything before it has been received, and hands over what was written with the metadata it carries; otherwise it is refused and the sender starts over, as it has to after a chunk that could not be written completely. The sender sends the snapshot from its start to its end, marks last only the chunk that reaches the end, goes on only when a chunk is acknowledged, starts over when the receiver asks for it, and stops when it sees a higher vote.",
  ["inputs","schedules","fault_sequences"],"every sequence of chunks, with losses, duplicates, reorderings and interleaved snapshots, every snapshot size and chunk size, every answer",
  "Tests send about five chunk sequences.",
  [S+"network/snapshot_transport.rs",S+"raft/message/install_snapshot.rs"],
  [("receive","network/snapshot_transport.rs: receive_snapshot, Streaming::receive"),("send","network/snapshot_transport.rs: send_snapshot")],None,["InstallSnapshotResponse"])
p("C30","The cluster makes progress when a majority can communicate",
  "If a majority of voters can exchange messages for long enough, a leader is elected, proposed entries are committed, and followers catch up.",
  ["schedules","fault_sequences"],"every fair schedule",
  "Liveness over unbounded schedules with timeouts.",
  [S+"core/raft_core.rs",S+"core/tick.rs",S+"replication/mod.rs"],[("election timer","core/raft_core.rs: handle_tick_election")],None,None,None)
p("C31","No two nodes ever apply different entries at the same index",
  "In every execution of a cluster, for every log index, all nodes that apply an entry at that index apply the same entry, and every write answered to a client is applied by every later leader.",
  ["schedules","crash_points","fault_sequences","histories"],"every execution of every cluster",
  "A whole-cluster history property over unbounded interleavings.",
  [S+"engine/engine_impl.rs",S+"core/raft_core.rs"],[("all of the engine","engine/engine_impl.rs")],None,None,None)
p("C32","Metrics waits and shutdown finish, and no client call is lost",
  "Every client request is eventually answered with a result or an error, including when the node shuts down or loses leadership while it is pending.",
  ["schedules","fault_sequences"],"every interleaving of requests, role changes and shutdown",
  "Asynchronous task interleavings.",
  [S+"core/raft_core.rs",S+"core/sm/worker.rs",S+"raft/raft_inner.rs"],[("responders","core/raft_core.rs")],None,None,None)
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P:
        f.write(json.dumps(d,ensure_ascii=False)+"\n")
import re
for d in P:
    assert len(d["title"])<=80,(d["id"],len(d["title"]))
