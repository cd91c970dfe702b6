//@module handlers
//@deps command
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq};
//@source openraft/src/config/config.rs
//@type SnapshotPolicy derive=Clone
//@source openraft/src/engine/engine_config.rs
//@type EngineConfig derive=Clone
//@source openraft/src/engine/handler/server_state_handler/mod.rs
//@type ServerStateHandler
//@raw
/// the role that follows from the vote and the membership
pub open spec fn role_of(s: RaftState, id: u64) -> ServerState {
    if s.leader(id) { ServerState::Leader } else if s.leading(id) { ServerState::Candidate }
    else if mvoters(s.mem()).contains(id) { ServerState::Follower } else { ServerState::Learner }
}
//@fn ServerStateHandler::update_server_state_if_changed
ensures *final(final(self).state) == *final(old(self).state), final(self).config == old(self).config,
  *final(self).state == (RaftState { server_state: role_of(*old(self).state, old(self).config.id), ..*old(self).state }),
//@source openraft/src/engine/handler/log_handler/mod.rs
//@type LogHandler
//@raw
#[verifier::prophetic]
pub open spec fn lh_keep(a: LogHandler, b: LogHandler) -> bool {
    *final(b.state) == *final(a.state) && *final(b.output) == *final(a.output) && *final(b.config) == *final(a.config) && *b.config == *a.config
}
/// the logs up to `upto` are gone; nothing else changes
pub open spec fn purged_to(a: RaftState, b: RaftState, upto: LogId) -> bool {
    &&& ids_purged(a.log_ids.key_log_ids@, b.log_ids.key_log_ids@, upto)
    &&& b == (RaftState { log_ids: b.log_ids, purged_next: (upto.index + 1) as u64, ..a })
}
/// purge what was decided to be purged, unless it is already
pub open spec fn purge_step(a: RaftState, b: RaftState, x: Seq<Command>, y: Seq<Command>) -> bool {
    if olog_lt(a.purged(), a.purge_upto) { purged_to(a, b, a.purge_upto->0) && y == x.push(Command::PurgeLog { upto: a.purge_upto->0 }) } else { b == a && y == x }
}
//@fn LogHandler::purge_log
requires old(self).state.log_wf(), old(self).state.purge_upto is Some && old(self).state.purge_upto->0.index >= next_idx(old(self).state.last()) && old(self).state.last() is Some ==> log_lt(old(self).state.last()->0, old(self).state.purge_upto->0),
   old(self).state.purge_upto is Some ==> old(self).state.purge_upto->0.index < u64::MAX,
ensures lh_keep(*old(self), *final(self)), purge_step(*old(self).state, *final(self).state, old(self).output.cmds(), final(self).output.cmds()),
//@fn LogHandler::update_purge_upto
requires olog_le(old(self).state.purge_upto, Some(purge_upto)),
ensures lh_keep(*old(self), *final(self)), *final(self).output == *old(self).output,
  *final(self).state == (RaftState { purge_upto: Some(purge_upto), ..*old(self).state }),
//@raw
/// where purging may go by policy: covered by the snapshot, and the logs to keep are kept
pub open spec fn policy_end(s: RaftState, c: EngineConfig) -> int {
    if next_idx(s.snapshot_meta.last_log_id) > c.max_in_snapshot_log_to_keep { next_idx(s.snapshot_meta.last_log_id) - c.max_in_snapshot_log_to_keep } else { 0 }
}
pub open spec fn policy_purge(s: RaftState, c: EngineConfig) -> Option<LogId> {
    if next_idx(s.purged()) + c.purge_batch_size > policy_end(s, c) { None } else { s.at(policy_end(s, c) - 1) }
}
//@fn LogHandler::calc_purge_upto | math
requires self.state.ordered(), self.state.snapshot_meta.last_log_id is Some ==> self.state.snapshot_meta.last_log_id->0.index < u64::MAX,
   // the configuration is one that keeps at least one log out of a batch
   self.config.purge_batch_size > 0 || policy_end(*self.state, *self.config) >= 1,
   self.state.purged() is Some ==> self.state.purged()->0.index < u64::MAX,
ensures r == policy_purge(*old(self.state), *old(self.config)),
   // within the snapshot, keeping what is to be kept
   r is Some ==> r->0.index + 1 + old(self.config).max_in_snapshot_log_to_keep == next_idx(old(self.state).snapshot_meta.last_log_id),
   r is Some ==> olog_le(old(self.state).purged(), r),
//@proof before `log_id`
proof {
    let vx_s = *self.state;
    broadcast use {lemma_at_some, lemma_at_mono};
    if vx_s.first() is Some { lemma_ids_head(vx_s.log_ids.key_log_ids@, vx_s.first()->0.index as int); assert(vx_s.at(vx_s.first()->0.index as int) == vx_s.first()); }
}
//@raw
/// what is scheduled to be purged never moves back
pub open spec fn policy_upto(s: RaftState, c: EngineConfig) -> Option<LogId> {
    if policy_purge(s, c) is Some && olog_lt(s.purge_upto, policy_purge(s, c)) { policy_purge(s, c) } else { s.purge_upto }
}
//@fn LogHandler::schedule_policy_based_purge
requires old(self).state.ordered(), old(self).state.snapshot_meta.last_log_id is Some ==> old(self).state.snapshot_meta.last_log_id->0.index < u64::MAX,
   old(self).config.purge_batch_size > 0 || policy_end(*old(self).state, *old(self).config) >= 1,
   old(self).state.purged() is Some ==> old(self).state.purged()->0.index < u64::MAX,
ensures lh_keep(*old(self), *final(self)), *final(self).output == *old(self).output,
  *final(self).state == (RaftState { purge_upto: policy_upto(*old(self).state, *old(self).config), ..*old(self).state }),
//@source openraft/src/engine/handler/snapshot_handler/mod.rs
//@type SnapshotHandler
//@raw
#[verifier::prophetic]
pub open spec fn sh_keep(a: SnapshotHandler, b: SnapshotHandler) -> bool {
    *final(b.state) == *final(a.state) && *final(b.output) == *final(a.output)
}
/// a snapshot starts to be built, unless one is being built
pub open spec fn building(a: RaftState) -> RaftState { RaftState { io_state: IOState { building_snapshot: true, ..a.io_state }, ..a } }
pub open spec fn build_cmd(a: RaftState, x: Seq<Command>) -> Seq<Command> { if a.io_state.building_snapshot { x } else { x.push(Command::StateMachine { command: sm::Command::BuildSnapshot }) } }
//@fn SnapshotHandler::trigger_snapshot
ensures sh_keep(*old(self), *final(self)), r == !old(self).state.io_state.building_snapshot,
  *final(self).state == building(*old(self).state), final(self).output.cmds() == build_cmd(*old(self).state, old(self).output.cmds()),
//@fn SnapshotHandler::update_snapshot
ensures sh_keep(*old(self), *final(self)), *final(self).output == *old(self).output,
  r == olog_lt(old(self).state.snapshot_meta.last_log_id, meta.last_log_id),
  *final(self).state == (if r { RaftState { snapshot_meta: meta, ..*old(self).state } } else { *old(self).state }),
//@source openraft/src/config/config.rs
//@fn SnapshotPolicy::should_snapshot | math
//@argty state => &RaftState
ensures r == snapshot_due(*self, *state),
//@raw
pub open spec fn snapshot_due(p: SnapshotPolicy, s: RaftState) -> bool {
    p is LogsSinceLast && next_idx(s.committed) >= next_idx(s.snapshot_meta.last_log_id) + p->LogsSinceLast_0
}
/// the state after committing up to `c`
pub open spec fn committed_state(a: RaftState, c: Option<LogId>) -> RaftState {
    RaftState { committed: c, membership_state: MembershipState { committed: if olog_le(a.membership_state.effective.lid(), c) { a.membership_state.effective } else { a.membership_state.committed }, effective: a.membership_state.effective }, ..a }
}
/// a snapshot is built when the policy asks for it
pub open spec fn snap_state(a: RaftState, p: SnapshotPolicy) -> RaftState { if snapshot_due(p, a) { building(a) } else { a } }
pub open spec fn snap_cmds(a: RaftState, x: Seq<Command>, p: SnapshotPolicy) -> Seq<Command> { if snapshot_due(p, a) { build_cmd(a, x) } else { x } }
pub open spec fn commit_pre(a: RaftState, granted: Option<LogId>) -> bool {
    olog_lt(a.committed, granted) ==> pos_le(a.membership_state.effective.lid(), granted) || !olog_le(a.membership_state.effective.lid(), granted)
}
