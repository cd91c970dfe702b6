//@module engine_ops
//@deps engine
//@source openraft/src/engine/engine_impl.rs
//@raw
/// the role, the leader and the candidate follow from the vote
pub open spec fn eacts(a: Engine, b: Engine) -> bool {
    b.config == a.config && b.seen_greater_log == a.seen_greater_log && acts(a.state, b.state, a.leader, b.leader, a.candidate, b.candidate, a.output.cmds(), b.output.cmds(), a.config)
}
/// a leader keeps acting until the membership in effect is committed
pub open spec fn stepped(a: Engine, b: Engine) -> bool { if olog_le(a.state.membership_state.effective.lid(), a.state.committed) { eacts(a, b) } else { b == a } }
//@fn Engine::leader_step_down | shim
requires knows_voters(old(self).state), old(self).state.leader(old(self).config.id) ==> can_lead(old(self).state),
ensures stepped(*old(self), *final(self)),
//@fn Engine::calc_server_state
ensures r == role_of(self.state, self.config.id),
//@fn Engine::startup
requires knows_voters(old(self).state), old(self).state.leader(old(self).config.id) ==> can_lead(old(self).state),
ensures
  // a leader restarts as the leader
  old(self).state.leader(old(self).config.id) ==> eacts(*old(self), *final(self)),
  !old(self).state.leader(old(self).config.id) ==> *final(self) == (Engine { state: RaftState { server_state: if mvoters(old(self).state.mem()).contains(old(self).config.id) { ServerState::Follower } else { ServerState::Learner }, ..old(self).state }, ..*old(self) }),
//@fn Engine::new
ensures r.config == config && r.state == init_state && !r.seen_greater_log && r.leader is None && r.candidate is None && r.output.cmds().len() == 0,
//@fn Engine::try_purge_log
requires purge_pre(old(self).state), old(self).leader is Some ==> old(self).leader->0.wf(),
ensures *final(self) == (Engine { state: final(self).state, output: final(self).output, ..*old(self) }),
  match old(self).leader { Some(l) => try_purge(old(self).state, final(self).state, old(self).output.cmds(), final(self).output.cmds(), l.progress.vector@),
    None => purge_step(old(self).state, final(self).state, old(self).output.cmds(), final(self).output.cmds()) },
//@raw
/// a snapshot that is newer is the one the node has, and what it makes purgeable is scheduled and purged
pub open spec fn snap_taken(a: RaftState, meta: SnapshotMeta, c: EngineConfig) -> RaftState {
    let s = RaftState { snapshot_meta: meta, ..a };
    RaftState { purge_upto: policy_upto(s, c), ..s }
}
pub open spec fn try_purge_of(l: Option<Box<Leader>>, a: RaftState, b: RaftState, x: Seq<Command>, y: Seq<Command>) -> bool {
    match l { Some(l) => try_purge(a, b, x, y, l.progress.vector@), None => purge_step(a, b, x, y) }
}
pub open spec fn can_finish(e: Engine, meta: SnapshotMeta) -> bool {
  &&& e.state.ordered() && (e.leader is Some ==> e.leader->0.wf())
  // a snapshot is of applied logs, and there is something to purge in a batch
  &&& pos_le(meta.last_log_id, e.state.committed) && next_idx(e.state.last()) < u64::MAX
  &&& olog_lt(e.state.snapshot_meta.last_log_id, meta.last_log_id) ==> pos_le(e.state.snapshot_meta.last_log_id, meta.last_log_id)
  &&& pos_le(e.state.purge_upto, e.state.snapshot_meta.last_log_id)
  &&& e.config.purge_batch_size > 0
}
/// A snapshot that is newer than the last one is the one the node has; the next may be built.
pub open spec fn finished(e: Engine, f: Engine, meta: SnapshotMeta) -> bool {
  let a = RaftState { io_state: IOState { building_snapshot: false, ..e.state.io_state }, ..e.state };
  &&& f == (Engine { state: f.state, output: f.output, ..e })
  &&& if olog_lt(a.snapshot_meta.last_log_id, meta.last_log_id) { try_purge_of(e.leader, snap_taken(a, meta, e.config), f.state, e.output.cmds(), f.output.cmds()) }
      else { f.state == a && f.output == e.output }
}
//@fn Engine::finish_building_snapshot
requires can_finish(*old(self), meta),
ensures finished(*old(self), *final(self), meta),
//@raw
pub open spec fn asked_purge(e: Engine, f: Engine, index: u64) -> bool {
  let a = e.state; let s = a.snapshot_meta.last_log_id;
     &&& f == (Engine { state: f.state, output: f.output, ..e })
     // only logs a snapshot covers are purged, never fewer than scheduled
     &&& if s is None || index < next_idx(a.purge_upto) { f.state == a && f.output == e.output }
         else { let i = if index > s->0.index { s->0.index } else { index }; a.at(i as int) is Some && try_purge_of(e.leader, RaftState { purge_upto: a.at(i as int), ..a }, f.state, e.output.cmds(), f.output.cmds()) } 
}
//@source openraft/src/engine/engine_impl.rs
//@fn Engine::trigger_purge_log | math
requires old(self).state.ordered(), old(self).leader is Some ==> old(self).leader->0.wf(), next_idx(old(self).state.last()) < u64::MAX,
  old(self).state.holds(old(self).state.purge_upto),
ensures
  asked_purge(*old(self), *final(self), index),
//@proof before `self.log_handler`
proof { lemma_holds_le(old(self).state, old(self).state.purge_upto); }
