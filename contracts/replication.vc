//@module replication
//@deps handlers
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq};
//@source openraft/src/replication/response.rs
//@type ReplicationResult
//@source openraft/src/engine/handler/replication_handler/mod.rs
//@type ReplicationHandler
//@raw
#[verifier::prophetic]
pub open spec fn rh_keep(a: ReplicationHandler, b: ReplicationHandler) -> bool {
    *final(b.state) == *final(a.state) && *final(b.output) == *final(a.output) && *final(b.config) == *final(a.config) && *final(b.leader) == *final(a.leader) && *b.config == *a.config
}
pub type Progress_ = VecProgress<ProgressEntry, Option<LogId>>;
pub type Clock_ = VecProgress<Option<Instant>, Option<Instant>>;
/// what a leader records is for the members of its effective membership
pub open spec fn members_of(l: Leader, m: Membership) -> bool {
    &&& vviews(l.progress.quorum_set.data@) == mv(m).cfgs && vviews(l.clock_progress.quorum_set.data@) == mv(m).cfgs
    &&& forall|x: u64| (mvoters(m).contains(x) || m.nodes@.contains_key(x)) == (#[trigger] l.progress.of(x) is Some)
    &&& forall|x: u64| (mvoters(m).contains(x) || m.nodes@.contains_key(x)) == (#[trigger] l.clock_progress.of(x) is Some)
}
/// the records of `b` are those of `a`, for the nodes still there, and fresh ones for new nodes
pub open spec fn carried<V>(a: Seq<(u64, V)>, b: Seq<(u64, V)>, fresh: V) -> bool {
    forall|x: u64| #[trigger] entry(b, x) is Some ==> entry(b, x)->0 == (if entry(a, x) is Some { entry(a, x)->0 } else { fresh })
}
//@fn ReplicationHandler::rebuild_progresses | shim
requires old(self).leader.wf(),
ensures rh_keep(*old(self), *final(self)), *final(self).state == *old(self).state, *final(self).output == *old(self).output,
  final(self).leader.wf(), members_of(*final(self).leader, old(self).state.mem()),
  *final(self).leader == (Leader { progress: final(self).leader.progress, clock_progress: final(self).leader.clock_progress, ..*old(self).leader }),
  carried(old(self).leader.progress.vector@, final(self).leader.progress.vector@, fresh_entry(old(self).state.last())),
  carried(old(self).leader.clock_progress.vector@, final(self).leader.clock_progress.vector@, None),
//@proof start
proof { lemma_lawful_log_id(); lemma_lawful_instant(); lemma_learners(self.state.mem()); }
//@proof after `let learner_ids`
let ghost vx_ids = learner_ids@;
//@closure 0
|| -> (o: ProgressEntry) ensures o == (ProgressEntry { matching: None, inflight: Inflight::None, searching_end: end })
//@closure 1
|| -> (o: Option<Instant>) ensures o is None
//@proof end
proof {
  let vx_a = old(self).leader; let vx_b = self.leader; let vx_m = self.state.mem();
  let vx_l = vx_ids;
  assert forall|x: u64| (mvoters(vx_m).contains(x) || vx_m.nodes@.contains_key(x)) == (vx_b.progress.quorum_set.qs_ids().contains(x) || vx_l.contains(x)) by { assert(vx_l.to_set().contains(x) == vx_l.contains(x)); }
  assert forall|x: u64| #[trigger] entry(vx_b.progress.vector@, x) is Some implies entry(vx_b.progress.vector@, x)->0 == (if entry(vx_a.progress.vector@, x) is Some { entry(vx_a.progress.vector@, x)->0 } else { fresh_entry(old(self).state.last()) }) by { assert(vx_b.progress.of(x) is Some); }
  assert forall|x: u64| #[trigger] entry(vx_b.clock_progress.vector@, x) is Some implies entry(vx_b.clock_progress.vector@, x)->0 == (if entry(vx_a.clock_progress.vector@, x) is Some { entry(vx_a.clock_progress.vector@, x)->0 } else { None::<Instant> }) by { assert(vx_b.clock_progress.of(x) is Some); }
}
//@raw
/// The leader knows the latest time a node acknowledged it; one that is not there any more changes nothing.
pub open spec fn clocked(a: Leader, b: Leader, node_id: u64, t: Instant) -> bool {
  &&& b.wf() && b == (Leader { clock_progress: b.clock_progress, ..a })
  &&& same_voters(a.clock_progress, b.clock_progress)
  &&& only(a.clock_progress.vector@, b.clock_progress.vector@, node_id)
  &&& a.clock_progress.of(node_id) is None ==> b.clock_progress.vector == a.clock_progress.vector && b.clock_progress.granted == a.clock_progress.granted
  &&& a.clock_progress.of(node_id) is Some ==> b.clock_progress.of(node_id) == Some(if plt(a.clock_progress.of(node_id)->0, Some(t)) { Some(t) } else { a.clock_progress.of(node_id)->0 })
  &&& ple(a.clock_progress.granted, b.clock_progress.granted)
}
//@fn ReplicationHandler::update_leader_clock | shim
requires old(self).leader.wf(),
ensures rh_keep(*old(self), *final(self)), *final(self).state == *old(self).state, *final(self).output == *old(self).output,
  clocked(*old(self).leader, *final(self).leader, node_id, t),
//@proof start
proof { lemma_lawful_instant(); }
//@raw
/// what is granted by a quorum is committed by the leader that proposed it
pub open spec fn may_commit(a: RaftState, granted: Option<LogId>) -> bool {
    granted is Some && granted->0.leader_id == a.v().leader_id && olog_lt(a.committed, granted)
}
pub open spec fn commit_cmds(a: RaftState, c: LogId) -> Seq<Command> {
    seq![Command::ReplicateCommitted { committed: Some(c) }, Command::SaveCommitted { committed: c }, Command::Apply { already_committed: a.committed, upto: c }]
}
pub open spec fn commit_step(a: RaftState, b: RaftState, x: Seq<Command>, z: Seq<Command>, granted: Option<LogId>, p: SnapshotPolicy) -> bool {
    b == commit_state(a, granted, p) && z == commit_out(a, x, granted, p)
}
pub open spec fn commit_state(a: RaftState, granted: Option<LogId>, p: SnapshotPolicy) -> RaftState { if may_commit(a, granted) { snap_state(committed_state(a, granted), p) } else { a } }
pub open spec fn commit_out(a: RaftState, x: Seq<Command>, granted: Option<LogId>, p: SnapshotPolicy) -> Seq<Command> { if may_commit(a, granted) { snap_cmds(committed_state(a, granted), x + commit_cmds(a, granted->0), p) } else { x } }
//@fn ReplicationHandler::try_commit_quorum_accepted
//@rewrite `&self.state` => `&*self.state`
requires commit_pre(*old(self).state, granted),
ensures rh_keep(*old(self), *final(self)), *final(self).leader == *old(self).leader,
  commit_step(*old(self).state, *final(self).state, old(self).output.cmds(), final(self).output.cmds(), granted, old(self).config.snapshot_policy),
//@proof before `if self.config.snapshot_policy`
proof { assert(self.output.cmds() =~= old(self).output.cmds() + commit_cmds(*old(self).state, granted->0)); assert(*self.state == committed_state(*old(self).state, granted)); }
//@fn ReplicationHandler::update_matching | shim
requires old(self).leader.wf(), log_id is Some, old(self).leader.progress.of(node_id) is Some,
  old(self).leader.progress.of(node_id)->0.shape(), old(self).leader.progress.of(node_id)->0.ack_ok(log_id), pos_le(old(self).leader.progress.of(node_id)->0.matching, log_id),
  forall|g: Option<LogId>| commit_pre(*old(self).state, g),
ensures rh_keep(*old(self), *final(self)), matched(*old(self).leader, *final(self).leader, node_id, log_id),
  commit_step(*old(self).state, *final(self).state, old(self).output.cmds(), final(self).output.cmds(), final(self).leader.progress.granted, old(self).config.snapshot_policy),
//@proof start
proof { lemma_lawful_log_id(); }
//@closure 0
|prog_entry: &mut ProgressEntry| requires old(prog_entry).shape(), old(prog_entry).ack_ok(log_id), pos_le(old(prog_entry).matching, log_id), ensures final(prog_entry).wf(), final(prog_entry).matching == log_id, 
   pos_le(old(prog_entry).matching, final(prog_entry).matching),
   final(prog_entry).searching_end == (if old(prog_entry).searching_end >= next_idx(log_id) { old(prog_entry).searching_end as int } else { next_idx(log_id) }),
   final(prog_entry).inflight is None || final(prog_entry).inflight == (Inflight::Logs { log_id_range: LogIdRange { prev: log_id, last: old(prog_entry).inflight->log_id_range.last } }) && old(prog_entry).inflight is Logs
//@raw
/// only the record of `id` changes, to what it acknowledged
pub open spec fn matched(a: Leader, b: Leader, id: u64, m: Option<LogId>) -> bool {
    &&& b.wf() && b == (Leader { progress: b.progress, ..a })
    &&& same_voters(a.progress, b.progress) && only(a.progress.vector@, b.progress.vector@, id)
    &&& olog_le(a.progress.granted, b.progress.granted)
    &&& b.progress.of(id) is Some && b.progress.of(id)->0.wf() && b.progress.of(id)->0.matching == m && pos_le(a.progress.of(id)->0.matching, m)
    &&& b.progress.of(id)->0.searching_end >= a.progress.of(id)->0.searching_end
}
/// a leader whose records differ only in what is in flight
pub open spec fn same_records(a: Seq<(u64, ProgressEntry)>, b: Seq<(u64, ProgressEntry)>) -> bool {
    a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> (#[trigger] b[k]).0 == a[k].0 && b[k].1.matching == a[k].1.matching && b[k].1.searching_end == a[k].1.searching_end
}
pub proof fn lemma_same_reached(v: Seq<(u64, ProgressEntry)>, w: Seq<(u64, ProgressEntry)>)
    requires distinct(v), same_records(v, w),
    ensures distinct(w), forall|x: u64| (#[trigger] entry(w, x) is Some) == (entry(v, x) is Some),
       forall|x: u64| (#[trigger] entry(w, x)) is Some ==> entry(w, x)->0.matching == entry(v, x)->0.matching,
       forall|s: Set<u64>, p: Option<LogId>| #[trigger] reached(w, s, p) == reached(v, s, p),
{
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).0 != (#[trigger] w[j]).0 by { assert(v[i].0 != v[j].0); }
    assert forall|x: u64| (#[trigger] entry(w, x) is Some) == (entry(v, x) is Some) && (entry(w, x) is Some ==> entry(w, x)->0.matching == entry(v, x)->0.matching) by {
        lemma_pos(v, x); lemma_pos(w, x);
        if entry(w, x) is Some { assert(v[pos(w, x)].0 == x); }
        if entry(v, x) is Some { assert(w[pos(v, x)].0 == x); }
    }
    assert forall|s: Set<u64>, p: Option<LogId>| #[trigger] reached(w, s, p) == reached(v, s, p) by { assert(reached(w, s, p) =~= reached(v, s, p)); }
}
pub proof fn lemma_same_records(o: Progress_, n: Progress_)
    requires o.wf(), same_voters(o, n), n.granted == o.granted, same_records(o.vector@, n.vector@),
    ensures n.wf(), forall|x: u64| (#[trigger] n.of(x) is Some) == (o.of(x) is Some),
{
    lemma_same_reached(o.vector@, n.vector@);
    assert(n.voters() == o.voters());
    assert forall|k: int| #![trigger n.vector@[k]] 0 <= k < n.vector@.len() implies (n.voters().contains(n.vector@[k].0) == (k < n.voter_count)) by { assert(o.vector@[k].0 == n.vector@[k].0); }
    assert forall|x: u64| #[trigger] n.voters().contains(x) implies exists|k: int| 0 <= k < n.voter_count && (#[trigger] n.vector@[k]).0 == x by { let k = choose|k: int| 0 <= k < o.voter_count && (#[trigger] o.vector@[k]).0 == x; assert(n.vector@[k].0 == x); }
    assert forall|i: int, j: int| #![trigger n.vector@[i], n.vector@[j]] 0 <= i < j < n.voter_count && plt(n.granted, n.val(j)) implies ple(n.val(j), n.val(i)) by { assert(o.vector@[i].1.matching == n.vector@[i].1.matching && o.vector@[j].1.matching == n.vector@[j].1.matching); assert(o.val(i) == n.val(i) && o.val(j) == n.val(j)); }
    assert forall|p: Option<LogId>| #[trigger] n.reached(p) == o.reached(p) by { }
}
pub open spec fn reset_entry(e: (u64, ProgressEntry), id: u64) -> (u64, ProgressEntry) { if e.0 == id { e } else { (e.0, ProgressEntry { inflight: Inflight::None, ..e.1 }) } }
/// a replication task for every other node, with nothing in flight
pub open spec fn targets_of(v: Seq<(u64, ProgressEntry)>, id: u64) -> Seq<ReplicationProgress>
    decreases v.len(),
{
    if v.len() == 0 { Seq::empty() } else {
        let t = targets_of(v.drop_last(), id);
        let e = reset_entry(v.last(), id);
        if e.0 == id { t } else { t.push(ReplicationProgress(e.0, e.1)) }
    }
}
pub open spec fn all_reset(a: Seq<(u64, ProgressEntry)>, b: Seq<(u64, ProgressEntry)>, id: u64) -> bool {
    a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> (#[trigger] b[k]) == reset_entry(a[k], id)
}
//@fn ReplicationHandler::rebuild_replication_streams | shim
requires old(self).leader.wf(),
ensures rh_keep(*old(self), *final(self)), *final(self).state == *old(self).state, final(self).leader.wf(),
  *final(self).leader == (Leader { progress: final(self).leader.progress, ..*old(self).leader }), same_voters(old(self).leader.progress, final(self).leader.progress),
  final(self).leader.progress.granted == old(self).leader.progress.granted,
  all_reset(old(self).leader.progress.vector@, final(self).leader.progress.vector@, old(self).config.id),
  adds_rebuild(old(self).output.cmds(), final(self).output.cmds(), targets_of(old(self).leader.progress.vector@, old(self).config.id)),
//@loop 0 iter=mut
invariant vx_i0 <= vx_it0@.len(), vx_it0@.len() == old(self).leader.progress.vector@.len(), *self.config == *old(self).config,
  targets@ == targets_of(old(self).leader.progress.vector@.take(vx_i0 as int), self.config.id),
  forall|k: int| 0 <= k < vx_i0 ==> (#[trigger] vx_it0@[k]) == reset_entry(old(self).leader.progress.vector@[k], self.config.id),
  forall|k: int| vx_i0 <= k < vx_it0@.len() ==> (#[trigger] vx_it0@[k]) == old(self).leader.progress.vector@[k],
//@loop 0 start
proof { let vx_v = old(self).leader.progress.vector@; assert(vx_v.take(vx_i0 as int + 1).drop_last() =~= vx_v.take(vx_i0 as int)); }
//@proof before `self.output.push_command`
proof { let vx_v = old(self).leader.progress.vector@; assert(vx_v.take(vx_v.len() as int) =~= vx_v); lemma_same_records(old(self).leader.progress, self.leader.progress); }
//@proof end
proof { assert(self.output.cmds().drop_last() =~= old(self).output.cmds()); }
//@raw
pub open spec fn adds_rebuild(x: Seq<Command>, y: Seq<Command>, t: Seq<ReplicationProgress>) -> bool {
    y.len() == x.len() + 1 && y.drop_last() == x && y.last() is RebuildReplicationStreams && y.last()->targets@ == t
}
/// a record from which replication goes on
pub open spec fn ready(p: ProgressEntry, s: RaftState) -> bool {
    &&& p.wf() && p.searching_end <= next_idx(s.last()) && s.holds(p.matching)
    &&& s.snapshot_meta.last_log_id is None ==> next_idx(s.purge_upto) <= p.searching_end
    &&& s.snapshot_meta.last_log_id is Some && lidx(p.matching) < lidx(s.snapshot_meta.last_log_id) ==> olog_lt(p.matching, s.snapshot_meta.last_log_id)
}
/// what is sent next to a node: nothing while a request is in flight; the snapshot when the logs it may need are
/// purged; otherwise a batch of logs
pub open spec fn next_sent(a: ProgressEntry, b: ProgressEntry, s: RaftState, max: u64) -> bool {
    &&& b.wf() && b.matching == a.matching && b.searching_end == a.searching_end
    &&& !(a.inflight is None) ==> b == a
    &&& a.inflight is None && a.searching_end < next_idx(s.purge_upto) ==> b.inflight == (Inflight::Snapshot { last_log_id: s.snapshot_meta.last_log_id })
    &&& a.inflight is None && a.searching_end >= next_idx(s.purge_upto) ==> b.inflight is None && (max == 0 || a.searching_end >= next_idx(s.last()) || next_idx(a.matching) < a.searching_end)
        || b.inflight is Logs && sends(a, s, max, b.inflight->log_id_range)
}
pub open spec fn replicate_cmd(id: u64, i: Inflight) -> Command {
    Command::Replicate { target: id, req: Replicate::Data(if i is Logs { Data::Logs(i->log_id_range) } else { Data::Snapshot(i->last_log_id) }) }
}
/// a request for each node for which one is newly in flight
pub open spec fn sends_of(a: Seq<(u64, ProgressEntry)>, b: Seq<(u64, ProgressEntry)>, id: u64) -> Seq<Command>
    decreases a.len(),
{
    if a.len() == 0 || b.len() != a.len() { Seq::empty() } else {
        let t = sends_of(a.drop_last(), b.drop_last(), id);
        if a.last().0 != id && a.last().1.inflight is None && !(b.last().1.inflight is None) { t.push(replicate_cmd(a.last().0, b.last().1.inflight)) } else { t }
    }
}
pub open spec fn all_sent(a: Seq<(u64, ProgressEntry)>, b: Seq<(u64, ProgressEntry)>, id: u64, s: RaftState, max: u64) -> bool {
    a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> (#[trigger] b[k]).0 == a[k].0 && if a[k].0 == id { b[k] == a[k] } else { next_sent(a[k].1, b[k].1, s, max) }
}
pub open spec fn all_ready(v: Seq<(u64, ProgressEntry)>, id: u64, s: RaftState) -> bool { forall|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 != id ==> ready(v[k].1, s) }
//@fn ReplicationHandler::send_to_target
requires !(*inflight is None),
ensures final(output).cmds() == old(output).cmds().push(replicate_cmd(*target, *inflight)),
//@fn ReplicationHandler::initiate_replication | shim
//@rewrite `self.state` => `&*self.state`
requires old(self).leader.wf(), old(self).state.ordered(), all_ready(old(self).leader.progress.vector@, old(self).config.id, *old(self).state),
ensures rh_keep(*old(self), *final(self)), *final(self).state == *old(self).state, final(self).leader.wf(),
  *final(self).leader == (Leader { progress: final(self).leader.progress, ..*old(self).leader }), same_voters(old(self).leader.progress, final(self).leader.progress),
  final(self).leader.progress.granted == old(self).leader.progress.granted,
  all_sent(old(self).leader.progress.vector@, final(self).leader.progress.vector@, old(self).config.id, *old(self).state, old(self).config.max_payload_entries),
  final(self).output.cmds() == old(self).output.cmds() + sends_of(old(self).leader.progress.vector@, final(self).leader.progress.vector@, old(self).config.id),
//@loop 0 iter=mut
invariant vx_i0 <= vx_it0@.len(), vx_it0@.len() == old(self).leader.progress.vector@.len(), *self.config == *old(self).config, *self.state == *old(self).state,
  self.state.ordered(), all_ready(old(self).leader.progress.vector@, old(self).config.id, *old(self).state),
  forall|k: int| 0 <= k < vx_i0 ==> (#[trigger] vx_it0@[k]).0 == old(self).leader.progress.vector@[k].0 && if vx_it0@[k].0 == self.config.id { vx_it0@[k] == old(self).leader.progress.vector@[k] } else { next_sent(old(self).leader.progress.vector@[k].1, vx_it0@[k].1, *self.state, self.config.max_payload_entries) },
  forall|k: int| vx_i0 <= k < vx_it0@.len() ==> (#[trigger] vx_it0@[k]) == old(self).leader.progress.vector@[k],
  self.output.cmds() == old(self).output.cmds() + sends_of(old(self).leader.progress.vector@.take(vx_i0 as int), vx_it0@.take(vx_i0 as int), self.config.id),
//@loop 0 start
let ghost vx_w = vx_it0@; let ghost vx_c = self.output.cmds();
//@loop 0 end
proof {
  let vx_v = old(self).leader.progress.vector@; let vx_k = vx_i0 - 1;
  assert(vx_v.take(vx_k + 1).drop_last() =~= vx_v.take(vx_k)); assert(vx_it0@.take(vx_k + 1).drop_last() =~= vx_w.take(vx_k));
  assert(self.output.cmds() =~= old(self).output.cmds() + sends_of(vx_v.take(vx_k + 1), vx_it0@.take(vx_k + 1), self.config.id));
}
//@proof end
proof { let vx_v = old(self).leader.progress.vector@; assert(vx_v.take(vx_v.len() as int) =~= vx_v); let vx_w = self.leader.progress.vector@; assert(vx_w.take(vx_w.len() as int) =~= vx_w); lemma_same_records(old(self).leader.progress, self.leader.progress); }
//@fn ReplicationHandler::log_handler
ensures *r.config == *old(self).config, *r.state == *old(self).state, *r.output == *old(self).output,
  *final(final(self).state) == *final(old(self).state), *final(final(self).output) == *final(old(self).output), *final(final(self).config) == *final(old(self).config),
  *final(self).state == *final(r.state), *final(self).output == *final(r.output), *final(self).config == *final(r.config),
  *final(self).leader == *old(self).leader, *final(final(self).leader) == *final(old(self).leader),
//@fn ReplicationHandler::snapshot_handler
ensures *r.state == *old(self).state, *r.output == *old(self).output,
  *final(final(self).state) == *final(old(self).state), *final(final(self).output) == *final(old(self).output), *final(final(self).config) == *final(old(self).config),
  *final(self).state == *final(r.state), *final(self).output == *final(r.output), *final(self).config == *old(self).config,
  *final(self).leader == *old(self).leader, *final(final(self).leader) == *final(old(self).leader),
//@fn ReplicationHandler::update_conflicting | shim
requires old(self).leader.wf(), old(self).leader.progress.of(target) is Some, old(self).leader.progress.of(target)->0.wf(), old(self).leader.progress.of(target)->0.conflict_ok(conflict.index),
ensures rh_keep(*old(self), *final(self)), *final(self).state == *old(self).state, *final(self).output == *old(self).output,
  edited(*old(self).leader, *final(self).leader, target, ProgressEntry { inflight: Inflight::None, searching_end: conflict.index, ..old(self).leader.progress.of(target)->0 }),
//@proof start
proof { lemma_pos(self.leader.progress.vector@, target); }
//@proof end
proof { lemma_edit(old(self).leader.progress, self.leader.progress, target); }
//@raw
/// only the record of `id` changes, to one that acknowledges the same
pub open spec fn edited(a: Leader, b: Leader, id: u64, e: ProgressEntry) -> bool {
    &&& b.wf() && b == (Leader { progress: b.progress, ..a })
    &&& same_voters(a.progress, b.progress) && b.progress.granted == a.progress.granted
    &&& only(a.progress.vector@, b.progress.vector@, id) && b.progress.of(id) == Some(e)
}
pub proof fn lemma_edit(o: Progress_, n: Progress_, id: u64)
    requires o.wf(), o.of(id) is Some, same_voters(o, n), n.granted == o.granted, n.vector@ == o.vector@.update(pos(o.vector@, id), (id, n.vector@[pos(o.vector@, id)].1)),
       n.vector@[pos(o.vector@, id)].1.matching == o.of(id)->0.matching,
    ensures n.wf(), only(o.vector@, n.vector@, id), n.of(id) == Some(n.vector@[pos(o.vector@, id)].1),
{
    lemma_pos(o.vector@, id);
    lemma_lawful_log_id();
    let k = pos(o.vector@, id);
    assert(n.vector@[k].0 == id);
    assert(n.val(k) == o.val(k));
    lemma_total(o.val(k), n.val(k));
    assert(raised(o, n, id));
    lemma_shape(o, n, id);
    lemma_raised(o, n, id);
}
/// some node is being sent logs after which the purge goes
pub open spec fn in_use(v: Seq<(u64, ProgressEntry)>, upto: LogId) -> bool { exists|k: int| 0 <= k < v.len() && #[trigger] uses_logs(v[k].1, upto) }
pub open spec fn uses_logs(p: ProgressEntry, upto: LogId) -> bool { p.inflight is Logs && olog_lt(p.inflight->log_id_range.prev, Some(upto)) }
pub open spec fn purge_pre(s: RaftState) -> bool {
    &&& s.log_wf()
    &&& s.purge_upto is Some ==> s.purge_upto->0.index < u64::MAX
    &&& s.purge_upto is Some && s.purge_upto->0.index >= next_idx(s.last()) && s.last() is Some ==> log_lt(s.last()->0, s.purge_upto->0)
}
/// what is scheduled is purged, unless a node is being sent some of it
pub open spec fn try_purge(a: RaftState, b: RaftState, x: Seq<Command>, y: Seq<Command>, v: Seq<(u64, ProgressEntry)>) -> bool {
    if a.purge_upto is Some && in_use(v, a.purge_upto->0) { b == a && y == x } else { purge_step(a, b, x, y) }
}
//@fn ReplicationHandler::try_purge_log | shim
requires old(self).leader.wf(), purge_pre(*old(self).state),
ensures rh_keep(*old(self), *final(self)), *final(self).leader == *old(self).leader,
  try_purge(*old(self).state, *final(self).state, old(self).output.cmds(), final(self).output.cmds(), old(self).leader.progress.vector@),
//@loop 0 iter=it
invariant it.seq().len() == self.leader.progress.vector@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.leader.progress.vector@[i],
  in_use == exists|k: int| 0 <= k < it.index@ && #[trigger] uses_logs(self.leader.progress.vector@[k].1, purge_upto),
//@loop 0 start
assert(*it.seq()[it.index@ as int] == self.leader.progress.vector@[it.index@ as int]);
proof { let vx_v = self.leader.progress.vector@; let vx_i = it.index@ as int; assert(uses_logs(vx_v[vx_i].1, purge_upto) == uses_logs(*prog_entry, purge_upto)); }
//@raw
pub open spec fn can_flush(l: Leader, s: RaftState, id: u64, upto: Option<LogId>) -> bool {
   &&& l.wf() && (l.progress.of(id) is Some ==> l.progress.of(id)->0.shape()) && forall|g: Option<LogId>| commit_pre(s, g)
   &&& l.progress.of(id) is Some && olog_lt(l.progress.of(id)->0.matching, upto) ==> pos_le(l.progress.of(id)->0.matching, upto)
}
/// What the leader has on its own disk counts as matched on it, and may commit logs.
pub open spec fn local_flushed(l: Leader, m: Leader, s: RaftState, t: RaftState, x: Seq<Command>, y: Seq<Command>, c: EngineConfig, upto: Option<LogId>) -> bool {
  if upto is Some && l.progress.of(c.id) is Some && olog_lt(l.progress.of(c.id)->0.matching, upto) {
      matched(l, m, c.id, upto) && commit_step(s, t, x, y, m.progress.granted, c.snapshot_policy)
  } else { same_leader(l, m) && t == s && y == x }
}
//@fn ReplicationHandler::update_local_progress | shim
requires can_flush(*old(self).leader, *old(self).state, old(self).config.id, upto),
ensures rh_keep(*old(self), *final(self)), local_flushed(*old(self).leader, *final(self).leader, *old(self).state, *final(self).state, old(self).output.cmds(), final(self).output.cmds(), *old(self).config, upto),
//@proof start
proof { lemma_pos(self.leader.progress.vector@, self.config.id); }
//@proof return
proof { lemma_lawful_log_id(); if old(self).leader.progress.of(old(self).config.id) is Some { let vx_o = old(self).leader.progress; let vx_p = pos(vx_o.vector@, old(self).config.id); assert(vx_o.vector@.update(vx_p, vx_o.vector@[vx_p]) =~= vx_o.vector@); assert(same_records(vx_o.vector@, vx_o.vector@)); if self.leader.progress.vector@ == vx_o.vector@ && same_voters(vx_o, self.leader.progress) && self.leader.progress.granted == vx_o.granted { lemma_same_records(vx_o, self.leader.progress); } } }
//@proof before `prog_entry.inflight =`
let ghost vx_m = prog_entry.matching;
//@proof before `self.update_matching`
proof { lemma_edit(old(self).leader.progress, self.leader.progress, id); }
let ghost vx_l = *self.leader;
//@proof after `self.update_matching`
proof { assert(same_voters(old(self).leader.progress, self.leader.progress)); assert(matched(*old(self).leader, *self.leader, id, upto)); }
//@raw
pub open spec fn same_leader(a: Leader, b: Leader) -> bool {
    b.wf() && b == (Leader { progress: b.progress, ..a }) && same_voters(a.progress, b.progress) && b.progress.granted == a.progress.granted && b.progress.vector@ == a.progress.vector@
}
pub open spec fn can_progress(l: Leader, s: RaftState, target: u64, res: Result<ReplicationResult, String>) -> bool {
   &&& l.wf() && l.progress.of(target) is Some && (forall|g: Option<LogId>| commit_pre(s, g)) && purge_pre(s)
   &&& reply_ok(l.progress.of(target)->0, res)
}
/// What a node replied advances, or moves back, where it is known to match, and may commit logs.
pub open spec fn progressed(l: Leader, m: Leader, s: RaftState, t: RaftState, x: Seq<Command>, y: Seq<Command>, c: EngineConfig, target: u64, res: Result<ReplicationResult, String>) -> bool {
   match res {
     Ok(ReplicationResult(Ok(g))) => matched(l, m, target, g)
        && try_purge(commit_state(s, m.progress.granted, c.snapshot_policy), t, commit_out(s, x, m.progress.granted, c.snapshot_policy), y, m.progress.vector@),
     // probe earlier logs
     Ok(ReplicationResult(Err(e))) => edited(l, m, target, ProgressEntry { inflight: Inflight::None, searching_end: e.index, ..l.progress.of(target)->0 })
        && try_purge(s, t, x, y, m.progress.vector@),
     // try again
     Err(_) => edited(l, m, target, ProgressEntry { inflight: Inflight::None, ..l.progress.of(target)->0 })
        && try_purge(s, t, x, y, m.progress.vector@),
   }
}
//@fn ReplicationHandler::update_progress | shim
requires can_progress(*old(self).leader, *old(self).state, target, repl_res),
ensures rh_keep(*old(self), *final(self)), progressed(*old(self).leader, *final(self).leader, *old(self).state, *final(self).state, old(self).output.cmds(), final(self).output.cmds(), *old(self).config, target, repl_res),
//@proof start
proof { lemma_pos(self.leader.progress.vector@, target); }
//@proof before `self.try_purge_log`
proof { if repl_res is Err { lemma_edit(old(self).leader.progress, self.leader.progress, target); } }
//@raw
/// a reply that belongs to the request in flight
pub open spec fn reply_ok(p: ProgressEntry, r: Result<ReplicationResult, String>) -> bool {
    match r {
        Ok(ReplicationResult(Ok(m))) => m is Some && p.shape() && p.ack_ok(m) && pos_le(p.matching, m),
        Ok(ReplicationResult(Err(c))) => p.wf() && p.conflict_ok(c.index),
        Err(_) => true,
    }
}
pub open spec fn ready_nodes(v: Seq<(u64, ProgressEntry)>, id: u64, s: RaftState) -> bool { forall|x: u64| x != id && #[trigger] entry(v, x) is Some ==> ready(entry(v, x)->0, s) }
pub proof fn lemma_ready(v: Seq<(u64, ProgressEntry)>, id: u64, s: RaftState)
    requires distinct(v), ready_nodes(v, id, s),
    ensures all_ready(v, id, s),
{ assert forall|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 != id implies ready(v[k].1, s) by { lemma_entry(v, k); } }
pub open spec fn appended_state(a: RaftState, b: RaftState, log_id: LogId, m: Membership) -> bool {
    &&& b == (RaftState { membership_state: b.membership_state, ..a })
    &&& b.membership_state.committed == a.membership_state.effective
    &&& b.membership_state.effective.lid() == Some(log_id) && b.mem() == m && b.membership_state.effective.wf()
}
/// Replication restarts with the nodes of the new membership: `v` are their records, `w` what is sent to.
pub open spec fn restarted(a: Leader, b: Leader, s: RaftState, x: Seq<Command>, y: Seq<Command>, id: u64, max: u64) -> bool {
    exists|v: Seq<(u64, ProgressEntry)>, w: Seq<(u64, ProgressEntry)>, c: Seq<Command>| #[trigger] restart(a, b, s, x, y, id, max, v, w, c)
}
pub open spec fn restart(a: Leader, b: Leader, s: RaftState, x: Seq<Command>, y: Seq<Command>, id: u64, max: u64, v: Seq<(u64, ProgressEntry)>, w: Seq<(u64, ProgressEntry)>, c: Seq<Command>) -> bool {
    &&& b.wf() && members_of(b, s.mem()) && b == (Leader { progress: b.progress, clock_progress: b.clock_progress, ..a })
    &&& carried(a.progress.vector@, v, fresh_entry(s.last()))
    &&& carried(a.clock_progress.vector@, b.clock_progress.vector@, None)
    &&& all_reset(v, w, id) && adds_rebuild(x, c, targets_of(v, id))
    &&& all_sent(w, b.progress.vector@, id, s, max) && y == c + sends_of(w, b.progress.vector@, id)
}
//@fn ReplicationHandler::append_membership
requires old(self).leader.wf(), old(self).state.ordered(), old(self).state.server_state == ServerState::Leader, old(self).state.leader(old(self).config.id),
   ready_nodes(old(self).leader.progress.vector@, old(self).config.id, *old(self).state),
   old(self).state.last() is Some ==> old(self).state.last()->0.index < u64::MAX,
   olog_lt(old(self).state.membership_state.effective.lid(), Some(*log_id)), lidx(old(self).state.membership_state.effective.lid()) < log_id.index,
ensures rh_keep(*old(self), *final(self)), appended_state(*old(self).state, *final(self).state, *log_id, *m),
   restarted(*old(self).leader, *final(self).leader, *final(self).state, old(self).output.cmds(), final(self).output.cmds(), old(self).config.id, old(self).config.max_payload_entries),
//@proof before `self.rebuild_replication_streams`
let ghost vx_v = self.leader.progress.vector@; let ghost vx_l1 = *self.leader;
proof {
  let vx_a = old(self).leader.progress.vector@;
  let vx_s = *self.state;
  assert(vx_s.log_wf() && vx_s.ordered());
  assert forall|x: u64| x != self.config.id && #[trigger] entry(vx_v, x) is Some implies ready(ProgressEntry { inflight: Inflight::None, ..entry(vx_v, x)->0 }, vx_s) by {
     if entry(vx_a, x) is Some { assert(ready(entry(vx_a, x)->0, *old(self).state)); }
  }
}
//@proof before `self.initiate_replication`
let ghost vx_w = self.leader.progress.vector@; let ghost vx_c = self.output.cmds();
proof {
  assert forall|k: int| 0 <= k < vx_w.len() && (#[trigger] vx_w[k]).0 != self.config.id implies ready(vx_w[k].1, *self.state) by { lemma_entry(vx_v, k); assert(vx_v[k].0 == vx_w[k].0); }
  lemma_same_records(vx_l1.progress, self.leader.progress);
}
let ghost vx_l2 = *self.leader;
//@proof end
proof { lemma_same_records(vx_l2.progress, self.leader.progress); assert(restart(*old(self).leader, *self.leader, *self.state, old(self).output.cmds(), self.output.cmds(), self.config.id, self.config.max_payload_entries, vx_v, vx_w, vx_c)); }
