//@module leader_handler
//@deps replication
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq};
//@source openraft/src/engine/handler/leader_handler/mod.rs
//@type LeaderHandler
//@raw
#[verifier::prophetic]
pub open spec fn ldh_keep(a: LeaderHandler, b: LeaderHandler) -> bool {
    *final(b.state) == *final(a.state) && *final(b.output) == *final(a.output) && *final(b.config) == *final(a.config) && *final(b.leader) == *final(a.leader) && *b.config == *a.config
}
pub open spec fn omax(a: Option<LogId>, b: Option<LogId>) -> Option<LogId> { if olog_le(a, b) { b } else { a } }
//@fn LeaderHandler::get_read_log_id | shim
ensures r == omax(old(self.leader).noop_log_id, old(self.state).committed),
   // at least what is committed, and the first log of this leadership
   olog_le(old(self.state).committed, r), olog_le(old(self.leader).noop_log_id, r),
//@fn LeaderHandler::send_heartbeat
ensures ldh_keep(*old(self), *final(self)), *final(self).state == *old(self).state, *final(self).leader == *old(self).leader,
  final(self).output.cmds() == old(self).output.cmds().push(Command::BroadcastHeartbeat { session_id: ReplicationSessionId { leader_vote: old(self).leader.committed_vote, membership_log_id: old(self).state.membership_state.effective.lid() }, committed: old(self).state.committed }),
//@fn LeaderHandler::transfer_leader
ensures ldh_keep(*old(self), *final(self)),
  *final(self).leader == (Leader { transfer_to: Some(to), ..*old(self).leader }),
  // the lease no longer keeps other nodes from being elected
  final(self).state.vote.lease.ns == 0 && !final(self).state.vote.lease_enabled && final(self).state.vote.data == old(self).state.vote.data && final(self).state.vote.last_update == old(self).state.vote.last_update,
  *final(self).state == (RaftState { vote: final(self).state.vote, ..*old(self).state }),
  final(self).output.cmds() == old(self).output.cmds().push(Command::BroadcastTransferLeader { req: TransferLeaderRequest { from_leader: old(self).leader.committed_vote.vote, to_node_id: to, last_log_id: old(self).leader.last_log_id } }),
//@fn LeaderHandler::replication_handler
ensures *r.config == *old(self).config, *r.state == *old(self).state, *r.output == *old(self).output, *r.leader == *old(self).leader,
  *final(final(self).state) == *final(old(self).state), *final(final(self).output) == *final(old(self).output), *final(final(self).config) == *final(old(self).config), *final(final(self).leader) == *final(old(self).leader),
  *final(self).state == *final(r.state), *final(self).output == *final(r.output), *final(self).config == *final(r.config), *final(self).leader == *final(r.leader),
//@raw
/// the last membership among entries
pub open spec fn last_mem(s: Seq<Entry>) -> Option<(LogId, Membership)>
    decreases s.len(),
{
    if s.len() == 0 { None } else if s.last().payload.mem() is Some { Some((s.last().log_id, s.last().payload.mem()->0)) } else { last_mem(s.drop_last()) }
}
/// at most one of the entries is a membership
pub open spec fn one_mem(s: Seq<Entry>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !((#[trigger] s[i]).payload.mem() is Some && (#[trigger] s[j]).payload.mem() is Some) }
/// The log gets the entries at its end; the write is accepted.
pub open spec fn proposed(a: RaftState, b: RaftState, l: Leader, es: Seq<Entry>) -> bool {
    &&& ids_ext(a.log_ids.key_log_ids@, b.log_ids.key_log_ids@, es)
    &&& b == (RaftState { log_ids: b.log_ids, io_state: IOState { io_progress: IOProgress { accepted: b.io_state.io_progress.accepted, ..a.io_state.io_progress }, ..a.io_state }, ..a })
    &&& b.io_state.io_progress.accepted == ({ let io = IOId::Log(LogIOId { committed_vote: l.committed_vote, log_id: l.last_log_id }); if oio_le(Some(io), a.io_state.io_progress.accepted) { a.io_state.io_progress.accepted } else { Some(io) } })
}
pub proof fn lemma_extended(a: RaftState, b: RaftState, es: Seq<Entry>)
    requires a.ordered(), ids_can_ext(a.log_ids.key_log_ids@, es), es.len() > 0, ids_ext(a.log_ids.key_log_ids@, b.log_ids.key_log_ids@, es),
       b == (RaftState { log_ids: b.log_ids, io_state: b.io_state, ..a }), next_idx(a.last()) == es[0].log_id.index,
    ensures b.ordered(), forall|m: Option<LogId>| #[trigger] a.holds(m) ==> b.holds(m), next_idx(b.last()) >= next_idx(a.last()),
{
    broadcast use {lemma_at_some, lemma_at_mono};
    assert(es[0].rl_log_id() == es[0].log_id);
    let n = es.len() - 1;
    if n > 0 { assert(es[0].rl_log_id().index + (n - 0) == es[n].rl_log_id().index); }
    assert(es.last() == es[n]);
    if a.last() is Some {
        assert(a.at(a.last()->0.index as int) == b.at(a.last()->0.index as int));
    }
}
/// the rest of a proposal: replication restarts if the membership changes, and what can be sent is sent
pub open spec fn replicated(l0: Leader, l2: Leader, s1: RaftState, s2: RaftState, x: Seq<Command>, y: Seq<Command>, c: EngineConfig, m: Option<(LogId, Membership)>) -> bool {
    exists|l1: Leader, y1: Seq<Command>| #[trigger] replicated_by(l0, l1, l2, s1, s2, x, y1, y, c, m)
}
pub open spec fn replicated_by(l0: Leader, l1: Leader, l2: Leader, s1: RaftState, s2: RaftState, x: Seq<Command>, y1: Seq<Command>, y: Seq<Command>, c: EngineConfig, m: Option<(LogId, Membership)>) -> bool {
    &&& match m {
        None => s2 == s1 && l1 == l0 && y1 == x,
        Some(m) => appended_state(s1, s2, m.0, m.1) && restarted(l0, l1, s2, x, y1, c.id, c.max_payload_entries),
    }
    &&& l2.wf() && l2 == (Leader { progress: l2.progress, ..l1 }) && same_voters(l1.progress, l2.progress) && l2.progress.granted == l1.progress.granted
    &&& all_sent(l1.progress.vector@, l2.progress.vector@, c.id, s2, c.max_payload_entries)
    &&& y == y1 + sends_of(l1.progress.vector@, l2.progress.vector@, c.id)
}
//@fn LeaderHandler::leader_append_entries | shim
requires old(self).leader.wf(), old(self).leader.transfer_to is None, old(self).leader.last_log_id == old(self).state.last(), old(self).state.ordered(),
  next_idx(old(self).state.last()) + entries@.len() < u64::MAX, one_mem(entries@),
  ready_nodes(old(self).leader.progress.vector@, old(self).config.id, *old(self).state),
  old(self).state.io_state.io_progress.accepted is Some ==> vote_le(old(self).state.io_state.io_progress.accepted->0.vote_v(), old(self).leader.committed_vote.vote),
  pos_le(old(self).state.membership_state.effective.lid(), old(self).state.last()),
  last_mem(entries@) is Some ==> old(self).state.server_state == ServerState::Leader && old(self).state.leader(old(self).config.id),
ensures ldh_keep(*old(self), *final(self)), final(self).leader.wf(), final(self).leader.last_log_id == final(self).state.last(),
  entries@.len() == 0 ==> *final(self).state == *old(self).state && *final(self).leader == *old(self).leader && *final(self).output == *old(self).output,
  entries@.len() > 0 ==> appended_by(*old(self).leader, *final(self).leader, *old(self).state, *final(self).state, old(self).output.cmds(), final(self).output.cmds(), *old(self).config, entries@),
//@loop 0 iter=it
invariant it.seq().len() == entries@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == entries@[i], one_mem(entries@),
  membership_entry == last_mem(entries@.take(it.index@ as int)),
  forall|k: int| 0 <= k < it.index@ && (#[trigger] entries@[k]).payload.mem() is Some ==> membership_entry is Some,
  membership_entry is Some ==> exists|k: int| 0 <= k < it.index@ && (#[trigger] entries@[k]).payload.mem() is Some,
//@loop 0 start
assert(*it.seq()[it.index@ as int] == entries@[it.index@ as int]);
proof { let vx_k = it.index@ as int; assert(entries@.take(vx_k + 1).drop_last() =~= entries@.take(vx_k)); }
//@proof after `self.leader.assign_log_ids`
proof {
  let vx_o = entries0; let vx_a = old(self).state;
  assert forall|i: int| 0 <= i < entries@.len() implies (#[trigger] entries@[i]).payload == vx_o[i].payload && entries@[i].log_id.index == next_idx(vx_a.last()) + i && entries@[i].log_id.leader_id == old(self).leader.leader_id() by { assert(entries@[i].rl_log_id() == entries@[i].log_id); }
  assert(one_mem(entries@)) by { assert forall|i: int, j: int| 0 <= i < j < entries@.len() implies !((#[trigger] entries@[i]).payload.mem() is Some && (#[trigger] entries@[j]).payload.mem() is Some) by { assert(vx_o[i].payload == entries@[i].payload && vx_o[j].payload == entries@[j].payload); } }
  lemma_last_mem(vx_o, entries@);
}
//@proof start
let ghost entries0 = entries@;
//@proof after `self.state.extend_log_ids`
proof { lemma_extended(*old(self).state, *self.state, entries@); }
//@proof before `let mut rh`
let ghost vx_s1 = *self.state; let ghost vx_l1 = *self.leader; let ghost vx_x = self.output.cmds(); let ghost vx_es = entries_;
proof {
  let vx_a = old(self).state;
  assert(vx_s1.ordered());
  assert(vx_es@.take(vx_es@.len() as int) =~= vx_es@);
  assert(membership_entry == last_mem(vx_es@));
  assert(membership_entry is Some ==> vx_s1.server_state == ServerState::Leader && vx_s1.leader(self.config.id));
  assert(membership_entry is Some ==> (membership_entry->0).0.index >= next_idx(vx_a.last()) && (membership_entry->0).0.leader_id == old(self).leader.leader_id());
  assert forall|x: u64| x != self.config.id && #[trigger] entry(vx_l1.progress.vector@, x) is Some implies ready(entry(vx_l1.progress.vector@, x)->0, vx_s1) by { assert(ready(entry(vx_l1.progress.vector@, x)->0, *vx_a)); }
}
//@proof before `rh.initiate_replication`
let ghost vx_l2 = *rh.leader; let ghost vx_y1 = rh.output.cmds();
proof { lemma_restart_ready(vx_l1, vx_l2, *rh.state, vx_x, vx_y1, rh.config.id, rh.config.max_payload_entries); lemma_ready(vx_l1.progress.vector@, rh.config.id, vx_s1); }
//@proof before `self.output.push_command`
let ghost entries_ = entries;
//@proof end
proof {
  let vx_c = *self.config;
  assert(replicated_by(vx_l1, vx_l2, *self.leader, vx_s1, *self.state, vx_x, vx_y1, self.output.cmds(), vx_c, last_mem(vx_es@)));
  assert(appended_with(*old(self).leader, *self.leader, *old(self).state, *self.state, old(self).output.cmds(), self.output.cmds(), vx_c, entries0, vx_es, vx_s1));
}
//@raw
pub proof fn lemma_last_mem(o: Seq<Entry>, s: Seq<Entry>)
    requires s.len() == o.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).payload == o[i].payload,
    ensures (last_mem(s) is Some) == (last_mem(o) is Some),
      last_mem(s) is Some ==> exists|k: int| 0 <= k < s.len() && last_mem(s) == Some(((#[trigger] s[k]).log_id, s[k].payload.mem()->0)) && s[k].payload.mem() is Some,
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s.last().payload == o.last().payload);
        if s.last().payload.mem() is Some { let k = s.len() - 1; assert(s[k] == s.last()); }
        else {
            assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] s.drop_last()[i]).payload == o.drop_last()[i].payload by { assert(s[i].payload == o[i].payload); }
            lemma_last_mem(o.drop_last(), s.drop_last());
            if last_mem(s) is Some { let k = choose|k: int| 0 <= k < s.len() - 1 && last_mem(s.drop_last()) == Some(((#[trigger] s.drop_last()[k]).log_id, s.drop_last()[k].payload.mem()->0)) && s.drop_last()[k].payload.mem() is Some; assert(s[k] == s.drop_last()[k]); }
        }
    }
}
/// after replication restarts, it can go on
pub proof fn lemma_restart_ready(l0: Leader, l1: Leader, s: RaftState, x: Seq<Command>, y: Seq<Command>, id: u64, max: u64)
    requires s.ordered(), ready_nodes(l0.progress.vector@, id, s),
    ensures restarted(l0, l1, s, x, y, id, max) ==> all_ready(l1.progress.vector@, id, s),
{
    if restarted(l0, l1, s, x, y, id, max) {
        let (v, w, c) = choose|v: Seq<(u64, ProgressEntry)>, w: Seq<(u64, ProgressEntry)>, c: Seq<Command>| #[trigger] restart(l0, l1, s, x, y, id, max, v, w, c);
        let z = l1.progress.vector@;
        assert forall|k: int| 0 <= k < z.len() && (#[trigger] z[k]).0 != id implies ready(z[k].1, s) by {
            assert(w[k].0 == z[k].0 && w[k].0 == v[k].0);
            let n = v[k].0;
            assert(distinct(v)) by { assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).0 != (#[trigger] v[j]).0 by { assert(w[i].0 == v[i].0 && w[j].0 == v[j].0); assert(z[i].0 != z[j].0); } }
            lemma_entry(v, k);
            if entry(l0.progress.vector@, n) is Some { assert(ready(entry(l0.progress.vector@, n)->0, s)); }
        }
    }
}
pub open spec fn appended_by(l0: Leader, l: Leader, s0: RaftState, s: RaftState, x: Seq<Command>, y: Seq<Command>, c: EngineConfig, o: Seq<Entry>) -> bool {
    exists|es: Vec<Entry>, s1: RaftState| #[trigger] appended_with(l0, l, s0, s, x, y, c, o, es, s1)
}
pub open spec fn appended_with(l0: Leader, l: Leader, s0: RaftState, s: RaftState, x: Seq<Command>, y: Seq<Command>, c: EngineConfig, o: Seq<Entry>, es: Vec<Entry>, s1: RaftState) -> bool {
    let l1 = Leader { last_log_id: Some(es@.last().log_id), ..l0 };
    assigned(l0, o, es@) && proposed(s0, s1, l1, es@)
    && replicated(l1, l, s1, s, x.push(Command::AppendInputEntries { committed_vote: l0.committed_vote, entries: es }), y, c, last_mem(es@))
}
