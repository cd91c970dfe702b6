//@module vote_handler
//@deps leader_handler following
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq};
//@source openraft/src/engine/handler/vote_handler/mod.rs
//@type VoteHandler
//@raw
#[verifier::prophetic]
pub open spec fn vh_keep(a: VoteHandler, b: VoteHandler) -> bool {
    *final(b.state) == *final(a.state) && *final(b.output) == *final(a.output) && *final(b.config) == *final(a.config) && *final(b.leader) == *final(a.leader) && *final(b.candidate) == *final(a.candidate) && *b.config == *a.config
}
/// the leader a node holds, reachable through the box
pub fn vx_leader_of<'a>(l: &'a mut Option<Box<Leader>>) -> (r: &'a mut Leader)
    requires *old(l) is Some,
    ensures *r == *(*old(l))->0, *final(l) == Some(Box::new(*final(r))),
{ match l { Some(b) => &mut **b, None => { assert(false); vx_unreachable() } } }
#[verifier::external_body]
pub fn vx_unreachable<T>() -> T requires false { unimplemented!() }
//@fn VoteHandler::server_state_handler
ensures *r.state == *old(self).state, *r.config == *old(self).config,
  *final(final(self).state) == *final(old(self).state), *final(final(self).output) == *final(old(self).output), *final(final(self).config) == *final(old(self).config), *final(final(self).leader) == *final(old(self).leader), *final(final(self).candidate) == *final(old(self).candidate),
  *final(self).state == *final(r.state), *final(self).config == *old(self).config, *final(self).output == *old(self).output, *final(self).leader == *old(self).leader, *final(self).candidate == *old(self).candidate,
//@fn VoteHandler::replication_handler
//@rewrite `self.leader.as_mut().unwrap()` => `vx_leader_of(self.leader)`
requires *old(self).leader is Some,
ensures *r.config == *old(self).config, *r.state == *old(self).state, *r.output == *old(self).output, *r.leader == *(*old(self).leader)->0,
  *final(final(self).state) == *final(old(self).state), *final(final(self).output) == *final(old(self).output), *final(final(self).config) == *final(old(self).config), *final(final(self).leader) == *final(old(self).leader), *final(final(self).candidate) == *final(old(self).candidate),
  *final(self).state == *final(r.state), *final(self).output == *final(r.output), *final(self).config == *final(r.config), *final(self).leader == Some(Box::new(*final(r.leader))), *final(self).candidate == *old(self).candidate,
//@fn VoteHandler::leader_handler
//@rewrite `self.leader.as_mut().unwrap()` => `vx_leader_of(self.leader)`
requires *old(self).leader is Some,
ensures *r.config == *old(self).config, *r.state == *old(self).state, *r.output == *old(self).output, *r.leader == *(*old(self).leader)->0,
  *final(final(self).state) == *final(old(self).state), *final(final(self).output) == *final(old(self).output), *final(final(self).config) == *final(old(self).config), *final(final(self).leader) == *final(old(self).leader), *final(final(self).candidate) == *final(old(self).candidate),
  *final(self).state == *final(r.state), *final(self).output == *final(r.output), *final(self).config == *final(r.config), *final(self).leader == Some(Box::new(*final(r.leader))), *final(self).candidate == *old(self).candidate,
//@raw
/// every voter is known as a node
pub open spec fn knows_voters(s: RaftState) -> bool { forall|x: u64| #[trigger] mvoters(s.mem()).contains(x) ==> s.mem().nodes@.contains_key(x) }
//@fn VoteHandler::become_following
requires old(self).state.v().leader_id.node_id != old(self).config.id || !mvoters(old(self).state.mem()).contains(old(self).config.id),
ensures vh_keep(*old(self), *final(self)), *final(self).leader is None, *final(self).candidate is None, *final(self).output == *old(self).output,
  *final(self).state == role_state(*old(self).state, old(self).config.id),
//@raw
/// what a node leads with goes with its state
pub open spec fn leads_with(l: Leader, s: RaftState, id: u64) -> bool {
    l.wf() && l.transfer_to is None && l.last_log_id == s.last() && ready_nodes(l.progress.vector@, id, s)
}
/// a state in which leadership can be taken over
pub open spec fn can_lead(s: RaftState) -> bool {
    &&& s.ordered() && next_idx(s.last()) + 1 < u64::MAX
    &&& s.last() is Some ==> leader_le(s.last()->0.leader_id, s.v().leader_id)
    &&& s.io_state.io_progress.accepted is Some ==> vote_le(s.io_state.io_progress.accepted->0.vote_v(), s.v())
    &&& pos_le(s.membership_state.effective.lid(), s.last())
}
/// `s` accepts to have the logs up to its last one as those of the leader `v`
pub open spec fn reaccept(s: RaftState, v: CommittedVote, t: RaftState) -> bool {
    t == accept(s, IOId::Log(LogIOId { committed_vote: v, log_id: s.last() }))
}
/// one blank entry
pub open spec fn blank(es: Seq<Entry>) -> bool { es.len() == 1 && es[0].payload is Blank }
/// A node takes over as a leader: it accepts its own logs, restarts replication, and proposes a blank log unless it
/// has proposed already.
pub open spec fn takes_over(s0: RaftState, s: RaftState, l: Leader, x: Seq<Command>, y: Seq<Command>, c: EngineConfig, l0: Leader, l1: Leader, x2: Seq<Command>) -> bool {
    let s1 = role_state(accept(s0, IOId::Log(LogIOId { committed_vote: l0.committed_vote, log_id: s0.last() })), c.id);
    let u = Command::UpdateIOProgress { when: None, io_id: IOId::Log(LogIOId { committed_vote: l0.committed_vote, log_id: s0.last() }) };
    &&& l0.wf() && leads_from(l0, s0)
    &&& l1 == (Leader { progress: l1.progress, ..l0 }) && all_reset(l0.progress.vector@, l1.progress.vector@, c.id)
    &&& adds_rebuild(x.push(u), x2, targets_of(l0.progress.vector@, c.id))
    &&& if olog_lt(s0.last(), l0.noop_log_id) { exists|es: Seq<Entry>| blank(es) && #[trigger] appended_by(l1, l, s1, s, x2, y, c, es) }
        else { s == s1 && l == (Leader { progress: l.progress, ..l1 }) && all_sent(l1.progress.vector@, l.progress.vector@, c.id, s, c.max_payload_entries) && y == x2 + sends_of(l1.progress.vector@, l.progress.vector@, c.id) }
}
pub proof fn lemma_taken_over(l0: Leader, l1: Leader, s: RaftState, id: u64)
    requires s.ordered(), l0.wf(), l1.wf(), all_reset(l0.progress.vector@, l1.progress.vector@, id),
      forall|x: u64| #[trigger] l0.progress.of(x) is Some ==> l0.progress.of(x)->0 == fresh_entry(s.last()),
      next_idx(s.last()) < u64::MAX,
    ensures ready_nodes(l1.progress.vector@, id, s), all_ready(l1.progress.vector@, id, s),
{
    let v = l0.progress.vector@; let w = l1.progress.vector@;
    assert forall|k: int| 0 <= k < w.len() implies (#[trigger] w[k]).1 == fresh_entry(s.last()) by {
        lemma_entry(v, k); lemma_entry(w, k);
        assert(w[k] == reset_entry(v[k], id));
        assert(l0.progress.of(v[k].0) is Some);
    }
    assert(ready(fresh_entry(s.last()), s));
    assert forall|x: u64| x != id && #[trigger] entry(w, x) is Some implies ready(entry(w, x)->0, s) by {
        let k = choose|k: int| 0 <= k < w.len() && (#[trigger] w[k]).0 == x;
        lemma_entry(w, k);
        assert(w[k].1 == fresh_entry(s.last()));
    }
}
pub open spec fn led(a: RaftState, b: RaftState, l: Option<Box<Leader>>, m: Option<Box<Leader>>, x: Seq<Command>, y: Seq<Command>, c: EngineConfig) -> bool {
    m is Some && match l {
        // the same leader goes on
        Some(l) if l.committed_vote.vote.leader_id == a.v().leader_id => y == x && b == role_state(a, c.id)
            && *m->0 == (Leader { committed_vote: CommittedVote { vote: Vote { leader_id: a.v().leader_id, committed: true } }, ..*l }),
        _ => exists|l0: Leader, l1: Leader, x2: Seq<Command>| #[trigger] takes_over(a, b, *m->0, x, y, c, l0, l1, x2),
    }
}
//@fn VoteHandler::become_leader | shim
requires old(self).state.leader(old(self).config.id), can_lead(*old(self).state),
ensures vh_keep(*old(self), *final(self)), *final(self).candidate == *old(self).candidate, *final(self).leader is Some,
  led(*old(self).state, *final(self).state, *old(self).leader, *final(self).leader, old(self).output.cmds(), final(self).output.cmds(), *old(self).config),
//@proof after `let leader_vote`
let ghost vx_l0 = leader; let ghost vx_s0 = *self.state;
//@proof before `let mut rh`
let ghost vx_s1 = *self.state; let ghost vx_x1 = self.output.cmds(); let ghost vx_lb = *(*self.leader)->0;
//@proof before `if last_log_id`
let ghost vx_l1 = *(*self.leader)->0; let ghost vx_x2 = self.output.cmds();
proof {
  assert(vx_s1.ordered());
  lemma_taken_over(vx_l0, vx_l1, vx_s1, self.config.id);
}
//@proof end
proof {
  assert(takes_over(*old(self).state, *self.state, *(*self.leader)->0, old(self).output.cmds(), self.output.cmds(), *old(self).config, vx_l0, vx_l1, vx_x2));
}
//@raw
/// The role follows from the vote: the node leads, goes on as a candidate, or follows.
pub open spec fn acts(a: RaftState, b: RaftState, l: Option<Box<Leader>>, m: Option<Box<Leader>>, n: Option<Candidate>, o: Option<Candidate>, x: Seq<Command>, y: Seq<Command>, c: EngineConfig) -> bool {
    if a.leader(c.id) { o == n && led(a, b, l, m, x, y, c) }
    else if a.leading(c.id) { b == a && m == l && o == n && y == x }
    else { m is None && o is None && y == x && b == role_state(a, c.id) }
}
//@fn VoteHandler::update_internal_server_state
requires knows_voters(*old(self).state), old(self).state.leader(old(self).config.id) ==> can_lead(*old(self).state),
ensures vh_keep(*old(self), *final(self)), acts(*old(self).state, *final(self).state, *old(self).leader, *final(self).leader, *old(self).candidate, *final(self).candidate, old(self).output.cmds(), final(self).output.cmds(), *old(self).config),
//@raw
/// A vote at least as great is taken: a greater one is to be saved, and the lease is that of its leader.
pub open spec fn voted(a: RaftState, b: RaftState, x: Seq<Command>, y: Seq<Command>, v: Vote, c: EngineConfig) -> bool {
    let len = if v.committed { c.timer_config.leader_lease } else { Duration { ns: 0 } };
    &&& b.v() == v && b.vote.last_update is Some && (a.mono_time() ==> oinst(a.vote.last_update) <= oinst(b.vote.last_update))
    &&& if vote_lt(a.v(), v) {
            &&& b.vote.lease == len && b.vote.lease_enabled
            &&& exists|io: IOId| io.wf() && io.vote_v() == v && io.log_v() is None && b == (RaftState { vote: b.vote, ..#[trigger] accept(a, io) })
            &&& y == x.push(Command::SaveVote { vote: v })
        } else {
            &&& b.vote.lease_enabled == a.vote.lease_enabled && b.vote.lease == (if a.vote.lease_enabled { len } else { a.vote.lease })
            &&& b == (RaftState { vote: b.vote, ..a }) && y == x
        }
}
/// a state whose vote may become `v`
pub open spec fn can_vote(s: RaftState, v: Vote, id: u64) -> bool {
    &&& knows_voters(s) && (vote_le(s.v(), v) && !vote_lt(s.v(), v) ==> s.mono_time())
    &&& s.io_state.io_progress.accepted is Some ==> vote_le(s.io_state.io_progress.accepted->0.vote_v(), s.v())
    &&& v.committed && v.leader_id.node_id == id && vote_le(s.v(), v) ==> s.ordered() && next_idx(s.last()) + 1 < u64::MAX && pos_le(s.membership_state.effective.lid(), s.last())
          && (s.last() is Some ==> leader_le(s.last()->0.leader_id, v.leader_id))
}
pub open spec fn takes_vote(a: RaftState, b: RaftState, l: Option<Box<Leader>>, m: Option<Box<Leader>>, n: Option<Candidate>, o: Option<Candidate>, x: Seq<Command>, y: Seq<Command>, c: EngineConfig, v: Vote, s: RaftState, z: Seq<Command>) -> bool {
    voted(a, s, x, z, v, c) && acts(s, b, l, m, n, o, z, y, c)
}
impl RaftState { pub open spec fn mono_time(&self) -> bool { oinst(self.vote.last_update) <= clock_floor().ns } }
//@fn VoteHandler::update_vote
requires can_vote(*old(self).state, *vote, old(self).config.id),
ensures vh_keep(*old(self), *final(self)),
  r is Ok == vote_le(old(self).state.v(), *vote),
  // a vote that is less changes nothing
  r is Err ==> r->Err_0 == RejectVoteRequest::ByVote(old(self).state.v()) && *final(self).state == *old(self).state && *final(self).output == *old(self).output && *final(self).leader == *old(self).leader && *final(self).candidate == *old(self).candidate,
  r is Ok ==> exists|s: RaftState, z: Seq<Command>| #[trigger] takes_vote(*old(self).state, *final(self).state, *old(self).leader, *final(self).leader, *old(self).candidate, *final(self).candidate, old(self).output.cmds(), final(self).output.cmds(), *old(self).config, *vote, s, z),
//@proof before `self.update_internal_server_state`
let ghost vx_s = *self.state; let ghost vx_z = self.output.cmds();
proof {
  let vx_a = *old(self).state;
  assert(vx_s.membership_state == vx_a.membership_state);
  assert(vx_s.mem() == vx_a.mem()); assert(knows_voters(vx_a));
  assert(knows_voters(vx_s)) by { assert forall|x: u64| #[trigger] mvoters(vx_s.mem()).contains(x) implies vx_s.mem().nodes@.contains_key(x) by { assert(mvoters(vx_a.mem()).contains(x)); } }
  if vote_lt(vx_a.v(), *vote) {
    let vx_i = vx_s.io_state.io_progress.accepted->0;
    assert(vx_i.wf() && vx_i.vote_v() == *vote && vx_i.log_v() is None);
    assert(vx_s == (RaftState { vote: vx_s.vote, ..accept(vx_a, vx_i) }));
  }
  assert(voted(*old(self).state, vx_s, old(self).output.cmds(), vx_z, *vote, *self.config)); }
//@proof after `self.update_internal_server_state`
proof { assert(takes_vote(*old(self).state, *self.state, *old(self).leader, *self.leader, *old(self).candidate, *self.candidate, old(self).output.cmds(), self.output.cmds(), *old(self).config, *vote, vx_s, vx_z)); }
