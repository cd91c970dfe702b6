//@module election
//@deps engine
//@source openraft/src/raft/message/vote.rs
//@fn VoteResponse::new
//@argty vote => &Vote
//@rewrite `*vote.borrow()` => `*vote`
//@rewrite `last_log_id.map(|x| *x.borrow())` => `last_log_id`
ensures r == (VoteResponse { vote: *vote, vote_granted: granted, last_log_id }),
//@source openraft/src/engine/engine_impl.rs
//@raw
pub fn vx_some_mut<'a, T>(l: &'a mut Option<T>) -> (r: &'a mut T)
    requires *old(l) is Some,
    ensures *r == (*old(l))->0, *final(l) == Some(*final(r)),
{ match l { Some(b) => b, None => { assert(false); vx_unreachable() } } }
/// A candidate for `vote`, of the log and the membership of `s`, that nobody has granted yet.
pub open spec fn fresh_candidate(c: Candidate, s: RaftState, vote: Vote) -> bool {
    &&& c.wf() && c.vote == vote && c.last_log_id == s.last() && c.granted() =~= Set::empty() && candidate_of(c, s)
}
/// the voters of the membership in effect decide
pub open spec fn candidate_of(c: Candidate, s: RaftState) -> bool {
    &&& vviews(c.quorum_set.data@) == mv(s.mem()).cfgs
    &&& c.learner_ids@.to_set() == s.mem().nodes@.dom().difference(mvoters(s.mem()))
    &&& forall|x: u64| mvoters(s.mem()).contains(x) == (#[trigger] c.progress.of(x) is Some)
}
//@fn Engine::new_candidate | shim
//@rewrite `self.candidate.as_mut().unwrap()` => `vx_some_mut(&mut self.candidate)`
requires old(self).state.log_wf(), old(self).state.last() is Some ==> leader_le(old(self).state.last()->0.leader_id, vote.leader_id) && old(self).state.last()->0.index < u64::MAX,
ensures fresh_candidate(*r, old(self).state, vote), *final(self) == (Engine { candidate: Some(*final(r)), ..*old(self) }),
//@proof start
proof { lemma_learners(self.state.mem()); }
//@source openraft/src/engine/handler/establish_handler/mod.rs
//@fn EstablishHandler::establish | shim
//@rewrite `self.leader.as_mut().map(|x| x.as_mut())` => `Some(vx_leader_of(self.leader))`
requires candidate.wf(), !candidate.vote.committed, candidate.vote.leader_id.node_id == old(self.config).id,
ensures *final(self.config) == *old(self.config),
  // never replaces a leader of the same or a greater vote
  r is Some == (*old(self.leader) is None || vote_lt((*old(self.leader))->0.committed_vote.vote, candidate.vote)),
  r is None ==> *final(self.leader) == *old(self.leader),
  r is Some ==> *final(self.leader) == Some(Box::new(*final(r->0))) && (*(r->0)).wf() && elected(*(r->0), candidate),
//@source openraft/src/engine/engine_impl.rs
//@raw
/// the leader that a candidate becomes: its own vote, committed; its log; its voters
pub open spec fn elected(l: Leader, c: Candidate) -> bool { new_leader(l, CommittedVote { vote: Vote { leader_id: c.vote.leader_id, committed: true } }, c.quorum_set, c.learner_ids@.to_set(), c.last_log_id, c.last_log_id) }
//@raw
pub open spec fn etakes(a: Engine, b: Engine, v: Vote) -> bool {
    &&& b.config == a.config && b.seen_greater_log == a.seen_greater_log
    &&& exists|s: RaftState, z: Seq<Command>| #[trigger] takes_vote(a.state, b.state, a.leader, b.leader, a.candidate, b.candidate, a.output.cmds(), b.output.cmds(), a.config, v, s, z)
}
/// What holds of a node between two steps.
pub open spec fn node_ok(e: Engine) -> bool {
    &&& e.state.ordered() && knows_voters(e.state)
    &&& e.state.io_state.io_progress.accepted is Some ==> vote_le(e.state.io_state.io_progress.accepted->0.vote_v(), e.state.v())
    &&& pos_le(e.state.membership_state.effective.lid(), e.state.last())
    &&& e.state.last() is Some ==> leader_le(e.state.last()->0.leader_id, e.state.v().leader_id)
    // a candidate is one for the node's own vote, its log, and the membership in effect
    &&& e.candidate is Some ==> e.candidate->0.wf() && e.candidate->0.vote == e.state.v() && !e.state.v().committed && e.state.v().leader_id.node_id == e.config.id
          && e.candidate->0.last_log_id == e.state.last() && candidate_of(e.candidate->0, e.state)
          && e.state.mem().nodes@.contains_key(e.config.id)
    &&& e.leader is Some ==> vote_le(e.leader->0.committed_vote.vote, e.state.v())
    &&& e.leader is Some && e.candidate is Some ==> vote_lt(e.leader->0.committed_vote.vote, e.state.v())
}
pub open spec fn room(e: Engine) -> bool { next_idx(e.state.last()) + 2 < u64::MAX && e.state.v().leader_id.term < u64::MAX - 1 }
//@fn Engine::elect | shim
//@attrs #[verifier::rlimit(40)]
requires node_ok(*old(self)), room(*old(self)),
ensures ({ let v = Vote { leader_id: LeaderId { term: (old(self).state.v().leader_id.term + 1) as u64, node_id: old(self).config.id }, committed: false };
    campaigns(*old(self), *final(self), v) }),
  node_ok(*final(self)),
//@raw
/// The node votes for itself, saves that vote, and asks the others.
pub open spec fn campaigns(a: Engine, b: Engine, v: Vote) -> bool {
    &&& b.config == a.config && b.seen_greater_log == a.seen_greater_log
    &&& b.output.cmds() == a.output.cmds().push(Command::SaveVote { vote: v }).push(Command::SendVote { vote_req: VoteRequest { vote: v, last_log_id: a.state.last() } })
    &&& exists|s: RaftState| #[trigger] voted(a.state, s, a.output.cmds(), a.output.cmds().push(Command::SaveVote { vote: v }), v, a.config) && b.state == role_state(s, a.config.id)
    &&& if a.state.mem().nodes@.contains_key(a.config.id) { b.leader == a.leader && b.candidate is Some && fresh_candidate(b.candidate->0, b.state, v) }
        else { b.leader is None && b.candidate is None }
}
//@raw
/// a leader's lease has not expired
pub open spec fn leased(s: RaftState, now: Instant) -> bool { s.v().committed && s.vote.last_update is Some && now.ns <= s.vote.last_update->0.ns + s.vote.lease.ns }
/// Granted exactly if no leader holds a lease, the candidate's log is not behind, and its vote is not less.
pub open spec fn grants(s: RaftState, req: VoteRequest, now: Instant) -> bool {
    !leased(s, now) && olog_le(s.last(), req.last_log_id) && vote_le(s.v(), req.vote)
}
//@raw
/// taking another node's vote keeps the node in order
pub proof fn lemma_vote_ok(a: Engine, b: Engine, v: Vote)
    requires node_ok(a), etakes(a, b, v), vote_le(a.state.v(), v), v.leader_id.node_id != a.config.id,
    ensures node_ok(b), b.leader is None, b.candidate is None, b.state.v() == v,
{
    let (s, z) = choose|s: RaftState, z: Seq<Command>| #[trigger] takes_vote(a.state, b.state, a.leader, b.leader, a.candidate, b.candidate, a.output.cmds(), b.output.cmds(), a.config, v, s, z);
    assert(!s.leading(a.config.id) && s.v() == v);
    assert(b.state == role_state(s, a.config.id));
    assert(b.state.membership_state == a.state.membership_state);
    assert(knows_voters(b.state)) by { assert forall|x: u64| #[trigger] mvoters(b.state.mem()).contains(x) implies b.state.mem().nodes@.contains_key(x) by { assert(mvoters(a.state.mem()).contains(x)); } }
    assert(b.state.ordered());
}
//@fn Engine::handle_vote_req | shim
requires node_ok(*old(self)), can_vote(old(self).state, req.vote, old(self).config.id),
ensures
  r.vote == final(self).state.v(), r.last_log_id == final(self).state.last(),
  exists|now: Instant| now.ns >= clock_floor().ns && r.vote_granted == #[trigger] grants(old(self).state, req, now),
  !r.vote_granted ==> *final(self) == *old(self),
  r.vote_granted ==> etakes(*old(self), *final(self), req.vote),
  req.vote.leader_id.node_id != old(self).config.id ==> node_ok(*final(self)),
//@proof return
proof { let vx_g = grants(old(self).state, req, now); }
//@proof after `let res`
proof {
  assert(res is Ok == grants(old(self).state, req, now));
  if res is Ok {
    let (vx_s, vx_z) = choose|s: RaftState, z: Seq<Command>| #[trigger] takes_vote(old(self).state, self.state, old(self).leader, self.leader, old(self).candidate, self.candidate, old(self).output.cmds(), self.output.cmds(), old(self).config, req.vote, s, z);
    assert(takes_vote(old(self).state, self.state, old(self).leader, self.leader, old(self).candidate, self.candidate, old(self).output.cmds(), self.output.cmds(), old(self).config, req.vote, vx_s, vx_z));
    assert(etakes(*old(self), *self, req.vote));
    if req.vote.leader_id.node_id != self.config.id { lemma_vote_ok(*old(self), *self, req.vote); }
  } else { assert(*self == *old(self)); }
}
//@raw
pub fn vx_opt_mut<'a, T>(l: &'a mut Option<T>) -> (r: Option<&'a mut T>)
    ensures match r { Some(x) => *old(l) is Some && *x == (*old(l))->0 && *final(l) == Some(*final(x)), None => *old(l) is None && *final(l) is None },
{ match l { Some(b) => Some(b), None => None } }
/// A candidate that a quorum granted becomes the leader: it saves its vote as committed, restarts replication, accepts
/// its own logs as those of the new leader, and proposes a blank log.
pub open spec fn takes_lead(a: Engine, b: Engine, l0: Leader, l1: Leader, x1: Seq<Command>, s: RaftState, z: Seq<Command>) -> bool {
    let c = a.candidate->0;
    let v = CommittedVote { vote: Vote { leader_id: c.vote.leader_id, committed: true } };
    let s1 = accept(role_state(s, a.config.id), IOId::Log(LogIOId { committed_vote: v, log_id: c.last_log_id }));
    &&& b.config == a.config && b.seen_greater_log == a.seen_greater_log && b.candidate is None && b.leader is Some
    &&& elected(l0, c)
    &&& l1 == (Leader { progress: l1.progress, ..l0 }) && all_reset(l0.progress.vector@, l1.progress.vector@, a.config.id)
    &&& adds_rebuild(a.output.cmds(), x1, targets_of(l0.progress.vector@, a.config.id))
    &&& voted(a.state, s, x1, z, v.vote, a.config)
    &&& exists|es: Seq<Entry>| blank(es) && #[trigger] appended_by(l1, *b.leader->0, s1, b.state, z, b.output.cmds(), a.config, es)
}
pub open spec fn established(a: Engine, b: Engine) -> bool { exists|l0: Leader, l1: Leader, x1: Seq<Command>, s: RaftState, z: Seq<Command>| #[trigger] takes_lead(a, b, l0, l1, x1, s, z) }
//@fn Engine::establish_leader | shim
//@attrs #[verifier::rlimit(60)]
requires node_ok(*old(self)), old(self).candidate is Some, next_idx(old(self).state.last()) + 1 < u64::MAX,
ensures established(*old(self), *final(self)),
//@proof before `let vote`
let ghost vx_c = old(self).candidate->0;
let ghost vx_l0 = *leader;
proof { assert(elected(vx_l0, vx_c)); }
//@proof after `self.replication_handler`
let ghost vx_x1 = self.output.cmds(); let ghost vx_l1 = *self.leader->0;
proof {
  assert(all_reset(vx_l0.progress.vector@, vx_l1.progress.vector@, self.config.id));
  lemma_taken_over(vx_l0, vx_l1, self.state, self.config.id);
}
//@proof after `let _res`
let ghost (vx_s, vx_z) = choose|s: RaftState, z: Seq<Command>| #[trigger] takes_vote(old(self).state, self.state, Some(Box::new(vx_l1)), self.leader, None, self.candidate, vx_x1, self.output.cmds(), old(self).config, vote.vote, s, z);
proof {
  assert(takes_vote(old(self).state, self.state, Some(Box::new(vx_l1)), self.leader, None, self.candidate, vx_x1, self.output.cmds(), old(self).config, vote.vote, vx_s, vx_z));
  assert(*self.leader->0 == vx_l1);
  assert(self.state == role_state(vx_s, self.config.id));
}
//@proof before `self.leader_handler`
let ghost vx_s1 = self.state; let ghost vx_z0 = self.output.cmds();
proof { assert(ready_nodes(vx_l1.progress.vector@, self.config.id, vx_s1)); }
//@proof after `self.leader_handler`
let ghost vx_hl = *vx_t0.leader; let ghost vx_hs = *vx_t0.state; let ghost vx_ho = *vx_t0.output;
proof { assert(*self.leader->0 == vx_hl); assert(self.state == vx_hs); assert(self.output == vx_ho); }
//@proof end
proof {
  let vx_io = IOId::Log(LogIOId { committed_vote: CommittedVote { vote: Vote { leader_id: vx_c.vote.leader_id, committed: true } }, log_id: vx_c.last_log_id });
  assert(vx_s1 == accept(role_state(vx_s, self.config.id), vx_io));
  assert(*self.leader->0 == vx_hl);
  assert(exists|es: Seq<Entry>| blank(es) && #[trigger] appended_by(vx_l1, *self.leader->0, vx_s1, self.state, vx_z, self.output.cmds(), old(self).config, es));
  assert(takes_lead(*old(self), *self, vx_l0, vx_l1, vx_x1, vx_s, vx_z));
}
//@fn Engine::candidate_mut
//@rewrite `self.candidate.as_mut()` => `vx_opt_mut(&mut self.candidate)`
ensures match r { Some(x) => old(self).candidate is Some && *x == old(self).candidate->0 && *final(self) == (Engine { candidate: Some(*final(x)), ..*old(self) }), None => old(self).candidate is None && *final(self) == *old(self) },
//@fn Engine::set_greater_log
ensures *final(self) == (Engine { seen_greater_log: true, ..*old(self) }),
//@fn Engine::reset_greater_log
ensures *final(self) == (Engine { seen_greater_log: false, ..*old(self) }),
//@fn Engine::is_there_greater_log
ensures r == self.seen_greater_log,
//@raw
/// A node's grant is counted; once a quorum of every configuration granted, the candidate becomes the leader.
pub open spec fn counted(a: Engine, b: Engine, target: u64, m: Engine) -> bool {
    let c = a.candidate->0; let d = m.candidate->0;
    &&& m == (Engine { candidate: Some(d), ..a }) && d.wf() && d == (Candidate { progress: d.progress, ..c })
    &&& d.granted() =~= (if c.voters().contains(target) { c.granted().insert(target) } else { c.granted() })
    &&& d.progress.granted ==> c.quorum_set.qs_quorum(d.granted()) || forall|x: u64| #[trigger] c.voters().contains(x) ==> d.granted().contains(x)
    &&& has_voters(c.quorum_set) && c.quorum_set.qs_quorum(d.granted()) ==> d.progress.granted
    &&& if d.progress.granted { established(m, b) } else { b == m }
}
/// A vote response can be handled.
pub open spec fn can_count(a: Engine, target: u64, resp: VoteResponse) -> bool {
    &&& node_ok(a) && next_idx(a.state.last()) + 1 < u64::MAX && can_vote(a.state, resp.vote, a.config.id)
    // only a member the vote was asked of answers
    &&& a.candidate is Some && resp.vote_granted && resp.vote == a.candidate->0.vote ==> a.candidate->0.progress.of(target) is Some
}
/// A grant of the vote this node campaigns with is counted; any other response is looked at for a greater vote or log.
pub open spec fn vote_answered(a: Engine, b: Engine, target: u64, resp: VoteResponse) -> bool {
  match a.candidate {
    // a late answer to a finished or cancelled election
    None => b == a,
    Some(c) => if resp.vote_granted && resp.vote == c.vote { exists|m: Engine| #[trigger] counted(a, b, target, m) }
      else {
        let e = Engine { seen_greater_log: a.seen_greater_log || olog_lt(a.state.last(), resp.last_log_id), ..a };
        if vote_le(a.state.v(), resp.vote) { etakes(e, b, resp.vote) } else { b == e }
      },
  }
}
//@fn Engine::handle_vote_resp | shim
requires can_count(*old(self), target, resp),
ensures vote_answered(*old(self), *final(self), target, resp),
//@proof before `if quorum_granted`
let ghost vx_m = *self;
proof { let vx_c = old(self).candidate->0;
  assert(vx_m.candidate is Some);
  let vx_d = vx_m.candidate->0;
  assert(vx_d == (Candidate { progress: vx_d.progress, ..vx_c }));
  assert(node_ok(vx_m));
  assert(!quorum_granted ==> counted(*old(self), vx_m, target, vx_m)); }
//@proof after `self.establish_leader`
proof { assert(counted(*old(self), *self, target, vx_m)); }
//@proof before `let _ =`
let ghost vx_e = *self;
//@proof end
proof {
  let vx_c = old(self).candidate->0;
  assert(vx_e == (Engine { seen_greater_log: old(self).seen_greater_log || olog_lt(old(self).state.last(), resp.last_log_id), ..*old(self) }));
  assert(!(resp.vote_granted && resp.vote == vx_c.vote));
  if vote_le(old(self).state.v(), resp.vote) { let (vx_s, vx_z) = choose|s: RaftState, z: Seq<Command>| #[trigger] takes_vote(vx_e.state, self.state, vx_e.leader, self.leader, vx_e.candidate, self.candidate, vx_e.output.cmds(), self.output.cmds(), vx_e.config, resp.vote, s, z);
    assert(takes_vote(vx_e.state, self.state, vx_e.leader, self.leader, vx_e.candidate, self.candidate, vx_e.output.cmds(), self.output.cmds(), vx_e.config, resp.vote, vx_s, vx_z));
    assert(etakes(vx_e, *self, resp.vote)); } else { assert(*self == vx_e); }
}
