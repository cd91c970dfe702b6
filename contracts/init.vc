//@module init
//@deps election
//@source openraft/src/engine/engine_impl.rs
//@fn Engine::check_initialize
ensures r is Ok == (self.state.last() is None && self.state.v() == (Vote { leader_id: LeaderId { term: 0, node_id: 0 }, committed: false })),
  r is Err ==> r->Err_0 == (NotAllowed { last_log_id: self.state.last(), vote: self.state.v() }),
//@fn Engine::check_members_contain_me
ensures r is Ok == mvoters(*m).contains(self.config.id),
  r is Err ==> (r->Err_0).node_id == self.config.id,
//@raw
/// neither voted nor logged
pub open spec fn free(s: RaftState) -> bool { s.last() is None && s.v() == (Vote { leader_id: LeaderId { term: 0, node_id: 0 }, committed: false }) }
pub open spec fn first_entry(e: Entry) -> Entry { Entry { log_id: LogId { leader_id: LeaderId { term: 0, node_id: 0 }, index: 0 }, ..e } }
/// The first log of a cluster is written, as that of no leader, and the node starts to elect.
pub open spec fn initialized(a: Engine, m: Engine, b: Engine, e: Entry, t: Leased) -> bool {
    let v = Vote { leader_id: LeaderId { term: 0, node_id: 0 }, committed: true };
    &&& t.data == v && t.lease.ns == 0
    &&& m == (Engine { state: m.state, output: m.output, ..a })
    &&& logged(RaftState { vote: t, ..a.state }, m.state, seq![first_entry(e)], a.config.id)
    &&& append_cmd(a.output.cmds(), m.output.cmds(), CommittedVote { vote: v }, seq![first_entry(e)])
    &&& campaigns(m, b, Vote { leader_id: LeaderId { term: 1, node_id: a.config.id }, committed: false })
}
//@fn Engine::initialize | shim
//@attrs #[verifier::rlimit(60)]
//@argty entry => Entry
//@rewrite `self.check_initialize()?` => `match self.check_initialize() { Ok(vx_v) => vx_v, Err(vx_e) => return Err(InitializeError::NotAllowed(vx_e)) }`
//@rewrite `self.check_members_contain_me(m)?` => `match self.check_members_contain_me(m) { Ok(vx_v) => vx_v, Err(vx_e) => return Err(InitializeError::NotInMembers(vx_e)) }`
requires node_ok(*old(self)), entry.payload.mem() is Some, free(old(self).state) ==> old(self).leader is None && old(self).candidate is None,
  forall|x: u64| #[trigger] mvoters(entry.payload.mem()->0).contains(x) ==> (entry.payload.mem()->0).nodes@.contains_key(x),
  old(self).state.last() is None ==> old(self).state.membership_state.effective.lid() is None,
ensures
  // only a node that has neither voted nor logged
  !free(old(self).state) ==> r is Err && r->Err_0 is NotAllowed,
  free(old(self).state) ==> (if mvoters(entry.payload.mem()->0).contains(old(self).config.id) { r is Ok } else { r is Err && r->Err_0 is NotInMembers }),
  r is Err ==> *final(self) == *old(self),
  r is Ok ==> exists|m: Engine, t: Leased| #[trigger] initialized(*old(self), m, *final(self), entry, t),
//@proof before `self.following_handler`
let ghost vx_a = *self;
let ghost vx_f = first_entry(entry0);
proof { assert(entry == vx_f); assert forall|es: Seq<Entry>| (#[trigger] es.len()) == 1 && es[0] == vx_f implies es == seq![vx_f] by { assert(es =~= seq![vx_f]); } }
//@proof before `self.elect`
let ghost vx_m = *self;
proof {
  assert(vx_a.state.vote.data.committed);
  assert(mems(seq![first_entry(entry0)]) =~= seq![(first_entry(entry0).log_id, entry0.payload.mem()->0)]) by { reveal_with_fuel(mems, 3); }
  assert(vx_m.state.last() == Some(first_entry(entry0).log_id));
  let vx_s = vx_m.state;
  assert(vx_s.log_wf());
  assert(vx_s.at(0) is Some);
  assert(vx_s.committed is None);
  assert(vx_s.ordered());
  assert(knows_voters(vx_s));
  assert(pos_le(vx_s.membership_state.effective.lid(), vx_s.last()));
  assert(vx_s.io_state.io_progress.accepted is Some ==> vote_le(vx_s.io_state.io_progress.accepted->0.vote_v(), vx_s.v()));
  assert(node_ok(vx_m));
}
//@proof start
let ghost entry0 = entry;
//@proof after `self.elect`
proof { let vx_v = Vote { leader_id: LeaderId { term: 0, node_id: 0 }, committed: true };
  assert(logged(RaftState { vote: vx_a.state.vote, ..old(self).state }, vx_m.state, seq![first_entry(entry0)], self.config.id));
  assert(append_cmd(old(self).output.cmds(), vx_m.output.cmds(), CommittedVote { vote: vx_v }, seq![first_entry(entry0)]));
 assert(initialized(*old(self), vx_m, *self, entry0, vx_a.state.vote)); }

