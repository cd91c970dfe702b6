//@module read
//@deps raft_core
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq};
//@source openraft/src/error.rs
//@type QuorumNotEnough
//@type CheckIsLeaderError
//@raw
// `#[from]` of thiserror: the variant is made from its payload
impl vstd::std_specs::convert::FromSpecImpl<ForwardToLeader> for CheckIsLeaderError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ForwardToLeader) -> CheckIsLeaderError { CheckIsLeaderError::ForwardToLeader(v) } }
impl From<ForwardToLeader> for CheckIsLeaderError { fn from(v: ForwardToLeader) -> CheckIsLeaderError { CheckIsLeaderError::ForwardToLeader(v) } }
impl vstd::std_specs::convert::FromSpecImpl<QuorumNotEnough> for CheckIsLeaderError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: QuorumNotEnough) -> CheckIsLeaderError { CheckIsLeaderError::QuorumNotEnough(v) } }
impl From<QuorumNotEnough> for CheckIsLeaderError { fn from(v: QuorumNotEnough) -> CheckIsLeaderError { CheckIsLeaderError::QuorumNotEnough(v) } }
/// A node answered a request of this node's.
pub uninterp spec fn answered_to(x: u64, q: AppendEntriesRequest, a: AppendEntriesResponse) -> bool;
pub open spec fn answers(x: u64, v: Vote, a: AppendEntriesResponse) -> bool { exists|q: AppendEntriesRequest| q.vote == v && #[trigger] answered_to(x, q, a) && (a is HigherVote ==> vote_lt(v, a->HigherVote_0)) }
/// A node took a request of the leader with the vote `v`: it had not seen a greater vote.
pub open spec fn acknowledges(x: u64, v: Vote) -> bool { exists|a: AppendEntriesResponse| #[trigger] answers(x, v, a) && !(a is HigherVote) }
/// The leader with the vote `v` was the leader, for a quorum, after it was asked.
pub open spec fn confirmed(m: EffectiveMembership, id: u64, v: Vote, g: Set<u64>) -> bool { m.qs_quorum(g) && forall|x: u64| #[trigger] g.contains(x) ==> x == id || acknowledges(x, v) }
/// Whoever asks for a linearizable read, and what it may be told.
#[verifier::external_body]
pub struct ReadTx { _p: u8 }
impl ReadTx {
    pub uninterp spec fn may(&self, r: (Option<LogId>, Option<LogId>)) -> bool;
    #[verifier::external_body]
    pub fn send(self, r: Result<(Option<LogId>, Option<LogId>), CheckIsLeaderError>) -> (x: Result<(), VxOpaque>) requires r is Ok ==> self.may(r->Ok_0) { unimplemented!() }
}
#[verifier::external_body]
pub struct RPCOption { _p: u8 }
impl RPCOption {
    #[verifier::external_body]
    pub fn new(d: Duration) -> RPCOption { unimplemented!() }
}
#[verifier::external_body]
pub struct Client { _p: u8 }
impl Client {
    pub uninterp spec fn target(&self) -> u64;
    #[verifier::external_body]
    pub fn append_entries(&mut self, q: AppendEntriesRequest, o: RPCOption) -> (r: Result<AppendEntriesResponse, VxOpaque>)
        ensures r is Ok ==> answers(old(self).target(), q.vote, r->Ok_0) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_client(x: u64, n: &Node) -> (r: Client) ensures r.target() == x { unimplemented!() }
#[verifier::external_body]
pub fn vx_net_err() -> VxOpaque { unimplemented!() }
#[verifier::external_body]
pub fn vx_string() -> String { unimplemented!() }
/// an answer that comes too late is no answer
#[verifier::external_body]
pub fn vx_timeout(d: Duration, r: Result<AppendEntriesResponse, VxOpaque>) -> (x: Result<Result<AppendEntriesResponse, VxOpaque>, ()>) ensures x is Ok ==> x->Ok_0 == r { unimplemented!() }
pub type Asked = Result<Result<(u64, AppendEntriesResponse), (u64, VxOpaque)>, (u64, VxOpaque)>;
/// a task gives what its body gives, unless it panics
#[verifier::external_body]
pub fn vx_join(r: Result<(u64, AppendEntriesResponse), (u64, VxOpaque)>) -> (x: Asked) ensures x is Ok ==> x->Ok_0 == r { unimplemented!() }
/// the tasks that are not over yet, in no order
#[verifier::external_body]
pub struct Pending { _p: u8 }
impl Pending {
    pub uninterp spec fn tasks(&self) -> Set<Asked>;
    #[verifier::external_body]
    pub fn new() -> (r: Pending) ensures r.tasks() == Set::<Asked>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, t: Asked) ensures final(self).tasks() == old(self).tasks().insert(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Asked>) ensures r is Some ==> old(self).tasks().contains(r->0), final(self).tasks().subset_of(old(self).tasks()) { unimplemented!() }
}
/// the voters a leader keeps track of
#[verifier::external_body]
pub fn vx_voters_of(p: &VecProgress<ProgressEntry, Option<LogId>>) -> (r: Vec<&(u64, ProgressEntry)>)
    ensures forall|i: int| 0 <= i < r@.len() ==> p.quorum_set.qs_ids().contains((#[trigger] r@[i]).0) && p.vector@.contains(*r@[i]), { unimplemented!() }
pub open spec fn gave(s: Set<Asked>, v: Vote) -> bool { forall|t: Asked| #[trigger] s.contains(t) && t is Ok && t->Ok_0 is Ok ==> answers((t->Ok_0->Ok_0).0, v, (t->Ok_0->Ok_0).1) }
//@raw
pub broadcast proof fn lemma_listed(v: Seq<&u64>, s: Set<u64>)
    requires #[trigger] lists_set(unref(v), s),
    ensures ids_of(v) == s,
{ assert(ids_of(v) =~= s) by { assert forall|k: u64| s.contains(k) implies ids_of(v).contains(k) by {} assert forall|k: u64| ids_of(v).contains(k) implies s.contains(k) by {} } }
//@raw
pub open spec fn can_confirm(a: RaftCore, tx: ReadTx) -> bool {
  let e = a.engine; let m = *e.state.membership_state.effective;
     &&& m.wf() && a.config.heartbeat_interval * 1_000_000 <= u64::MAX
     // the nodes a leader keeps track of are those of the membership in effect
     &&& e.leader is Some ==> forall|x: u64| #[trigger] e.leader->0.progress.quorum_set.qs_ids().contains(x) ==> e.state.mem().nodes@.contains_key(x)
     // a read may be served from the position of the leader, once a quorum confirmed that it is the leader
     &&& forall|r: (Option<LogId>, Option<LogId>), g: Set<u64>| e.leader is Some && vote_le(e.state.v(), e.leader->0.committed_vote.vote) && #[trigger] confirmed(m, a.id, e.state.v(), g)
            && r == (omax(e.leader->0.noop_log_id, e.state.committed), e.state.io_state.applied) ==> #[trigger] tx.may(r) 
}
//@source openraft/src/core/raft_core.rs
//@fn RaftCore::handle_check_is_leader_request | shim trymatch inline_async
//@attrs #[verifier::exec_allows_no_decreases_clause]
//@argty tx => ReadTx
//@rewrite `FuturesUnordered::new()` => `Pending::new()`
//@rewrite `&self.engine.leader.as_ref().unwrap()` => `self.engine.leader.as_ref().unwrap()`
//@rewrite `l.progress.iter().filter(|(id, _v)| l.progress.is_voter(id) == Some(true))` => `vx_voters_of(&l.progress)`
//@rewrite `self.network_factory.new_client(target, &target_node)` => `vx_client(target, &target_node)`
//@rewrite `C::timeout(ttl, client.append_entries(rpc, option))` => `vx_timeout(ttl, client.append_entries(rpc, option))`
//@rewrite `Timeout { action: RPCTypes::AppendEntries, id: my_id, target, timeout: ttl, }` => `()`
//@rewrite `RPCError::Timeout(timeout_err)` => `vx_net_err()`
//@rewrite `fu.instrument(tracing::debug_span!("spawn_is_leader", target = target.to_string()))` => `fu`
//@rewrite `C::spawn(fu).map_err(move |err| (target, err))` => `vx_join(fu)`
//@rewrite `C::spawn(waiting_fu.instrument(tracing::debug_span!("spawn_is_leader_waiting")))` => `()`
//@rewrite `eff_mem.membership().to_string()` => `vx_string()`
requires can_confirm(*old(self), tx),
ensures *final(self) == (RaftCore { tx_notification: final(self).tx_notification, ..*old(self) }),
//@proof after `let eff_mem`
let ghost vx_e = old(self).engine; broadcast use lemma_listed;
//@proof before `if eff_mem.is_quorum(granted.iter())`
proof { assert(resp == (omax(vx_e.leader->0.noop_log_id, vx_e.state.committed), vx_e.state.io_state.applied)); if eff_mem.qs_quorum(granted@) { assert(confirmed(*eff_mem, my_id, my_vote, granted@)); assert(tx.may(resp)); } }
//@loop 0 iter=it
invariant
  it.seq().len() == voter_progresses@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]) == voter_progresses@[i],
  ttl.ns == old(self).config.heartbeat_interval * 1_000_000,
  forall|i: int| 0 <= i < voter_progresses@.len() ==> eff_mem.mem().nodes@.contains_key((#[trigger] voter_progresses@[i]).0),
  gave(pending.tasks(), my_vote),
  *self == (RaftCore { tx_notification: self.tx_notification, ..*old(self) }),
//@loop 1
invariant
  gave(pending.tasks(), my_vote), forall|x: u64| #[trigger] granted@.contains(x) ==> x == my_id || acknowledges(x, my_vote),
  eff_mem.wf(),
  forall|g: Set<u64>| #[trigger] confirmed(*eff_mem, my_id, my_vote, g) ==> tx.may(resp),
  *self == (RaftCore { tx_notification: self.tx_notification, ..*old(self) }),
//@loop 1 start
let ghost vx_g = granted@; broadcast use lemma_listed;
//@proof after `granted.insert(target);`
proof { assert(granted@ =~= vx_g.insert(target)); assert(acknowledges(target, my_vote)); if eff_mem.qs_quorum(granted@) { assert(confirmed(*eff_mem, my_id, my_vote, granted@)); assert(tx.may(resp)); } }
