//@module raft_core
//@deps follow transfer init sm repl apply config engine_ops
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq};
/// a switch of the node, set by the application
#[verifier::external_body]
pub struct Flag { _p: u8 }
impl Flag {
    pub uninterp spec fn on(&self) -> bool;
    #[verifier::external_body]
    pub fn get(&self) -> (r: bool) ensures r == self.on() { unimplemented!() }
}
pub struct RuntimeConfig { pub enable_elect: Flag, pub enable_heartbeat: Flag }
// `derive_more::From` of `Respond`: each variant is made from its payload
impl vstd::std_specs::convert::FromSpecImpl<ValueSender<Result<VoteResponse, Infallible>>> for Respond { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ValueSender<Result<VoteResponse, Infallible>>) -> Respond { Respond::Vote(v) } }
impl From<ValueSender<Result<VoteResponse, Infallible>>> for Respond { fn from(v: ValueSender<Result<VoteResponse, Infallible>>) -> Respond { Respond::Vote(v) } }
impl vstd::std_specs::convert::FromSpecImpl<ValueSender<Result<(), InitializeError>>> for Respond { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ValueSender<Result<(), InitializeError>>) -> Respond { Respond::Initialize(v) } }
impl From<ValueSender<Result<(), InitializeError>>> for Respond { fn from(v: ValueSender<Result<(), InitializeError>>) -> Respond { Respond::Initialize(v) } }
//@source openraft/src/membership/membership.rs
//@fn From<BTreeMap<C::NodeId,C::Node>> for Membership<C>::from | as=Membership rename=from_nodes shim
ensures mvoters(r) =~= b@.dom(), r.nodes@ == b@, r.configs@.len() == 1,
//@proof end
proof { assert(mv(r).cfgs.len() == 1 && mv(r).cfgs[0] =~= b@.dom()); assert forall|x: u64| mvoters(r).contains(x) == b@.dom().contains(x) by { lemma_cfg_ids(mv(r).cfgs, x); if b@.dom().contains(x) { assert(mv(r).cfgs[0].contains(x)); } } }
//@source openraft/src/replication/replication_session_id.rs
//@fn ReplicationSessionId::vote_ref
ensures *r == self.leader_vote.vote,
//@source openraft/src/core/notification.rs
//@type Notification
//@source openraft/src/storage/callback.rs
//@type IOFlushed
//@fn IOFlushed::new
ensures r.notification == notify,
//@source openraft/src/core/heartbeat/event.rs
//@type HeartbeatEvent
//@raw
pub open spec fn heartbeat(now: Instant, session_id: ReplicationSessionId, committed: Option<LogId>) -> HeartbeatEvent { HeartbeatEvent { time: now, session_id, committed } }
//@fn HeartbeatEvent::new
ensures r == heartbeat(time, session_id, committed),
//@source openraft/src/replication/mod.rs
//@type ReplicationHandle drop_fields=join_handle
//@raw
/// What a node asks of its log store, in order.  A write that failed is one too.
pub enum LogOp { Append(Seq<Entry>, Notification), SaveVote(Vote), Purge(LogId), Truncate(LogId), SaveCommitted(Option<LogId>) }
#[verifier::external_body]
pub struct LogStore { _p: u8 }
impl LogStore {
    pub uninterp spec fn ops(&self) -> Seq<LogOp>;
    #[verifier::external_body]
    pub fn append(&mut self, es: Vec<Entry>, cb: IOFlushed) -> (r: Result<(), StorageError>) ensures final(self).ops() == old(self).ops().push(LogOp::Append(es@, cb.notification)) { unimplemented!() }
    #[verifier::external_body]
    pub fn save_vote(&mut self, v: &Vote) -> (r: Result<(), StorageError>) ensures final(self).ops() == old(self).ops().push(LogOp::SaveVote(*v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn purge(&mut self, upto: LogId) -> (r: Result<(), StorageError>) ensures final(self).ops() == old(self).ops().push(LogOp::Purge(upto)) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, since: LogId) -> (r: Result<(), StorageError>) ensures final(self).ops() == old(self).ops().push(LogOp::Truncate(since)) { unimplemented!() }
    #[verifier::external_body]
    pub fn save_committed(&mut self, c: Option<LogId>) -> (r: Result<(), StorageError>) ensures final(self).ops() == old(self).ops().push(LogOp::SaveCommitted(c)) { unimplemented!() }
}
/// the channels to the node itself, to the state machine, to the replications, and to the heartbeats
#[verifier::external_body]
pub struct NotifyTx { _p: u8 }
#[verifier::external_body]
pub struct NotifyWeak { _p: u8 }
#[verifier::external_body]
pub struct NotifyClone { _p: u8 }
impl NotifyClone {
    #[verifier::external_body]
    pub fn send(&self, n: Notification) -> (r: Result<(), VxOpaque>) { unimplemented!() }
}
impl NotifyTx {
    pub uninterp spec fn sent(&self) -> Seq<Notification>;
    #[verifier::external_body]
    pub fn send(&mut self, n: Notification) -> (r: Result<(), VxOpaque>) ensures final(self).sent() == old(self).sent().push(n) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clone(&self) -> NotifyClone { unimplemented!() }
    #[verifier::external_body]
    pub fn downgrade(&self) -> NotifyWeak { unimplemented!() }
}
#[verifier::external_body]
pub struct SmHandle { _p: u8 }
impl SmHandle {
    pub uninterp spec fn sent(&self) -> Seq<sm::Command>;
    #[verifier::external_body]
    pub fn send(&mut self, c: sm::Command) -> (r: Result<(), VxOpaque>) ensures final(self).sent() == old(self).sent().push(c) { unimplemented!() }
}
#[verifier::external_body]
pub struct ReplicateTx { _p: u8 }
impl ReplicateTx {
    #[verifier::external_body]
    pub fn send(&self, c: Replicate) -> (r: Result<(), VxOpaque>) { unimplemented!() }
}
#[verifier::external_body]
pub struct HeartbeatHandle { _p: u8 }
impl HeartbeatHandle {
    pub uninterp spec fn sent(&self) -> Seq<HeartbeatEvent>;
    #[verifier::external_body]
    pub fn broadcast(&mut self, e: HeartbeatEvent) ensures final(self).sent() == old(self).sent().push(e) { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn_workers(&mut self, nodes: Vec<(u64, Node)>) ensures final(self).sent() == old(self).sent() { unimplemented!() }
}
//@source openraft/src/core/raft_core.rs
//@type RaftCore drop_fields=network_factory,tx_api,rx_api,rx_notification,tx_metrics,tx_data_metrics,tx_server_metrics,span
//@raw
/// the vote this node now leads, or campaigns, with
pub open spec fn own_vote(e: Engine, committed: bool) -> Option<Vote> {
    if committed { match e.leader { None => None, Some(l) => Some(l.committed_vote.vote) } } else { match e.candidate { None => None, Some(c) => Some(c.vote) } }
}
//@fn RaftCore::does_vote_match | shim
//@argty msg => &str
ensures r == (own_vote(self.engine, sender_vote.committed) == Some(*sender_vote)),
//@fn RaftCore::does_replication_session_match | shim
//@argty msg => &str
requires session_id.leader_vote.vote.committed,
ensures r == (own_vote(self.engine, true) == Some(session_id.leader_vote.vote) && session_id.membership_log_id == self.engine.state.membership_state.effective.lid()),
//@fn RaftCore::current_leader | shim
ensures r == (if self.engine.state.v().committed && mvoters(self.engine.state.mem()).contains(self.engine.state.v().leader_id.node_id) { Some(self.engine.state.v().leader_id.node_id) } else { None }),
//@fn RaftCore::get_leader_node | shim
ensures r == (if leader_id is Some && self.engine.state.mem().nodes@.contains_key(leader_id->0) { Some(self.engine.state.mem().nodes@[leader_id->0]) } else { None }),
//@fn RaftCore::trigger_snapshot
ensures *final(self) == (RaftCore { engine: final(self).engine, ..*old(self) }),
  // one snapshot is built at a time
  ({ let a = old(self).engine; let b = final(self).engine; b == (Engine { state: building(a.state), output: b.output, ..a }) && b.output.cmds() == build_cmd(a.state, a.output.cmds()) }),
//@fn RaftCore::handle_vote_request | shim
requires node_ok(old(self).engine), can_vote(old(self).engine.state, req.vote, old(self).engine.config.id),
ensures asked_vote(old(self).engine, final(self).engine, req, tx),
  *final(self) == (RaftCore { engine: final(self).engine, ..*old(self) }),
//@proof after `let resp`
let ghost vx_m = self.engine;
proof { let vx_g = resp.vote_granted; assert(vote_handled(old(self).engine, vx_m, req, vx_g)); }
//@proof before `self.engine.output`
proof { assert(condition == Some(Condition::IOFlushed { io_id: io_of(vx_m.state.v()) })); }
//@raw
pub open spec fn asked_vote(a: Engine, b: Engine, req: VoteRequest, tx: OneshotSenderOf<Result<VoteResponse, Infallible>>) -> bool {
   exists|m: Engine, g: bool| #[trigger] vote_handled(a, m, req, g) && b == (Engine { output: b.output, ..m })
     // the answer waits for the node's vote to be on disk
     && b.output.cmds() == m.output.cmds().push(Command::Respond { when: Some(Condition::IOFlushed { io_id: io_of(b.state.v()) }),
          resp: Respond::Vote(ValueSender { value: Ok(VoteResponse { vote: m.state.v(), vote_granted: g, last_log_id: m.state.last() }), tx }) })
}
/// A request for a vote is granted, or it changes nothing.
pub open spec fn vote_handled(a: Engine, m: Engine, req: VoteRequest, g: bool) -> bool {
    &&& exists|now: Instant| now.ns >= clock_floor().ns && g == #[trigger] grants(a.state, req, now)
    &&& if g { etakes(a, m, req.vote) } else { m == a }
}
//@fn RaftCore::handle_tick_election | shim
//@rewrite `election_timeout += timer_config.smaller_log_timeout` => `election_timeout = election_timeout + timer_config.smaller_log_timeout`
//@rewrite `self.runtime_config.enable_elect.load(Ordering::Relaxed)` => `self.runtime_config.enable_elect.get()`
requires node_ok(old(self).engine), room(old(self).engine), old(self).engine.state.membership_state.effective.wf(),
ensures
   *final(self) == (RaftCore { engine: final(self).engine, ..*old(self) }),
   ticked_election(*old(self), final(self).engine), node_ok(final(self).engine),
//@proof return
proof { let vx_e = elects(*old(self), now); }
//@proof end
proof { let vx_e = elects(*old(self), now); }
//@raw
pub open spec fn ticked_election(a: RaftCore, b: Engine) -> bool {
   exists|now: Instant| now.ns >= clock_floor().ns && if #[trigger] elects(a, now) {
       let e = a.engine;
       campaigns(Engine { seen_greater_log: false, ..e }, b, Vote { leader_id: LeaderId { term: (e.state.v().leader_id.term + 1) as u64, node_id: e.config.id }, committed: false })
   } else { b == a.engine }
}
/// A node stands for election if it is a voter, does not lead, and has not heard of a leader for long enough; longer,
/// if it knows of a log greater than its own.
pub open spec fn elects(c: RaftCore, now: Instant) -> bool {
    let e = c.engine; let t = e.config.timer_config;
    &&& e.state.server_state != ServerState::Leader && mvoters(e.state.mem()).contains(c.id) && c.runtime_config.enable_elect.on()
    &&& mvoters(e.state.mem()).len() == 1 || match e.state.vote.last_update { None => true,
          Some(u) => now.ns > u.ns + e.state.vote.lease.ns + t.election_timeout.ns + if e.seen_greater_log { t.smaller_log_timeout.ns as int } else { 0 } }
}

//@raw
/// A leader that is not handing over its leadership can append `n` entries.
pub open spec fn can_append(e: Engine, es: Seq<Entry>) -> bool {
    e.leader is Some && vote_le(e.state.v(), e.leader->0.committed_vote.vote) && e.leader->0.transfer_to is None ==> ({
      let l = *e.leader->0; let s = e.state;
      &&& l.wf() && l.last_log_id == s.last() && s.ordered() && next_idx(s.last()) + es.len() < u64::MAX && one_mem(es)
      &&& ready_nodes(l.progress.vector@, e.config.id, s)
      &&& s.io_state.io_progress.accepted is Some ==> vote_le(s.io_state.io_progress.accepted->0.vote_v(), l.committed_vote.vote)
      &&& pos_le(s.membership_state.effective.lid(), s.last())
      &&& last_mem(es) is Some ==> s.server_state == ServerState::Leader && s.leader(e.config.id)
    })
}
/// Only a leader whose vote is still the node's, and that is not handing over its leadership, takes a write.
pub open spec fn serves(e: Engine) -> bool { e.leader is Some && vote_le(e.state.v(), e.leader->0.committed_vote.vote) && e.leader->0.transfer_to is None }
/// An entry is appended to the log of the leader, and whoever waits for it is told when it is applied at its index.
pub open spec fn wrote(a: RaftCore, b: RaftCore, entry: Entry, tx: Option<ResponderOf>) -> bool {
    let e = a.engine; let f = b.engine;
    if serves(e) {
        &&& appended_by(*e.leader->0, *f.leader->0, e.state, f.state, e.output.cmds(), f.output.cmds(), e.config, seq![entry])
        &&& f == (Engine { state: f.state, output: f.output, leader: f.leader, ..e }) && f.leader is Some && f.state.last() == f.leader->0.last_log_id
        &&& b == (RaftCore { engine: f, client_resp_channels: b.client_resp_channels, ..a })
        &&& b.client_resp_channels@ == (match tx { None => a.client_resp_channels@, Some(t) => a.client_resp_channels@.insert(f.state.last()->0.index, t) })
    } else { b == a }
}
//@source openraft/src/core/raft_core.rs
//@fn RaftCore::write_entry | shim
requires can_append(old(self).engine, seq![entry]),
ensures wrote(*old(self), *final(self), entry, resp_tx),
//@proof before `lh.leader_append_entries`
proof { assert(entries@ =~= seq![entry]); }
//@fn RaftCore::send_heartbeat | shim
//@argty emitter => &str
ensures *final(self) == (RaftCore { engine: final(self).engine, ..*old(self) }),
  // only a leader that serves sends heartbeats, for the session it leads and what it knows to be committed
  r == serves(old(self).engine),
  r ==> ({ let e = old(self).engine; final(self).engine == (Engine { output: final(self).engine.output, ..e })
     && final(self).engine.output.cmds() == e.output.cmds().push(Command::BroadcastHeartbeat { session_id: ReplicationSessionId { leader_vote: e.leader->0.committed_vote, membership_log_id: e.state.membership_state.effective.lid() }, committed: e.state.committed }) }),
  !r ==> final(self).engine == old(self).engine,
//@raw
pub open spec fn asked_change(a: RaftCore, b: RaftCore, changes: ChangeMembers, retain: bool, tx: ResponderOf) -> bool {
  let s = a.engine.state; let n = changed(mv(s.mem()), changes, retain);
   // only when the membership in effect is committed, and only a valid one
   if s.membership_state.effective.lid() == s.membership_state.committed.lid() && valid(n) {
     exists|m: Membership| mv(m) == n && #[trigger] wrote(a, b, mem_entry(m), Some(tx))
   } else { b == a } 
}
//@source openraft/src/core/raft_core.rs
//@fn RaftCore::change_membership | shim
requires forall|m: Membership| mv(m) == changed(mv(old(self).engine.state.mem()), changes, retain) ==> can_append(old(self).engine, seq![#[trigger] mem_entry(m)]),
ensures asked_change(*old(self), *final(self), changes, retain, tx),
//@proof after `let ent`
proof { assert(ent == mem_entry(new_membership)); }
//@raw
pub open spec fn mem_entry(m: Membership) -> Entry { Entry { log_id: LogId { leader_id: LeaderId { term: 0, node_id: 0 }, index: 0 }, payload: EntryPayload::Membership(m) } }
/// the first membership: every node given is a voter
pub open spec fn init_handled(a: Engine, m: Engine, nodes: Map<u64, Node>, res: Result<(), InitializeError>) -> bool {
    &&& !free(a.state) ==> res is Err && res->Err_0 is NotAllowed
    &&& free(a.state) ==> (if nodes.contains_key(a.config.id) { res is Ok } else { res is Err && res->Err_0 is NotInMembers })
    &&& res is Err ==> m == a
    &&& res is Ok ==> exists|mm: Engine, t: Leased, mem: Membership| #[trigger] initialized(a, mm, m, mem_entry(mem), t) && mvoters(mem) == nodes.dom() && mem.nodes@ == nodes && mem.configs@.len() == 1
}
//@raw
pub open spec fn asked_init(a: Engine, b: Engine, nodes: Map<u64, Node>, tx: OneshotSenderOf<Result<(), InitializeError>>) -> bool {
  exists|m: Engine, res: Result<(), InitializeError>| #[trigger] init_handled(a, m, nodes, res) && b == (Engine { output: b.output, ..m })
    // success is answered when the first log is on disk
    && b.output.cmds() == m.output.cmds().push(Command::Respond { when: if res is Ok { Some(Condition::LogFlushed { log_id: m.state.last() }) } else { None }, resp: Respond::Initialize(ValueSender { value: res, tx }) })
}
//@source openraft/src/core/raft_core.rs
//@fn RaftCore::handle_initialize | shim
//@rewrite `Membership::from(member_nodes)` => `Membership::from_nodes(member_nodes)`
//@argty tx => OneshotSenderOf<Result<(), InitializeError>>
requires node_ok(old(self).engine), free(old(self).engine.state) ==> old(self).engine.leader is None && old(self).engine.candidate is None && old(self).engine.state.membership_state.effective.lid() is None,
ensures *final(self) == (RaftCore { engine: final(self).engine, ..*old(self) }),
  asked_init(old(self).engine, final(self).engine, member_nodes@, tx),
//@proof start
let ghost vx_nodes = member_nodes@;
//@proof after `let membership`
let ghost vx_mem = membership;
//@proof before `let res`
proof { assert(entry == mem_entry(vx_mem)); }
//@proof after `let res`
let ghost vx_m = self.engine; let ghost vx_r = res;
proof { assert(init_handled(old(self).engine, vx_m, vx_nodes, vx_r)); }

//@raw
pub open spec fn can_receive(a: Engine, req: AppendEntriesRequest) -> bool {
  let e = a;
    &&& can_vote(e.state, req.vote, e.config.id) && req.vote.committed && req.vote.leader_id.node_id != e.config.id && append_pre(e.state, req.prev_log_id, req.entries@)
    // what the leader has committed agrees with the log here once it is received
    &&& forall|b: Engine, r: Result<(), RejectAppendEntries>| #[trigger] handled_append(e, b, req.vote, req.prev_log_id, req.entries@, r) && r is Ok ==> commit_pre(b.state, commit_to(b.state, req.leader_commit)) 
}
pub open spec fn asked_append(a: Engine, f: Engine, req: AppendEntriesRequest, tx: OneshotSenderOf<Result<AppendEntriesResponse, Infallible>>) -> bool {
exists|b: Engine, r: Result<(), RejectAppendEntries>, c: Engine| #[trigger] handled_append(a, b, req.vote, req.prev_log_id, req.entries@, r) && #[trigger] answered(b, c, r, tx)
     && if r is Ok { commits(c, f, req.leader_commit) } else { f == c }
}
//@source openraft/src/core/raft_core.rs
//@fn RaftCore::handle_append_entries_request | shim
requires can_receive(old(self).engine, req),
ensures *final(self) == (RaftCore { engine: final(self).engine, ..*old(self) }),
  asked_append(old(self).engine, final(self).engine, req, tx),
//@proof after `let is_ok`
let ghost vx_c = self.engine;
let ghost (vx_b, vx_r) = choose|b: Engine, r: Result<(), RejectAppendEntries>| #[trigger] handled_append(old(self).engine, b, req.vote, req.prev_log_id, req.entries@, r) && is_ok == r is Ok && answered(b, vx_c, r, tx);
proof { if is_ok { lemma_append_keeps(old(self).engine, vx_b, req.vote, req.prev_log_id, req.entries@, vx_r); } }
//@raw
pub proof fn lemma_append_keeps(a: Engine, b: Engine, vote: Vote, prev: Option<LogId>, es: Seq<Entry>, r: Result<(), RejectAppendEntries>)
    requires handled_append(a, b, vote, prev, es, r), r is Ok, vote.committed,
    ensures b.leader is None, b.state.v() == vote,
{
    let m = choose|m: Engine| #[trigger] follows_vote(a, m, vote) && appends(m, b, prev, es, r);
    assert(received(m.state, b.state, m.output.cmds(), b.output.cmds(), CommittedVote { vote: m.state.v() }, prev, es, m.config.id));
}
