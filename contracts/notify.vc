//@module notify
//@deps raft_core
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq};
pub fn vx_as_deref_mut<T>(o: &mut Option<Box<T>>) -> (r: Option<&mut T>)
    ensures match r { None => *old(o) is None && *final(o) == *old(o), Some(x) => *old(o) is Some && *x == *(*old(o))->0 && *final(o) == Some(Box::new(*final(x))) },
{ match o { None => None, Some(b) => Some(&mut **b) } }
#[verifier::external_body]
pub fn vx_remove<V>(m: &mut BTreeMap<u64, V>, k: &u64) -> (r: Option<V>)
    ensures final(m)@ == old(m)@.remove(*k), r == (if old(m)@.contains_key(*k) { Some(old(m)@[*k]) } else { None }),
{ unimplemented!() }
/// what is left of a vector that is consumed one by one
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecIter<T> { p: std::marker::PhantomData<T> }
impl<T> VecIter<T> {
    pub uninterp spec fn remaining(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self).remaining().len() == 0 ==> r is None && final(self).remaining() == old(self).remaining(),
          old(self).remaining().len() > 0 ==> r == Some(old(self).remaining()[0]) && final(self).remaining() == old(self).remaining().skip(1),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_into_iter<T>(v: Vec<T>) -> (r: VecIter<T>) ensures r.remaining() == v@ { unimplemented!() }
// `#[from]` of thiserror: the variant is made from its payload
impl vstd::std_specs::convert::FromSpecImpl<StorageError> for Fatal { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: StorageError) -> Fatal { Fatal::StorageError(v) } }
impl From<StorageError> for Fatal { fn from(v: StorageError) -> Fatal { Fatal::StorageError(v) } }
//@source openraft/src/error.rs
//@type Fatal
//@source openraft/src/engine/engine_impl.rs
//@fn Engine::leader_mut
//@rewrite `self.leader.as_deref_mut()` => `vx_as_deref_mut(&mut self.leader)`
ensures match r { None => old(self).leader is None && *final(self) == *old(self), Some(l) => old(self).leader is Some && *l == *old(self).leader->0 && *final(self) == (Engine { leader: Some(Box::new(*final(l))), ..*old(self) }) },
//@source openraft/src/core/raft_core.rs
//@fn RaftCore::send_response | shim
//@fn RaftCore::handle_apply_result | shim
//@rewrite `res.apply_results.into_iter()` => `vx_into_iter(res.apply_results)`
//@rewrite `res.applying_entries.into_iter()` => `vx_into_iter(res.applying_entries)`
//@rewrite `self.client_resp_channels.remove(&log_index)` => `vx_remove(&mut self.client_resp_channels, &log_index)`
requires can_reply(res),
ensures *final(self) == (RaftCore { client_resp_channels: final(self).client_resp_channels, ..*old(self) }), final(self).client_resp_channels@ == replied(old(self).client_resp_channels@, res.since as int, res.end as int),
//@proof start
let ghost vx_res = res;
//@loop 0 start
let ghost vx_k = log_index - vx_res.since;
//@loop 0
invariant
  can_reply(vx_res), res.since == vx_res.since, res.end == vx_res.end,
  *self == (RaftCore { client_resp_channels: self.client_resp_channels, ..*old(self) }),
  self.client_resp_channels@ =~= replied(old(self).client_resp_channels@, vx_res.since as int, log_index as int),
  results.remaining() == vx_res.apply_results@.skip(log_index - vx_res.since),
  applying_entries.remaining() == vx_res.applying_entries@.skip(log_index - vx_res.since),
//@proof before `Self::send_response`
proof {
  // whoever waits for the log at an index gets what applying the log at that index gave
  assert(ent == vx_res.applying_entries@[vx_k as int] && ent.log_id.index == log_index);
  assert(apply_res == vx_res.apply_results@[vx_k as int]);
  assert(tx == (if old(self).client_resp_channels@.contains_key(log_index) { Some(old(self).client_resp_channels@[log_index]) } else { None }));
}
//@raw
/// as many results as logs, in order
pub open spec fn can_reply(r: ApplyResult) -> bool {
  &&& r.since <= r.end && r.applying_entries@.len() == r.end - r.since && r.apply_results@.len() == r.end - r.since
  &&& forall|k: int| 0 <= k < r.applying_entries@.len() ==> (#[trigger] r.applying_entries@[k]).log_id.index == r.since + k
}
/// nobody waits any longer for a log that is applied
pub open spec fn replied(m: Map<u64, ResponderOf>, since: int, end: int) -> Map<u64, ResponderOf> { m.restrict(m.dom().filter(|k: u64| !(since <= k < end))) }
pub open spec fn flushed_to(s: RaftState, io: IOId) -> RaftState {
  if oio_le(s.io_state.io_progress.flushed, Some(io)) { RaftState { io_state: IOState { io_progress: IOProgress { flushed: Some(io), ..s.io_state.io_progress }, ..s.io_state }, ..s } } else { s }
}
/// A notification is of the leadership, or the candidacy, this node has now.
pub open spec fn mine(e: Engine, v: Vote) -> bool { own_vote(e, v.committed) == Some(v) }
pub open spec fn session_now(e: Engine, s: ReplicationSessionId) -> bool { own_vote(e, true) == Some(s.leader_vote.vote) && s.membership_log_id == e.state.membership_state.effective.lid() }
/// The leader part of `b` is `m`, and everything else but the state and the commands is as in `a`.
pub open spec fn led(a: Engine, b: Engine) -> bool { a.leader is Some && b.leader is Some && b == (Engine { leader: b.leader, state: b.state, output: b.output, ..a }) }
pub open spec fn snapshot_to(s: RaftState, l: Option<LogId>) -> RaftState { RaftState { io_state: IOState { snapshot: l, ..s.io_state }, ..s } }
pub open spec fn applied_to(s: RaftState, l: Option<LogId>) -> RaftState { RaftState { io_state: IOState { applied: l, ..s.io_state }, ..s } }
/// A leader whose heartbeat is due sends one, if it serves, and sets when the next is.
pub open spec fn beaten(m: RaftCore, p: RaftCore, now: Instant, t: Instant) -> bool {
  &&& now.ns >= clock_floor().ns && t.ns >= clock_floor().ns
  &&& if m.engine.leader is Some && now.ns >= m.engine.leader->0.next_heartbeat.ns {
      let l = *m.engine.leader->0; let on = m.runtime_config.enable_heartbeat.on() && serves(m.engine);
      &&& p == (RaftCore { engine: p.engine, ..m }) && led(m.engine, p.engine) && p.engine.state == m.engine.state
      &&& *p.engine.leader->0 == (Leader { next_heartbeat: p.engine.leader->0.next_heartbeat, ..l })
      &&& p.engine.leader->0.next_heartbeat.ns == t.ns + m.config.heartbeat_interval * 1_000_000
      &&& p.engine.output.cmds() == if on { m.engine.output.cmds().push(Command::BroadcastHeartbeat { session_id: ReplicationSessionId { leader_vote: l.committed_vote, membership_log_id: m.engine.state.membership_state.effective.lid() }, committed: m.engine.state.committed }) } else { m.engine.output.cmds() }
  } else { p == m }
}
pub open spec fn ticked(a: RaftCore, m: RaftCore, p: RaftCore, b: RaftCore, now: Instant, t: Instant) -> bool {
  &&& m == (RaftCore { engine: m.engine, ..a }) && ticked_election(a, m.engine)
  &&& beaten(m, p, now, t)
  // a leader that is removed steps down when the membership without it is applied
  &&& b == (RaftCore { engine: b.engine, ..p })
  &&& if olog_le(p.engine.state.membership_state.effective.lid(), p.engine.state.io_state.applied) { stepped(p.engine, b.engine) } else { b == p }
}
pub open spec fn can_note(a: RaftCore, n: Notification) -> bool {
  let e = a.engine;
  match n {
    Notification::VoteResponse { target, resp, sender_vote } => e.candidate is Some && mine(e, sender_vote) ==> can_count(e, target, resp),
    Notification::HigherVote { higher, sender_vote, .. } => mine(e, sender_vote) ==> can_vote(e.state, higher, e.config.id),
    Notification::Tick { .. } => node_ok(e) && room(e) && e.state.membership_state.effective.wf() && (forall|m: Engine| #[trigger] ticked_election(a, m) ==> room(m)) && a.config.heartbeat_interval * 1_000_000 <= u64::MAX,
    Notification::StorageError { .. } => true,
    Notification::LocalIO { io_id } => match io_id { IOId::Log(l) => e.leader is Some && mine(e, l.committed_vote.vote) ==> can_flush(*e.leader->0, flushed_to(e.state, io_id), e.config.id, l.log_id), _ => true },
    Notification::ReplicationProgress { progress } => progress.session_id.leader_vote.vote.committed && (session_now(e, progress.session_id) ==> can_progress(*e.leader->0, e.state, progress.target, progress.result)),
    Notification::HeartbeatProgress { session_id, .. } => session_id.leader_vote.vote.committed && (session_now(e, session_id) ==> e.leader->0.wf()),
    Notification::StateMachine { command_result } => match command_result.result { Err(_) => true, Ok(r) => match r {
        sm::Response::BuildSnapshot(meta) => can_finish(e, meta),
        sm::Response::InstallSnapshot((io, meta)) => meta is Some ==> olog_lt(e.state.io_state.applied, meta->0.last_log_id) && olog_le(e.state.io_state.snapshot, meta->0.last_log_id),
        sm::Response::Apply(res) => can_reply(res) && olog_lt(e.state.io_state.applied, Some(res.last_applied)),
    } },
  }
}
/// A response to an earlier candidacy counts for nothing.
#[verifier::opaque]
pub open spec fn noted_vote(a: RaftCore, b: RaftCore, target: u64, resp: VoteResponse, sender_vote: Vote) -> bool {
  b == (RaftCore { engine: b.engine, ..a }) && if a.engine.candidate is Some && mine(a.engine, sender_vote) { vote_answered(a.engine, b.engine, target, resp) } else { b.engine == a.engine }
}
#[verifier::opaque]
pub open spec fn noted_higher(a: RaftCore, b: RaftCore, higher: Vote, sender_vote: Vote) -> bool {
  b == (RaftCore { engine: b.engine, ..a }) && if mine(a.engine, sender_vote) && vote_le(a.engine.state.v(), higher) { etakes(a.engine, b.engine, higher) } else { b.engine == a.engine }
}
#[verifier::opaque]
pub open spec fn noted_tick(a: RaftCore, b: RaftCore) -> bool { exists|m: RaftCore, p: RaftCore, now: Instant, t: Instant| #[trigger] ticked(a, m, p, b, now, t) }
/// What is on disk counts for the leadership that wrote it only.
#[verifier::opaque]
pub open spec fn noted_io(a: RaftCore, b: RaftCore, io_id: IOId) -> bool {
  let e = a.engine; let f = b.engine; let s = flushed_to(e.state, io_id);
  b == (RaftCore { engine: f, ..a }) && match io_id {
    IOId::Log(l) => if e.leader is Some && mine(e, l.committed_vote.vote) { led(e, f) && local_flushed(*e.leader->0, *f.leader->0, s, f.state, e.output.cmds(), f.output.cmds(), e.config, l.log_id) } else { f == (Engine { state: s, ..e }) },
    _ => f == (Engine { state: s, ..e }) }
}
/// What a node reported to an earlier leadership, or under an earlier membership, counts for nothing.
#[verifier::opaque]
pub open spec fn noted_progress(a: RaftCore, b: RaftCore, progress: repl::Progress) -> bool {
  let e = a.engine; let f = b.engine;
  b == (RaftCore { engine: f, ..a }) && if session_now(e, progress.session_id) { led(e, f) && progressed(*e.leader->0, *f.leader->0, e.state, f.state, e.output.cmds(), f.output.cmds(), e.config, progress.target, progress.result) } else { f == e }
}
#[verifier::opaque]
pub open spec fn noted_heartbeat(a: RaftCore, b: RaftCore, session_id: ReplicationSessionId, sending_time: Instant, target: u64) -> bool {
  let e = a.engine; let f = b.engine;
  b == (RaftCore { engine: f, ..a }) && if session_now(e, session_id) { led(e, f) && f.state == e.state && f.output == e.output && clocked(*e.leader->0, *f.leader->0, target, sending_time) } else { f == e }
}
#[verifier::opaque]
pub open spec fn noted_sm(a: RaftCore, b: RaftCore, result: Result<sm::Response, StorageError>) -> bool {
  let e = a.engine; let f = b.engine; let same = b == (RaftCore { engine: f, ..a });
  match result { Err(_) => b == a, Ok(r) => match r {
        sm::Response::BuildSnapshot(meta) => same && exists|m: Engine| #[trigger] finished(e, m, meta) && f == (Engine { state: if olog_le(m.state.io_state.snapshot, meta.last_log_id) { snapshot_to(m.state, meta.last_log_id) } else { m.state }, ..m }),
        sm::Response::InstallSnapshot((io, meta)) => same && f == (Engine { state: match meta { None => flushed_to(e.state, io), Some(m) => snapshot_to(applied_to(flushed_to(e.state, io), m.last_log_id), m.last_log_id) }, ..e }),
        sm::Response::Apply(res) => b == (RaftCore { engine: Engine { state: applied_to(e.state, Some(res.last_applied)), ..e }, client_resp_channels: b.client_resp_channels, ..a })
          && b.client_resp_channels@ == replied(a.client_resp_channels@, res.since as int, res.end as int),
    } }
}
pub open spec fn noted(a: RaftCore, b: RaftCore, n: Notification) -> bool {
  match n {
    Notification::VoteResponse { target, resp, sender_vote } => noted_vote(a, b, target, resp, sender_vote),
    Notification::HigherVote { higher, sender_vote, .. } => noted_higher(a, b, higher, sender_vote),
    Notification::Tick { .. } => noted_tick(a, b),
    Notification::StorageError { .. } => b == a,
    Notification::LocalIO { io_id } => noted_io(a, b, io_id),
    Notification::ReplicationProgress { progress } => noted_progress(a, b, progress),
    Notification::HeartbeatProgress { session_id, sending_time, target } => noted_heartbeat(a, b, session_id, sending_time, target),
    Notification::StateMachine { command_result } => noted_sm(a, b, command_result.result),
  }
}
pub open spec fn failed(n: Notification) -> bool { match n { Notification::StorageError { .. } => true, Notification::StateMachine { command_result } => command_result.result is Err, _ => false } }
// The body is verified once for each group of notifications: the solver takes far longer for all of them at once.
//@fn RaftCore::handle_notification | shim trymatch rename=handle_notification_peer
//@attrs #[verifier::spinoff_prover]
//@attrs #[verifier::rlimit(40)]
//@rewrite `self.runtime_config.enable_heartbeat.load(Ordering::Relaxed)` => `self.runtime_config.enable_heartbeat.get()`
requires can_note(*old(self), notify), notify is VoteResponse || notify is HigherVote || notify is ReplicationProgress || notify is HeartbeatProgress || notify is StorageError,
ensures noted(*old(self), *final(self), notify), r is Err == failed(notify),
//@proof before `if self.engine.candidate.is_some()`
proof { reveal(noted_vote); }
//@proof before `if self.does_vote_match(&sender_vote, "HigherVote")`
proof { reveal(noted_higher); }
//@proof before `if self.does_replication_session_match(&progress.session_id`
proof { reveal(noted_progress); }
//@proof before `if self.does_replication_session_match(&session_id`
proof { reveal(noted_heartbeat); }
//@fn RaftCore::handle_notification | shim trymatch rename=handle_notification_io
//@attrs #[verifier::spinoff_prover]
//@attrs #[verifier::rlimit(40)]
//@rewrite `self.runtime_config.enable_heartbeat.load(Ordering::Relaxed)` => `self.runtime_config.enable_heartbeat.get()`
requires can_note(*old(self), notify), notify is LocalIO,
ensures noted(*old(self), *final(self), notify), r is Err == failed(notify),
//@proof start
proof { reveal(noted_io); }
//@fn RaftCore::handle_notification | shim trymatch rename=handle_notification_sm
//@attrs #[verifier::spinoff_prover]
//@attrs #[verifier::rlimit(40)]
//@rewrite `self.runtime_config.enable_heartbeat.load(Ordering::Relaxed)` => `self.runtime_config.enable_heartbeat.get()`
requires can_note(*old(self), notify), notify is StateMachine,
ensures noted(*old(self), *final(self), notify), r is Err == failed(notify),
//@proof start
proof { reveal(noted_sm); }
//@proof after `self.engine.finish_building_snapshot`
let ghost vx_f = self.engine;
proof { assert(finished(old(self).engine, vx_f, meta)); }
//@fn RaftCore::handle_notification | shim trymatch rename=handle_notification_tick
//@attrs #[verifier::spinoff_prover]
//@attrs #[verifier::rlimit(40)]
//@rewrite `self.runtime_config.enable_heartbeat.load(Ordering::Relaxed)` => `self.runtime_config.enable_heartbeat.get()`
requires can_note(*old(self), notify), notify is Tick,
ensures noted(*old(self), *final(self), notify), r is Err == failed(notify),
//@proof after `self.handle_tick_election`
let ghost vx_m = *self;
//@proof before `let heartbeat_at`
proof { assert(ticked_election(*old(self), vx_m.engine)); assert(room(vx_m.engine)); }
//@proof before `if self.engine.state.io_applied() >=`
let ghost vx_p = *self;
//@proof after `self.engine.leader_step_down`
proof { assert(stepped(vx_p.engine, self.engine)); }
//@proof after `if self.engine.state.io_applied() >=`
proof {
  let vx_due = vx_m.engine.leader is Some && now.ns >= vx_m.engine.leader->0.next_heartbeat.ns;
  let vx_t = if vx_due { Instant { ns: (vx_p.engine.leader->0.next_heartbeat.ns - vx_p.config.heartbeat_interval * 1_000_000) as u64 } } else { now };
  assert(beaten(vx_m, vx_p, now, vx_t));
  assert(ticked(*old(self), vx_m, vx_p, *self, now, vx_t));
  assert(noted_tick(*old(self), *self)) by { reveal(noted_tick); }
}
