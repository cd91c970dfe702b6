//@module runtime
//@deps raft_core
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq};
#[verifier::external_body]
pub fn vx_storage_error() -> (r: StorageError) { unimplemented!() }
#[verifier::external_body]
pub fn vx_split_off<V>(m: &mut BTreeMap<u64, V>, k: &u64) -> (r: BTreeMap<u64, V>)
    ensures final(m)@ == old(m)@.restrict(old(m)@.dom().filter(|i: u64| i < *k)), r@ == old(m)@.restrict(old(m)@.dom().filter(|i: u64| i >= *k)),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_values<V>(m: &BTreeMap<u64, V>) -> (r: Vec<&V>) ensures r@.len() == m@.dom().len() { unimplemented!() }
/// whoever waits for a log that is truncated is told who leads
#[verifier::external_body]
pub fn vx_forward_all(removed: BTreeMap<u64, ResponderOf>, leader_id: Option<u64>, leader_node: Option<Node>) { unimplemented!() }
impl<T> OneshotSenderOf<T> {
    #[verifier::external_body]
    pub fn send(self, t: T) -> (r: Result<(), T>) { unimplemented!() }
}
//@source openraft/src/engine/command.rs
//@fn ValueSender::send | drop_bounds=PartialEq,Eq
//@fn Respond::send
//@source openraft/src/core/raft_core.rs
//@raw
/// The condition is met by what storage has done.
pub open spec fn met(s: RaftState, c: Condition) -> bool {
    let f = s.io_state.io_progress.flushed;
    match c {
        Condition::IOFlushed { io_id } => oio_le(Some(io_id), f),
        Condition::LogFlushed { log_id } => olog_le(log_id, match f { None => None, Some(x) => x.log_v() }),
        Condition::Applied { log_id } => olog_le(log_id, s.io_state.applied),
        Condition::Snapshot { log_id } => olog_le(log_id, s.io_state.snapshot),
    }
}
pub open spec fn log_io(v: CommittedVote, l: Option<LogId>) -> IOId { IOId::Log(LogIOId { committed_vote: v, log_id: l }) }
/// the write a command submits
pub open spec fn submits(c: Command) -> Option<IOId> {
    match c {
        Command::UpdateIOProgress { io_id, .. } => Some(io_id),
        Command::AppendInputEntries { committed_vote, entries } => Some(log_io(committed_vote, Some(entries@.last().log_id))),
        Command::SaveVote { vote } => Some(io_of(vote)),
        _ => None,
    }
}
pub open spec fn submitted(e: Engine, io: IOId) -> Engine {
    Engine { state: RaftState { io_state: IOState { io_progress: IOProgress { submitted: Some(io), ..e.state.io_state.io_progress }, ..e.state.io_state }, ..e.state }, ..e }
}
pub open spec fn try_submitted(e: Engine, io: IOId) -> Engine { if e.state.io_state.io_progress.submitted is None || io_le(e.state.io_state.io_progress.submitted->0, io) { submitted(e, io) } else { e } }
/// What a command may rely on.
pub open spec fn can_run(a: RaftCore, c: Command) -> bool {
    let e = a.engine;
    &&& submits(c) is Some && e.state.io_state.io_progress.submitted is Some ==> io_le(e.state.io_state.io_progress.submitted->0, submits(c)->0)
    &&& match c {
        Command::AppendInputEntries { committed_vote, entries } => entries@.len() > 0 && committed_vote.vote.committed,
        Command::Apply { already_committed, upto } => next_idx(already_committed) <= upto.index,
        Command::RebuildReplicationStreams { targets } => e.leader is Some && forall|i: int| 0 <= i < targets@.len() ==> e.state.mem().nodes@.contains_key((#[trigger] targets@[i]).0),
        _ => true,
    }
}
pub open spec fn below(m: Map<u64, ResponderOf>, i: u64) -> Map<u64, ResponderOf> { m.restrict(m.dom().filter(|k: u64| k < i)) }
/// What running a command does, once the condition it waits for is met.
pub open spec fn ran(a: RaftCore, b: RaftCore, c: Command) -> bool {
    let ops = a.log_store.ops(); let n = a.tx_notification.sent(); let m = a.sm_handle.sent();
    let ops2 = b.log_store.ops(); let n2 = b.tx_notification.sent(); let m2 = b.sm_handle.sent();
    match c {
        Command::UpdateIOProgress { io_id, .. } => b == (RaftCore { engine: submitted(a.engine, io_id), tx_notification: b.tx_notification, ..a }) && n2 == n.push(Notification::LocalIO { io_id }),
        // the write is known to be submitted before it is, and reported when it is on disk
        Command::AppendInputEntries { committed_vote, entries } => ({ let io = log_io(committed_vote, Some(entries@.last().log_id));
            b == (RaftCore { engine: submitted(a.engine, io), log_store: b.log_store, ..a }) && ops2 == ops.push(LogOp::Append(entries@, Notification::LocalIO { io_id: io })) }),
        // the vote is on disk before the node counts its own grant
        Command::SaveVote { vote } => b == (RaftCore { engine: submitted(a.engine, io_of(vote)), log_store: b.log_store, tx_notification: b.tx_notification, ..a }) && ops2 == ops.push(LogOp::SaveVote(vote))
            && n2 == n.push(Notification::LocalIO { io_id: io_of(vote) }).push(Notification::VoteResponse { target: a.id, resp: VoteResponse { vote, vote_granted: true, last_log_id: None }, sender_vote: vote }),
        Command::PurgeLog { upto } => b == (RaftCore { engine: Engine { state: RaftState { io_state: IOState { purged: Some(upto), ..a.engine.state.io_state }, ..a.engine.state }, ..a.engine }, log_store: b.log_store, ..a }) && ops2 == ops.push(LogOp::Purge(upto)),
        // nobody waits any longer for a log that is not there
        Command::TruncateLog { since } => b == (RaftCore { log_store: b.log_store, client_resp_channels: b.client_resp_channels, ..a }) && ops2 == ops.push(LogOp::Truncate(since)) && b.client_resp_channels@ == below(a.client_resp_channels@, since.index),
        Command::SaveCommitted { committed } => b == (RaftCore { log_store: b.log_store, ..a }) && ops2 == ops.push(LogOp::SaveCommitted(Some(committed))),
        // from the log after the last committed one to the given one
        Command::Apply { already_committed, upto } => b == (RaftCore { sm_handle: b.sm_handle, ..a }) && m2 == m.push(sm::Command::Apply { since: next_idx(already_committed) as u64, last: upto }),
        Command::BroadcastHeartbeat { session_id, committed } => b == (RaftCore { heartbeat_handle: b.heartbeat_handle, ..a })
            && exists|now: Instant| now.ns >= clock_floor().ns && b.heartbeat_handle.sent() == a.heartbeat_handle.sent().push(#[trigger] heartbeat(now, session_id, committed)),
        Command::StateMachine { command } => b == (RaftCore { engine: match command { sm::Command::InstallFullSnapshot { io_id, .. } => try_submitted(a.engine, io_id), _ => a.engine }, sm_handle: b.sm_handle, ..a }) && m2 == m.push(command),
        // one replication for each target
        Command::RebuildReplicationStreams { targets } => b == (RaftCore { replications: b.replications, heartbeat_handle: b.heartbeat_handle, ..a })
            && forall|x: u64| #[trigger] b.replications@.contains_key(x) == exists|i: int| 0 <= i < targets@.len() && (#[trigger] targets@[i]).0 == x,
        Command::SendVote { .. } | Command::ReplicateCommitted { .. } | Command::Replicate { .. } | Command::BroadcastTransferLeader { .. } | Command::Respond { .. } => b == a,
    }
}
//@fn RaftCore::spawn_replication_stream | trusted
requires old(self).engine.leader is Some, old(self).engine.state.mem().nodes@.contains_key(target),
ensures *final(self) == *old(self),
//@fn RaftCore::remove_all_replication | trusted
ensures *final(self) == (RaftCore { replications: final(self).replications, heartbeat_handle: final(self).heartbeat_handle, ..*old(self) }), final(self).replications@ == Map::<u64, ReplicationHandle>::empty(), final(self).heartbeat_handle.sent() == old(self).heartbeat_handle.sent(),
//@fn RaftCore::spawn_parallel_vote_requests | trusted
ensures *final(self) == *old(self),
//@fn RaftCore::broadcast_transfer_leader | trusted
ensures *final(self) == *old(self),
//@fn RaftCore::apply_to_state_machine | shim
//@rewrite `self.sm_handle.send(cmd).map_err(|e| StorageError::apply(last, AnyError::error(e)))?` => `match self.sm_handle.send(cmd) { Ok(vx_v) => vx_v, Err(_) => return Err(vx_storage_error()) }`
requires since <= last.index,
ensures *final(self) == (RaftCore { sm_handle: final(self).sm_handle, ..*old(self) }), final(self).sm_handle.sent() == old(self).sm_handle.sent().push(sm::Command::Apply { since, last }),
//@fn RaftRuntime<C> for RaftCore<C,N,LS>::run_command | as=RaftCore shim trymatch
//@attrs #[verifier::spinoff_prover]
//@rewrite `self.client_resp_channels.split_off(&since.index)` => `vx_split_off(&mut self.client_resp_channels, &since.index)`
//@rewrite `C::spawn(async move { for (log_index, tx) in removed.into_iter() { tx.send(Err(ClientWriteError::ForwardToLeader(ForwardToLeader { leader_id, leader_node: leader_node.clone(), }))); tracing::debug!("sent ForwardToLeader for log_index: {}", log_index,); } })` => `vx_forward_all(removed, leader_id, leader_node)`
//@rewrite `self.sm_handle.send(command).map_err(|_e| { StorageError::write_state_machine(AnyError::error("can not send to sm::Worker".to_string())) })?` => `match self.sm_handle.send(command) { Ok(vx_v) => vx_v, Err(_) => return Err(vx_storage_error()) }`
//@rewrite `self.heartbeat_handle.spawn_workers(&mut self.network_factory, &self.tx_notification, nodes)` => `self.heartbeat_handle.spawn_workers(nodes)`
//@rewrite `VoteResponse::new(vote, None, true)` => `VoteResponse::new(&vote, None, true)`
//@rewrite `self.replications.values()` => `vx_values(&self.replications)`
requires can_run(*old(self), cmd),
ensures
  // a command waits for its condition
  waits(cmd) is Some && !met(old(self).engine.state, waits(cmd)->0) ==> r == Ok::<Option<Command>, StorageError>(Some(cmd)) && *final(self) == *old(self),
  waits(cmd) is Some && !met(old(self).engine.state, waits(cmd)->0) || match r { Ok(x) => x is None && ran(*old(self), *final(self), cmd),
     // a write that failed is not reported as done
     Err(_) => final(self).tx_notification.sent() == old(self).tx_notification.sent() && final(self).engine.state.io_state.purged == old(self).engine.state.io_state.purged },
//@loop 0
invariant *self == *old(self),
//@loop 1 iter=it
invariant
  it.seq().len() == targets@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == targets@[i],
  *self == (RaftCore { replications: self.replications, heartbeat_handle: self.heartbeat_handle, ..*old(self) }),
  self.engine.leader is Some, forall|i: int| 0 <= i < targets@.len() ==> self.engine.state.mem().nodes@.contains_key((#[trigger] targets@[i]).0),
  forall|x: u64| #[trigger] self.replications@.contains_key(x) == exists|i: int| 0 <= i < it.index@ && (#[trigger] targets@[i]).0 == x,
//@loop 1 start
assert(*it.seq()[it.index@ as int] == targets@[it.index@ as int]);
//@closure 0
|p: ReplicationProgress| -> (o: (u64, Node)) requires effective.mem().nodes@.contains_key(p.0)
//@raw
/// A command is not run before what it waits for is done.
pub open spec fn waiting(c: RaftCore, cmd: Command) -> bool { waits(cmd) is Some && !met(c.engine.state, waits(cmd)->0) }
pub open spec fn queued(c: RaftCore, o: EngineOutput) -> RaftCore { RaftCore { engine: Engine { output: o, ..c.engine }, ..c } }
pub open spec fn ran_next(p: RaftCore, c: RaftCore, cmd: Command, rest: Seq<Command>) -> bool {
    exists|o: EngineOutput| o.cmds() == rest && #[trigger] runs(queued(p, o), c, cmd)
}
pub open spec fn runs(a: RaftCore, c: RaftCore, cmd: Command) -> bool { !waiting(a, cmd) && ran(a, c, cmd) }
/// The first `n` of the commands in the queue were run, one after the other.
#[verifier::opaque]
pub open spec fn run_some(a: RaftCore, q: Seq<Command>, n: nat, c: RaftCore) -> bool decreases n {
    if n == 0 { c == a } else { exists|p: RaftCore| run_some(a, q, (n - 1) as nat, p) && #[trigger] ran_next(p, c, q[n - 1], q.skip(n as int)) }
}
/// A node that does not lead replicates to nobody.
pub open spec fn started(a: RaftCore, b: RaftCore) -> bool {
    if a.engine.leader is None { b == (RaftCore { replications: b.replications, heartbeat_handle: b.heartbeat_handle, ..a }) && b.replications@ == Map::<u64, ReplicationHandle>::empty() } else { b == a }
}
pub proof fn lemma_run_one(a: RaftCore, q: Seq<Command>, n: nat, p: RaftCore, o: EngineOutput, c: RaftCore)
    requires run_some(a, q, n, p), n < q.len(), o.cmds() == q.skip(n as int + 1), runs(queued(p, o), c, q[n as int]),
    ensures run_some(a, q, n + 1, c), c.engine.output.cmds() == q.skip(n as int + 1),
{
    let m: nat = n + 1;
    assert(ran_next(p, c, q[n as int], q.skip(n as int + 1)));
    assert(ran_next(p, c, q[m - 1], q.skip(m as int)) && run_some(a, q, (m - 1) as nat, p));
    assert(run_some(a, q, m, c)) by { reveal_with_fuel(run_some, 1); }
}
#[verifier::external_body]
pub fn vx_no_entry<V>(m: &BTreeMap<u64, V>) -> (r: bool) ensures r == (m@ == Map::<u64, V>::empty()) { unimplemented!() }
//@source openraft/src/core/raft_core.rs
//@fn RaftCore::run_engine_commands | shim trymatch inline_async
//@attrs #[verifier::spinoff_prover] #[verifier::exec_allows_no_decreases_clause]
//@rewrite `self.replications.is_empty()` => `vx_no_entry(&self.replications)`
requires forall|a: RaftCore, n: nat, p: RaftCore, o: EngineOutput| #![trigger run_some(a, old(self).engine.output.cmds(), n, p), queued(p, o)]
    started(*old(self), a) && run_some(a, old(self).engine.output.cmds(), n, p) && n < old(self).engine.output.cmds().len() && o.cmds() == old(self).engine.output.cmds().skip(n as int + 1) ==> can_run(queued(p, o), old(self).engine.output.cmds()[n as int]),
ensures
  ({ let q = old(self).engine.output.cmds();
     exists|a: RaftCore, n: nat, p: RaftCore| started(*old(self), a) && #[trigger] run_some(a, q, n, p) && n <= q.len() && match r {
       // commands are run in order, until one has to wait
       Ok(_) => *final(self) == queued(p, final(self).engine.output) && final(self).engine.output.cmds() == q.skip(n as int) && (n == q.len() || waiting(*final(self), q[n as int])),
       // or until one fails
       Err(_) => n < q.len() && final(self).tx_notification.sent() == p.tx_notification.sent() && final(self).engine.state.io_state.purged == p.engine.state.io_state.purged } }),
//@proof after `if self.engine.leader.is_none()`
let ghost vx_q = old(self).engine.output.cmds(); let ghost vx_a = *self; let ghost mut vx_n: nat = 0; let ghost mut vx_c = *self;
proof { reveal(run_some); assert(run_some(vx_a, vx_q, 0, *self)); assert(vx_q.skip(0) =~= vx_q); }
//@loop 0
invariant
  vx_q == old(self).engine.output.cmds(), started(*old(self), vx_a), run_some(vx_a, vx_q, vx_n, vx_c), vx_n <= vx_q.len(), self.engine.output.cmds() == vx_q.skip(vx_n as int), *self == queued(vx_c, self.engine.output),
  forall|a: RaftCore, n: nat, p: RaftCore, o: EngineOutput| #![trigger run_some(a, vx_q, n, p), queued(p, o)] started(*old(self), a) && run_some(a, vx_q, n, p) && n < vx_q.len() && o.cmds() == vx_q.skip(n as int + 1) ==> can_run(queued(p, o), vx_q[n as int]),
//@loop 0 start
let ghost vx_o = self.engine.output; let ghost vx_cmd = cmd;
proof { assert(vx_n < vx_q.len() && cmd == vx_q[vx_n as int] && vx_o.cmds() =~= vx_q.skip(vx_n as int + 1)); assert(*self == queued(vx_c, vx_o)); }
//@loop 0 end
proof { lemma_run_one(vx_a, vx_q, vx_n, vx_c, vx_o, *self); vx_n = vx_n + 1; vx_c = *self; }
//@proof before `return Ok(())`
proof { assert(self.engine.output.cmds() =~= vx_q.skip(vx_n as int)); }
