//@module api
//@deps read
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq};
//@source openraft/src/entry/mod.rs
//@fn FromAppData<C::D> for Entry<C>::from_app_data | as=Entry
ensures r == app_entry(d),
//@raw
pub open spec fn app_entry(d: AppData) -> Entry { Entry { log_id: LogId { leader_id: LeaderId { term: 0, node_id: 0 }, index: 0 }, payload: EntryPayload::Normal(d) } }
//@source openraft/src/core/raft_msg/external_command.rs
//@type ExternalCommand
//@source openraft/src/core/raft_msg/mod.rs
//@type RaftMsg
//@source openraft/src/engine/engine_impl.rs
//@fn Engine::handle_begin_receiving_snapshot
ensures *final(self) == (Engine { output: final(self).output, ..*old(self) }),
  final(self).output.cmds() == old(self).output.cmds().push(Command::StateMachine { command: sm::Command::BeginReceivingSnapshot { tx } }),
//@raw
/// The leader gives up its lease, so that another node can be elected.
pub open spec fn unleased(a: Engine, b: Engine) -> bool {
  b == (Engine { state: b.state, ..a }) && b.state == (RaftState { vote: b.state.vote, ..a.state }) && b.state.vote == (Leased { lease: b.state.vote.lease, lease_enabled: b.state.vote.lease_enabled, ..a.state.vote })
    && b.state.vote.lease.ns == 0 && !b.state.vote.lease_enabled
}
pub proof fn lemma_unleased(a: Engine, b: Engine)
  requires unleased(a, b), node_ok(a), room(a),
  ensures node_ok(b), room(b), b.state.v() == a.state.v(),
{
  assert(b.state.mem() == a.state.mem());
  assert forall|x: u64| #[trigger] mvoters(b.state.mem()).contains(x) implies b.state.mem().nodes@.contains_key(x) by { assert(mvoters(a.state.mem()).contains(x)); }
  assert(b.state.ordered());
  if b.candidate is Some { assert(candidate_of(b.candidate->0, b.state)); }
}
pub open spec fn next_vote(e: Engine) -> Vote { Vote { leader_id: LeaderId { term: (e.state.v().leader_id.term + 1) as u64, node_id: e.config.id }, committed: false } }
pub open spec fn voter_here(c: RaftCore) -> bool { mvoters(c.engine.state.mem()).contains(c.id) }
/// The leader this node follows hands over its leadership: to this node, if it can be elected.
pub open spec fn handed_over(a: RaftCore, b: RaftCore, from: Vote, to: u64) -> bool {
  if a.engine.state.v() == from {
    exists|m: Engine| #[trigger] unleased(a.engine, m) && b == (RaftCore { engine: b.engine, ..a })
      && if to == a.id && voter_here(a) { campaigns(m, b.engine, next_vote(m)) } else { b.engine == m }
  } else { b == a }
}
pub open spec fn can_command(a: RaftCore, cmd: ExternalCommand) -> bool {
  let e = a.engine;
  match cmd {
    ExternalCommand::Elect => node_ok(e) && room(e),
    ExternalCommand::PurgeLog { upto } => e.state.ordered() && (e.leader is Some ==> e.leader->0.wf()) && next_idx(e.state.last()) < u64::MAX && e.state.holds(e.state.purge_upto),
    _ => true,
  }
}
/// What an application may do to a node.
pub open spec fn commanded(a: RaftCore, b: RaftCore, cmd: ExternalCommand) -> bool {
  let e = a.engine; let f = b.engine; let same = b == (RaftCore { engine: f, ..a });
  match cmd {
    // only a voter stands for election
    ExternalCommand::Elect => same && if voter_here(a) { campaigns(e, f, next_vote(e)) } else { f == e },
    ExternalCommand::Heartbeat => same && if serves(e) { f == (Engine { output: f.output, ..e }) && f.output.cmds() == e.output.cmds().push(Command::BroadcastHeartbeat { session_id: ReplicationSessionId { leader_vote: e.leader->0.committed_vote, membership_log_id: e.state.membership_state.effective.lid() }, committed: e.state.committed }) } else { f == e },
    ExternalCommand::Snapshot => same && f == (Engine { state: building(e.state), output: f.output, ..e }) && f.output.cmds() == build_cmd(e.state, e.output.cmds()),
    ExternalCommand::GetSnapshot { tx } => b == (RaftCore { sm_handle: b.sm_handle, ..a }) && b.sm_handle.sent() == a.sm_handle.sent().push(sm::Command::GetSnapshot { tx }),
    ExternalCommand::PurgeLog { upto } => same && asked_purge(e, f, upto),
    ExternalCommand::TriggerTransferLeader { to } => same && asked_transfer(e, f, to),
    ExternalCommand::StateMachineCommand { sm_cmd } => b == (RaftCore { sm_handle: b.sm_handle, ..a }) && b.sm_handle.sent() == a.sm_handle.sent().push(sm_cmd),
  }
}
pub open spec fn can_ask(a: RaftCore, msg: RaftMsg) -> bool {
  let e = a.engine;
  match msg {
    RaftMsg::AppendEntries { rpc, tx } => can_receive(e, rpc),
    RaftMsg::RequestVote { rpc, tx } => node_ok(e) && can_vote(e.state, rpc.vote, e.config.id),
    RaftMsg::BeginReceivingSnapshot { tx } => true,
    RaftMsg::InstallFullSnapshot { vote, snapshot, tx } => can_vote(e.state, vote, e.config.id) && vote.committed && vote.leader_id.node_id != e.config.id && snap_pre(e.state, snapshot.meta),
    RaftMsg::CheckIsLeaderRequest { tx } => can_confirm(a, tx),
    RaftMsg::ClientWriteRequest { app_data, tx } => can_append(e, seq![app_entry(app_data)]),
    RaftMsg::Initialize { members, tx } => node_ok(e) && (free(e.state) ==> e.leader is None && e.candidate is None && e.state.membership_state.effective.lid() is None),
    RaftMsg::ChangeMembership { changes, retain, tx } => forall|m: Membership| mv(m) == changed(mv(e.state.mem()), changes, retain) ==> can_append(e, seq![#[trigger] mem_entry(m)]),
    RaftMsg::ExternalCoreRequest { req } => true,
    RaftMsg::HandleTransferLeader { from, to } => node_ok(e) && room(e) && a.id == e.config.id,
    RaftMsg::ExternalCommand { cmd } => can_command(a, cmd),
  }
}
pub open spec fn asked(a: RaftCore, b: RaftCore, msg: RaftMsg) -> bool {
  let e = a.engine; let f = b.engine; let same = b == (RaftCore { engine: f, ..a });
  match msg {
    RaftMsg::AppendEntries { rpc, tx } => same && asked_append(e, f, rpc, tx),
    RaftMsg::RequestVote { rpc, tx } => same && asked_vote(e, f, rpc, tx),
    RaftMsg::BeginReceivingSnapshot { tx } => same && f == (Engine { output: f.output, ..e }) && f.output.cmds() == e.output.cmds().push(Command::StateMachine { command: sm::Command::BeginReceivingSnapshot { tx } }),
    RaftMsg::InstallFullSnapshot { vote, snapshot, tx } => same && asked_install(e, f, vote, snapshot, tx),
    RaftMsg::CheckIsLeaderRequest { tx } => b == (RaftCore { tx_notification: b.tx_notification, ..a }),
    RaftMsg::ClientWriteRequest { app_data, tx } => wrote(a, b, app_entry(app_data), Some(tx)),
    RaftMsg::Initialize { members, tx } => same && asked_init(e, f, members@, tx),
    RaftMsg::ChangeMembership { changes, retain, tx } => asked_change(a, b, changes, retain, tx),
    RaftMsg::ExternalCoreRequest { req } => b == a,
    RaftMsg::HandleTransferLeader { from, to } => handed_over(a, b, from, to),
    RaftMsg::ExternalCommand { cmd } => commanded(a, b, cmd),
  }
}
//@source openraft/src/core/raft_core.rs
// The body is verified once for each group of messages: the solver takes far longer for all of them at once.
//@fn RaftCore::handle_api_msg | shim trymatch inline_async rename=handle_api_msg_request
//@attrs #[verifier::spinoff_prover]
//@attrs #[verifier::rlimit(40)]
//@rewrite `C::Entry::from_app_data(app_data)` => `Entry::from_app_data(app_data)`
//@rewrite `req(&self.engine.state)` => `()`
requires can_ask(*old(self), msg), !(msg is HandleTransferLeader), !(msg is ExternalCommand),
ensures asked(*old(self), *final(self), msg),
//@fn RaftCore::handle_api_msg | shim trymatch inline_async rename=handle_api_msg_command
//@attrs #[verifier::spinoff_prover]
//@attrs #[verifier::rlimit(40)]
//@rewrite `C::Entry::from_app_data(app_data)` => `Entry::from_app_data(app_data)`
//@rewrite `req(&self.engine.state)` => `()`
requires can_ask(*old(self), msg), msg is HandleTransferLeader || msg is ExternalCommand,
ensures asked(*old(self), *final(self), msg),
//@proof after `self.engine.state.vote.disable_lease`
let ghost vx_m = self.engine;
proof { assert(unleased(old(self).engine, vx_m)); lemma_unleased(old(self).engine, vx_m); }
