//@module command
//@deps sm leader time_state
//@source openraft/src/replication/replication_session_id.rs
//@type ReplicationSessionId derive=Clone,Copy
//@fn ReplicationSessionId::new
ensures r == (ReplicationSessionId { leader_vote: vote, membership_log_id }),
//@source openraft/src/replication/request.rs
//@type Data keep_variants=Committed,Logs,Snapshot
//@fn Data::new_committed
ensures r == Data::Committed,
//@fn Data::new_logs
ensures r == Data::Logs(log_id_range),
//@fn Data::new_snapshot
ensures r == Data::Snapshot(last_log_id),
//@type Replicate
//@fn Replicate::logs
ensures r == Replicate::Data(Data::Logs(log_id_range)),
//@fn Replicate::snapshot
ensures r == Replicate::Data(Data::Snapshot(last_log_id)),
//@fn Replicate::new_data
ensures r == Replicate::Data(data),
//@source openraft/src/engine/replication_progress.rs
//@type ReplicationProgress
//@source openraft/src/raft/message/vote.rs
//@type VoteRequest derive=Clone
//@fn VoteRequest::new
ensures r == (VoteRequest { vote, last_log_id }),
//@type VoteResponse derive=Clone
//@source openraft/src/raft/message/append_entries.rs
//@type AppendEntriesRequest
//@type AppendEntriesResponse
//@source openraft/src/raft/message/install_snapshot.rs
//@type InstallSnapshotResponse
//@type SnapshotResponse
//@fn SnapshotResponse::new
ensures r == (SnapshotResponse { vote }),
//@source openraft/src/raft/message/transfer_leader.rs
//@type TransferLeaderRequest
//@fn TransferLeaderRequest::new
ensures r == (TransferLeaderRequest { from_leader: from, to_node_id: to, last_log_id }),
//@raw
pub struct InstallSnapshotError { pub x: u64 }
//@source openraft/src/error.rs
//@type NotAllowed derive=Clone
//@type NotInMembers derive=Clone
//@type InitializeError derive=Clone
//@type RejectVoteRequest
//@type RejectAppendEntries
//@source openraft/src/engine/command.rs
//@type ValueSender drop_bounds=PartialEq,Eq
//@fn ValueSender::new | drop_bounds=PartialEq,Eq
ensures r == (ValueSender { value: res, tx }),
//@type Respond
//@type Condition derive=Clone,Copy
//@type Command
//@fn From<sm::Command<C>> for Command<C>::from | as=Command
ensures r == (Command::StateMachine { command: cmd }),
//@raw
/// what a command waits for: logs are purged once a snapshot that has them is stored
pub open spec fn waits(c: Command) -> Option<Condition> {
  match c {
    Command::Respond { when, .. } => when,
    Command::UpdateIOProgress { when, .. } => when,
    Command::PurgeLog { upto } => Some(Condition::Snapshot { log_id: Some(upto) }),
    _ => None }
}
//@fn Command::condition
ensures r == waits(*self),
//@source openraft/src/engine/engine_output.rs
//@type EngineOutput
//@raw
impl EngineOutput {
    pub open spec fn cmds(&self) -> Seq<Command> { self.commands@ }
}
//@fn EngineOutput::new
ensures r.cmds().len() == 0,
//@fn EngineOutput::push_command
ensures final(self).cmds() == old(self).cmds().push(cmd),
//@fn EngineOutput::postpone_command
ensures final(self).cmds() == seq![cmd] + old(self).cmds(),
//@fn EngineOutput::pop_command
ensures old(self).cmds().len() == 0 ==> r is None && final(self).cmds() == old(self).cmds(),
  old(self).cmds().len() > 0 ==> r == Some(old(self).cmds()[0]) && final(self).cmds() == old(self).cmds().skip(1),
