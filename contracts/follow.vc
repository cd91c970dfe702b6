//@module follow
//@deps election
//@source openraft/src/error.rs
//@fn From<RejectVoteRequest<C>> for RejectAppendEntries<C>::from | as=RejectAppendEntries rename=from_reject ret=o
requires r is ByVote,
ensures o == RejectAppendEntries::ByVote(r->ByVote_0),
//@fn From<Result<(),RejectAppendEntries<C>>> for AppendEntriesResponse<C>::from | as=AppendEntriesResponse rename=from_result ret=o
ensures o == reply(r),
//@raw
pub open spec fn reply(r: Result<(), RejectAppendEntries>) -> AppendEntriesResponse {
    match r { Ok(_) => AppendEntriesResponse::Success, Err(RejectAppendEntries::ByVote(v)) => AppendEntriesResponse::HigherVote(v), Err(_) => AppendEntriesResponse::Conflict }
}
/// The node follows the leader `vote`, at least as great as its own vote.
pub open spec fn follows_vote(a: Engine, m: Engine, vote: Vote) -> bool {
    vote_le(a.state.v(), vote) && etakes(a, m, vote) && m.leader is None && m.candidate is None && m.state.v() == vote
}
/// the outcome of appending after the vote is taken
pub open spec fn appends(m: Engine, b: Engine, prev: Option<LogId>, es: Seq<Entry>, r: Result<(), RejectAppendEntries>) -> bool {
    &&& b.config == m.config && b.leader == m.leader && b.candidate == m.candidate && b.seen_greater_log == m.seen_greater_log
    &&& if prev is Some && !m.state.has(prev->0) {
            &&& r == Err::<(), _>(RejectAppendEntries::ByConflictingLogId { expect: prev->0, local: m.state.at(prev->0.index as int) })
            &&& cut(m.state, b.state, m.output.cmds(), b.output.cmds(), prev->0.index as int, m.config.id)
        } else { r is Ok && received(m.state, b.state, m.output.cmds(), b.output.cmds(), CommittedVote { vote: m.state.v() }, prev, es, m.config.id) }
}
/// Entries that follow a log that is here: those that are not there are appended.
pub open spec fn received(s: RaftState, t: RaftState, x: Seq<Command>, y: Seq<Command>, v: CommittedVote, prev: Option<LogId>, es: Seq<Entry>, id: u64) -> bool {
    let io = IOId::Log(LogIOId { committed_vote: v, log_id: sent_last(prev, es) }); let a = accept(s, io);
    exists|r: int| #[trigger] first_new(s, es, r) && (
       if r == es.len() { t == a && y == io_cmd(x, s.io_state.io_progress.accepted, io) }
       else { exists|s1: RaftState, x1: Seq<Command>| #[trigger] taken(a, t, x, y, v, es, r, id, s1, x1) })
}
/// what the leader sends is a part of its log, which agrees with what is committed here
pub open spec fn append_pre(s: RaftState, prev: Option<LogId>, es: Seq<Entry>) -> bool {
    &&& s.ordered() && mem_logged(s) && follows(prev, es)
    &&& prev is Some ==> prev_pre(s, prev->0) && agrees(s, prev->0)
    &&& forall|i: int| 0 <= i < es.len() ==> agrees(s, (#[trigger] es[i]).log_id)
}
pub proof fn lemma_append_pre(s: RaftState, t: RaftState, prev: Option<LogId>, es: Seq<Entry>)
    requires append_pre(s, prev, es), t.log_ids == s.log_ids, t.membership_state == s.membership_state, t.committed == s.committed, t.purged_next == s.purged_next, t.purge_upto == s.purge_upto, t.snapshot_meta == s.snapshot_meta,
    ensures append_pre(t, prev, es),
{
    assert forall|i: int| 0 <= i < es.len() implies agrees(t, (#[trigger] es[i]).log_id) by { assert(agrees(s, es[i].log_id)); }
}
//@source openraft/src/engine/engine_impl.rs
//@fn Engine::append_entries | shim
//@rewrite `self.vote_handler().update_vote(vote)?` => `match self.vote_handler().update_vote(vote) { Ok(vx_v) => vx_v, Err(vx_e) => return Err(RejectAppendEntries::from_reject(vx_e)) }`
//@rewrite `fh.ensure_log_consecutive(prev_log_id)?` => `match fh.ensure_log_consecutive(prev_log_id) { Ok(vx_v) => vx_v, Err(vx_e) => return Err(vx_e) }`
requires can_vote(old(self).state, *vote, old(self).config.id), vote.committed, vote.leader_id.node_id != old(self).config.id, append_pre(old(self).state, prev_log_id, entries@),
ensures
  // a leader that is not the greatest known is rejected
  !vote_le(old(self).state.v(), *vote) ==> r == Err::<(), _>(RejectAppendEntries::ByVote(old(self).state.v())) && *final(self) == *old(self),
  vote_le(old(self).state.v(), *vote) ==> exists|m: Engine| #[trigger] follows_vote(*old(self), m, *vote) && appends(m, *final(self), prev_log_id, entries@, r),
//@proof before `let mut fh`
let ghost vx_m = *self;
proof { let (vx_s, vx_z) = choose|s: RaftState, z: Seq<Command>| #[trigger] takes_vote(old(self).state, vx_m.state, old(self).leader, vx_m.leader, old(self).candidate, vx_m.candidate, old(self).output.cmds(), vx_m.output.cmds(), old(self).config, *vote, s, z);
    assert(takes_vote(old(self).state, vx_m.state, old(self).leader, vx_m.leader, old(self).candidate, vx_m.candidate, old(self).output.cmds(), vx_m.output.cmds(), old(self).config, *vote, vx_s, vx_z));
    assert(etakes(*old(self), vx_m, *vote)); assert(follows_vote(*old(self), vx_m, *vote)); lemma_append_pre(old(self).state, vx_m.state, prev_log_id, entries@); }
let ghost vx_es = entries@;
//@proof after `fh.append_entries`
proof { assert(appends(vx_m, *self, prev_log_id, vx_es, Ok::<(), RejectAppendEntries>(()))); }
//@raw
// `derive_more::From` of `Respond`: each variant is made from its payload
impl vstd::std_specs::convert::FromSpecImpl<ValueSender<Result<AppendEntriesResponse, Infallible>>> for Respond { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ValueSender<Result<AppendEntriesResponse, Infallible>>) -> Respond { Respond::AppendEntries(v) } }
impl From<ValueSender<Result<AppendEntriesResponse, Infallible>>> for Respond { fn from(v: ValueSender<Result<AppendEntriesResponse, Infallible>>) -> Respond { Respond::AppendEntries(v) } }
impl vstd::std_specs::convert::FromSpecImpl<ValueSender<Result<SnapshotResponse, Infallible>>> for Respond { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ValueSender<Result<SnapshotResponse, Infallible>>) -> Respond { Respond::InstallFullSnapshot(v) } }
impl From<ValueSender<Result<SnapshotResponse, Infallible>>> for Respond { fn from(v: ValueSender<Result<SnapshotResponse, Infallible>>) -> Respond { Respond::InstallFullSnapshot(v) } }
//@source openraft/src/engine/command.rs
//@fn Respond::new | drop_bounds=PartialEq,Eq
ensures <Respond as vstd::std_specs::convert::FromSpec<ValueSender<T>>>::obeys_from_spec() ==> r == <Respond as vstd::std_specs::convert::FromSpec<ValueSender<T>>>::from_spec(ValueSender { value: res, tx }),
//@source openraft/src/engine/engine_impl.rs
//@raw
pub open spec fn answered(b: Engine, f: Engine, r: Result<(), RejectAppendEntries>, tx: OneshotSenderOf<Result<AppendEntriesResponse, Infallible>>) -> bool {
    f == (Engine { output: f.output, ..b }) && f.output.cmds() == b.output.cmds().push(Command::Respond {
        when: if r is Ok { Some(Condition::IOFlushed { io_id: b.state.io_state.io_progress.accepted->0 }) } else { None },
        resp: Respond::AppendEntries(ValueSender { value: Ok(reply(r)), tx }) })
}
//@fn Engine::handle_append_entries | shim ret=vx_r
//@rewrite `res.into()` => `AppendEntriesResponse::from_result(res)`
//@argty tx => Option<ResultSender<AppendEntriesResponse>>
requires can_vote(old(self).state, *vote, old(self).config.id), vote.committed, vote.leader_id.node_id != old(self).config.id, append_pre(old(self).state, prev_log_id, entries@),
ensures exists|b: Engine, r: Result<(), RejectAppendEntries>| #[trigger] handled_append(*old(self), b, *vote, prev_log_id, entries@, r) && vx_r == r is Ok && match tx {
    None => *final(self) == b,
    // success is answered when what was accepted is on disk
    Some(tx) => answered(b, *final(self), r, tx),
  },
//@proof start
let ghost vx_es = entries@; let ghost vx_tx = tx;
//@proof after `let res`
let ghost vx_b = *self; let ghost vx_rr = res;
proof { assert(handled_append(*old(self), vx_b, *vote, prev_log_id, vx_es, vx_rr)); }
//@raw
pub open spec fn handled_append(a: Engine, b: Engine, vote: Vote, prev: Option<LogId>, es: Seq<Entry>, r: Result<(), RejectAppendEntries>) -> bool {
    if vote_le(a.state.v(), vote) { exists|m: Engine| #[trigger] follows_vote(a, m, vote) && appends(m, b, prev, es, r) }
    else { b == a && r == Err::<(), _>(RejectAppendEntries::ByVote(a.state.v())) }
}
//@fn Engine::handle_commit_entries
requires old(self).leader is None, old(self).state.v().committed, commit_pre(old(self).state, commit_to(old(self).state, leader_committed)),
ensures commits(*old(self), *final(self), leader_committed),
//@raw
/// What the leader has committed, of what is accepted here, is committed and applied.
pub open spec fn commits(e: Engine, f: Engine, lc: Option<LogId>) -> bool {
    let a = e.state; let c = commit_to(a, lc); let x = e.output.cmds(); let p = e.config.snapshot_policy;
    &&& f == (Engine { state: f.state, output: f.output, ..e })
    &&& if !olog_lt(a.committed, c) { f.state == a && f.output.cmds() == x } else {
          let b = committed_state(a, c);
          f.state == snap_state(b, p)
          && f.output.cmds() == snap_cmds(b, x.push(Command::SaveCommitted { committed: c->0 }).push(Command::Apply { already_committed: a.committed, upto: c->0 }), p)
        }
}
//@source openraft/src/engine/handler/vote_handler/mod.rs
//@fn VoteHandler::accept_vote | shim drop_bounds=PartialEq,Eq
//@argty vote => &Vote
requires can_vote(*old(self).state, *vote, old(self).config.id), f.requires((&*old(self).state, RejectVoteRequest::ByVote(old(self).state.v()))),
  <Respond as vstd::std_specs::convert::FromSpec<ValueSender<Result<T, E>>>>::obeys_from_spec(),
ensures vh_keep(*old(self), *final(self)),
  r == (if vote_le(old(self).state.v(), *vote) { Some(tx) } else { None }),
  // a vote that is less is answered when this node's own vote is on disk
  r is None ==> *final(self).state == *old(self).state && *final(self).leader == *old(self).leader && *final(self).candidate == *old(self).candidate
    && exists|x: Result<T, E>| #[trigger] f.ensures((&*old(self).state, RejectVoteRequest::ByVote(old(self).state.v())), x)
      && final(self).output.cmds() == old(self).output.cmds().push(Command::Respond { when: Some(Condition::IOFlushed { io_id: io_of(old(self).state.v()) }), resp: <Respond as vstd::std_specs::convert::FromSpec<ValueSender<Result<T, E>>>>::from_spec(ValueSender { value: x, tx }) }),
  r is Some ==> exists|s: RaftState, z: Seq<Command>| #[trigger] takes_vote(*old(self).state, *final(self).state, *old(self).leader, *final(self).leader, *old(self).candidate, *final(self).candidate, old(self).output.cmds(), final(self).output.cmds(), *old(self).config, *vote, s, z),
//@raw
pub open spec fn io_of(v: Vote) -> IOId { if v.committed { IOId::Log(LogIOId { committed_vote: CommittedVote { vote: v }, log_id: None }) } else { IOId::Vote(NonCommittedVote { vote: v }) } }
//@raw
/// a snapshot is of what is committed, so it does not conflict with what is committed here
pub open spec fn snap_pre(a: RaftState, m: SnapshotMeta) -> bool {
    let l = m.last_log_id;
    &&& a.ordered() && mem_logged(a) && a.membership_state.wf()
    &&& l is Some ==> l->0.index < u64::MAX
    &&& l is Some && conflicts(a, l->0) ==> olog_lt(a.membership_state.committed.lid(), l) && lidx(a.membership_state.committed.lid()) < lidx(l)
    &&& olog_lt(a.committed, l) ==> lidx(a.committed) < lidx(l)
    &&& m.last_membership.log_id == a.membership_state.committed.lid() ==> m.last_membership.membership == a.membership_state.committed.mem()
}
pub proof fn lemma_snap_pre(s: RaftState, t: RaftState, m: SnapshotMeta)
    requires snap_pre(s, m), t.log_ids == s.log_ids, t.membership_state == s.membership_state, t.committed == s.committed, t.purged_next == s.purged_next, t.purge_upto == s.purge_upto, t.snapshot_meta == s.snapshot_meta,
    ensures snap_pre(t, m),
{ }
/// The snapshot is installed if it has more than what is committed.
pub open spec fn snap_installed(m: Engine, b: Engine, snap: Snapshot, cond: Option<Condition>, y: Seq<Command>) -> bool {
    &&& b == (Engine { state: b.state, output: b.output, ..m })
    &&& if olog_lt(m.state.committed, snap.meta.last_log_id) {
            &&& cond == Some(Condition::Snapshot { log_id: snap.meta.last_log_id })
            &&& exists|s2: RaftState, x2: Seq<Command>, s3: RaftState| #[trigger] installed(m.state, b.state, m.output.cmds(), y, snap, IOId::Log(LogIOId { committed_vote: CommittedVote { vote: m.state.v() }, log_id: snap.meta.last_log_id }), m.config.id, s2, x2, s3)
        } else { cond is None && b.state == m.state && y == m.output.cmds() }
}
pub open spec fn snap_respond(when: Option<Condition>, v: Vote, tx: OneshotSenderOf<Result<SnapshotResponse, Infallible>>) -> Command {
    Command::Respond { when, resp: Respond::InstallFullSnapshot(ValueSender { value: Ok(SnapshotResponse { vote: v }), tx }) }
}
//@source openraft/src/engine/engine_impl.rs
//@raw
pub open spec fn asked_install(a: Engine, b: Engine, vote: Vote, snapshot: Snapshot, tx: OneshotSenderOf<Result<SnapshotResponse, Infallible>>) -> bool {
  if vote_le(a.state.v(), vote) {
    // answered when the snapshot is installed
    exists|m: Engine, cond: Option<Condition>, y: Seq<Command>| #[trigger] snap_installed(m, b, snapshot, cond, y) && follows_vote(a, m, vote) && b.output.cmds() == y.push(snap_respond(cond, vote, tx))
  } else {
    &&& b == (Engine { output: b.output, ..a })
    &&& b.output.cmds() == a.output.cmds().push(snap_respond(Some(Condition::IOFlushed { io_id: io_of(a.state.v()) }), a.state.v(), tx))
  }
}
//@source openraft/src/engine/engine_impl.rs
//@fn Engine::handle_install_full_snapshot | shim
requires can_vote(old(self).state, vote, old(self).config.id), vote.committed, vote.leader_id.node_id != old(self).config.id, snap_pre(old(self).state, snapshot.meta),
ensures
  asked_install(*old(self), *final(self), vote, snapshot, tx),
//@closure 0
|state: &RaftState, _rejected: RejectVoteRequest| -> (o: Result<SnapshotResponse, Infallible>) ensures o == Ok::<SnapshotResponse, Infallible>(SnapshotResponse { vote: state.v() })
//@proof before `let mut fh`
let ghost vx_m = *self; let ghost vx_snap = snapshot;
proof { let (vx_s, vx_z) = choose|s: RaftState, z: Seq<Command>| #[trigger] takes_vote(old(self).state, vx_m.state, old(self).leader, vx_m.leader, old(self).candidate, vx_m.candidate, old(self).output.cmds(), vx_m.output.cmds(), old(self).config, vote, s, z);
    assert(takes_vote(old(self).state, vx_m.state, old(self).leader, vx_m.leader, old(self).candidate, vx_m.candidate, old(self).output.cmds(), vx_m.output.cmds(), old(self).config, vote, vx_s, vx_z));
    assert(follows_vote(*old(self), vx_m, vote)); lemma_snap_pre(old(self).state, vx_m.state, snapshot.meta); }
//@proof after `let cond`
let ghost vx_y = self.output.cmds(); let ghost vx_c = cond;
//@proof end
proof { assert(snap_installed(vx_m, *self, vx_snap, vx_c, vx_y)); }
