//@module following
//@deps handlers
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq};
//@source openraft/src/engine/handler/following_handler/mod.rs
//@type FollowingHandler
//@raw
#[verifier::prophetic]
pub open spec fn fh_keep(a: FollowingHandler, b: FollowingHandler) -> bool {
    *final(b.state) == *final(a.state) && *final(b.output) == *final(a.output) && *final(b.config) == *final(a.config) && *b.config == *a.config && b.leader_vote == a.leader_vote
}
/// the memberships among entries, in order
pub open spec fn mems(s: Seq<Entry>) -> Seq<(LogId, Membership)>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { let t = mems(s.drop_first()); if s[0].payload.mem() is Some { seq![(s[0].log_id, s[0].payload.mem()->0)] + t } else { t } }
}
pub proof fn lemma_mems(a: Seq<Entry>, b: Seq<Entry>)
    ensures mems(a + b) == mems(a) + mems(b),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); assert(mems(a) + mems(b) =~= mems(b)); }
    else { assert((a + b).drop_first() =~= a.drop_first() + b); lemma_mems(a.drop_first(), b); assert(mems(a + b) =~= mems(a) + mems(b)); }
}
/// `r` are the last (at most two) of `m`
pub open spec fn last_two(r: Seq<StoredMembership>, m: Seq<(LogId, Membership)>) -> bool {
    &&& r.len() == (if m.len() <= 2 { m.len() as int } else { 2 })
    &&& forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).log_id == Some(m[m.len() - r.len() + i].0) && r[i].membership == m[m.len() - r.len() + i].1
}
//@fn FollowingHandler::last_two_memberships | shim
//@attrs #[verifier::loop_isolation(true)]
//@argty entries => Vec<&'a Entry>
ensures last_two(r@, mems(unref(entries@))),
//@proof start
let ghost ents = unref(entries@);
//@loop 0 iter=idx
invariant_except_break vx_i0 <= vx_it0@.len(), last_two(memberships@, mems(ents.skip(ents.len() - vx_i0))), memberships@.len() < 2,
invariant unref(vx_it0@) == ents.reverse(), ents == unref(entries@), vx_it0@.len() == ents.len(), ents.skip(0) == ents,
ensures last_two(memberships@, mems(ents)),
//@loop 0 start
proof {
  let vx_n = ents.len() as int; let vx_k = vx_i0 as int; let vx_s = ents.skip(vx_n - vx_k); let vx_t = ents.skip(vx_n - vx_k - 1);
  assert(vx_t.drop_first() =~= vx_s); assert(unref(vx_it0@)[vx_k] == ents.reverse()[vx_k]); assert(ents.reverse()[vx_k] == ents[vx_n - 1 - vx_k]); assert(vx_t[0] == ents[vx_n - 1 - vx_k]); assert(unref(vx_it0@)[vx_k] == *vx_it0@[vx_k]);
  assert(ents =~= ents.take(vx_n - vx_k - 1) + vx_t); lemma_mems(ents.take(vx_n - vx_k - 1), vx_t);
}
//@loop 0 before
assert(ents.skip(ents.len() as int) =~= Seq::empty()); assert(ents.skip(0) =~= ents);
//@proof before `memberships.insert`
let ghost vx_o = memberships@;
//@proof after `memberships.insert`
proof { assert(vx_o.insert(0, memberships@[0]) =~= memberships@); let vx_t = ents.skip(ents.len() - vx_i0 - 1); let vx_s = vx_t.drop_first(); assert(mems(vx_t) =~= seq![(vx_t[0].log_id, vx_t[0].payload.mem()->0)] + mems(vx_s));
  assert forall|i: int| 0 <= i < memberships@.len() implies (#[trigger] memberships@[i]).log_id == Some(mems(vx_t)[mems(vx_t).len() - memberships@.len() + i].0) && memberships@[i].membership == mems(vx_t)[mems(vx_t).len() - memberships@.len() + i].1 by { if i > 0 { assert(memberships@[i] == vx_o[i - 1]); } }
  assert(last_two(memberships@, mems(vx_t))); 
  let vx_p = ents.take(ents.len() - vx_i0 - 1); assert(mems(ents) =~= mems(vx_p) + mems(vx_t)); }
//@fn FollowingHandler::log_handler
ensures *r.config == *old(self).config, *r.state == *old(self).state, *r.output == *old(self).output,
  *final(final(self).state) == *final(old(self).state), *final(final(self).output) == *final(old(self).output), *final(final(self).config) == *final(old(self).config),
  *final(self).state == *final(r.state), *final(self).output == *final(r.output), *final(self).config == *final(r.config), final(self).leader_vote == old(self).leader_vote,
//@fn FollowingHandler::snapshot_handler
ensures *r.state == *old(self).state, *r.output == *old(self).output,
  *final(final(self).state) == *final(old(self).state), *final(final(self).output) == *final(old(self).output), *final(final(self).config) == *final(old(self).config),
  *final(self).state == *final(r.state), *final(self).output == *final(r.output), *final(self).config == *old(self).config, final(self).leader_vote == old(self).leader_vote,
//@fn FollowingHandler::server_state_handler
ensures *r.state == *old(self).state, *r.config == *old(self).config,
  *final(final(self).state) == *final(old(self).state), *final(final(self).output) == *final(old(self).output), *final(final(self).config) == *final(old(self).config),
  *final(self).state == *final(r.state), *final(self).config == *old(self).config, *final(self).output == *old(self).output, final(self).leader_vote == old(self).leader_vote,
//@raw
pub open spec fn role_state(s: RaftState, id: u64) -> RaftState { RaftState { server_state: role_of(s, id), ..s } }
/// the membership is the one before, when the log is cut before it
pub open spec fn cut_mem(m: MembershipState, since: int) -> MembershipState { if since <= lidx(m.effective.lid()) { MembershipState { committed: m.committed, effective: m.committed } } else { m } }
/// The log is cut at `since`, if it reaches that far.
pub open spec fn cut(a: RaftState, b: RaftState, x: Seq<Command>, y: Seq<Command>, since: int, id: u64) -> bool {
    if a.at(since) is None { b == a && y == x } else {
        &&& ids_cut(a.log_ids.key_log_ids@, b.log_ids.key_log_ids@, since)
        &&& b == ({ let s = RaftState { log_ids: b.log_ids, membership_state: cut_mem(a.membership_state, since), ..a }; if since <= lidx(a.membership_state.effective.lid()) { role_state(s, id) } else { s } })
        &&& y == x.push(Command::TruncateLog { since: a.at(since)->0 })
    }
}
pub open spec fn cut_pre(a: RaftState, since: int) -> bool { a.log_wf() && since >= a.purged_next && since >= next_idx(a.membership_state.committed.lid()) }
//@fn FollowingHandler::truncate_logs | math
requires old(self).state.log_wf(), since >= old(self).state.purged_next, old(self).state.at(since as int) is Some ==> cut_pre(*old(self).state, since as int),
ensures fh_keep(*old(self), *final(self)), cut(*old(self).state, *final(self).state, old(self).output.cmds(), final(self).output.cmds(), since as int, old(self).config.id),
//@fn FollowingHandler::ensure_log_consecutive
requires old(self).state.log_wf(), prev_log_id is Some ==> prev_pre(*old(self).state, prev_log_id->0),
ensures fh_keep(*old(self), *final(self)),
  r is Ok == (prev_log_id is None || old(self).state.has(prev_log_id->0)),
  r is Ok ==> *final(self).state == *old(self).state && final(self).output.cmds() == old(self).output.cmds(),
  // a conflict is reported, and removed
  r is Err ==> r->Err_0 == (RejectAppendEntries::ByConflictingLogId { expect: prev_log_id->0, local: old(self).state.at(prev_log_id->0.index as int) })
     && cut(*old(self).state, *final(self).state, old(self).output.cmds(), final(self).output.cmds(), prev_log_id->0.index as int, old(self).config.id),
//@raw
/// what the leader says agrees with what is committed here
pub open spec fn prev_pre(s: RaftState, prev: LogId) -> bool {
    &&& prev.index < next_idx(s.committed) ==> olog_le(Some(prev), s.committed)
    &&& !s.has(prev) ==> prev.index >= s.purged_next && (s.at(prev.index as int) is Some ==> cut_pre(s, prev.index as int))
}
/// the membership after entries are appended: the last one in the log, and the one before
pub open spec fn mem_after(a: MembershipState, b: MembershipState, m: Seq<(LogId, Membership)>) -> bool {
    let n = m.len();
    if n == 0 { b == a } else {
        &&& b.effective.wf() && b.effective.lid() == Some(m[n - 1].0) && b.effective.mem() == m[n - 1].1
        &&& if n == 1 { b.committed == a.effective } else { b.committed.wf() && b.committed.lid() == Some(m[n - 2].0) && b.committed.mem() == m[n - 2].1 }
    }
}
pub open spec fn mem_state(a: RaftState, b: RaftState, m: Seq<(LogId, Membership)>, id: u64) -> bool {
    mem_after(a.membership_state, b.membership_state, m) && b == ({ let s = RaftState { membership_state: b.membership_state, ..a }; if m.len() > 0 { role_state(s, id) } else { s } })
}
pub open spec fn mems_later(e: Option<LogId>, m: Seq<(LogId, Membership)>) -> bool {
    &&& forall|i: int| 0 <= i < m.len() ==> olog_lt(e, Some((#[trigger] m[i]).0)) && lidx(e) < m[i].0.index
    &&& forall|i: int, j: int| 0 <= i < j < m.len() ==> log_lt((#[trigger] m[i]).0, (#[trigger] m[j]).0) && m[i].0.index < m[j].0.index
}
//@fn FollowingHandler::append_membership | shim
//@argty entries => Vec<&'a Entry>
requires mems_later(old(self).state.membership_state.effective.lid(), mems(unref(entries@))),
ensures fh_keep(*old(self), *final(self)), *final(self).output == *old(self).output, mem_state(*old(self).state, *final(self).state, mems(unref(entries@)), old(self).config.id),
//@loop 0 iter=it
invariant 0 < it.seq().len() <= 2, forall|k: int| 0 <= k < it.seq().len() ==> (#[trigger] it.seq()[k]).0 == k,
  last_two(Seq::new(it.seq().len(), |k: int| it.seq()[k].1), mems(unref(entries@))), mems_later(old(self).state.membership_state.effective.lid(), mems(unref(entries@))),
  *self.config == *old(self).config, *self.output == *old(self).output, *self.state == (RaftState { membership_state: self.state.membership_state, ..*old(self).state }),
  it.index@ == 0 ==> *self.state == *old(self).state,
  it.index@ == 1 ==> self.state.membership_state.committed == old(self).state.membership_state.effective,
  it.index@ == 2 ==> self.state.membership_state.committed.wf() && self.state.membership_state.committed.lid() == it.seq()[0].1.log_id && self.state.membership_state.committed.mem() == it.seq()[0].1.membership,
  it.index@ > 0 ==> self.state.membership_state.effective.wf() && self.state.membership_state.effective.lid() == it.seq()[it.index@ - 1].1.log_id && self.state.membership_state.effective.mem() == it.seq()[it.index@ - 1].1.membership,
//@loop 0 start
proof { let vx_k = it.index@ as int; let vx_q = Seq::new(it.seq().len(), |k: int| it.seq()[k].1); assert(vx_q[vx_k] == it.seq()[vx_k].1); if vx_k > 0 { assert(vx_q[vx_k - 1] == it.seq()[vx_k - 1].1); } }
//@raw
/// entries of one log: in order, without a gap
pub open spec fn run_of(es: Seq<Entry>) -> bool {
    forall|i: int, j: int| 0 <= i < j < es.len() ==> leader_le((#[trigger] es[i]).log_id.leader_id, (#[trigger] es[j]).log_id.leader_id) && es[i].log_id.index + (j - i) == es[j].log_id.index
}
pub proof fn lemma_mems_run(es: Seq<Entry>)
    requires run_of(es),
    ensures forall|i: int| 0 <= i < mems(es).len() ==> exists|k: int| 0 <= k < es.len() && (#[trigger] mems(es)[i]).0 == (#[trigger] es[k]).log_id,
       forall|i: int, j: int| 0 <= i < j < mems(es).len() ==> log_lt((#[trigger] mems(es)[i]).0, (#[trigger] mems(es)[j]).0) && mems(es)[i].0.index < mems(es)[j].0.index,
    decreases es.len(),
{
    if es.len() > 0 {
        let t = es.drop_first();
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies leader_le((#[trigger] t[i]).log_id.leader_id, (#[trigger] t[j]).log_id.leader_id) && t[i].log_id.index + (j - i) == t[j].log_id.index by { assert(t[i] == es[i + 1] && t[j] == es[j + 1]); }
        lemma_mems_run(t);
        let m = mems(es); let n = mems(t); let d: int = if es[0].payload.mem() is Some { 1 } else { 0 };
        assert forall|i: int| d <= i < m.len() implies #[trigger] m[i] == n[i - d] by { }
        assert forall|i: int| 0 <= i < m.len() implies exists|k: int| 0 <= k < es.len() && (#[trigger] m[i]).0 == (#[trigger] es[k]).log_id by {
            if i >= d { let k = choose|k: int| 0 <= k < t.len() && n[i - d].0 == (#[trigger] t[k]).log_id; assert(es[k + 1] == t[k]); } else { assert(m[0].0 == es[0].log_id); }
        }
        assert forall|i: int, j: int| 0 <= i < j < m.len() implies log_lt((#[trigger] m[i]).0, (#[trigger] m[j]).0) && m[i].0.index < m[j].0.index by {
            if i < d { let k = choose|k: int| 0 <= k < t.len() && n[j - d].0 == (#[trigger] t[k]).log_id; assert(es[k + 1] == t[k]); assert(leader_le(es[0].log_id.leader_id, es[k + 1].log_id.leader_id)); }
            else { assert(m[i] == n[i - d] && m[j] == n[j - d]); }
        }
    }
}
pub open spec fn logged(a: RaftState, b: RaftState, es: Seq<Entry>, id: u64) -> bool {
    ids_ext(a.log_ids.key_log_ids@, b.log_ids.key_log_ids@, es) && mem_state(RaftState { log_ids: b.log_ids, ..a }, b, mems(es), id)
}
pub open spec fn append_cmd(x: Seq<Command>, y: Seq<Command>, v: CommittedVote, es: Seq<Entry>) -> bool {
    exists|e: Vec<Entry>| #[trigger] e@ == es && y == x.push(Command::AppendInputEntries { committed_vote: v, entries: e })
}
//@fn FollowingHandler::do_append_entries | shim
requires old(self).state.log_wf(), entries@.len() > 0, run_of(entries@), entries@[0].log_id.index == next_idx(old(self).state.last()), olog_lt(old(self).state.last(), Some(entries@[0].log_id)),
  pos_le(old(self).state.membership_state.effective.lid(), old(self).state.last()),
ensures fh_keep(*old(self), *final(self)), logged(*old(self).state, *final(self).state, entries@, old(self).config.id),
  append_cmd(old(self).output.cmds(), final(self).output.cmds(), old(self).leader_vote, entries@),
//@proof before `self.append_membership`
proof {
  lemma_mems_run(entries@);
  let vx_m = mems(entries@); let vx_e = old(self).state.membership_state.effective.lid();
  assert forall|i: int| 0 <= i < vx_m.len() implies olog_lt(vx_e, Some((#[trigger] vx_m[i]).0)) && lidx(vx_e) < vx_m[i].0.index by {
    let k = choose|k: int| 0 <= k < entries@.len() && vx_m[i].0 == (#[trigger] entries@[k]).log_id;
    if k > 0 { assert(leader_le(entries@[0].log_id.leader_id, entries@[k].log_id.leader_id)); }
  }
}
//@raw
/// what the leader sends is compatible with what is committed here
pub open spec fn agrees(a: RaftState, l: LogId) -> bool {
    &&& l.index < next_idx(a.committed) ==> olog_le(Some(l), a.committed)
    &&& l.index >= next_idx(a.committed) ==> olog_lt(a.committed, Some(l))
    &&& !a.has(l) && a.at(l.index as int) is Some ==> l.index >= next_idx(a.membership_state.committed.lid())
}
/// the memberships are of the log
pub open spec fn mem_logged(a: RaftState) -> bool { a.membership_state.ordered() && a.holds(a.membership_state.committed.lid()) && a.holds(a.membership_state.effective.lid()) }
pub open spec fn follows(prev: Option<LogId>, es: Seq<Entry>) -> bool {
    run_of(es) && (es.len() > 0 ==> es[0].log_id.index == next_idx(prev) && (prev is Some ==> leader_le(prev->0.leader_id, es[0].log_id.leader_id)))
}
pub open spec fn accept(a: RaftState, io: IOId) -> RaftState {
    RaftState { io_state: IOState { io_progress: IOProgress { accepted: if oio_le(Some(io), a.io_state.io_progress.accepted) { a.io_state.io_progress.accepted } else { Some(io) }, ..a.io_state.io_progress }, ..a.io_state }, ..a }
}
/// the first `r` entries are there already, the next is not
pub open spec fn first_new(a: RaftState, es: Seq<Entry>, r: int) -> bool {
    0 <= r <= es.len() && (forall|i: int| 0 <= i < r ==> a.has((#[trigger] es[i]).log_id)) && (r < es.len() ==> !a.has(es[r].log_id))
}
/// Of the entries, those that are not there replace what is at their place and after.
pub open spec fn taken(a: RaftState, b: RaftState, x: Seq<Command>, y: Seq<Command>, v: CommittedVote, es: Seq<Entry>, r: int, id: u64, s1: RaftState, x1: Seq<Command>) -> bool {
    &&& cut(a, s1, x, x1, es[r].log_id.index as int, id)
    &&& logged(s1, b, es.skip(r), id)
    &&& append_cmd(x1, y, v, es.skip(r))
}
pub open spec fn io_cmd(x: Seq<Command>, prev: Option<IOId>, io: IOId) -> Seq<Command> {
    if oio_le(Some(io), prev) { x } else { x.push(Command::UpdateIOProgress { when: match prev { None => None, Some(p) => Some(Condition::IOFlushed { io_id: p }) }, io_id: io }) }
}
pub open spec fn sent_last(prev: Option<LogId>, es: Seq<Entry>) -> Option<LogId> { if es.len() > 0 && olog_le(prev, Some(es.last().log_id)) { Some(es.last().log_id) } else { prev } }
/// where the log ends after the cut
pub proof fn lemma_taken(a: RaftState, s1: RaftState, prev: Option<LogId>, es: Seq<Entry>, r: int, x: Seq<Command>, y: Seq<Command>, id: u64)
    requires a.ordered(), follows(prev, es), prev is Some ==> a.has(prev->0) && agrees(a, prev->0), forall|i: int| 0 <= i < es.len() ==> agrees(a, (#[trigger] es[i]).log_id), mem_logged(a),
        first_new(a, es, r), r < es.len(), cut(a, s1, x, y, es[r].log_id.index as int, id),
    ensures s1.log_wf(), run_of(es.skip(r)), es[r].log_id.index == next_idx(s1.last()), olog_lt(s1.last(), Some(es[r].log_id)), pos_le(s1.membership_state.effective.lid(), s1.last()),
{
    broadcast use {lemma_at_some, lemma_at_mono};
    let n = es[r].log_id; let i = n.index as int;
    assert(agrees(a, n));
    assert forall|j: int, k: int| 0 <= j < k < es.skip(r).len() implies leader_le((#[trigger] es.skip(r)[j]).log_id.leader_id, (#[trigger] es.skip(r)[k]).log_id.leader_id) && es.skip(r)[j].log_id.index + (k - j) == es.skip(r)[k].log_id.index by { assert(es.skip(r)[j] == es[j + r] && es.skip(r)[k] == es[k + r]); }
    // the one before
    let p: Option<LogId> = if r == 0 { prev } else { Some(es[r - 1].log_id) };
    assert(next_idx(p) == i && (p is Some ==> a.has(p->0) && agrees(a, p->0) && leader_le(p->0.leader_id, n.leader_id)));
    assert(i >= next_idx(a.committed));
    assert(i >= a.purged_next);
    assert(a.first() is Some ==> a.last() is Some && a.at(a.first()->0.index as int) is Some && a.at(a.last()->0.index as int) == a.last()) by { if a.first() is Some { lemma_ids_head(a.log_ids.key_log_ids@, a.first()->0.index as int); lemma_ids_key(a.log_ids.key_log_ids@, a.log_ids.key_log_ids@.len() - 1); } }
    assert(i <= next_idx(a.last()));
    assert(i > 0 ==> a.at(i - 1) is Some) by { if i > 0 { } }
    assert(i > 0 ==> leader_le(a.at(i - 1)->0.leader_id, n.leader_id)) by {
        if i > 0 && p->0.index < next_idx(a.committed) { assert(p->0.index == a.committed->0.index); }
    }
    if s1.last() is Some { lemma_ids_head(s1.log_ids.key_log_ids@, s1.first()->0.index as int); lemma_ids_key(s1.log_ids.key_log_ids@, s1.log_ids.key_log_ids@.len() - 1); assert(s1.at(s1.last()->0.index as int) == s1.last()); }
    assert(i > 0 ==> s1.at(i - 1) == a.at(i - 1));
    assert(s1.at(i) is None);
    assert(next_idx(s1.last()) == i) by {
        if i > 0 { assert(s1.at(i - 1) is Some); assert(s1.last()->0.index >= i - 1); if s1.last()->0.index >= i { assert(s1.at(i) is Some); } }
        else { if s1.last() is Some { assert(a.purged_next == 0); } }
    }
    assert(s1.last() == (if i > 0 { a.at(i - 1) } else { None }));
    let m = s1.membership_state.effective.lid();
    assert(lidx(m) < i && (m == a.membership_state.effective.lid() || m == a.membership_state.committed.lid()));
    lemma_holds_le(a, m);
}
//@fn FollowingHandler::append_entries | shim
requires old(self).state.ordered(), follows(prev_log_id, entries@), prev_log_id is Some ==> old(self).state.has(prev_log_id->0),
  prev_log_id is Some ==> agrees(*old(self).state, prev_log_id->0), forall|i: int| 0 <= i < entries@.len() ==> agrees(*old(self).state, (#[trigger] entries@[i]).log_id),
  mem_logged(*old(self).state),
  old(self).state.io_state.io_progress.accepted is Some ==> vote_le(old(self).state.io_state.io_progress.accepted->0.vote_v(), old(self).leader_vote.vote),
ensures fh_keep(*old(self), *final(self)),
  ({ let io = IOId::Log(LogIOId { committed_vote: old(self).leader_vote, log_id: sent_last(prev_log_id, entries@) }); let a = accept(*old(self).state, io);
     exists|r: int| #[trigger] first_new(*old(self).state, entries@, r) && (
       if r == entries@.len() { *final(self).state == a && final(self).output.cmds() == io_cmd(old(self).output.cmds(), old(self).state.io_state.io_progress.accepted, io) }
       else { exists|s1: RaftState, x1: Seq<Command>| #[trigger] taken(a, *final(self).state, old(self).output.cmds(), final(self).output.cmds(), old(self).leader_vote, entries@, r, old(self).config.id, s1, x1) }) }),
//@proof start
let ghost es = entries@;
//@proof before `if since < l`
proof {
  assert(*self.state == accept(*old(self).state, IOId::Log(LogIOId { committed_vote: old(self).leader_vote, log_id: last_log_id })));
  assert(last_log_id == sent_last(prev_log_id, es));
  assert forall|i: int| 0 <= i < since implies old(self).state.has((#[trigger] es[i]).log_id) by { assert(self.state.has(entries@[i].rl_log_id())); assert(entries@[i].rl_log_id() == es[i].log_id); }
  if since < l { assert(es[since as int].rl_log_id() == es[since as int].log_id); }
  assert(first_new(*old(self).state, es, since as int)); assert(first_new(*self.state, es, since as int));
}
//@proof before `self.truncate_logs`
let ghost vx_a = *self.state; let ghost vx_r = since as int;
proof { let vx_s = *old(self).state; let l = es[vx_r].log_id; assert(agrees(vx_s, l)); assert(vx_a.log_wf()); assert(forall|i: int| vx_a.at(i) == vx_s.at(i)); assert(!vx_s.has(l)); }
//@proof before `self.do_append_entries`
let ghost vx_1 = *self.state; let ghost vx_x1 = self.output.cmds();
proof { lemma_taken(vx_a, vx_1, prev_log_id, es, vx_r, old(self).output.cmds(), vx_x1, self.config.id); assert(entries@ =~= es.skip(vx_r)); }
//@proof after `self.do_append_entries`
proof { assert(taken(vx_a, *self.state, old(self).output.cmds(), self.output.cmds(), old(self).leader_vote, es, vx_r, old(self).config.id, vx_1, vx_x1)); }
//@proof end
proof { if since < l { assert(first_new(*old(self).state, es, since as int)); } }
//@raw
/// what the leader has committed and this node has accepted
pub open spec fn commit_to(a: RaftState, l: Option<LogId>) -> Option<LogId> {
    let acc = match a.io_state.io_progress.accepted { Some(io) => io.log_v(), None => None };
    if olog_le(acc, l) { acc } else { l }
}
//@fn FollowingHandler::commit_entries | shim
requires commit_pre(*old(self).state, commit_to(*old(self).state, leader_committed)),
ensures fh_keep(*old(self), *final(self)),
  ({ let a = *old(self).state; let c = commit_to(a, leader_committed); let x = old(self).output.cmds(); let p = old(self).config.snapshot_policy;
     if !olog_lt(a.committed, c) { *final(self).state == a && final(self).output.cmds() == x } else {
       let b = committed_state(a, c);
       *final(self).state == snap_state(b, p)
       && final(self).output.cmds() == snap_cmds(b, x.push(Command::SaveCommitted { committed: c->0 }).push(Command::Apply { already_committed: a.committed, upto: c->0 }), p)
     } }),
//@raw
/// the membership a snapshot carries is committed
pub open spec fn snap_mem(a: MembershipState, b: MembershipState, m: StoredMembership) -> bool {
    &&& b.wf()
    &&& if olog_lt(a.committed.lid(), m.log_id) { b.committed.lid() == m.log_id && b.committed.mem() == m.membership } else { b.committed == a.committed }
    &&& if lidx(m.log_id) >= lidx(a.effective.lid()) { b.effective.lid() == m.log_id && b.effective.mem() == m.membership } else { b.effective == a.effective }
}
//@fn FollowingHandler::update_committed_membership
requires membership.lid() == old(self).state.membership_state.committed.lid() ==> membership.mem() == old(self).state.membership_state.committed.mem(), membership.wf(), old(self).state.membership_state.wf(),
ensures fh_keep(*old(self), *final(self)), *final(self).output == *old(self).output,
  snap_mem(old(self).state.membership_state, final(self).state.membership_state, StoredMembership { log_id: membership.lid(), membership: membership.mem() }),
  *final(self).state == role_state(RaftState { membership_state: final(self).state.membership_state, ..*old(self).state }, old(self).config.id),
//@raw
/// the log here differs from the one the snapshot is of
pub open spec fn conflicts(a: RaftState, l: LogId) -> bool { match a.at(l.index as int) { Some(x) => x != l, None => !olog_le(a.last(), Some(l)) } }
pub open spec fn imax(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn installed(a: RaftState, b: RaftState, x: Seq<Command>, y: Seq<Command>, snap: Snapshot, io: IOId, id: u64, s2: RaftState, x2: Seq<Command>, s3: RaftState) -> bool {
    let l = snap.meta.last_log_id->0;
    let s1 = RaftState { snapshot_meta: snap.meta, ..a };
    &&& if conflicts(a, l) { cut(s1, s2, x, x2, imax(next_idx(a.committed), next_idx(a.membership_state.committed.lid())), id) }
        else if a.at(l.index as int) is None { s2 == (RaftState { membership_state: cut_mem(a.membership_state, next_idx(a.membership_state.committed.lid())), ..s1 }) && x2 == x }
        else { s2 == s1 && x2 == x }
    &&& snap_mem(s2.membership_state, s3.membership_state, snap.meta.last_membership)
    &&& s3 == (RaftState { purge_upto: Some(l), ..role_state(RaftState { committed: Some(l), membership_state: s3.membership_state, ..accept(s2, io) }, id) })
    &&& purge_step(s3, b, x2.push(Command::StateMachine { command: sm::Command::InstallFullSnapshot { io_id: io, snapshot: snap } }), y)
}
/// what is left of the log after the conflict is removed comes before the snapshot
pub proof fn lemma_install(a: RaftState, s2: RaftState, x: Seq<Command>, y: Seq<Command>, l: LogId, id: u64)
    requires a.log_wf(), pos_le(a.committed, a.last()), next_idx(a.committed) >= a.purged_next, a.committed is Some ==> a.at(a.committed->0.index as int) == a.committed,
       mem_logged(a), olog_lt(a.committed, Some(l)), lidx(a.committed) < l.index,
       conflicts(a, l) ==> cut(a, s2, x, y, imax(next_idx(a.committed), next_idx(a.membership_state.committed.lid())), id) && olog_lt(a.membership_state.committed.lid(), Some(l)) && lidx(a.membership_state.committed.lid()) < l.index,
       !conflicts(a, l) ==> s2.log_ids == a.log_ids && s2.purged_next == a.purged_next,
    ensures s2.log_wf(), l.index >= next_idx(s2.last()) && s2.last() is Some ==> log_lt(s2.last()->0, l), s2.purged_next == a.purged_next, s2.purged() == a.purged(),
{
    broadcast use {lemma_at_some, lemma_at_mono};
    let since = imax(next_idx(a.committed), next_idx(a.membership_state.committed.lid()));
    assert(a.first() is Some ==> a.at(a.first()->0.index as int) == a.first() && a.at(a.last()->0.index as int) == a.last()) by { if a.first() is Some { lemma_ids_head(a.log_ids.key_log_ids@, a.first()->0.index as int); lemma_ids_key(a.log_ids.key_log_ids@, a.log_ids.key_log_ids@.len() - 1); } }
    if s2.first() is Some { lemma_ids_head(s2.log_ids.key_log_ids@, s2.first()->0.index as int); lemma_ids_key(s2.log_ids.key_log_ids@, s2.log_ids.key_log_ids@.len() - 1); assert(s2.at(s2.last()->0.index as int) == s2.last() && s2.at(s2.first()->0.index as int) == s2.first()); }
    if conflicts(a, l) && a.at(since) is Some {
        assert(since >= a.purged_next);
        if a.purged_next > 0 { assert(s2.at(a.first()->0.index as int) == a.first()); assert(s2.first()->0.index <= a.first()->0.index);
            assert(a.at(s2.first()->0.index as int) == s2.first()); }
        if a.purged_next == 0 && s2.first() is Some { assert(a.at(s2.first()->0.index as int) == s2.first()); assert(a.first()->0.index <= 0); assert(s2.at(0) == a.at(0)); }
        if s2.last() is Some {
            let i = s2.last()->0.index as int;
            assert(i < since); assert(a.at(i) == s2.last()); 
            if i < since - 1 { assert(a.at(since - 1) == s2.at(since - 1)); assert(a.at(since - 1) is Some); assert(false); }
            let m = a.membership_state.committed.lid();
            if since == next_idx(a.committed) { assert(a.at(i) == a.committed); } else { assert(m->0.index == i); assert(m->0.index >= a.first()->0.index); assert(a.at(i) == m); }
        }
    } else if conflicts(a, l) && a.last() is Some { 
        let m = a.membership_state.committed.lid(); let z = a.last()->0.index as int;
        assert(z < since) by { if z >= since { assert(since >= a.first()->0.index) by { assert(since >= a.purged_next); } assert(a.at(since) is Some); } }
        lemma_holds_le(a, m);
        if since == next_idx(a.committed) { assert(a.at(z) == a.committed); } else { assert(m->0.index == z); assert(m->0.index >= a.first()->0.index); assert(a.at(z) == m); }
    }
}
//@fn FollowingHandler::install_full_snapshot | shim
//@attrs #[verifier::rlimit(40)]
requires old(self).state.ordered(), mem_logged(*old(self).state), old(self).state.membership_state.wf(),
  old(self).state.io_state.io_progress.accepted is Some ==> vote_le(old(self).state.io_state.io_progress.accepted->0.vote_v(), old(self).leader_vote.vote),
  snapshot.meta.last_log_id is Some ==> snapshot.meta.last_log_id->0.index < u64::MAX,
  // the snapshot is of what is committed, so it does not conflict with a committed membership
  snapshot.meta.last_log_id is Some && conflicts(*old(self).state, snapshot.meta.last_log_id->0) ==> olog_lt(old(self).state.membership_state.committed.lid(), snapshot.meta.last_log_id) && lidx(old(self).state.membership_state.committed.lid()) < lidx(snapshot.meta.last_log_id),
  olog_lt(old(self).state.committed, snapshot.meta.last_log_id) ==> lidx(old(self).state.committed) < lidx(snapshot.meta.last_log_id),
  snapshot.meta.last_membership.log_id == old(self).state.membership_state.committed.lid() ==> snapshot.meta.last_membership.membership == old(self).state.membership_state.committed.mem(),
ensures fh_keep(*old(self), *final(self)),
  r is Some == olog_lt(old(self).state.committed, snapshot.meta.last_log_id),
  r is None ==> *final(self).state == *old(self).state && *final(self).output == *old(self).output,
  r is Some ==> r == Some(Condition::Snapshot { log_id: snapshot.meta.last_log_id }) && exists|s2: RaftState, x2: Seq<Command>, s3: RaftState| #[trigger] installed(*old(self).state, *final(self).state, old(self).output.cmds(), final(self).output.cmds(), snapshot,
     IOId::Log(LogIOId { committed_vote: old(self).leader_vote, log_id: snapshot.meta.last_log_id }), old(self).config.id, s2, x2, s3),
  // a membership in logs the snapshot replaces is no longer effective
  r is Some && old(self).state.at(lidx(snapshot.meta.last_log_id)) != snapshot.meta.last_log_id && lidx(snapshot.meta.last_membership.log_id) >= lidx(old(self).state.membership_state.committed.lid()) && old(self).state.at(imax(next_idx(old(self).state.committed), next_idx(old(self).state.membership_state.committed.lid()))) is Some
     && lidx(old(self).state.membership_state.effective.lid()) >= imax(next_idx(old(self).state.committed), next_idx(old(self).state.membership_state.committed.lid()))
     ==> final(self).state.membership_state.effective.lid() == snapshot.meta.last_membership.log_id && final(self).state.membership_state.effective.mem() == snapshot.meta.last_membership.membership,
//@proof after `let conflict`
let ghost vx_1 = *self.state;
//@proof before `let io_id`
let ghost vx_2 = *self.state; let ghost vx_x2 = self.output.cmds(); let ghost vx_l = snap_last_log_id; let ghost vx_snap = snapshot;
proof { lemma_install(vx_1, vx_2, old(self).output.cmds(), vx_x2, vx_l, self.config.id); }
//@proof before `self.log_handler`
let ghost vx_3 = *self.state;
proof { assert(vx_3.log_ids == vx_2.log_ids); }
//@proof after `self.log_handler`
proof {
  let vx_i = IOId::Log(LogIOId { committed_vote: old(self).leader_vote, log_id: vx_snap.meta.last_log_id }); let vx_a = *old(self).state; let vx_id = old(self).config.id;
  assert(vx_1 == (RaftState { snapshot_meta: vx_snap.meta, ..vx_a }));
  assert(conflicts(vx_a, vx_l) == conflicts(vx_1, vx_l));
  assert(accept(vx_2, vx_i).io_state == vx_3.io_state);
  assert(installed(vx_a, *self.state, old(self).output.cmds(), self.output.cmds(), vx_snap, vx_i, vx_id, vx_2, vx_x2, vx_3));
  assert(self.state.membership_state == vx_3.membership_state);
  if vx_a.at(lidx(Some(vx_l))) != Some(vx_l) && lidx(vx_snap.meta.last_membership.log_id) >= lidx(vx_a.membership_state.committed.lid()) && vx_a.at(imax(next_idx(vx_a.committed), next_idx(vx_a.membership_state.committed.lid()))) is Some && lidx(vx_a.membership_state.effective.lid()) >= imax(next_idx(vx_a.committed), next_idx(vx_a.membership_state.committed.lid())) {
    if conflicts(vx_a, vx_l) { assert(vx_2.membership_state.effective == vx_a.membership_state.committed); } else { assert(vx_2.membership_state.effective == vx_a.membership_state.committed); }
    assert(snap_mem(vx_2.membership_state, vx_3.membership_state, vx_snap.meta.last_membership));
    assert(vx_3.membership_state.effective.lid() == vx_snap.meta.last_membership.log_id);
  }
}
