//@module startup
//@deps load following
//@names StorageHelper LogState
//@raw
broadcast use {vx_axioms::group_vx_eq};
#[verifier::external_body]
pub struct AnyError { _p: u8 }
impl AnyError {
    #[verifier::external_body]
    pub fn error(s: String) -> Self { unimplemented!() }
}
impl StorageError {
    #[verifier::external_body]
    pub fn read_log_at_index(i: u64, e: AnyError) -> Self { unimplemented!() }
}
//@source openraft/src/storage/log_state.rs
//@type LogState
//@raw
/// What a log store holds: the entries of a run of indexes, and the positions it reports.
pub struct Stored { pub entries: Map<int, Entry>, pub purged: Option<LogId>, pub last: Option<LogId>, pub vote: Option<Vote>, pub committed: Option<LogId> }
impl Stored {
    pub open spec fn lo(self) -> int { next_idx(self.purged) }
    pub open spec fn hi(self) -> int { next_idx(self.last) }
    /// the entries stored from `a` up to but not including `b`
    pub open spec fn window(self, a: int, b: int) -> Seq<Entry> { let x = if a < self.lo() { self.lo() } else { a }; let y = if b > self.hi() { self.hi() } else { b };
        if x >= y { Seq::empty() } else { Seq::new((y - x) as nat, |k: int| self.entries[x + k]) } }
    pub open spec fn ids(self) -> Map<int, LogId> { Map::new(vstd::set_lib::set_int_range(self.lo(), self.hi()), |i: int| self.entries[i].log_id) }
    /// every index after the purged one up to the last has an entry, at its index, leaders in order
    pub open spec fn wf(self) -> bool {
        &&& pos_le(self.purged, self.last)
        &&& self.hi() > self.lo() ==> self.last == Some(self.entries[self.hi() - 1].log_id)
        &&& self.hi() == self.lo() ==> self.last == self.purged
        &&& forall|i: int| self.lo() <= i < self.hi() ==> (#[trigger] self.entries[i]).log_id.index == i && (self.purged is Some ==> leader_le(self.purged->0.leader_id, self.entries[i].log_id.leader_id))
        &&& forall|i: int, j: int| self.lo() <= i <= j < self.hi() ==> leader_le((#[trigger] self.entries[i]).log_id.leader_id, (#[trigger] self.entries[j]).log_id.leader_id)
    }
}
/// The application's log store (RaftLogStorage): reads answer what is stored.
#[verifier::external_body]
pub struct LogStore { _p: u8 }
#[verifier::external_body]
pub struct LogReader { _p: u8 }
impl LogStore {
    pub uninterp spec fn st(&self) -> Stored;
    #[verifier::external_body]
    pub fn get_log_reader(&mut self) -> (r: LogReader) ensures *final(self) == *old(self), r.st() == old(self).st() { unimplemented!() }
    #[verifier::external_body]
    pub fn read_committed(&mut self) -> (r: Result<Option<LogId>, StorageError>) ensures *final(self) == *old(self), r is Ok ==> r->Ok_0 == old(self).st().committed { unimplemented!() }
    #[verifier::external_body]
    pub fn get_log_state(&mut self) -> (r: Result<LogState, StorageError>) ensures *final(self) == *old(self), r is Ok ==> (r->Ok_0).last_purged_log_id == old(self).st().purged && (r->Ok_0).last_log_id == old(self).st().last { unimplemented!() }
    /// purges up to a log id past everything stored: nothing is left
    #[verifier::external_body]
    pub fn purge(&mut self, l: LogId) -> (r: Result<(), StorageError>)
        requires lidx(old(self).st().last) <= l.index,
        ensures r is Ok ==> final(self).st() == (Stored { purged: Some(l), last: Some(l), ..old(self).st() }) { unimplemented!() }
}
impl RaftLogReaderExt for LogReader {
    open spec fn log(&self) -> Map<int, LogId> { self.st().ids() }
    #[verifier::external_body]
    fn get_log_id(&mut self, i: u64) -> (r: Result<LogId, StorageError>) { unimplemented!() }
}
impl LogReader {
    pub uninterp spec fn st(&self) -> Stored;
    #[verifier::external_body]
    pub fn read_vote(&mut self) -> (r: Result<Option<Vote>, StorageError>) ensures *final(self) == *old(self), r is Ok ==> r->Ok_0 == old(self).st().vote { unimplemented!() }
    #[verifier::external_body]
    pub fn try_get_log_entries(&mut self, g: core::ops::Range<u64>) -> (r: Result<Vec<Entry>, StorageError>) ensures *final(self) == *old(self), r is Ok ==> (r->Ok_0)@ == old(self).st().window(g.start as int, g.end as int) { unimplemented!() }
}
/// What a state machine holds: the entries applied to it since it was opened, in order, and what it reports.
pub struct Machine { pub done: Seq<Entry>, pub applied: Option<LogId>, pub mem: StoredMembership, pub snap: Option<SnapshotMeta> }
#[verifier::external_body]
pub struct StateMachine { _p: u8 }
#[verifier::external_body]
pub struct SnapshotBuilder { _p: u8 }
impl SnapshotBuilder {
    pub uninterp spec fn st(&self) -> Machine;
    #[verifier::external_body]
    pub fn build_snapshot(&mut self) -> (r: Result<Snapshot, StorageError>) ensures r is Ok ==> (r->Ok_0).meta.last_log_id == old(self).st().applied && (r->Ok_0).meta.last_membership == old(self).st().mem { unimplemented!() }
}
pub open spec fn after_apply(m: Machine, es: Seq<Entry>) -> Machine {
    Machine { done: m.done + es, applied: if es.len() == 0 { m.applied } else { Some(es.last().log_id) },
      mem: if mems(es).len() == 0 { m.mem } else { StoredMembership { log_id: Some(mems(es).last().0), membership: mems(es).last().1 } }, ..m }
}
impl StateMachine {
    pub uninterp spec fn st(&self) -> Machine;
    #[verifier::external_body]
    pub fn applied_state(&mut self) -> (r: Result<(Option<LogId>, StoredMembership), StorageError>) ensures *final(self) == *old(self), r is Ok ==> (r->Ok_0).0 == old(self).st().applied && (r->Ok_0).1 == old(self).st().mem { unimplemented!() }
    #[verifier::external_body]
    pub fn apply(&mut self, es: Vec<Entry>) -> (r: Result<Vec<VxOpaque>, StorageError>) ensures r is Ok ==> final(self).st() == after_apply(old(self).st(), es@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_current_snapshot(&mut self) -> (r: Result<Option<Snapshot>, StorageError>) ensures *final(self) == *old(self),
        r is Ok ==> (r->Ok_0 is Some) == (old(self).st().snap is Some), r is Ok && r->Ok_0 is Some ==> (r->Ok_0)->0.meta == old(self).st().snap->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn get_snapshot_builder(&mut self) -> (r: SnapshotBuilder) ensures *final(self) == *old(self), r.st() == old(self).st() { unimplemented!() }
}
//@source openraft/src/storage/helper.rs
//@type StorageHelper drop_fields=_p
//@raw
pub proof fn lemma_window(s: Stored, a: int, b: int, c: int)
    requires s.wf(), s.lo() <= a <= b <= c, b <= s.hi(),
    ensures s.window(a, c) == s.window(a, b) + s.window(b, c),
       s.window(a, b).len() == b - a, a < b ==> s.window(a, b)[0].log_id.index == a,
{
    assert(s.window(a, c) =~= s.window(a, b) + s.window(b, c));
    if a < b { assert(s.entries[a].log_id.index == a); }
}
pub proof fn lemma_after_apply(m: Machine, x: Seq<Entry>, y: Seq<Entry>)
    ensures after_apply(after_apply(m, x), y) == after_apply(m, x + y),
{
    lemma_mems(x, y);
    assert(m.done + x + y =~= m.done + (x + y));
    if y.len() == 0 { assert(x + y =~= x); } else { assert((x + y).last() == y.last()); }
    if mems(y).len() == 0 { assert(mems(x + y) =~= mems(x)); } else { assert(mems(x + y).last() == mems(y).last()); }
}
//@fn StorageHelper::reapply_committed | shim math
requires (*old(self).log_store).st().wf(), start >= next_idx((*old(self).log_store).st().purged),
ensures
  *final(self).log_store == *old(self).log_store,
  *final(final(self).log_store) == *final(old(self).log_store), *final(final(self).state_machine) == *final(old(self).state_machine),
  // each log once, in order, without a gap
  r is Ok ==> (*final(self).state_machine).st() == after_apply((*old(self).state_machine).st(), (*old(self).log_store).st().window(start as int, end as int))
    && (start < end ==> end <= next_idx((*old(self).log_store).st().last)),
//@proof start
let ghost start0 = start; let ghost vx_st = (*self.log_store).st(); let ghost vx_sm = (*self.state_machine).st();
proof { if start0 >= vx_st.hi() { assert(vx_st.window(start0 as int, start0 as int) =~= Seq::empty()); } }
//@loop 0
invariant start0 <= start, start0 < end ==> start <= end, start0 >= end ==> start == start0, vx_st == (*old(self).log_store).st(), vx_st.wf(), log_reader.st() == vx_st, start0 >= vx_st.lo(), start0 < start ==> start <= vx_st.hi(),
  vx_sm == (*old(self).state_machine).st(), *self.log_store == *old(self).log_store, *final(self.log_store) == *final(old(self).log_store), *final(self.state_machine) == *final(old(self).state_machine),
  (*self.state_machine).st() == after_apply(vx_sm, vx_st.window(start0 as int, start as int)),
decreases end - start,
//@loop 0 before
proof { assert(vx_st.window(start0 as int, start0 as int) =~= Seq::empty()); assert(mems(Seq::<Entry>::empty()).len() == 0); assert(after_apply(vx_sm, Seq::empty()).done =~= vx_sm.done); assert(after_apply(vx_sm, vx_st.window(start0 as int, start as int)) == vx_sm); }
//@loop 0 start
let ghost vx_s = start;
proof { assert(vx_st.lo() <= vx_s); if vx_s < vx_st.hi() { assert(vx_st.entries[vx_s as int].log_id.index == vx_s); } }
//@loop 0 end
proof { lemma_window(vx_st, start0 as int, vx_s as int, start as int); lemma_after_apply(vx_sm, vx_st.window(start0 as int, vx_s as int), vx_st.window(vx_s as int, start as int)); }
//@proof before `if first != Some(start)`
proof { let w = vx_st.window(start as int, chunk_end as int); if w.len() > 0 { let k = start + w.len() - 1; assert(vx_st.entries[k].log_id.index == k); assert(w.last() == vx_st.entries[k]); } }
//@proof end
proof { if start0 >= end { assert(vx_st.window(start0 as int, end as int) =~= vx_st.window(start0 as int, start0 as int)); } }
//@raw
/// the last two memberships stored from an index on
pub open spec fn stored_mems(s: Stored, since: int) -> Seq<(LogId, Membership)> { mems(s.window(since, s.hi())) }
//@raw
/// what has been found in the entries of `[a, hi)` so far
#[verifier::opaque]
pub open spec fn found(r: Seq<StoredMembership>, es: Seq<Entry>) -> bool { last_two(r, mems(es)) }
/// the next entry downwards has no membership
pub proof fn lemma_found_skip(r: Seq<StoredMembership>, s: Seq<Entry>, t: Seq<Entry>)
    requires found(r, s), t.len() > 0, t.drop_first() == s, t[0].payload.mem() is None,
    ensures found(r, t),
{ reveal(found); assert(mems(t) =~= mems(s)); }
/// the next entry downwards has one
pub proof fn lemma_found_mem(o: Seq<StoredMembership>, r: Seq<StoredMembership>, s: Seq<Entry>, t: Seq<Entry>)
    requires found(o, s), o.len() < 2, t.len() > 0, t.drop_first() == s, t[0].payload.mem() is Some, r.len() == o.len() + 1, r == o.insert(0, r[0]), r[0].log_id == Some(t[0].log_id), r[0].membership == t[0].payload.mem()->0,
    ensures found(r, t),
{
    reveal(found);
    assert(mems(t) =~= seq![(t[0].log_id, t[0].payload.mem()->0)] + mems(s));
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).log_id == Some(mems(t)[mems(t).len() - r.len() + i].0) && r[i].membership == mems(t)[mems(t).len() - r.len() + i].1 by { if i > 0 { assert(r[i] == o[i - 1]); } }
}
/// two have been found: those are the last two of everything
pub proof fn lemma_found_done(r: Seq<StoredMembership>, p: Seq<Entry>, t: Seq<Entry>)
    requires found(r, t), r.len() == 2,
    ensures last_two(r, mems(p + t)),
{ reveal(found); lemma_mems(p, t); }
pub open spec fn below(es: Seq<Entry>, w: Seq<Entry>, k: int) -> Seq<Entry> { es.skip(es.len() - k) + w }
//@fn StorageHelper::last_membership_in_log | shim
//@attrs #[verifier::loop_isolation(true)] #[verifier::rlimit(60)]
requires (*old(self).log_store).st().wf(),
ensures
  *final(self).log_store == *old(self).log_store, *final(self).state_machine == *old(self).state_machine,
  *final(final(self).log_store) == *final(old(self).log_store), *final(final(self).state_machine) == *final(old(self).state_machine),
  r is Ok ==> last_two((r->Ok_0)@, stored_mems((*old(self).log_store).st(), since_index as int)),
//@proof start
let ghost vx_st = (*self.log_store).st();
//@loop 0
invariant res@.len() < 2, vx_st == (*old(self).log_store).st(), vx_st.wf(), log_reader.st() == vx_st, end <= vx_st.hi(), start == (if vx_st.lo() >= since_index { vx_st.lo() } else { since_index as int }), step == 64,
  *self.log_store == *old(self).log_store, *self.state_machine == *old(self).state_machine, *final(self.log_store) == *final(old(self).log_store), *final(self.state_machine) == *final(old(self).state_machine),
  found(res@, vx_st.window(if start <= end { end as int } else { start as int }, vx_st.hi())),
decreases end,
//@loop 0 before
proof { assert(vx_st.window(if start <= end { end as int } else { start as int }, vx_st.hi()) =~= Seq::empty()); reveal(found); }
//@loop 0 start
let ghost vx_w = vx_st.window(end as int, vx_st.hi());
//@loop 1 iter=idx
invariant vx_i1 <= vx_it1@.len(), found(res@, below(ents, vx_w, vx_i1 as int)), res@.len() < 2,
  unref(vx_it1@) == ents.reverse(), ents == entries@, vx_it1@.len() == ents.len(), 
  vx_st.wf(), end <= vx_st.hi(), start < end, step_start >= start, start == (if vx_st.lo() >= since_index { vx_st.lo() } else { since_index as int }),
  vx_w == vx_st.window(end as int, vx_st.hi()), ents == vx_st.window(step_start as int, end as int), vx_st == (*old(self).log_store).st(), 
  *self.log_store == *old(self).log_store, *self.state_machine == *old(self).state_machine, *final(self.log_store) == *final(old(self).log_store), *final(self.state_machine) == *final(old(self).state_machine),
//@loop 1 start
let ghost vx_n = ents.len() as int; let ghost vx_k = vx_i1 as int; let ghost vx_s = below(ents, vx_w, vx_k); let ghost vx_t = below(ents, vx_w, vx_k + 1);
proof {
  assert(vx_t.drop_first() =~= vx_s); assert(unref(vx_it1@)[vx_k] == ents.reverse()[vx_k]); assert(ents.reverse()[vx_k] == ents[vx_n - 1 - vx_k]); assert(vx_t[0] == ents[vx_n - 1 - vx_k]); assert(unref(vx_it1@)[vx_k] == *vx_it1@[vx_k]);
}
//@loop 1 before
let ghost ents = entries@;
proof { assert(below(ents, vx_w, 0) =~= vx_w); }
//@proof before `res.insert`
let ghost vx_o = res@;
//@proof after `res.insert`
proof { assert(vx_o.insert(0, res@[0]) =~= res@); lemma_found_mem(vx_o, res@, vx_s, vx_t); 
  if res@.len() == 2 {
    let vx_p = vx_st.window(since_index as int, step_start as int) + ents.take(vx_n - vx_k - 1);
    assert(vx_st.window(since_index as int, vx_st.hi()) =~= vx_p + vx_t); lemma_found_done(res@, vx_p, vx_t); }
}
//@loop 1 end
proof { if vx_t[0].payload.mem() is None { lemma_found_skip(res@, vx_s, vx_t); } }
//@loop 1 after
proof { assert(below(ents, vx_w, ents.len() as int) =~= vx_st.window(step_start as int, vx_st.hi())); }
//@loop 0 after
proof { reveal(found); assert(vx_st.window(since_index as int, vx_st.hi()) =~= vx_st.window(start as int, vx_st.hi())); }
//@raw
pub open spec fn mem_of(e: EffectiveMembership, s: StoredMembership) -> bool { e.wf() && e.lid() == s.log_id && e.mem() == s.membership }
/// The memberships of a node that starts: of the logs it has not applied, or else of its state machine.
pub open spec fn mems_loaded(r: MembershipState, sm: StoredMembership, m: Seq<(LogId, Membership)>) -> bool {
    if m.len() == 0 { mem_of(*r.committed, sm) && mem_of(*r.effective, sm) }
    else {
        &&& mem_of(*r.effective, StoredMembership { log_id: Some(m.last().0), membership: m.last().1 })
        &&& mem_of(*r.committed, if m.len() == 1 { sm } else { StoredMembership { log_id: Some(m[m.len() - 2].0), membership: m[m.len() - 2].1 } })
    }
}
//@fn StorageHelper::get_membership | shim
requires (*old(self).log_store).st().wf(),
ensures
  *final(self).log_store == *old(self).log_store, *final(self).state_machine == *old(self).state_machine,
  *final(final(self).log_store) == *final(old(self).log_store), *final(final(self).state_machine) == *final(old(self).state_machine),
  r is Ok ==> mems_loaded(r->Ok_0, (*old(self).state_machine).st().mem, stored_mems((*old(self).log_store).st(), next_idx((*old(self).state_machine).st().applied))),
//@raw
/// a committed log id, where the log still has it, is the one in the log
pub open spec fn fits(s: Stored, l: Option<LogId>) -> bool {
    &&& olog_le(l, s.last) ==> l is Some && s.lo() <= l->0.index ==> l->0.index < s.hi() && s.entries[l->0.index as int].log_id == l->0
    &&& olog_lt(s.last, l) ==> s.hi() <= next_idx(l)
    &&& l is Some && l->0.index < s.lo() ==> olog_le(l, s.purged)
    &&& next_idx(l) == s.lo() ==> l == s.purged
}
/// what it knows committed, of what it has: what was not flushed when it stopped is lost, and the state machine may be ahead
pub open spec fn known_of(s: Stored) -> Option<LogId> { if olog_lt(s.last, s.committed) { s.last } else { s.committed } }
pub open spec fn committed_of(s: Stored, m: Machine) -> Option<LogId> { if olog_lt(known_of(s), m.applied) { m.applied } else { known_of(s) } }
/// What a node finds when it starts is what it left: its state machine has what it purged, and ids it knows committed are of the same log.
pub open spec fn left_behind(s: Stored, m: Machine) -> bool {
    &&& s.wf()
    &&& pos_le(s.purged, m.applied) && fits(s, m.applied) && fits(s, s.committed)
    &&& olog_lt(m.applied, known_of(s)) ==> lidx(m.applied) < lidx(known_of(s))
    &&& m.snap is Some ==> pos_le(m.snap->0.last_log_id, m.applied) && fits(s, m.snap->0.last_log_id)
}
/// what it has purged: everything, if its state machine is ahead of its log
pub open spec fn purged_of(s: Stored, m: Machine) -> Option<LogId> { if olog_lt(s.last, committed_of(s, m)) { committed_of(s, m) } else { s.purged } }
pub open spec fn last_of(s: Stored, m: Machine) -> Option<LogId> { if olog_lt(s.last, committed_of(s, m)) { committed_of(s, m) } else { s.last } }
/// the machine after it has applied what is committed
pub open spec fn caught_up(s: Stored, m: Machine) -> Machine { after_apply(m, s.window(next_idx(m.applied), next_idx(committed_of(s, m)))) }
//@fn StorageHelper::get_initial_state | shim
requires left_behind((*old(self).log_store).st(), (*old(self).state_machine).st()),
ensures
  *final(final(self).log_store) == *final(old(self).log_store), *final(final(self).state_machine) == *final(old(self).state_machine),
  r is Ok ==> ({ let s = (*old(self).log_store).st(); let m = (*old(self).state_machine).st(); let c = committed_of(s, m); let x = r->Ok_0;
    // every committed log the state machine has not applied yet is applied, once, in order
    &&& (*final(self).state_machine).st() == caught_up(s, m) && caught_up(s, m).applied == c
    // the vote is the one stored
    &&& match s.vote { Some(v) => x.v() == v, None => x.v() == (Vote { leader_id: LeaderId { term: 0, node_id: 0 }, committed: false }) }
    &&& x.committed == c && x.io_state.applied == c
    // the logs are those stored
    &&& x.purge_upto == purged_of(s, m) && x.purged_next == next_idx(purged_of(s, m)) && x.last() == last_of(s, m)
    &&& forall|i: int| next_idx(purged_of(s, m)) <= i < next_idx(last_of(s, m)) ==> #[trigger] x.at(i) == Some(s.entries[i].log_id)
    &&& mems_loaded(x.membership_state, caught_up(s, m).mem, stored_mems(s, next_idx(c)))
    // the snapshot is the one there is, or, if that has not all that is purged, one made of everything applied
    &&& if m.snap is Some && !olog_lt(m.snap->0.last_log_id, purged_of(s, m)) { x.snapshot_meta == m.snap->0 } else if purged_of(s, m) is Some { x.snapshot_meta.last_log_id == c && x.snapshot_meta.last_membership == caught_up(s, m).mem } else { x.snapshot_meta.last_log_id is None }
    &&& x.ordered() && x.io_state.wf()
  }),
