//@module log_id
//@deps leader_id
//@source openraft/src/log_id/mod.rs
//@type LogId derive=Clone,Copy,PartialEq,Eq,PartialOrd,Ord,Default
//@raw
/// Logs are ordered by the leader that proposed them, then by index.
pub open spec fn log_id_cmp(a: LogId, b: LogId) -> Ordering {
    if leader_cmp(a.leader_id, b.leader_id) == Ordering::Equal { u64_cmp(a.index, b.index) } else { leader_cmp(a.leader_id, b.leader_id) }
}
pub open spec fn log_lt(a: LogId, b: LogId) -> bool { log_id_cmp(a, b) == Ordering::Less }
pub open spec fn log_le(a: LogId, b: LogId) -> bool { log_id_cmp(a, b) != Ordering::Greater }
pub open spec fn olog_le(a: Option<LogId>, b: Option<LogId>) -> bool { a is None || (b is Some && log_le(a->0, b->0)) }
pub open spec fn olog_lt(a: Option<LogId>, b: Option<LogId>) -> bool { b is Some && (a is None || log_lt(a->0, b->0)) }
pub open spec fn leader_le(a: LeaderId, b: LeaderId) -> bool { leader_cmp(a, b) != Ordering::Greater }
pub open spec fn leader_lt(a: LeaderId, b: LeaderId) -> bool { leader_cmp(a, b) == Ordering::Less }
pub open spec fn next_idx(a: Option<LogId>) -> int { match a { None => 0, Some(x) => x.index + 1 } }
pub open spec fn oidx(a: Option<u64>) -> int { match a { None => -1, Some(x) => x as int } }
pub open spec fn lidx(a: Option<LogId>) -> int { match a { None => -1, Some(x) => x.index as int } }
pub open spec fn deref_opt<T>(a: Option<&T>) -> Option<T> { match a { None => None, Some(x) => Some(*x) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for LogId {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(log_id_cmp(*self, *o)) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for LogId {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { log_id_cmp(*self, *o) }
}
//@fn LogId::new
ensures r.leader_id == leader_id, r.index == index,
//@fn LogId::committed_leader_id
ensures *r == self.leader_id,
//@source openraft/src/log_id/log_id_option_ext.rs
//@raw
pub trait LogIdOptionView {
    spec fn lo_view(&self) -> Option<LogId>;
}
impl LogIdOptionView for Option<LogId> { open spec fn lo_view(&self) -> Option<LogId> { *self } }
impl LogIdOptionView for Option<&LogId> { open spec fn lo_view(&self) -> Option<LogId> { deref_opt(*self) } }
pub trait LogIdOptionExt: LogIdOptionView {
    fn index(&self) -> (r: Option<u64>)
        ensures r == (match self.lo_view() { None => None::<u64>, Some(x) => Some(x.index) });
    fn next_index(&self) -> (r: u64)
        ensures r as int == next_idx(self.lo_view());
}
//@fn LogIdOptionExt for Option<LogId<NID>>::index
//@fn LogIdOptionExt for Option<LogId<NID>>::next_index | math
//@fn LogIdOptionExt for Option<&LogId<NID>>::index
//@fn LogIdOptionExt for Option<&LogId<NID>>::next_index | math
//@source openraft/src/log_id/raft_log_id.rs
//@raw
pub trait RaftLogIdView: Sized {
    spec fn rl_log_id(&self) -> LogId;
    /// the same but for its log id
    spec fn rl_with(&self, id: LogId) -> Self;
}
pub trait RaftLogId: RaftLogIdView {
    fn get_log_id(&self) -> (r: &LogId)
        ensures *r == self.rl_log_id();
    fn set_log_id(&mut self, log_id: &LogId)
        ensures final(self).rl_log_id() == *log_id, *final(self) == old(self).rl_with(*log_id);
}
impl RaftLogIdView for LogId { open spec fn rl_log_id(&self) -> LogId { *self } open spec fn rl_with(&self, id: LogId) -> LogId { id } }
//@source openraft/src/log_id/mod.rs
//@fn RaftLogId<NID> for LogId<NID>::get_log_id
//@fn RaftLogId<NID> for LogId<NID>::set_log_id
//@source openraft/src/log_id/raft_log_id.rs
//@fn RaftLogId::leader_id | as=LogId
ensures *r == self.leader_id,
