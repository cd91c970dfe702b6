//@module quorum
//@deps quorum_spec
//@source openraft/src/quorum/quorum_set_impl.rs
//@raw
pub trait QuorumSetView {
    spec fn qs_wf(&self) -> bool;
    spec fn qs_ids(&self) -> Set<u64>;
    spec fn qs_quorum(&self, ids: Set<u64>) -> bool;
}
pub trait QuorumSet: QuorumSetView {
    fn is_quorum(&self, ids: Vec<&u64>) -> (r: bool)
        requires self.qs_wf(), unref(ids@).no_duplicates(),
        ensures r == self.qs_quorum(ids_of(ids@));
    fn ids(&self) -> (r: Vec<u64>)
        requires self.qs_wf(),
        ensures lists_set(r@, self.qs_ids());
}
impl QuorumSetView for BTreeSet<u64> {
    open spec fn qs_wf(&self) -> bool { true }
    open spec fn qs_ids(&self) -> Set<u64> { self@ }
    open spec fn qs_quorum(&self, ids: Set<u64>) -> bool { majority(self@, ids) }
}
impl QuorumSetView for Vec<u64> {
    open spec fn qs_wf(&self) -> bool { self@.no_duplicates() }
    open spec fn qs_ids(&self) -> Set<u64> { self@.to_set() }
    open spec fn qs_quorum(&self, ids: Set<u64>) -> bool { majority(self@.to_set(), ids) }
}
impl<'x> QuorumSetView for &'x [u64] {
    open spec fn qs_wf(&self) -> bool { self@.no_duplicates() }
    open spec fn qs_ids(&self) -> Set<u64> { self@.to_set() }
    open spec fn qs_quorum(&self, ids: Set<u64>) -> bool { majority(self@.to_set(), ids) }
}
impl<T: QuorumSet> QuorumSetView for Arc<T> {
    open spec fn qs_wf(&self) -> bool { (**self).qs_wf() }
    open spec fn qs_ids(&self) -> Set<u64> { (**self).qs_ids() }
    open spec fn qs_quorum(&self, ids: Set<u64>) -> bool { (**self).qs_quorum(ids) }
}
//@substall ID => u64
//@fn QuorumSet<ID> for BTreeSet<ID>::is_quorum | math
//@subst I => Vec<&'a u64>
//@proof start
broadcast use group_count;
//@loop 0 iter=it
invariant it.seq() == ids@, count == 2 * count_in(self@, ids@, it.index@ as int), count <= limit,
//@fn QuorumSet<ID> for BTreeSet<ID>::ids | shim
//@retty Vec<u64>
//@fn QuorumSet<ID> for Vec<ID>::is_quorum | math
//@subst I => Vec<&'a u64>
//@proof start
broadcast use group_count;
proof { self@.unique_seq_to_set(); }
//@loop 0 iter=it
invariant it.seq() == ids@, count == 2 * count_in(self@.to_set(), ids@, it.index@ as int), count <= limit,
//@fn QuorumSet<ID> for Vec<ID>::ids | shim
//@retty Vec<u64>

//@fn QuorumSet<ID> for &[ID]::is_quorum | math
//@subst I => Vec<&'a u64>
//@proof start
broadcast use group_count;
proof { self@.unique_seq_to_set(); }
//@loop 0 iter=it
invariant it.seq() == ids@, count == 2 * count_in(self@.to_set(), ids@, it.index@ as int), count <= limit,
//@fn QuorumSet<ID> for &[ID]::ids | shim
//@retty Vec<u64>
//@source openraft/src/quorum/quorum_set.rs
//@fn QuorumSet<ID> for Arc<T>::is_quorum | shim
//@subst I => Vec<&'a u64>
//@fn QuorumSet<ID> for Arc<T>::ids | shim
//@retty Vec<u64>
