//@module leader_id
//@source openraft/src/vote/leader_id/leader_id_adv.rs
//@type LeaderId derive=Clone,Copy,PartialEq,Eq,PartialOrd,Ord,Default
//@type CommittedLeaderId
//@raw
/// The order the protocol relies on: by term, then by node id.
pub open spec fn leader_cmp(a: LeaderId, b: LeaderId) -> Ordering {
    if a.term < b.term { Ordering::Less }
    else if a.term > b.term { Ordering::Greater }
    else { u64_cmp(a.node_id, b.node_id) }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for LeaderId {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(leader_cmp(*self, *o)) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for LeaderId {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { leader_cmp(*self, *o) }
}
//@fn LeaderId::new
ensures r.term == term, r.node_id == node_id,
//@fn LeaderId::get_term
ensures r == self.term,
//@fn LeaderId::voted_for
ensures r == Some(self.node_id),
//@fn LeaderId::to_committed
ensures r == *self,
//@fn LeaderId::is_same_as_committed
ensures r == (*self == *other),
