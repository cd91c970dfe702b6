//@module vote
//@deps leader_id log_id
//@source openraft/src/vote/vote.rs
//@type Vote derive=Clone,Copy,PartialEq,Eq,Default
//@raw
/// Votes: by leader, then uncommitted before committed.
pub open spec fn vote_cmp(a: Vote, b: Vote) -> Ordering {
    if leader_cmp(a.leader_id, b.leader_id) != Ordering::Equal { leader_cmp(a.leader_id, b.leader_id) }
    else if a.committed == b.committed { Ordering::Equal }
    else if b.committed { Ordering::Less } else { Ordering::Greater }
}
pub open spec fn vote_le(a: Vote, b: Vote) -> bool { vote_cmp(a, b) != Ordering::Greater }
pub open spec fn vote_lt(a: Vote, b: Vote) -> bool { vote_cmp(a, b) == Ordering::Less }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Vote {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(vote_cmp(*self, *o)) }
}
/// The order is lawful: a total preorder whose equivalence is equality.
pub proof fn lemma_vote_order(a: Vote, b: Vote, c: Vote)
    ensures
        vote_cmp(a, a) == Ordering::Equal,
        vote_cmp(a, b) == Ordering::Equal ==> a == b,
        vote_lt(a, b) <==> vote_cmp(b, a) == Ordering::Greater,
        vote_le(a, b) && vote_le(b, c) ==> vote_le(a, c),
        vote_le(a, b) || vote_le(b, a),
        vote_le(a, b) && vote_lt(b, c) ==> vote_lt(a, c),
        // committed beats uncommitted of the same leader, and nothing else about `committed` matters
        a.leader_id == b.leader_id && a.committed && !b.committed ==> vote_lt(b, a),
        leader_lt(a.leader_id, b.leader_id) ==> vote_lt(a, b),
{
}
//@fn PartialOrd for Vote<NID>::partial_cmp
//@fn Vote::new
ensures r == (Vote { leader_id: LeaderId { term, node_id }, committed: false }),
//@fn Vote::new_committed
ensures r == (Vote { leader_id: LeaderId { term, node_id }, committed: true }),
//@fn Vote::commit
ensures final(self).leader_id == old(self).leader_id, final(self).committed,
//@fn Vote::into_committed
ensures r.vote == (Vote { leader_id: self.leader_id, committed: true }),
//@fn Vote::into_non_committed
requires !self.committed,
ensures r.vote == self,
//@fn Vote::is_committed
ensures r == self.committed,
//@fn Vote::leader_id
ensures *r == self.leader_id,
//@fn Vote::is_same_leader
ensures r == (self.leader_id == *leader_id),
//@source openraft/src/vote/committed.rs
//@type CommittedVote derive=Clone,Copy,PartialEq,Eq,PartialOrd
//@raw
impl vstd::std_specs::cmp::PartialOrdSpecImpl for CommittedVote {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(vote_cmp(self.vote, o.vote)) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for CommittedVote {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> Ordering { vote_cmp(self.vote, o.vote) }
}
//@fn Ord for CommittedVote<C>::cmp
//@fn CommittedVote::new
ensures r.vote == (Vote { leader_id: vote.leader_id, committed: true }),
//@fn CommittedVote::committed_leader_id
ensures r == self.vote.leader_id,
//@fn Deref for CommittedVote<C>::deref
ensures *r == self.vote,
//@source openraft/src/vote/non_committed.rs
//@type NonCommittedVote derive=Clone,Copy,PartialEq,Eq,PartialOrd
//@raw
impl vstd::std_specs::cmp::PartialOrdSpecImpl for NonCommittedVote {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(vote_cmp(self.vote, o.vote)) }
}
//@fn NonCommittedVote::new
requires !vote.committed,
ensures r.vote == vote,
//@fn Deref for NonCommittedVote<C>::deref
ensures *r == self.vote,
