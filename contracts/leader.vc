//@module leader
//@deps progress raft_state
//@substall QS => Joint<Vec<Vec<u64>>>
//@names Leader Candidate
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq};
//@source openraft/src/proposer/leader.rs
//@type Leader
//@raw
impl Leader {
    pub open spec fn leader_id(&self) -> LeaderId { self.committed_vote.vote.leader_id }
    /// A leader proposes with its own term, after its last log; its first log is the noop.
    pub open spec fn wf(&self) -> bool {
        &&& self.progress.wf() && self.clock_progress.wf()
        &&& self.committed_vote.vote.committed
        &&& self.noop_log_id is Some && self.noop_log_id->0.leader_id == self.leader_id()
        &&& self.last_log_id is Some ==> leader_le(self.last_log_id->0.leader_id, self.leader_id())
        &&& if self.last_log_id is Some && self.last_log_id->0.leader_id == self.leader_id() { self.noop_log_id->0.index <= self.last_log_id->0.index }
            else { self.noop_log_id->0.index == next_idx(self.last_log_id) }
    }
}
pub open spec fn fresh_entry(l: Option<LogId>) -> ProgressEntry { ProgressEntry { matching: None, inflight: Inflight::None, searching_end: next_idx(l) as u64 } }
pub open spec fn last_of(s: Seq<LogId>) -> Option<LogId> { if s.len() == 0 { None } else { Some(s.last()) } }
pub open spec fn first_of(s: Seq<LogId>) -> Option<LogId> { if s.len() == 0 { None } else { Some(s[0]) } }
/// a leader that has just taken over, from a log that ends with the logs `first` to `last` of one leader
pub open spec fn new_leader(r: Leader, vote: CommittedVote, q: Joint<Vec<Vec<u64>>>, learners: Set<u64>, first: Option<LogId>, last: Option<LogId>) -> bool {
    &&& r.transfer_to is None && r.committed_vote == vote && r.last_log_id == last
    &&& r.noop_log_id == (if first is Some && first->0.leader_id == vote.vote.leader_id { first } else { Some(LogId { leader_id: vote.vote.leader_id, index: next_idx(last) as u64 }) })
    &&& r.progress.wf() && r.clock_progress.wf() && r.progress.quorum_set == q && r.clock_progress.quorum_set == q
    &&& r.progress.granted is None && r.clock_progress.granted is None
    &&& forall|x: u64| (q.qs_ids().contains(x) || learners.contains(x)) == (#[trigger] r.progress.of(x) is Some)
    &&& forall|x: u64| (q.qs_ids().contains(x) || learners.contains(x)) == (#[trigger] r.clock_progress.of(x) is Some)
    &&& forall|x: u64| #[trigger] r.progress.of(x) is Some ==> r.progress.of(x)->0 == fresh_entry(last)
    &&& forall|x: u64| #[trigger] r.clock_progress.of(x) is Some ==> r.clock_progress.of(x)->0 is None
}
//@fn Leader::new | shim
//@argty learner_ids => Vec<u64>
requires vote.vote.committed, quorum_set.qs_wf(), learner_ids@.no_duplicates(),
  forall|i: int| 0 <= i < learner_ids@.len() ==> !quorum_set.qs_ids().contains(#[trigger] learner_ids@[i]),
  last_leader_log_id@.len() > 0 ==> leader_le(last_leader_log_id@.last().leader_id, vote.vote.leader_id) && last_leader_log_id@[0].leader_id == last_leader_log_id@.last().leader_id
     && last_leader_log_id@[0].index <= last_leader_log_id@.last().index && last_leader_log_id@.last().index < u64::MAX,
ensures new_leader(r, vote, quorum_set, learner_ids@.to_set(), first_of(last_leader_log_id@), last_of(last_leader_log_id@)), r.wf(),
//@proof start
proof { lemma_lawful_log_id(); lemma_lawful_instant(); }
//@closure 0
|| -> (o: ProgressEntry) ensures o == fresh_entry(last_log_id)
//@closure 1
|| -> (o: Option<Instant>) ensures o is None
//@fn Leader::noop_log_id
ensures deref_opt(r) == self.noop_log_id,
//@fn Leader::last_log_id
ensures deref_opt(r) == self.last_log_id,
//@fn Leader::committed_vote_ref
ensures *r == self.committed_vote,
//@fn Leader::mark_transfer
ensures *final(self) == (Leader { transfer_to: Some(to), ..*old(self) }),
//@fn Leader::get_transfer_to
ensures deref_opt(r) == self.transfer_to,
//@raw
/// the ids given to entries proposed by this leader; nothing else of them changes
pub open spec fn assigned<LID: RaftLogIdView>(l: Leader, o: Seq<LID>, s: Seq<LID>) -> bool {
    s.len() == o.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).rl_log_id() == (LogId { leader_id: l.leader_id(), index: (next_idx(l.last_log_id) + i) as u64 })
        && s[i] == o[i].rl_with(s[i].rl_log_id())
}
//@fn Leader::assign_log_ids | math
//@argty entries => &mut Vec<LID>
requires old(self).wf(), old(self).transfer_to is None, next_idx(old(self).last_log_id) + old(entries)@.len() < u64::MAX,
ensures final(self).wf(), assigned(*old(self), old(entries)@, final(entries)@),
  *final(self) == (Leader { last_log_id: final(self).last_log_id, ..*old(self) }),
  final(self).last_log_id == (if old(entries)@.len() == 0 { old(self).last_log_id } else { Some(final(entries)@.last().rl_log_id()) }),
//@loop 0 iter=mut
invariant vx_i0 <= vx_it0@.len(), vx_it0@.len() == old(entries)@.len(), *self == *old(self), last.leader_id == first.leader_id, last.index == first.index + vx_i0,
  first == (LogId { leader_id: self.leader_id(), index: next_idx(self.last_log_id) as u64 }), next_idx(old(self).last_log_id) + old(entries)@.len() < u64::MAX,
  forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] vx_it0@[i]).rl_log_id() == (LogId { leader_id: first.leader_id, index: (first.index + i) as u64 }) && vx_it0@[i] == old(entries)@[i].rl_with(vx_it0@[i].rl_log_id()),
  forall|i: int| vx_i0 <= i < vx_it0@.len() ==> #[trigger] vx_it0@[i] == old(entries)@[i],
//@fn Leader::last_quorum_acked_time
requires old(self).wf(),
ensures final(self).wf(), r == final(self).clock_progress.granted, *final(self) == (Leader { clock_progress: final(self).clock_progress, ..*old(self) }),
  ple(old(self).clock_progress.granted, r),
  // only what is recorded for this node changes
  only(old(self).clock_progress.vector@, final(self).clock_progress.vector@, old(self).leader_id().node_id),
  same_voters(old(self).clock_progress, final(self).clock_progress),
//@proof start
proof { lemma_lawful_instant(); }
//@source openraft/src/proposer/candidate.rs
//@type Candidate
//@raw
impl Candidate {
    pub open spec fn voters(&self) -> Set<u64> { self.quorum_set.qs_ids() }
    /// the nodes that granted the candidate's vote
    pub open spec fn granted(&self) -> Set<u64> { self.progress.reached(true) }
    pub open spec fn wf(&self) -> bool {
        &&& self.progress.wf() && self.progress.quorum_set == self.quorum_set && self.quorum_set.qs_wf()
        &&& self.learner_ids@.no_duplicates()
        &&& forall|i: int| 0 <= i < self.learner_ids@.len() ==> !self.quorum_set.qs_ids().contains(#[trigger] self.learner_ids@[i])
        &&& self.last_log_id is Some ==> leader_le(self.last_log_id->0.leader_id, self.vote.leader_id) && self.last_log_id->0.index < u64::MAX
    }
}
//@fn Candidate::new | shim
//@rewrite `[]` => `Vec::new()`
//@argty learner_ids => Vec<u64>
requires quorum_set.qs_wf(), learner_ids@.no_duplicates(), forall|i: int| 0 <= i < learner_ids@.len() ==> !quorum_set.qs_ids().contains(#[trigger] learner_ids@[i]),
  last_log_id is Some ==> leader_le(last_log_id->0.leader_id, vote.leader_id) && last_log_id->0.index < u64::MAX,
ensures r.wf(), r.starting_time == starting_time, r.vote == vote, r.last_log_id == last_log_id, r.quorum_set == quorum_set, r.learner_ids@ == learner_ids@,
   r.granted() =~= Set::empty(), r.progress.granted == false, forall|x: u64| quorum_set.qs_ids().contains(x) == (#[trigger] r.progress.of(x) is Some),
//@proof start
proof { lemma_lawful_bool(); }
//@closure 0
|| -> (o: bool) ensures !o
//@proof end
proof { assert forall|x: u64| !r.granted().contains(x) by { if r.progress.of(x) is Some { assert(!r.progress.of(x)->0); } } }
//@fn Candidate::vote_ref
ensures *r == self.vote,
//@fn Candidate::last_log_id
ensures deref_opt(r) == self.last_log_id,
//@fn Candidate::progress
ensures *r == self.progress,
//@fn Candidate::grant_by
requires old(self).wf(), old(self).progress.of(*target) is Some,
ensures final(self).wf(), *final(self) == (Candidate { progress: final(self).progress, ..*old(self) }),
   final(self).granted() =~= (if old(self).voters().contains(*target) { old(self).granted().insert(*target) } else { old(self).granted() }),
   forall|x: u64| (#[trigger] final(self).progress.of(x) is Some) == (old(self).progress.of(x) is Some),
   // a quorum of the voters granted
   r == final(self).progress.granted,
   r ==> old(self).quorum_set.qs_quorum(final(self).granted()) || forall|x: u64| #[trigger] old(self).voters().contains(x) ==> final(self).granted().contains(x),
   has_voters(old(self).quorum_set) && old(self).quorum_set.qs_quorum(final(self).granted()) ==> r,
//@proof start
proof { lemma_lawful_bool(); }
//@proof after `let granted`
proof { assert(plt(false, true)); let vx_r = self.progress.reached(true); }
//@fn Candidate::into_leader | shim
requires self.wf(), !self.vote.committed,
ensures r.wf(), new_leader(r, CommittedVote { vote: Vote { leader_id: self.vote.leader_id, committed: true } }, self.quorum_set, self.learner_ids@.to_set(), self.last_log_id, self.last_log_id),
//@source openraft/src/raft_state/mod.rs
//@raw
/// the first log id of the last leader in a log
pub open spec fn first_of_leader(s: Seq<LogId>) -> Option<LogId> {
    if s.len() == 0 { None } else { Some(s[choose|k: int| first_at(s, k)]) }
}
pub open spec fn first_at(s: Seq<LogId>, k: int) -> bool { 0 <= k < s.len() && s[k].leader_id == s.last().leader_id && forall|i: int| 0 <= i < k ==> (#[trigger] s[i]).leader_id != s.last().leader_id }
pub proof fn lemma_first_of_leader(s: Seq<LogId>)
    ensures forall|k: int| #[trigger] first_at(s, k) ==> first_of_leader(s) == Some(s[k]),
{
    assert forall|k: int| #[trigger] first_at(s, k) implies first_of_leader(s) == Some(s[k]) by {
        let c = choose|c: int| first_at(s, c);
        if c < k { assert(s[c].leader_id != s.last().leader_id); } else if k < c { assert(s[k].leader_id != s.last().leader_id); }
    }
}
pub proof fn lemma_learners(m: Membership)
    ensures forall|l: Seq<u64>| #[trigger] l.to_set() == m.nodes@.dom().difference(mvoters(m)) ==> forall|i: int| 0 <= i < l.len() ==> !mvoters(m).contains(#[trigger] l[i]),
{
    assert forall|l: Seq<u64>, i: int| #[trigger] l.to_set() == m.nodes@.dom().difference(mvoters(m)) && 0 <= i < l.len() implies !mvoters(m).contains(#[trigger] l[i]) by { assert(l.to_set().contains(l[i])); }
}
/// `r` takes over with the committed vote, log and membership of `s`
pub open spec fn leads_from(r: Leader, s: RaftState) -> bool {
    &&& vviews(r.progress.quorum_set.data@) == mv(s.mem()).cfgs
    &&& new_leader(r, CommittedVote { vote: s.v() }, r.progress.quorum_set, s.mem().nodes@.dom().difference(mvoters(s.mem())), first_of_leader(s.log_ids.key_log_ids@), s.last())
}
//@fn RaftState::new_leader
requires old(self).log_wf(), old(self).v().committed, old(self).last() is Some ==> leader_le(old(self).last()->0.leader_id, old(self).v().leader_id) && old(self).last()->0.index < u64::MAX,
ensures *final(self) == *old(self), r.wf(), leads_from(r, *old(self)),
//@proof start
proof { lemma_learners(self.mem()); lemma_first_of_leader(self.log_ids.key_log_ids@); }
//@proof after `let last_leader_log_ids`
proof { let vx_k = self.log_ids.key_log_ids@; if vx_k.len() > 0 { assert(last_leader_log_ids@[0] == vx_k[vx_k.len() - last_leader_log_ids@.len()]); assert(first_at(vx_k, vx_k.len() - last_leader_log_ids@.len())); } }
