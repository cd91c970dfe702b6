//@module io
//@deps vote utime
//@source openraft/src/raft_state/io_state/log_io_id.rs
//@type LogIOId derive=Clone,Copy,PartialEq,Eq,PartialOrd
//@raw
impl vstd::std_specs::cmp::PartialOrdSpecImpl for LogIOId {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> {
        Some(if vote_cmp(self.committed_vote.vote, o.committed_vote.vote) != Ordering::Equal { vote_cmp(self.committed_vote.vote, o.committed_vote.vote) } else { olog_cmp(self.log_id, o.log_id) })
    }
}
pub open spec fn olog_cmp(a: Option<LogId>, b: Option<LogId>) -> Ordering {
    match (a, b) { (None, None) => Ordering::Equal, (None, Some(_)) => Ordering::Less, (Some(_), None) => Ordering::Greater, (Some(x), Some(y)) => log_id_cmp(x, y) }
}
//@fn LogIOId::new
ensures r == (LogIOId { committed_vote, log_id }),
//@source openraft/src/raft_state/io_state/io_id.rs
//@type IOId derive=Clone,Copy,PartialEq,Eq
//@raw
impl IOId {
    pub open spec fn vote_v(self) -> Vote { match self { IOId::Vote(v) => v.vote, IOId::Log(l) => l.committed_vote.vote } }
    pub open spec fn log_v(self) -> Option<LogId> { match self { IOId::Vote(v) => None, IOId::Log(l) => l.log_id } }
    /// a vote write is of an uncommitted vote, a log write of a committed one
    pub open spec fn wf(self) -> bool { self is Log <==> self.vote_v().committed }
}
pub open spec fn io_cmp(a: IOId, b: IOId) -> Ordering {
    if vote_cmp(a.vote_v(), b.vote_v()) != Ordering::Equal { vote_cmp(a.vote_v(), b.vote_v()) } else { olog_cmp(a.log_v(), b.log_v()) }
}
pub open spec fn io_le(a: IOId, b: IOId) -> bool { io_cmp(a, b) != Ordering::Greater }
pub open spec fn oio_le(a: Option<IOId>, b: Option<IOId>) -> bool { a is None || (b is Some && io_le(a->0, b->0)) }
pub proof fn lemma_io_order(a: IOId, b: IOId, c: IOId)
    ensures io_le(a, b) && io_le(b, c) ==> io_le(a, c), io_le(a, b) || io_le(b, a), io_cmp(a, a) == Ordering::Equal,
       io_cmp(a, b) == Ordering::Less <==> io_cmp(b, a) == Ordering::Greater,
       a.wf() && b.wf() && io_cmp(a, b) == Ordering::Equal ==> a == b,
{ }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for IOId {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(io_cmp(*self, *o)) }
}
//@fn PartialOrd for IOId<C>::partial_cmp
//@fn IOId::new
ensures r.vote_v() == vote, r.log_v() is None, r.wf(),
//@fn IOId::new_vote_io
ensures r == IOId::Vote(vote),
//@fn IOId::new_log_io
ensures r == IOId::Log(LogIOId { committed_vote, log_id: last_log_id }),
//@fn IOId::vote_ref
ensures *r == self.vote_v(),
//@fn IOId::last_log_id
ensures deref_opt(r) == self.log_v(),
//@source openraft/src/raft_state/io_state/io_progress.rs
//@substall T => IOId
//@type IOProgress derive=Clone
//@raw
impl IOProgress {
    /// what is flushed was submitted, what is submitted was accepted
    pub open spec fn ordered(self) -> bool { oio_le(self.flushed, self.submitted) && oio_le(self.submitted, self.accepted) }
}
//@fn Default for IOProgress<T>::default
ensures r.accepted is None, r.submitted is None, r.flushed is None, r.ordered(),
//@fn IOProgress::accept
requires old(self).accepted is Some ==> io_le(old(self).accepted->0, new_accepted),
ensures *final(self) == (IOProgress { accepted: Some(new_accepted), ..*old(self) }),
  old(self).ordered() ==> final(self).ordered(),
//@fn IOProgress::submit
requires old(self).submitted is Some ==> io_le(old(self).submitted->0, new_submitted),
ensures *final(self) == (IOProgress { submitted: Some(new_submitted), ..*old(self) }),
//@fn IOProgress::flush
requires old(self).flushed is Some ==> io_le(old(self).flushed->0, new_flushed),
ensures *final(self) == (IOProgress { flushed: Some(new_flushed), ..*old(self) }),
//@fn IOProgress::try_submit
ensures (old(self).submitted is None || io_le(old(self).submitted->0, new_submitted)) ==> *final(self) == (IOProgress { submitted: Some(new_submitted), ..*old(self) }),
  old(self).submitted is Some && !io_le(old(self).submitted->0, new_submitted) ==> *final(self) == *old(self),
  oio_le(old(self).submitted, final(self).submitted), oio_le(Some(new_submitted), final(self).submitted),
//@fn IOProgress::try_flush
ensures (old(self).flushed is None || io_le(old(self).flushed->0, new_flushed)) ==> *final(self) == (IOProgress { flushed: Some(new_flushed), ..*old(self) }),
  old(self).flushed is Some && !io_le(old(self).flushed->0, new_flushed) ==> *final(self) == *old(self),
  oio_le(old(self).flushed, final(self).flushed), oio_le(Some(new_flushed), final(self).flushed),
//@fn IOProgress::accepted
ensures deref_opt(r) == self.accepted,
//@fn IOProgress::submitted
ensures deref_opt(r) == self.submitted,
//@fn IOProgress::flushed
ensures deref_opt(r) == self.flushed,
//@substall
//@source openraft/src/raft_state/io_state.rs
//@type IOState derive=Clone,Default
//@raw
impl IOState {
    /// What storage has done stays in order: purged <= snapshot <= applied.
    pub open spec fn wf(self) -> bool {
        &&& self.io_progress.ordered()
        &&& olog_le(self.snapshot, self.applied)
        &&& olog_le(self.purged, self.snapshot)
    }
}
//@fn IOState::new
ensures r.io_progress.accepted is Some, r.io_progress.accepted->0.vote_v() == vote, r.io_progress.accepted->0.log_v() is None,
  r.io_progress.accepted->0.wf(),
  r.io_progress.submitted == r.io_progress.accepted, r.io_progress.flushed == r.io_progress.accepted,
  r.io_progress.ordered(),
  r.applied == applied, r.snapshot == snapshot, r.purged == purged, !r.building_snapshot,
//@fn IOState::update_applied
requires olog_lt(old(self).applied, log_id),
ensures *final(self) == (IOState { applied: log_id, ..*old(self) }), olog_lt(old(self).applied, final(self).applied),
//@fn IOState::applied
ensures deref_opt(r) == self.applied,
//@fn IOState::update_snapshot
requires olog_le(old(self).snapshot, log_id),
ensures *final(self) == (IOState { snapshot: log_id, ..*old(self) }), olog_le(old(self).snapshot, final(self).snapshot),
//@fn IOState::snapshot
ensures deref_opt(r) == self.snapshot,
//@fn IOState::set_building_snapshot
ensures *final(self) == (IOState { building_snapshot: building, ..*old(self) }),
//@fn IOState::building_snapshot
ensures r == self.building_snapshot,
//@fn IOState::update_purged
ensures *final(self) == (IOState { purged: log_id, ..*old(self) }),
//@fn IOState::purged
ensures deref_opt(r) == self.purged,
