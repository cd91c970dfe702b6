//@module membership_state
//@deps effective
//@names MembershipState ChangeHandler
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq};
//@source openraft/src/raft_state/membership_state/mod.rs
//@type MembershipState
//@raw
impl MembershipState {
    /// both memberships' caches agree with them
    pub open spec fn wf(&self) -> bool { self.committed.wf() && self.effective.wf() }
    /// the committed membership is not newer than the effective one
    pub open spec fn ordered(&self) -> bool { olog_le(self.committed.lid(), self.effective.lid()) && lidx(self.committed.lid()) <= lidx(self.effective.lid()) }
}
//@fn MembershipState::new
ensures r.committed == committed, r.effective == effective,
//@fn MembershipState::contains
ensures r == self.effective.mem().nodes@.contains_key(*id),
//@fn MembershipState::is_voter
ensures r == mvoters(self.effective.mem()).contains(*id),
//@fn MembershipState::committed
ensures *r == self.committed,
//@fn MembershipState::effective
ensures *r == self.effective,

//@fn MembershipState::commit
requires olog_le(old(self).effective.lid(), *committed_log_id) ==> lidx(*committed_log_id) >= lidx(old(self).effective.lid()),
ensures
    final(self).effective == old(self).effective,
    final(self).committed == (if olog_le(old(self).effective.lid(), *committed_log_id) { old(self).effective } else { old(self).committed }),
//@fn MembershipState::update_committed
requires c.lid() == old(self).committed.lid() ==> c.mem() == old(self).committed.mem(),
ensures
    final(self).effective == (if lidx(c.lid()) >= lidx(old(self).effective.lid()) { c } else { old(self).effective }),
    final(self).committed == (if olog_lt(old(self).committed.lid(), c.lid()) { c } else { old(self).committed }),
    r == (if lidx(c.lid()) >= lidx(old(self).effective.lid()) && c.mem() != old(self).effective.mem() { Some(c) } else { None }),
//@fn MembershipState::append
requires olog_lt(old(self).effective.lid(), m.lid()), lidx(old(self).effective.lid()) < lidx(m.lid()),
ensures final(self).committed == old(self).effective, final(self).effective == m,
//@fn MembershipState::truncate
requires since >= next_idx(old(self).committed.lid()),
ensures
    final(self).committed == old(self).committed,
    final(self).effective == (if since as int <= lidx(old(self).effective.lid()) { old(self).committed } else { old(self).effective }),
    r == (if since as int <= lidx(old(self).effective.lid()) { Some(old(self).committed) } else { None }),
//@fn MembershipState::change_handler
ensures *r.state == *self,
//@source openraft/src/raft_state/membership_state/change_handler.rs
//@type ChangeHandler
//@fn ChangeHandler::ensure_committed
ensures (match r { Ok(_) => self.state.effective.lid() == self.state.committed.lid(),
   Err(e) => self.state.effective.lid() != self.state.committed.lid() && e.committed == self.state.committed.lid() && e.membership_log_id == self.state.effective.lid() }),
//@fn ChangeHandler::apply | shim trymatch
ensures ({ let n = changed(mv(self.state.effective.mem()), change, retain);
   match r {
    Ok(m) => self.state.effective.lid() == self.state.committed.lid() && mv(m) == n && valid(n),
    Err(ChangeMembershipError::InProgress(e)) => self.state.effective.lid() != self.state.committed.lid() && e.committed == self.state.committed.lid() && e.membership_log_id == self.state.effective.lid(),
    Err(ChangeMembershipError::EmptyMembership(_)) => self.state.effective.lid() == self.state.committed.lid() && !no_empty(n),
    Err(ChangeMembershipError::LearnerNotFound(l)) => self.state.effective.lid() == self.state.committed.lid() && no_empty(n) && cfg_ids(n.cfgs).contains(l.node_id) && !n.nodes.contains_key(l.node_id) } }),
//@raw
/// Appending keeps the order of the two; committing up to any log id does.
pub proof fn lemma_membership_ordered(s: MembershipState, m: Arc<EffectiveMembership>, c: Option<LogId>)
    requires s.ordered(),
    ensures olog_lt(s.effective.lid(), m.lid()) && lidx(s.effective.lid()) < lidx(m.lid()) ==> (MembershipState { committed: s.effective, effective: m }).ordered(),
        (MembershipState { committed: s.effective, effective: s.effective }).ordered(),
        (MembershipState { committed: s.committed, effective: s.committed }).ordered(),
{ }
