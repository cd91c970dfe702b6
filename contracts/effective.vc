//@module effective
//@deps membership
//@names StoredMembership EffectiveMembership
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq, vstd::std_specs::btree::group_btree_axioms};
//@source openraft/src/membership/stored_membership.rs
//@type StoredMembership derive=Clone,PartialEq,Eq,Default
//@fn StoredMembership::new
ensures r.log_id == log_id, r.membership == membership,
//@fn StoredMembership::log_id
ensures *r == self.log_id,
//@fn StoredMembership::membership
ensures *r == self.membership,
//@fn StoredMembership::voter_ids
//@retty Vec<u64>
ensures lists_set(r@, mvoters(self.membership)),
//@source openraft/src/membership/effective_membership.rs
//@type EffectiveMembership
//@raw
/// Membership and log id of an effective membership; its caches agree with them.
impl EffectiveMembership {
    pub open spec fn lid(&self) -> Option<LogId> { (*self.stored_membership).log_id }
    pub open spec fn mem(&self) -> Membership { (*self.stored_membership).membership }
    pub open spec fn wf(&self) -> bool {
        &&& vviews(self.quorum_set.data@) == mv(self.mem()).cfgs
        &&& self.quorum_set.qs_wf()
        &&& self.voter_ids@ == mvoters(self.mem())
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for EffectiveMembership {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.lid() == o.lid() && self.mem() == o.mem() && self.voter_ids@ == o.voter_ids@ }
}
//@fn EffectiveMembership::new | shim
ensures r.wf(), r.lid() == log_id, r.mem() == membership,
//@proof start
proof { lemma_lists_sets2(); }
//@loop 0 before
let ghost vx_ty: Vec<Vec<u64>> = joint;
//@loop 0 iter=it
invariant unref(it.seq()) == configs@, joint@.len() == it.index@,
  forall|i: int| 0 <= i < it.index@ ==> lists_set((#[trigger] joint@[i])@, configs@[i]@),
//@loop 0 start
assert(*c == unref(it.seq())[it.index@ as int]);
//@proof end
assert(vviews(r.quorum_set.data@) =~= mv(r.mem()).cfgs);
//@fn EffectiveMembership::new_arc
ensures r.wf(), r.lid() == log_id, r.mem() == membership,
//@fn EffectiveMembership::new_from_stored_membership
ensures r.wf(), r.lid() == stored.log_id, r.mem() == stored.membership,
//@fn EffectiveMembership::stored_membership
ensures *r == self.stored_membership,
//@fn EffectiveMembership::log_id
ensures *r == self.lid(),
//@fn EffectiveMembership::membership
ensures *r == self.mem(),
//@fn EffectiveMembership::is_voter
ensures r == mvoters(self.mem()).contains(*nid),
//@fn EffectiveMembership::voter_ids | shim
//@retty Vec<u64>
ensures self.wf() ==> lists_set(r@, mvoters(self.mem())),
//@fn EffectiveMembership::learner_ids
//@retty Vec<u64>
ensures r@.no_duplicates(), r@.to_set() == self.mem().nodes@.dom().difference(mvoters(self.mem())),
//@fn EffectiveMembership::get_node
ensures r == (if self.mem().nodes@.contains_key(*node_id) { Some(&self.mem().nodes@[*node_id]) } else { None }),
//@fn EffectiveMembership::get_joint_config
ensures *r == self.quorum_set.data,
//@fn PartialEq for EffectiveMembership<C>::eq
//@raw
impl QuorumSetView for EffectiveMembership {
    open spec fn qs_wf(&self) -> bool { self.wf() }
    open spec fn qs_ids(&self) -> Set<u64> { cfg_ids(mv(self.mem()).cfgs) }
    open spec fn qs_quorum(&self, ids: Set<u64>) -> bool { cfg_quorum(mv(self.mem()).cfgs, ids) }
}
//@fn QuorumSet<C::NodeId> for EffectiveMembership<C>::is_quorum
//@subst I => Vec<&'a u64>
//@fn QuorumSet<C::NodeId> for EffectiveMembership<C>::ids
//@retty Vec<u64>
