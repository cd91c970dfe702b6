//@module raft_state
//@deps membership_state log_id_list io utime
//@names RaftState SnapshotMeta SnapshotSignature ServerState ForwardToLeader SnapshotId
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq};
pub type SnapshotId = String;
//@source openraft/src/core/server_state.rs
//@type ServerState derive=Clone,Copy,PartialEq,Eq,Default
//@source openraft/src/storage/snapshot_meta.rs
//@type SnapshotMeta derive=Clone,Default
//@source openraft/src/storage/snapshot_signature.rs
//@type SnapshotSignature derive=Clone
//@source openraft/src/storage/snapshot_meta.rs
//@fn SnapshotMeta::signature
ensures r.last_log_id == self.last_log_id, r.last_membership_log_id == self.last_membership.log_id, r.snapshot_id == self.snapshot_id,
//@fn SnapshotMeta::last_log_id
ensures deref_opt(r) == self.last_log_id,
//@source openraft/src/error.rs
//@type ForwardToLeader derive=Clone,PartialEq,Eq
//@fn ForwardToLeader::empty
ensures r.leader_id is None, r.leader_node is None,
//@fn ForwardToLeader::new
ensures r.leader_id == Some(leader_id), r.leader_node == Some(node),
//@source openraft/src/raft_state/mod.rs
//@type RaftState derive=Clone
//@raw
impl RaftState {
    /// the id of the log at an index, as far as the node keeps it
    pub open spec fn at(&self, i: int) -> Option<LogId> { ids_at(self.log_ids.key_log_ids@, i) }
    pub open spec fn first(&self) -> Option<LogId> { first_log(self.log_ids.key_log_ids@) }
    pub open spec fn last(&self) -> Option<LogId> { last_log(self.log_ids.key_log_ids@) }
    pub open spec fn purged(&self) -> Option<LogId> { if self.purged_next == 0 { None } else { self.first() } }
    pub open spec fn v(&self) -> Vote { self.vote.data }
    pub open spec fn mem(&self) -> Membership { self.membership_state.effective.mem() }
    pub open spec fn leading(&self, id: u64) -> bool { self.mem().nodes@.contains_key(id) && self.v().leader_id.node_id == id }
    pub open spec fn leader(&self, id: u64) -> bool { self.leading(id) && self.v().committed }
    /// the log ids the node keeps are coherent with its purge position
    pub open spec fn log_wf(&self) -> bool {
        &&& ids_wf(self.log_ids.key_log_ids@)
        &&& self.purged_next == 0 ==> lidx(self.first()) <= 0
        &&& self.purged_next > 0 ==> self.first() is Some && next_idx(self.first()) == self.purged_next
    }
    /// The positions of a node are in order, by log id and by index.
    pub open spec fn ordered(&self) -> bool {
        &&& self.log_wf()
        &&& pos_le(self.purged(), self.purge_upto)
        &&& self.snapshot_meta.last_log_id is None ==> pos_le(self.purge_upto, self.committed)
        &&& self.snapshot_meta.last_log_id is Some ==> pos_le(self.purge_upto, self.snapshot_meta.last_log_id)
        &&& pos_le(self.snapshot_meta.last_log_id, self.committed)
        &&& pos_le(self.committed, self.last())
        // what is committed is in the log, unless purged
        &&& next_idx(self.committed) >= self.purged_next
        &&& self.committed is Some ==> self.at(self.committed->0.index as int) == self.committed
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.ordered()
        &&& self.membership_state.ordered()
        &&& self.membership_state.wf()
        &&& self.io_state.wf()
    }
    /// a log id that is in the log, or was before it was purged
    pub open spec fn holds(&self, m: Option<LogId>) -> bool {
        m is Some ==> m->0.index < next_idx(self.last()) && (if m->0.index < self.first()->0.index { log_le(m->0, self.first()->0) } else { self.at(m->0.index as int) == m })
    }
    /// a log id it accepts as its own: committed, or stored
    pub open spec fn has(&self, l: LogId) -> bool { l.index < next_idx(self.committed) || self.at(l.index as int) == Some(l) }
}
/// not after, by log id and by index
pub open spec fn pos_le(a: Option<LogId>, b: Option<LogId>) -> bool { olog_le(a, b) && lidx(a) <= lidx(b) }
//@fn RaftState::vote_ref
ensures *r == self.vote.data,
//@fn RaftState::vote_last_modified
ensures r == self.vote.last_update,
//@fn LogStateReader<C> for RaftState<C>::get_log_id | as=RaftState
requires self.log_wf(),
ensures r == self.at(index as int),
//@fn LogStateReader<C> for RaftState<C>::last_log_id | as=RaftState
ensures deref_opt(r) == self.last(),
//@fn LogStateReader<C> for RaftState<C>::committed | as=RaftState
ensures deref_opt(r) == self.committed,
//@fn LogStateReader<C> for RaftState<C>::io_applied | as=RaftState
ensures deref_opt(r) == self.io_state.applied,
//@fn LogStateReader<C> for RaftState<C>::io_snapshot_last_log_id | as=RaftState
ensures deref_opt(r) == self.io_state.snapshot,
//@fn LogStateReader<C> for RaftState<C>::io_purged | as=RaftState
ensures deref_opt(r) == self.io_state.purged,
//@fn LogStateReader<C> for RaftState<C>::snapshot_last_log_id | as=RaftState
ensures deref_opt(r) == self.snapshot_meta.last_log_id,
//@fn LogStateReader<C> for RaftState<C>::purge_upto | as=RaftState
ensures deref_opt(r) == self.purge_upto,
//@fn LogStateReader<C> for RaftState<C>::last_purged_log_id | as=RaftState
ensures deref_opt(r) == self.purged(),
//@source openraft/src/raft_state/log_state_reader.rs
//@fn LogStateReader::prev_log_id | as=RaftState
requires self.log_wf(),
ensures r == (if index == 0 { None } else { self.at(index - 1) }),
//@fn LogStateReader::has_log_id | as=RaftState
requires self.log_wf(), log_id.index < next_idx(self.committed) ==> olog_le(Some(*log_id), self.committed),
ensures r == self.has(*log_id),
//@source openraft/src/raft_state/mod.rs
//@fn RaftState::is_initialized
ensures r == (self.last() is Some || self.v() != (Vote { leader_id: LeaderId { term: 0, node_id: 0 }, committed: false })),
//@fn RaftState::accepted_io
ensures deref_opt(r) == self.io_state.io_progress.accepted,
//@fn RaftState::accept_io
requires old(self).io_state.io_progress.accepted is Some ==> vote_le(old(self).io_state.io_progress.accepted->0.vote_v(), accepted.vote_v()),
ensures r == old(self).io_state.io_progress.accepted,
  final(self).io_state.io_progress.accepted == (if !oio_le(Some(accepted), old(self).io_state.io_progress.accepted) { Some(accepted) } else { old(self).io_state.io_progress.accepted }),
  *final(self) == (RaftState { io_state: IOState { io_progress: IOProgress { accepted: final(self).io_state.io_progress.accepted, ..old(self).io_state.io_progress }, ..old(self).io_state }, ..*old(self) }),
  old(self).io_state.wf() ==> final(self).io_state.wf(),
//@fn RaftState::extend_log_ids_from_same_leader
requires old(self).log_wf(), ids_can_ext(old(self).log_ids.key_log_ids@, new_log_ids@), one_leader(new_log_ids@),
ensures ids_ext(old(self).log_ids.key_log_ids@, final(self).log_ids.key_log_ids@, new_log_ids@), *final(self) == (RaftState { log_ids: final(self).log_ids, ..*old(self) }),
//@fn RaftState::extend_log_ids
requires old(self).log_wf(), ids_can_ext(old(self).log_ids.key_log_ids@, new_log_id@),
ensures ids_ext(old(self).log_ids.key_log_ids@, final(self).log_ids.key_log_ids@, new_log_id@), *final(self) == (RaftState { log_ids: final(self).log_ids, ..*old(self) }),
//@fn RaftState::update_committed
requires olog_lt(old(self).committed, *committed) ==> pos_le(old(self).membership_state.effective.lid(), *committed) || !olog_le(old(self).membership_state.effective.lid(), *committed),
ensures
  r == (if olog_lt(old(self).committed, *committed) { Some(old(self).committed) } else { None }),
  !olog_lt(old(self).committed, *committed) ==> *final(self) == *old(self),
  olog_lt(old(self).committed, *committed) ==> final(self).committed == *committed && olog_lt(old(self).committed, final(self).committed)
    && final(self).membership_state.effective == old(self).membership_state.effective
    && final(self).membership_state.committed == (if olog_le(old(self).membership_state.effective.lid(), *committed) { old(self).membership_state.effective } else { old(self).membership_state.committed })
    && *final(self) == (RaftState { committed: *committed, membership_state: final(self).membership_state, ..*old(self) }),
//@fn RaftState::io_state_mut
ensures *r == old(self).io_state, *final(self) == (RaftState { io_state: *final(r), ..*old(self) }),
//@fn RaftState::io_state
ensures *r == self.io_state,
//@fn RaftState::first_conflicting_index | shim
requires self.log_wf(), forall|i: int| 0 <= i < entries@.len() && (#[trigger] entries@[i]).rl_log_id().index < next_idx(self.committed) ==> olog_le(Some(entries@[i].rl_log_id()), self.committed),
ensures r <= entries@.len(),
   forall|i: int| 0 <= i < r ==> self.has(#[trigger] entries@[i].rl_log_id()),
   r < entries@.len() ==> !self.has(entries@[r as int].rl_log_id()),
//@loop 0 iter=it
invariant it.seq().len() == entries@.len(), forall|k: int| 0 <= k < entries@.len() ==> (#[trigger] it.seq()[k]).0 == k && *it.seq()[k].1 == entries@[k],
  forall|k: int| 0 <= k < it.index@ ==> self.has(#[trigger] entries@[k].rl_log_id()),
//@fn RaftState::purge_log | math
requires old(self).log_wf(), upto.index >= next_idx(old(self).last()) && old(self).last() is Some ==> log_lt(old(self).last()->0, *upto),
ensures ids_purged(old(self).log_ids.key_log_ids@, final(self).log_ids.key_log_ids@, *upto), final(self).purged_next as int == upto.index + 1,
  *final(self) == (RaftState { log_ids: final(self).log_ids, purged_next: final(self).purged_next, ..*old(self) }),
//@fn RaftState::calc_server_state
ensures r == (if self.leader(*id) { ServerState::Leader } else if self.leading(*id) { ServerState::Candidate }
   else if mvoters(self.mem()).contains(*id) { ServerState::Follower } else { ServerState::Learner }),
//@fn RaftState::is_voter
ensures r == mvoters(self.mem()).contains(*id),
//@fn RaftState::is_leading
ensures r == self.leading(*id),
//@fn RaftState::is_leader
ensures r == self.leader(*id),
//@raw
pub proof fn lemma_lists_len<V>(s: Seq<(u64, V)>, m: Map<u64, V>)
    requires lists_map(s, m),
    ensures s.len() == m.dom().len(), m.dom().finite(),
{
    let k = keys_of(s);
    assert(k.no_duplicates());
    assert(k.to_set() =~= m.dom()) by {
        assert forall|x: u64| k.to_set().contains(x) == m.dom().contains(x) by {
            if m.dom().contains(x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == x; assert(k[i] == x); }
            if k.contains(x) { let i = choose|i: int| 0 <= i < k.len() && k[i] == x; assert(s[i].0 == x); }
        }
    }
    k.unique_seq_to_set();
}
//@fn RaftState::revert_leader_upon_restart | shim
ensures
  // a leader of more than itself has to be elected again; nothing else changes
  self_old_leader(*old(self), *id) ==> final(self).v() == (Vote { committed: false, ..old(self).v() }),
  !self_old_leader(*old(self), *id) ==> *final(self) == *old(self),
  *final(self) == (RaftState { vote: final(self).vote, ..*old(self) }),
//@proof start
let ghost vx_n = self.membership_state.effective.mem().nodes@;
proof { assert forall|s: Seq<(u64, Node)>| #[trigger] lists_map(s, vx_n) implies s.len() == vx_n.dom().len() by { lemma_lists_len(s, vx_n); } }
//@raw
/// it led, and there are others
pub open spec fn self_old_leader(s: RaftState, id: u64) -> bool { s.leader(id) && s.mem().nodes@.dom().len() > 1 }
//@fn RaftState::forward_to_leader
ensures r.leader_id == (if self.v().committed && self.mem().nodes@.contains_key(self.v().leader_id.node_id) { Some(self.v().leader_id.node_id) } else { None }),
  r.leader_node == (if self.v().committed && self.mem().nodes@.contains_key(self.v().leader_id.node_id) { Some(self.mem().nodes@[self.v().leader_id.node_id]) } else { None }),
//@fn RaftState::new_forward_to_leader
ensures r.leader_id == (if self.mem().nodes@.contains_key(to) { Some(to) } else { None }),
  r.leader_node == (if self.mem().nodes@.contains_key(to) { Some(self.mem().nodes@[to]) } else { None }),
//@raw
/// the ids the log keeps grow with the index
pub broadcast proof fn lemma_at_some(st: RaftState, i: int)
    requires st.log_wf(),
    ensures (#[trigger] st.at(i)) is Some <==> (st.first() is Some && st.first()->0.index <= i <= st.last()->0.index),
        st.at(i) is Some ==> st.at(i)->0.index == i,
{ }
pub broadcast proof fn lemma_at_mono(st: RaftState, i: int, j: int)
    requires st.log_wf(), st.at(i) is Some, st.at(j) is Some, i < j,
    ensures #![trigger st.at(i), st.at(j)] log_lt(st.at(i)->0, st.at(j)->0),
{
    let s = st.log_ids.key_log_ids@;
    lemma_cover(s, i);
    lemma_cover(s, j);
    let a = cover(s, i);
    let b = cover(s, j);
    if a < b { assert(leader_le(s[a].leader_id, s[b].leader_id)); } else if b < a { assert(s[a].index > j); }
}
/// what is in the log is not after anything that comes after it in the log
pub proof fn lemma_holds_le(st: RaftState, m: Option<LogId>)
    requires st.log_wf(), st.holds(m),
    ensures forall|j: int| m is Some && j >= m->0.index && (#[trigger] st.at(j)) is Some ==> log_le(m->0, st.at(j)->0),
{
    broadcast use {lemma_at_some, lemma_at_mono};
    if m is Some {
        if st.first() is Some { lemma_ids_head(st.log_ids.key_log_ids@, st.first()->0.index as int); assert(st.at(st.first()->0.index as int) == st.first()); }
        assert forall|j: int| j >= m->0.index && (#[trigger] st.at(j)) is Some implies log_le(m->0, st.at(j)->0) by {
            if m->0.index < st.first()->0.index {
                let f = st.at(st.first()->0.index as int);
                if j > st.first()->0.index { assert(log_lt(f->0, st.at(j)->0)); }
            } else if j > m->0.index { assert(st.at(m->0.index as int) == m); }
        }
    }
}
