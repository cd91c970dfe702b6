//@module membership
//@deps joint_vec
//@names Membership ChangeMembers ChangeMembershipError
//@source openraft/src/membership/into_nodes.rs
//@substall NID => u64
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq, vstd::std_specs::btree::group_btree_axioms};
/// the nodes of a set of ids: every id, with a default node
pub open spec fn defaults(s: Set<u64>) -> Map<u64, Node> { Map::new(s, |k: u64| default_node()) }
/// the nodes of both; the first one's are kept
pub open spec fn nodes_extended(a: Map<u64, Node>, b: Map<u64, Node>) -> Map<u64, Node> { b.union_prefer_right(a) }
pub trait IntoNodesSpec: Sized { spec fn nodes_spec(self) -> Map<u64, Node>; }
pub trait IntoNodes: IntoNodesSpec {
    fn into_nodes(self) -> (r: BTreeMap<u64, Node>) ensures r@ == self.nodes_spec();
}
impl IntoNodesSpec for BTreeMap<u64, Node> { open spec fn nodes_spec(self) -> Map<u64, Node> { self@ } }
impl IntoNodesSpec for BTreeSet<u64> { open spec fn nodes_spec(self) -> Map<u64, Node> { defaults(self@) } }
impl IntoNodesSpec for () { open spec fn nodes_spec(self) -> Map<u64, Node> { Map::empty() } }
impl IntoNodesSpec for Option<BTreeSet<u64>> { open spec fn nodes_spec(self) -> Map<u64, Node> { match self { None => Map::empty(), Some(s) => defaults(s@) } } }
/// two maps that list the same pairs are equal
pub proof fn lemma_lists_map_unique(s: Seq<(u64, Node)>, m: Map<u64, Node>, n: Map<u64, Node>)
    requires lists_map(s, m), lists_map(s, n),
    ensures m == n,
{
    assert forall|k: u64| m.contains_key(k) == n.contains_key(k) by {
        if m.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(n.contains_key(s[i].0)); }
        if n.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k; assert(m.contains_key(s[i].0)); }
    }
    assert forall|k: u64| m.contains_key(k) implies m[k] == n[k] by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
        assert(m[s[i].0] == s[i].1 && n[s[i].0] == s[i].1);
    }
    assert(m =~= n);
}
/// collecting the ids of a set, each with a default node
pub proof fn lemma_defaults(s: Seq<u64>, p: Seq<(u64, Node)>, m: Set<u64>, r: Map<u64, Node>)
    requires lists_set(s, m), p.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] p[i] == (s[i], default_node()),
        ascending(keys_of(p)) ==> lists_map(p, r),
    ensures r == defaults(m),
{
    assert(keys_of(p) =~= s);
    assert(lists_map(p, defaults(m))) by {
        assert forall|k: u64| m.contains(k) implies exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k by {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == k;
            assert(p[i].0 == k);
        }
    }
    lemma_lists_map_unique(p, r, defaults(m));
}
//@fn IntoNodes<NID,N> for BTreeMap<NID,N>::into_nodes
//@fn IntoNodes<NID,N> for ()::into_nodes
//@fn IntoNodes<NID,N> for BTreeSet<NID>::into_nodes | shim
//@proof start
proof { lemma_defaults_all(self@); }
//@closure 0
|node_id: u64| -> (o: (u64, Node)) ensures o == (node_id, default_node())
//@fn IntoNodes<NID,N> for Option<BTreeSet<NID>>::into_nodes | shim
//@proof start
proof { if self is Some { lemma_defaults_all(self->0@); } }
//@closure 0
|node_id: u64| -> (o: (u64, Node)) ensures o == (node_id, default_node())
//@raw
pub proof fn lemma_defaults_all(m: Set<u64>)
    ensures forall|s: Seq<u64>, p: Seq<(u64, Node)>, r: BTreeMap<u64, Node>| #[trigger] lists_set(s, m) && p.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] p[i] == (s[i], default_node()))
        && #[trigger] <BTreeMap<u64, Node> as VxFrom<(u64, Node)>>::vx_from_spec(p, r) ==> r@ == defaults(m),
{
    assert forall|s: Seq<u64>, p: Seq<(u64, Node)>, r: BTreeMap<u64, Node>| #[trigger] lists_set(s, m) && p.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] p[i] == (s[i], default_node()))
        && #[trigger] <BTreeMap<u64, Node> as VxFrom<(u64, Node)>>::vx_from_spec(p, r) implies r@ == defaults(m) by { lemma_defaults(s, p, m, r@); }
}
//@source openraft/src/membership/membership.rs
//@type Membership derive=Clone,PartialEq,Eq,Default
//@raw
/// What a membership says: its voter sets in order, and its nodes.
pub struct MView { pub cfgs: Seq<Set<u64>>, pub nodes: Map<u64, Node> }
pub open spec fn mv(m: Membership) -> MView { MView { cfgs: views(m.configs@), nodes: m.nodes@ } }
pub open spec fn mvoters(m: Membership) -> Set<u64> { cfg_ids(mv(m).cfgs) }
//@fn Membership::get_joint_config
ensures *r == self.configs,
//@fn Membership::get_node
ensures r == (if self.nodes@.contains_key(*node_id) { Some(&self.nodes@[*node_id]) } else { None }),
//@fn Membership::nodes | shim
//@retty Vec<(&u64,&Node)>
ensures lists_map(pairs_of(r@), self.nodes@),
//@fn Membership::contains
ensures r == self.nodes@.contains_key(*node_id),
//@fn Membership::voter_ids | shim
//@retty Vec<u64>
ensures lists_set(r@, mvoters(*self)),
//@proof start
proof { lemma_union_all(self.configs@); }
//@fn Membership::is_voter | shim
ensures r == mvoters(*self).contains(*node_id),
//@proof start
proof { lemma_cfg_ids(mv(*self).cfgs, *node_id); }
//@loop 0 iter=it
invariant unref(it.seq()) == self.configs@, forall|i: int| 0 <= i < it.index@ ==> !(#[trigger] self.configs@[i])@.contains(*node_id),
//@loop 0 start
assert(*c == unref(it.seq())[it.index@ as int]);
assert(mv(*self).cfgs[it.index@ as int] == c@);
//@fn Membership::learner_ids | shim
//@retty Vec<u64>
ensures r@.no_duplicates(), r@.to_set() == self.nodes@.dom().difference(mvoters(*self)),
//@proof start
proof { lemma_refs_listing(self.nodes@.dom()); lemma_nodup_refs(); }
//@proof end
proof {
    let m = self.nodes@.dom().difference(mvoters(*self));
    assert forall|x: u64| r@.to_set().contains(x) == m.contains(x) by {
        assert(r@.to_set().contains(x) == r@.contains(x));
    }
    assert(r@.to_set() =~= m);
}
//@closure 0
|x: &&u64| -> (o: bool) ensures o == !mvoters(*self).contains(**x)
//@fn Membership::new_unchecked | shim
ensures r.configs == configs, r.nodes@ == nodes.nodes_spec(),
//@fn Membership::extend_nodes | shim
ensures r@ == nodes_extended(old@, new@),
//@loop 0 iter=it
invariant
    lists_map(pairs_of(it.seq()), new@),
    forall|k: u64| #[trigger] res@.contains_key(k) <==> old@.contains_key(k) || exists|j: int| 0 <= j < it.index@ && (#[trigger] pairs_of(it.seq())[j]).0 == k,
    forall|k: u64| #[trigger] res@.contains_key(k) ==> res@[k] == nodes_extended(old@, new@)[k],
//@loop 0 start
assert(pairs_of(it.seq())[it.index@ as int] == (*k, *v));
//@proof end
assert(r@ =~= nodes_extended(old@, new@));
//@source openraft/src/error.rs
//@type EmptyMembership derive=PartialEq,Eq
//@type LearnerNotFound derive=PartialEq,Eq
//@type InProgress derive=PartialEq,Eq
//@type ChangeMembershipError
//@raw
impl vstd::std_specs::convert::FromSpecImpl<EmptyMembership> for ChangeMembershipError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: EmptyMembership) -> Self { ChangeMembershipError::EmptyMembership(e) }
}
impl From<EmptyMembership> for ChangeMembershipError { fn from(e: EmptyMembership) -> Self { ChangeMembershipError::EmptyMembership(e) } }
impl vstd::std_specs::convert::FromSpecImpl<LearnerNotFound> for ChangeMembershipError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: LearnerNotFound) -> Self { ChangeMembershipError::LearnerNotFound(e) }
}
impl From<LearnerNotFound> for ChangeMembershipError { fn from(e: LearnerNotFound) -> Self { ChangeMembershipError::LearnerNotFound(e) } }
impl vstd::std_specs::convert::FromSpecImpl<InProgress> for ChangeMembershipError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: InProgress) -> Self { ChangeMembershipError::InProgress(e) }
}
impl From<InProgress> for ChangeMembershipError { fn from(e: InProgress) -> Self { ChangeMembershipError::InProgress(e) } }
/// No voter set is empty, and every voter has a node.
pub open spec fn no_empty(m: MView) -> bool { forall|i: int| 0 <= i < m.cfgs.len() ==> (#[trigger] m.cfgs[i]).len() > 0 }
pub open spec fn voters_known(m: MView) -> bool { cfg_ids(m.cfgs).subset_of(m.nodes.dom()) }
pub open spec fn valid(m: MView) -> bool { no_empty(m) && voters_known(m) }
/// The next step towards voters `goal`: the goal itself, if it is one of the current voter sets (or there is none), else joint with the last one.
pub open spec fn step(c: Seq<Set<u64>>, goal: Set<u64>) -> Seq<Set<u64>> { if c.len() == 0 || c.contains(goal) { seq![goal] } else { seq![c.last(), goal] } }
pub open spec fn next(m: MView, goal: Set<u64>, retain: bool) -> MView {
    MView { cfgs: step(m.cfgs, goal), nodes: if retain { m.nodes } else { m.nodes.remove_keys(cfg_ids(m.cfgs).difference(cfg_ids(step(m.cfgs, goal)))) } }
}
pub open spec fn last_cfg(m: MView) -> Set<u64> { if m.cfgs.len() == 0 { Set::empty() } else { m.cfgs.last() } }
/// What a request to change the membership means.
pub open spec fn changed(m: MView, c: ChangeMembers, retain: bool) -> MView {
    match c {
        ChangeMembers::AddVoterIds(ids) => next(m, last_cfg(m).union(ids@), retain),
        ChangeMembers::AddVoters(nodes) => next(MView { cfgs: m.cfgs, nodes: nodes_extended(m.nodes, nodes@) }, last_cfg(m).union(nodes@.dom()), retain),
        ChangeMembers::RemoveVoters(ids) => next(m, last_cfg(m).difference(ids@), retain),
        ChangeMembers::ReplaceAllVoters(ids) => next(m, ids@, retain),
        ChangeMembers::AddNodes(nodes) => MView { cfgs: m.cfgs, nodes: nodes_extended(m.nodes, nodes@) },
        ChangeMembers::SetNodes(nodes) => MView { cfgs: m.cfgs, nodes: nodes_extended(nodes@, m.nodes) },
        ChangeMembers::RemoveNodes(ids) => MView { cfgs: m.cfgs, nodes: m.nodes.remove_keys(ids@) },
        ChangeMembers::ReplaceAllNodes(nodes) => MView { cfgs: m.cfgs, nodes: nodes@ },
    }
}
/// Every change leaves the voters as they are, or takes one step that shares a voter set with where it comes from, and never replaces
/// or drops a node's data unless asked to.
pub proof fn lemma_changed(m: MView, c: ChangeMembers, retain: bool)
    ensures
        ({ let n = changed(m, c, retain);
        &&& m.cfgs.len() > 0 ==> exists|i: int, j: int| 0 <= i < m.cfgs.len() && 0 <= j < n.cfgs.len() && #[trigger] m.cfgs[i] == #[trigger] n.cfgs[j]
        &&& m.cfgs.len() > 0 ==> n.cfgs.len() > 0
        &&& !(c is SetNodes || c is ReplaceAllNodes) ==> forall|k: u64| m.nodes.contains_key(k) && #[trigger] n.nodes.contains_key(k) ==> n.nodes[k] == m.nodes[k]
        &&& retain && !(c is RemoveNodes || c is ReplaceAllNodes) ==> m.nodes.dom().subset_of(n.nodes.dom())
        }),
{
    let n = changed(m, c, retain);
    if m.cfgs.len() > 0 {
        if c is AddNodes || c is SetNodes || c is RemoveNodes || c is ReplaceAllNodes {
            assert(m.cfgs[0] == n.cfgs[0]);
        } else {
            let goal = n.cfgs.last();
            if m.cfgs.contains(goal) { let i = m.cfgs.index_of(goal); assert(m.cfgs[i] == n.cfgs[0]); }
            else { assert(m.cfgs[m.cfgs.len() - 1] == n.cfgs[0]); }
        }
    }
}
pub proof fn lemma_step_views(s: Seq<BTreeSet<u64>>, other: BTreeSet<u64>)
    ensures views(coherent_step(s, other)) =~= step(views(s), other@),
{
    if has_child(s, other@) {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == other@;
        assert(views(s)[i] == other@);
    }
    if views(s).contains(other@) {
        let i = choose|i: int| 0 <= i < views(s).len() && views(s)[i] == other@;
        assert(s[i]@ == other@);
    }
}
//@source openraft/src/change_members.rs
//@type ChangeMembers
//@source openraft/src/membership/membership.rs
//@fn Membership::ensure_valid | shim trymatch
ensures (match r {
    Ok(_) => valid(mv(*self)),
    Err(ChangeMembershipError::EmptyMembership(_)) => !no_empty(mv(*self)),
    Err(ChangeMembershipError::LearnerNotFound(l)) => no_empty(mv(*self)) && mvoters(*self).contains(l.node_id) && !self.nodes@.contains_key(l.node_id),
    Err(_) => false }),
//@fn Membership::ensure_non_empty_config | shim
ensures r is Ok == no_empty(mv(*self)),
//@loop 0 iter=it
invariant unref(it.seq()) == self.configs@, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self.configs@[i])@.len() > 0,
//@loop 0 start
assert(*c == unref(it.seq())[it.index@ as int]);
assert(mv(*self).cfgs[it.index@ as int] == c@);
//@fn Membership::ensure_voter_nodes
ensures (match r { Ok(_) => voters_known(mv(*self)), Err(n) => mvoters(*self).contains(n) && !self.nodes@.contains_key(n) }),
//@loop 0 iter=it
invariant lists_set(it.seq(), mvoters(*self)), forall|i: int| 0 <= i < it.index@ ==> self.nodes@.contains_key(#[trigger] it.seq()[i]),
//@fn Membership::next_coherent | shim
ensures mv(r) == next(mv(*self), goal@, retain),
//@proof start
proof { lemma_step_views(self.configs@, goal); lemma_union_all(self.configs@); lemma_nodup_refs(); }
//@loop 0 iter=it
invariant
    lists_set(unref(it.seq()), old_voter_ids@.difference(new_voter_ids@)),
    nodes@ =~= self.nodes@.remove_keys(ids_of(it.seq().take(it.index@ as int))),
//@loop 0 before
proof { lemma_ids_ends(old_voter_ids@.difference(new_voter_ids@)); }
//@loop 0 start
proof { lemma_ids_step(it.seq(), it.index@ as int); }
//@loop 0 after
assert(nodes@ =~= self.nodes@.remove_keys(old_voter_ids@.difference(new_voter_ids@)));
//@proof after `let old_voter_ids`
proof { lemma_lists_set_to_set(old_voter_ids@);  }
assert(old_voter_ids@ == mvoters(*self));
//@proof after `let new_voter_ids`
assert(new_voter_ids@ == cfg_ids(views(config@)));
//@proof after `let config`
proof { lemma_union_all(config@); lemma_lists_set_to_set(mvoters(*self)); lemma_lists_set_to_set(cfg_ids(views(config@))); }
assert(views(config@) == step(mv(*self).cfgs, goal@));
//@fn Membership::change | shim
ensures ({ let n = changed(mv(self), change, retain);
   match r {
    Ok(m) => mv(m) == n && valid(n),
    Err(ChangeMembershipError::EmptyMembership(_)) => !no_empty(n),
    Err(ChangeMembershipError::LearnerNotFound(l)) => no_empty(n) && cfg_ids(n.cfgs).contains(l.node_id) && !n.nodes.contains_key(l.node_id),
    Err(_) => false } }),
//@loop 0 iter=it
invariant
    lists_map(it.seq(), add_nodes@),
    vx_self.configs == self.configs,
    forall|k: u64| #[trigger] vx_self.nodes@.contains_key(k) <==> self.nodes@.contains_key(k) || exists|j: int| 0 <= j < it.index@ && (#[trigger] it.seq()[j]).0 == k,
    forall|k: u64| #[trigger] vx_self.nodes@.contains_key(k) ==> vx_self.nodes@[k] == nodes_extended(self.nodes@, add_nodes@)[k],
//@loop 0 after
assert(vx_self.nodes@ =~= nodes_extended(self.nodes@, add_nodes@));
//@loop 1 iter=it
invariant
    lists_map(it.seq(), set_nodes@),
    vx_self.configs == self.configs,
    forall|k: u64| #[trigger] vx_self.nodes@.contains_key(k) <==> self.nodes@.contains_key(k) || exists|j: int| 0 <= j < it.index@ && (#[trigger] it.seq()[j]).0 == k,
    forall|k: u64| #[trigger] vx_self.nodes@.contains_key(k) ==> vx_self.nodes@[k] == (if exists|j: int| 0 <= j < it.index@ && (#[trigger] it.seq()[j]).0 == k { set_nodes@[k] } else { self.nodes@[k] }),
//@loop 1 after
assert(vx_self.nodes@ =~= nodes_extended(set_nodes@, self.nodes@));
//@loop 2 iter=it
invariant
    lists_set(unref(it.seq()), remove_node_ids@),
    vx_self.configs == self.configs,
    vx_self.nodes@ =~= self.nodes@.remove_keys(ids_of(it.seq().take(it.index@ as int))),
//@loop 2 before
proof { lemma_ids_ends(remove_node_ids@); }
//@loop 2 start
proof { lemma_ids_step(it.seq(), it.index@ as int); }
//@proof after `let last`
assert(last@ == last_cfg(mv(self)));
//@proof start
proof { lemma_nodup_refs(); lemma_lists_sets(); }
//@proof after `let new_membership`
assert(change is AddVoterIds ==> mv(new_membership) == changed(mv(self), change, retain));
assert(change is RemoveVoters ==> mv(new_membership) == changed(mv(self), change, retain));
assert(change is ReplaceAllVoters ==> mv(new_membership) == changed(mv(self), change, retain));
assert(change is AddNodes ==> mv(new_membership) == changed(mv(self), change, retain));
assert(change is SetNodes ==> mv(new_membership) == changed(mv(self), change, retain));
assert(change is RemoveNodes ==> mv(new_membership) == changed(mv(self), change, retain));
assert(change is ReplaceAllNodes ==> mv(new_membership) == changed(mv(self), change, retain));
assert(change is AddVoters ==> mv(new_membership) == changed(mv(self), change, retain));
//@fn Membership::new | shim
ensures r.configs == config, r.nodes@ == nodes_extended(nodes.nodes_spec(), defaults(mvoters(r))),
//@proof start
proof { lemma_union_all(config@); lemma_lists_sets(); }
//@fn Membership::to_quorum_set | shim
ensures vviews(r.data@) =~= mv(*self).cfgs, r.qs_wf(),
//@proof start
proof { lemma_lists_sets2(); }
//@loop 0 before
let ghost vx_ty: Vec<Vec<u64>> = qs;
//@loop 0 iter=it
invariant unref(it.seq()) == self.configs@, qs@.len() == it.index@,
  forall|i: int| 0 <= i < it.index@ ==> lists_set((#[trigger] qs@[i])@, self.configs@[i]@),
//@loop 0 start
assert(*c == unref(it.seq())[it.index@ as int]);
