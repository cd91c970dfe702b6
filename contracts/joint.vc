//@module joint
//@deps quorum
//@source openraft/src/quorum/joint.rs
//@substall ID => u64
//@substall QS => BTreeSet<u64>
//@raw
broadcast use vx_axioms::group_vx_eq;
pub open spec fn union_of(s: Seq<BTreeSet<u64>>, k: int) -> Set<u64> decreases k
{ if k <= 0 { Set::empty() } else { union_of(s, k - 1).union(s[k - 1]@) } }
/// `ids` is a quorum of every child
pub open spec fn joint_quorum(s: Seq<BTreeSet<u64>>, ids: Set<u64>) -> bool { forall|i: int| 0 <= i < s.len() ==> majority((#[trigger] s[i])@, ids) }
pub open spec fn shares(a: Seq<BTreeSet<u64>>, b: Seq<BTreeSet<u64>>) -> bool { exists|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() && (#[trigger] a[i])@ == (#[trigger] b[j])@ }
pub open spec fn has_child(a: Seq<BTreeSet<u64>>, b: Set<u64>) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == b }
/// Two quorums of two joint configurations that share a child have a common voter of that child.
pub proof fn lemma_coherent_quorums_intersect(a: Seq<BTreeSet<u64>>, b: Seq<BTreeSet<u64>>, p: Set<u64>, q: Set<u64>)
    requires shares(a, b), joint_quorum(a, p), joint_quorum(b, q),
    ensures exists|x: u64| #[trigger] p.contains(x) && q.contains(x),
{
    let (i, j) = choose|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() && (#[trigger] a[i])@ == (#[trigger] b[j])@;
    lemma_majorities_intersect(a[i]@, p, q);
}
/// The same configuration, if it has a child, shares one with itself.
pub proof fn lemma_joint_quorums_intersect(a: Seq<BTreeSet<u64>>, p: Set<u64>, q: Set<u64>)
    requires a.len() > 0, joint_quorum(a, p), joint_quorum(a, q),
    ensures exists|x: u64| #[trigger] p.contains(x) && q.contains(x),
{
    assert(a[0]@ == a[0]@);
    lemma_coherent_quorums_intersect(a, a, p, q);
}
//@type Joint derive=Clone
//@fn Joint::new
ensures r.data == data,
//@fn Joint::children
ensures *r == self.data,
//@raw
impl<'d> QuorumSetView for Joint<&'d [BTreeSet<u64>]> {
    open spec fn qs_wf(&self) -> bool { true }
    open spec fn qs_ids(&self) -> Set<u64> { union_of(self.data@, self.data@.len() as int) }
    open spec fn qs_quorum(&self, ids: Set<u64>) -> bool { joint_quorum(self.data@, ids) }
}
impl QuorumSetView for Joint<Vec<BTreeSet<u64>>> {
    open spec fn qs_wf(&self) -> bool { true }
    open spec fn qs_ids(&self) -> Set<u64> { union_of(self.data@, self.data@.len() as int) }
    open spec fn qs_quorum(&self, ids: Set<u64>) -> bool { joint_quorum(self.data@, ids) }
}
//@fn QuorumSet<ID> for Joint<ID,QS,&'d[QS]>::is_quorum | shim
//@subst I => Vec<&'a u64>
//@loop 0 iter=it
invariant unref(it.seq()) == self.data@, forall|i: int| 0 <= i < it.index@ ==> majority((#[trigger] self.data@[i])@, ids_of(ids@)),
//@loop 0 start
assert(*child == unref(it.seq())[it.index@]);
//@fn QuorumSet<ID> for Joint<ID,QS,&'d[QS]>::ids | shim
//@retty Vec<u64>
//@loop 0 iter=it
invariant unref(it.seq()) == self.data@, ids@ == union_of(self.data@, it.index@ as int),
//@loop 0 start
assert(*child == unref(it.seq())[it.index@]);
//@fn QuorumSet<ID> for Joint<ID,QS,Vec<QS>>::is_quorum | shim
//@subst I => Vec<&'a u64>
//@loop 0 iter=it
invariant unref(it.seq()) == self.data@, forall|i: int| 0 <= i < it.index@ ==> majority((#[trigger] self.data@[i])@, ids_of(ids@)),
//@loop 0 start
assert(*child == unref(it.seq())[it.index@]);
//@fn QuorumSet<ID> for Joint<ID,QS,Vec<QS>>::ids | shim
//@retty Vec<u64>
//@loop 0 iter=it
invariant unref(it.seq()) == self.data@, ids@ == union_of(self.data@, it.index@ as int),
//@loop 0 start
assert(*child == unref(it.seq())[it.index@]);
//@source openraft/src/quorum/joint_impl.rs
//@raw
pub trait AsJointSpec<D> { spec fn as_joint_spec(&self, d: D) -> bool; }
pub trait AsJoint<'d, D>: AsJointSpec<D> {
    fn as_joint(&'d self) -> (r: Joint<D>) ensures self.as_joint_spec(r.data);
}
impl<'d> AsJointSpec<&'d [BTreeSet<u64>]> for Vec<BTreeSet<u64>> {
    open spec fn as_joint_spec(&self, d: &'d [BTreeSet<u64>]) -> bool { d@ == self@ }
}
impl vstd::std_specs::convert::FromSpecImpl<Vec<BTreeSet<u64>>> for Joint<Vec<BTreeSet<u64>>> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Vec<BTreeSet<u64>>) -> Self { Joint { data: v, _p: PhantomData } }
}
//@fn AsJoint<'d,ID,QS,&'d[QS]> for Vec<QS>::as_joint
//@fn From<Vec<QS>> for Joint<ID,QS,Vec<QS>>::from
//@source openraft/src/quorum/coherent_impl.rs
//@raw
pub trait CoherentView { spec fn cv(&self) -> Seq<BTreeSet<u64>>; }
impl CoherentView for Joint<Vec<BTreeSet<u64>>> { open spec fn cv(&self) -> Seq<BTreeSet<u64>> { self.data@ } }
impl<'d> CoherentView for Joint<&'d [BTreeSet<u64>]> { open spec fn cv(&self) -> Seq<BTreeSet<u64>> { self.data@ } }
impl CoherentView for BTreeSet<u64> { open spec fn cv(&self) -> Seq<BTreeSet<u64>> { seq![*self] } }
pub trait Coherent<Other: CoherentView>: CoherentView {
    fn is_coherent_with(&self, other: &Other) -> (r: bool) ensures r == shares(self.cv(), other.cv());
}
/// the target itself if the current configuration has it (or has nothing), else the joint of its last child and the target
pub open spec fn coherent_step(s: Seq<BTreeSet<u64>>, other: BTreeSet<u64>) -> Seq<BTreeSet<u64>> {
    if has_child(s, other@) || s.len() == 0 { seq![other] } else { seq![s.last(), other] }
}
/// Every step shares a child with where it comes from (when that has one) and with where it goes.
pub proof fn lemma_step_bridges(s: Seq<BTreeSet<u64>>, other: BTreeSet<u64>)
    ensures s.len() > 0 ==> shares(s, coherent_step(s, other)), shares(coherent_step(s, other), seq![other]),
{
    let t = coherent_step(s, other);
    assert(t[t.len() - 1]@ == seq![other][0]@);
    if s.len() > 0 {
        if has_child(s, other@) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == other@;
            assert(s[i]@ == t[0]@);
        } else {
            assert(s[s.len() - 1]@ == t[0]@);
        }
    }
}
pub proof fn lemma_shares_one(a: Seq<BTreeSet<u64>>, b: BTreeSet<u64>)
    ensures shares(a, seq![b]) == has_child(a, b@),
{
    let s = seq![b];
    assert(s[0]@ == b@);
    if has_child(a, b@) {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == b@;
        assert(a[i]@ == s[0]@);
    }
}
pub trait FindCoherentSpec<Other>: Sized { spec fn step_spec(&self, other: Other, r: Self) -> bool; }
impl FindCoherentSpec<BTreeSet<u64>> for Joint<Vec<BTreeSet<u64>>> {
    open spec fn step_spec(&self, other: BTreeSet<u64>, r: Self) -> bool { r.data@ =~= coherent_step(self.data@, other) }
}
pub trait FindCoherent<Other>: FindCoherentSpec<Other> {
    fn find_coherent(&self, other: Other) -> (r: Self) ensures self.step_spec(other, r);
}
//@fn Coherent<ID,Joint<ID,QS,Vec<QS>>> for Joint<ID,QS,Vec<QS>>::is_coherent_with | shim
//@loop 0 iter=it
invariant unref(it.seq()) == self.data@, forall|i: int, j: int| 0 <= i < it.index@ && 0 <= j < other.data@.len() ==> (#[trigger] self.data@[i])@ != (#[trigger] other.data@[j])@,
//@loop 0 start
assert(*a == unref(it.seq())[it.index@ as int]);
//@loop 1 iter=jt
invariant unref(jt.seq()) == other.data@, forall|j: int| 0 <= j < jt.index@ ==> a@ != (#[trigger] other.data@[j])@,
//@loop 1 start
assert(*b == unref(jt.seq())[jt.index@ as int]);
//@fn Coherent<ID,Joint<ID,QS,&[QS]>> for Joint<ID,QS,&[QS]>::is_coherent_with | shim
//@loop 0 iter=it
invariant unref(it.seq()) == self.data@, forall|i: int, j: int| 0 <= i < it.index@ && 0 <= j < other.data@.len() ==> (#[trigger] self.data@[i])@ != (#[trigger] other.data@[j])@,
//@loop 0 start
assert(*a == unref(it.seq())[it.index@ as int]);
//@loop 1 iter=jt
invariant unref(jt.seq()) == other.data@, forall|j: int| 0 <= j < jt.index@ ==> a@ != (#[trigger] other.data@[j])@,
//@loop 1 start
assert(*b == unref(jt.seq())[jt.index@ as int]);
//@fn Coherent<ID,QS> for Joint<ID,QS,Vec<QS>>::is_coherent_with | shim
//@proof start
assert(other.cv()[0] == *other);
//@loop 0 iter=it
invariant unref(it.seq()) == self.data@, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self.data@[i])@ != other@,
//@loop 0 start
assert(*a == unref(it.seq())[it.index@ as int]);
//@fn FindCoherent<ID,QS> for Joint<ID,QS,Vec<QS>>::find_coherent | shim
//@proof start
proof { lemma_shares_one(self.data@, other); }
