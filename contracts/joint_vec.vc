//@module joint_vec
//@deps joint
//@source openraft/src/quorum/joint.rs
//@substall ID => u64
//@substall QS => Vec<u64>
//@raw
broadcast use vx_axioms::group_vx_eq;
/// ids form a quorum of every voter set
pub open spec fn cfg_quorum(c: Seq<Set<u64>>, ids: Set<u64>) -> bool { forall|i: int| 0 <= i < c.len() ==> majority(#[trigger] c[i], ids) }
pub open spec fn cfg_ids(c: Seq<Set<u64>>) -> Set<u64> decreases c.len()
{ if c.len() == 0 { Set::empty() } else { cfg_ids(c.drop_last()).union(c.last()) } }
pub open spec fn views(s: Seq<BTreeSet<u64>>) -> Seq<Set<u64>> { s.map_values(|x: BTreeSet<u64>| x@) }
pub open spec fn vviews(s: Seq<Vec<u64>>) -> Seq<Set<u64>> { s.map_values(|x: Vec<u64>| x@.to_set()) }
pub proof fn lemma_cfg_ids(c: Seq<Set<u64>>, x: u64)
    ensures cfg_ids(c).contains(x) == exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).contains(x),
    decreases c.len(),
{
    if c.len() > 0 {
        lemma_cfg_ids(c.drop_last(), x);
        if cfg_ids(c.drop_last()).contains(x) {
            let i = choose|i: int| 0 <= i < c.drop_last().len() && (#[trigger] c.drop_last()[i]).contains(x);
            assert(c[i].contains(x));
        }
        if exists|i: int| 0 <= i < c.len() && (#[trigger] c[i]).contains(x) {
            let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).contains(x);
            if i < c.len() - 1 { assert(c.drop_last()[i].contains(x)); }
        }
    }
}
pub proof fn lemma_union_of(s: Seq<BTreeSet<u64>>, k: int)
    requires 0 <= k <= s.len(),
    ensures union_of(s, k) == cfg_ids(views(s.take(k))),
    decreases k,
{
    if k > 0 {
        lemma_union_of(s, k - 1);
        assert(views(s.take(k)).drop_last() =~= views(s.take(k - 1)));
    }
}
pub proof fn lemma_union_all(s: Seq<BTreeSet<u64>>)
    ensures union_of(s, s.len() as int) == cfg_ids(views(s)),
{ lemma_union_of(s, s.len() as int); assert(s.take(s.len() as int) =~= s); }
/// Two quorums of configurations that share a voter set have a common voter of it.
pub proof fn lemma_cfg_intersect(a: Seq<Set<u64>>, b: Seq<Set<u64>>, i: int, j: int, p: Set<u64>, q: Set<u64>)
    requires 0 <= i < a.len(), 0 <= j < b.len(), a[i] == b[j], cfg_quorum(a, p), cfg_quorum(b, q),
    ensures exists|x: u64| #[trigger] a[i].contains(x) && p.contains(x) && q.contains(x),
{ lemma_majorities_intersect(a[i], p, q); }
/// equal membership configs
pub broadcast proof fn lemma_configs_eq(a: &Vec<BTreeSet<u64>>, b: &Vec<BTreeSet<u64>>)
    ensures #[trigger] a.eq_spec(b) == (*a == *b), <Vec<BTreeSet<u64>> as PartialEqSpec<Vec<BTreeSet<u64>>>>::obeys_eq_spec(),
{
    if a.eq_spec(b) { 
        assert forall|i: int| 0 <= i < a@.len() implies a@[i] == b@[i] by { assert(a@[i].eq_spec(&b@[i])); }
        assert(a@ =~= b@);
    }
    if *a == *b { assert forall|i: int| 0 <= i < a@.len() implies (#[trigger] a@[i]).eq_spec(&b@[i]) by { } }
}
pub broadcast proof fn lemma_vconfigs_eq(a: &Vec<Vec<u64>>, b: &Vec<Vec<u64>>)
    ensures #[trigger] a.eq_spec(b) == (*a == *b), <Vec<Vec<u64>> as PartialEqSpec<Vec<Vec<u64>>>>::obeys_eq_spec(),
{
    if a.eq_spec(b) { 
        assert forall|i: int| 0 <= i < a@.len() implies a@[i] == b@[i] by { assert(a@[i].eq_spec(&b@[i])); 
            assert forall|j: int| 0 <= j < a@[i]@.len() implies a@[i]@[j] == b@[i]@[j] by { assert(a@[i]@[j].eq_spec(&b@[i]@[j])); }
            assert(a@[i]@ =~= b@[i]@); }
        assert(a@ =~= b@);
    }
    if *a == *b { assert forall|i: int| 0 <= i < a@.len() implies (#[trigger] a@[i]).eq_spec(&b@[i]) by { 
            assert forall|j: int| 0 <= j < a@[i]@.len() implies (#[trigger] a@[i]@[j]).eq_spec(&b@[i]@[j]) by { } 
    } }
}
pub broadcast group group_configs_eq { lemma_configs_eq, lemma_vconfigs_eq }
pub proof fn lemma_refs_listing(m: Set<u64>)
    ensures forall|s: Seq<&u64>| #[trigger] lists_set(unref(s), m) ==> s.no_duplicates() && unref(s).no_duplicates() && ids_of(s) == m
       && (forall|x: u64| #[trigger] m.contains(x) ==> s.contains(&x)) && (forall|i: int| 0 <= i < s.len() ==> m.contains(*#[trigger] s[i])),
{
    assert forall|s: Seq<&u64>| #[trigger] lists_set(unref(s), m) implies s.no_duplicates() && unref(s).no_duplicates() && ids_of(s) == m
       && (forall|x: u64| #[trigger] m.contains(x) ==> s.contains(&x)) && (forall|i: int| 0 <= i < s.len() ==> m.contains(*#[trigger] s[i])) by {
        lemma_lists_set(unref(s), m);
        assert forall|x: u64| #[trigger] m.contains(x) implies s.contains(&x) by { 
            assert(unref(s).contains(x));
            let i = choose|i: int| 0 <= i < unref(s).len() && unref(s)[i] == x; assert(s[i] == &x); }
        assert forall|i: int| 0 <= i < s.len() implies m.contains(*#[trigger] s[i]) by { assert(m.contains(unref(s)[i])); }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] != s[j] by { assert(unref(s)[i] != unref(s)[j]); }
    }
}
pub proof fn lemma_ids_step(s: Seq<&u64>, k: int)
    requires 0 <= k < s.len(),
    ensures ids_of(s.take(k + 1)) == ids_of(s.take(k)).insert(*s[k]),
{
    let a = unref(s.take(k));
    let b = unref(s.take(k + 1));
    assert(b =~= a.push(*s[k]));
    assert forall|x: u64| b.to_set().contains(x) == a.to_set().insert(*s[k]).contains(x) by {
        if a.contains(x) { let i = a.index_of(x); assert(b[i] == x); }
        if x == *s[k] { assert(b[k] == x); }
        if b.contains(x) { let i = b.index_of(x); if i < k { assert(a[i] == x); } }
    }
    assert(b.to_set() =~= a.to_set().insert(*s[k]));
}
pub proof fn lemma_ids_ends(m: Set<u64>)
    ensures forall|s: Seq<&u64>| #[trigger] ids_of(s.take(0)) == Set::<u64>::empty(),
        forall|s: Seq<&u64>, k: int| k == s.len() && lists_set(unref(s), m) ==> #[trigger] ids_of(s.take(k)) == m,
{
    assert forall|s: Seq<&u64>| #[trigger] ids_of(s.take(0)) == Set::<u64>::empty() by { assert(unref(s.take(0)) =~= Seq::empty()); assert(ids_of(s.take(0)) =~= Set::empty()); }
    assert forall|s: Seq<&u64>, k: int| k == s.len() && lists_set(unref(s), m) implies #[trigger] ids_of(s.take(k)) == m by { assert(s.take(k) =~= s); lemma_lists_set(unref(s), m); }
}
pub proof fn lemma_lists_sets()
    ensures forall|s: Seq<u64>, m: Set<u64>| #[trigger] lists_set(s, m) ==> s.to_set() == m,
{ assert forall|s: Seq<u64>, m: Set<u64>| #[trigger] lists_set(s, m) implies s.to_set() == m by { lemma_lists_set(s, m); } }
pub proof fn lemma_lists_sets2()
    ensures forall|s: Seq<u64>, m: Set<u64>| #[trigger] lists_set(s, m) ==> s.to_set() == m && s.no_duplicates(),
{ assert forall|s: Seq<u64>, m: Set<u64>| #[trigger] lists_set(s, m) implies s.to_set() == m && s.no_duplicates() by { lemma_lists_set(s, m); } }
pub proof fn lemma_nodup_refs()
    ensures forall|s: Seq<&u64>| s.no_duplicates() ==> #[trigger] unref(s).no_duplicates(),
        forall|s: Seq<&u64>, x: u64| #[trigger] unref(s).contains(x) ==> s.contains(&x),
        forall|s: Seq<&u64>, x: u64| #![trigger unref(s), s.contains(&x)] s.contains(&x) ==> unref(s).contains(x),
{
    assert forall|s: Seq<&u64>, x: u64| #[trigger] unref(s).contains(x) implies s.contains(&x) by {
        let i = choose|i: int| 0 <= i < unref(s).len() && unref(s)[i] == x; assert(s[i] == &x);
    }
    assert forall|s: Seq<&u64>, x: u64| #![trigger unref(s), s.contains(&x)] s.contains(&x) implies unref(s).contains(x) by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == &x; assert(unref(s)[i] == x);
    }
    assert forall|s: Seq<&u64>| s.no_duplicates() implies #[trigger] unref(s).no_duplicates() by {
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies unref(s)[i] != unref(s)[j] by { assert(s[i] != s[j]); }
    }
}
impl QuorumSetView for Joint<Vec<Vec<u64>>> {
    open spec fn qs_wf(&self) -> bool { forall|i: int| 0 <= i < self.data@.len() ==> (#[trigger] self.data@[i])@.no_duplicates() }
    open spec fn qs_ids(&self) -> Set<u64> { cfg_ids(vviews(self.data@)) }
    open spec fn qs_quorum(&self, ids: Set<u64>) -> bool { cfg_quorum(vviews(self.data@), ids) }
}
impl vstd::std_specs::convert::FromSpecImpl<Vec<Vec<u64>>> for Joint<Vec<Vec<u64>>> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Vec<Vec<u64>>) -> Self { Joint { data: v, _p: PhantomData } }
}
//@fn QuorumSet<ID> for Joint<ID,QS,Vec<QS>>::is_quorum | shim
//@subst I => Vec<&'a u64>
//@loop 0 iter=it
invariant unref(it.seq()) == self.data@, forall|i: int| 0 <= i < it.index@ ==> majority(vviews(self.data@)[i], ids_of(ids@)),
//@loop 0 start
assert(*child == unref(it.seq())[it.index@ as int]);
assert(vviews(self.data@)[it.index@ as int] == child@.to_set());
//@fn QuorumSet<ID> for Joint<ID,QS,Vec<QS>>::ids | shim
//@retty Vec<u64>
//@loop 0 iter=it
invariant unref(it.seq()) == self.data@, ids@ == cfg_ids(vviews(self.data@.take(it.index@ as int))),
//@loop 0 start
assert(*child == unref(it.seq())[it.index@ as int]);
assert(vviews(self.data@.take(it.index@ + 1)).drop_last() =~= vviews(self.data@.take(it.index@ as int)));
proof { lemma_lists_set_to_set(child@.to_set()); }
//@loop 0 after
assert(self.data@.take(self.data@.len() as int) =~= self.data@);
//@source openraft/src/quorum/joint_impl.rs
//@fn From<Vec<QS>> for Joint<ID,QS,Vec<QS>>::from
