//@module quorum_spec
//@deps log_id
//@raw
/// A majority: more than half of the voters.
pub open spec fn majority(voters: Set<u64>, ids: Set<u64>) -> bool { 2 * voters.intersect(ids).len() > voters.len() }
pub open spec fn ids_of(s: Seq<&u64>) -> Set<u64> { unref(s).to_set() }
/// members of `voters` among the first k ids
pub open spec fn count_in(voters: Set<u64>, s: Seq<&u64>, k: int) -> nat { voters.intersect(ids_of(s.take(k))).len() }

pub broadcast proof fn lemma_count_step(voters: Set<u64>, s: Seq<&u64>, k: int)
    requires 0 <= k < s.len(), unref(s).no_duplicates(),
    ensures #![trigger count_in(voters, s, k), s[k]]
       count_in(voters, s, k + 1) == count_in(voters, s, k) + (if voters.contains(*s[k]) { 1nat } else { 0nat }),
       count_in(voters, s, k + 1) <= voters.intersect(ids_of(s)).len(),
{
    let a = unref(s.take(k)).to_set();
    let b = unref(s.take(k + 1)).to_set();
    assert(unref(s.take(k + 1)) =~= unref(s.take(k)).push(*s[k]));
    assert(b =~= a.insert(*s[k])) by {
        assert forall|x: u64| b.contains(x) implies a.insert(*s[k]).contains(x) by {
            let i = choose|i: int| 0 <= i < k + 1 && #[trigger] unref(s.take(k + 1))[i] == x;
            if i < k { assert(unref(s.take(k))[i] == x); }
        }
        assert forall|x: u64| a.insert(*s[k]).contains(x) implies b.contains(x) by {
            if x == *s[k] { assert(unref(s.take(k + 1))[k] == x); } else {
                let i = choose|i: int| 0 <= i < k && #[trigger] unref(s.take(k))[i] == x;
                assert(unref(s.take(k + 1))[i] == x);
            }
        }
    }
    if a.contains(*s[k]) {
        let i = choose|i: int| 0 <= i < k && #[trigger] unref(s.take(k))[i] == *s[k];
        assert(unref(s)[i] == unref(s)[k]);
    }
    if voters.contains(*s[k]) {
        assert(voters.intersect(b) =~= voters.intersect(a).insert(*s[k]));
    } else {
        assert(voters.intersect(b) =~= voters.intersect(a));
    }
    assert(b.subset_of(ids_of(s))) by {
        assert forall|x: u64| b.contains(x) implies ids_of(s).contains(x) by {
            let i = choose|i: int| 0 <= i < k + 1 && #[trigger] unref(s.take(k + 1))[i] == x;
            assert(unref(s)[i] == x);
        }
    }
    vstd::set_lib::lemma_len_subset(voters.intersect(b), voters.intersect(ids_of(s)));
}
pub broadcast proof fn lemma_count_all(voters: Set<u64>, s: Seq<&u64>, k: int)
    requires k == s.len(),
    ensures #[trigger] count_in(voters, s, k) == voters.intersect(ids_of(s)).len(),
{ assert(s.take(k) =~= s); }
pub broadcast proof fn lemma_count_none(voters: Set<u64>, s: Seq<&u64>)
    ensures #[trigger] count_in(voters, s, 0) == 0,
{ assert(unref(s.take(0)) =~= Seq::empty()); assert(voters.intersect(ids_of(s.take(0))) =~= Set::empty()); }

/// Two majorities of the same voters have a common voter.
pub proof fn lemma_majorities_intersect(voters: Set<u64>, a: Set<u64>, b: Set<u64>)
    requires majority(voters, a), majority(voters, b),
    ensures exists|x: u64| #[trigger] voters.contains(x) && a.contains(x) && b.contains(x),
{
    let p = voters.intersect(a);
    let q = voters.intersect(b);
    if forall|x: u64| !(#[trigger] p.contains(x) && q.contains(x)) {
        assert(p.disjoint(q));
        vstd::set_lib::lemma_set_disjoint_lens(p, q);
        vstd::set_lib::lemma_len_subset(p + q, voters);
        assert(false);
    }
    let x = choose|x: u64| #[trigger] p.contains(x) && q.contains(x);
    assert(voters.contains(x) && a.contains(x) && b.contains(x));
}
pub broadcast group group_count { lemma_count_step, lemma_count_all, lemma_count_none }
/// The distinct elements of a listing.
pub proof fn lemma_listing_nodup(s: Seq<u64>)
    requires ascending(s),
    ensures s.no_duplicates(),
{ }
