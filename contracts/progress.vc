//@module progress
//@deps pentry joint_vec
//@substall ID => u64
//@substall QS => Joint<Vec<Vec<u64>>>
//@raw
/// `std::borrow::Borrow`, with the value it gives
pub trait BorrowView<P> { spec fn b(&self) -> P; }
pub trait Borrow<P>: BorrowView<P> { fn borrow(&self) -> (r: &P) ensures *r == self.b(); }
pub open spec fn pcmp<P: PartialOrd>(a: P, b: P) -> Option<Ordering> { a.partial_cmp_spec(&b) }
pub open spec fn ple<P: PartialOrd>(a: P, b: P) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) || a.partial_cmp_spec(&b) == Some(Ordering::Equal) }
pub open spec fn plt<P: PartialOrd>(a: P, b: P) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) }
/// The comparison operators of `P` are those of a total order.
pub open spec fn lawful<P: PartialOrd>() -> bool {
    &&& <P as PartialEqSpec<P>>::obeys_eq_spec()
    &&& <P as PartialOrdSpec<P>>::obeys_partial_cmp_spec()
    &&& forall|a: P, b: P| #[trigger] a.eq_spec(&b) == (a == b)
    &&& forall|a: P, b: P| (#[trigger] a.partial_cmp_spec(&b) == Some(Ordering::Equal)) == (a == b)
    &&& forall|a: P, b: P| (#[trigger] a.partial_cmp_spec(&b) == Some(Ordering::Less)) == (b.partial_cmp_spec(&a) == Some(Ordering::Greater))
    &&& forall|a: P, b: P| (#[trigger] a.partial_cmp_spec(&b)) is Some
    &&& forall|a: P, b: P, c: P| #[trigger] ple(a, b) && #[trigger] ple(b, c) ==> ple(a, c)
}
pub broadcast proof fn lemma_total<P: PartialOrd>(a: P, b: P)
    requires lawful::<P>(),
    ensures #[trigger] ple(a, b) == !plt(b, a), ple(a, b) || ple(b, a), ple(a, b) && ple(b, a) ==> a == b, plt(a, b) == (ple(a, b) && a != b),
{ 
    let x = a.partial_cmp_spec(&b); let y = b.partial_cmp_spec(&a);
    assert(x is Some && y is Some);
    assert((x == Some(Ordering::Less)) == (y == Some(Ordering::Greater)));
    assert((y == Some(Ordering::Less)) == (x == Some(Ordering::Greater)));
    assert((x == Some(Ordering::Equal)) == (a == b));
    assert((y == Some(Ordering::Equal)) == (a == b));
    match x->0 { Ordering::Less => {} Ordering::Equal => {} Ordering::Greater => {} }
    match y->0 { Ordering::Less => {} Ordering::Equal => {} Ordering::Greater => {} }
}
pub broadcast proof fn lemma_trans<P: PartialOrd>(a: P, b: P, c: P)
    requires lawful::<P>(),
    ensures #![trigger plt(a, b), ple(b, c)] plt(a, b) && ple(b, c) ==> plt(a, c),
{ lemma_total(a, b); lemma_total(b, c); lemma_total(a, c); lemma_total(b, a); lemma_total(c, b); lemma_total(c, a); }
pub broadcast proof fn lemma_trans2<P: PartialOrd>(a: P, b: P, c: P)
    requires lawful::<P>(),
    ensures #![trigger ple(a, b), plt(b, c)] ple(a, b) && plt(b, c) ==> plt(a, c),
{ lemma_total(a, b); lemma_total(b, c); lemma_total(a, c); lemma_total(b, a); lemma_total(c, b); lemma_total(c, a); }
pub broadcast group group_order { lemma_total, lemma_trans, lemma_trans2 }
pub open spec fn ids_seq<V>(v: Seq<(u64, V)>) -> Seq<u64> { Seq::new(v.len(), |i: int| v[i].0) }
/// the value recorded for `id`
pub open spec fn entry<V>(v: Seq<(u64, V)>, id: u64) -> Option<V> {
    if exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == id { Some(v[choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == id].1) } else { None }
}
pub open spec fn distinct<V>(v: Seq<(u64, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0 }
pub broadcast proof fn lemma_entry<V>(v: Seq<(u64, V)>, k: int)
    requires distinct(v), 0 <= k < v.len(),
    ensures #[trigger] entry(v, v[k].0) == Some(v[k].1),
{
    let id = v[k].0;
    let c = choose|c: int| 0 <= c < v.len() && (#[trigger] v[c]).0 == id;
    assert(v[k].0 == id);
    if c < k { assert(v[c].0 != v[k].0); }
    if k < c { assert(v[k].0 != v[c].0); }
}
/// the voters that have reached `p`
pub open spec fn reached<V: BorrowView<P>, P: PartialOrd>(v: Seq<(u64, V)>, voters: Set<u64>, p: P) -> Set<u64> {
    voters.filter(|x: u64| match entry(v, x) { Some(e) => ple(p, e.b()), None => false })
}
pub proof fn lemma_quorum_mono(q: Joint<Vec<Vec<u64>>>, a: Set<u64>, b: Set<u64>)
    requires q.qs_quorum(a), forall|x: u64| a.contains(x) && #[trigger] q.qs_ids().contains(x) ==> b.contains(x),
    ensures q.qs_quorum(b),
{
    let c = vviews(q.data@);
    assert forall|i: int| 0 <= i < c.len() implies majority(#[trigger] c[i], b) by {
        assert(majority(c[i], a));
        assert forall|x: u64| c[i].intersect(a).contains(x) implies c[i].intersect(b).contains(x) by {
            lemma_cfg_ids(c, x);
            assert(q.qs_ids().contains(x));
        }
        vstd::set_lib::lemma_len_subset(c[i].intersect(a), c[i].intersect(b));
    }
}
/// Nobody is a quorum only for a configuration without voters
pub open spec fn has_voters(q: Joint<Vec<Vec<u64>>>) -> bool { !q.qs_quorum(Set::empty()) }
pub proof fn lemma_has_voters(q: Joint<Vec<Vec<u64>>>)
    requires q.data@.len() > 0,
    ensures has_voters(q),
{
    let c = vviews(q.data@);
    assert(c[0].intersect(Set::empty()) =~= Set::empty());
    assert(!majority(c[0], Set::empty()));
}
/// All voters are a quorum, unless some voter set is empty
pub proof fn lemma_all_voters(q: Joint<Vec<Vec<u64>>>, a: Set<u64>)
    requires forall|i: int| 0 <= i < q.data@.len() ==> (#[trigger] q.data@[i])@.len() > 0,
        forall|x: u64| #[trigger] q.qs_ids().contains(x) ==> a.contains(x),
    ensures q.qs_quorum(a),
{
    let c = vviews(q.data@);
    assert forall|i: int| 0 <= i < c.len() implies majority(#[trigger] c[i], a) by {
        assert forall|x: u64| c[i].contains(x) implies a.contains(x) by { lemma_cfg_ids(c, x); assert(q.qs_ids().contains(x)); }
        assert(c[i].intersect(a) =~= c[i]);
        assert(q.data@[i]@.len() > 0);
        assert(c[i].contains(q.data@[i]@[0]));
        if c[i].len() == 0 { assert(c[i] =~= Set::empty()); }
    }
}
//@source openraft/src/progress/mod.rs
//@type Stat derive=Clone,Default
//@type VecProgress derive=Clone
//@raw
impl<V: BorrowView<P>, P: PartialOrd> VecProgress<V, P> {
    pub open spec fn val(self, k: int) -> P { self.vector@[k].1.b() }
    pub open spec fn voters(self) -> Set<u64> { self.quorum_set.qs_ids() }
    /// what is recorded for `id`
    pub open spec fn of(self, id: u64) -> Option<V> { entry(self.vector@, id) }
    pub open spec fn reached(self, p: P) -> Set<u64> { reached(self.vector@, self.voters(), p) }
    /// the voters come first
    pub open spec fn shape(self) -> bool {
        &&& self.quorum_set.qs_wf()
        &&& distinct(self.vector@)
        &&& self.voter_count <= self.vector@.len()
        &&& forall|k: int| #![trigger self.vector@[k]] 0 <= k < self.vector@.len() ==> (self.voters().contains(self.vector@[k].0) == (k < self.voter_count))
        &&& forall|x: u64| #[trigger] self.voters().contains(x) ==> exists|k: int| 0 <= k < self.voter_count && (#[trigger] self.vector@[k]).0 == x
    }
    /// the values greater than `granted` are in descending order
    pub open spec fn sorted(self) -> bool {
        forall|i: int, j: int| #![trigger self.vector@[i], self.vector@[j]] 0 <= i < j < self.voter_count && plt(self.granted, self.val(j)) ==> ple(self.val(j), self.val(i))
    }
    /// no greater value is granted by a quorum
    pub open spec fn greatest(self) -> bool {
        has_voters(self.quorum_set) ==> forall|p: P| plt(self.granted, p) ==> !self.quorum_set.qs_quorum(#[trigger] self.reached(p))
    }
    /// `granted` is granted by a quorum, or by every voter
    pub open spec fn is_granted(self) -> bool {
        self.quorum_set.qs_quorum(self.reached(self.granted)) || forall|x: u64| self.voters().contains(x) ==> #[trigger] self.reached(self.granted).contains(x)
    }
    pub open spec fn wf(self) -> bool { self.shape() && self.sorted() && self.greatest() && self.is_granted() }
}
/// the element at `from` moved up to `to`
pub open spec fn moved<T>(s: Seq<T>, from: int, to: int) -> Seq<T> { s.remove(from).insert(to, s[from]) }
pub proof fn lemma_moved<T>(s: Seq<T>, from: int, to: int)
    requires 0 <= to <= from < s.len(),
    ensures moved(s, from, to).len() == s.len(),
       forall|k: int| 0 <= k < s.len() ==> #[trigger] moved(s, from, to)[k] == (if k < to { s[k] } else if k == to { s[from] } else if k <= from { s[k - 1] } else { s[k] }),
       to < from ==> forall|t: Seq<T>| t == moved(s, from, to + 1) ==> #[trigger] t.update(to, t[to + 1]).update(to + 1, t[to]) == moved(s, from, to),
       to == from ==> moved(s, from, to) == s,
{
    if to < from {
        let t = moved(s, from, to + 1);
        assert(t.update(to, t[to + 1]).update(to + 1, t[to]) =~= moved(s, from, to));
    }
    if to == from { assert(moved(s, from, to) =~= s); }
}
pub proof fn lemma_moved_entries<V>(s: Seq<(u64, V)>, from: int, to: int)
    requires 0 <= to <= from < s.len(), distinct(s),
    ensures distinct(moved(s, from, to)), forall|id: u64| #[trigger] entry(moved(s, from, to), id) == entry(s, id),
{
    lemma_moved(s, from, to);
    let m = moved(s, from, to);
    let back = |k: int| if k < to { k } else if k == to { from } else if k <= from { k - 1 } else { k };
    let fwd = |k: int| if k < to { k } else if k < from { k + 1 } else if k == from { to } else { k };
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies (#[trigger] m[i]).0 != (#[trigger] m[j]).0 by {
        assert(m[i] == s[back(i)] && m[j] == s[back(j)] && back(i) != back(j));
        if back(i) < back(j) { } else { assert(s[back(j)].0 != s[back(i)].0); }
    }
    assert forall|id: u64| #[trigger] entry(m, id) == entry(s, id) by {
        if exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == id {
            let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == id;
            assert(m[fwd(k)] == s[k]);
            lemma_entry(s, k); lemma_entry(m, fwd(k));
        } else if exists|k: int| 0 <= k < m.len() && (#[trigger] m[k]).0 == id {
            let k = choose|k: int| 0 <= k < m.len() && (#[trigger] m[k]).0 == id;
            assert(s[back(k)].0 == id);
        }
    }
}
pub proof fn lemma_update_entries<V>(s: Seq<(u64, V)>, k: int, e: (u64, V))
    requires 0 <= k < s.len(), distinct(s), e.0 == s[k].0,
    ensures distinct(s.update(k, e)), forall|id: u64| #[trigger] entry(s.update(k, e), id) == (if id == e.0 { Some(e.1) } else { entry(s, id) }),
{
    let t = s.update(k, e);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { assert(s[i].0 != s[j].0); }
    assert forall|id: u64| #[trigger] entry(t, id) == (if id == e.0 { Some(e.1) } else { entry(s, id) }) by {
        if id == e.0 { lemma_entry(t, k); }
        else if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == id {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == id;
            lemma_entry(s, i); assert(t[i] == s[i]); lemma_entry(t, i);
        } else {
            if exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == id {
                let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == id;
                assert(s[i].0 == id);
            }
        }
    }
}
//@fn VecProgress::index | shim
ensures r is None ==> forall|k: int| 0 <= k < self.vector@.len() ==> (#[trigger] self.vector@[k]).0 != *target,
  r is Some ==> r->0 < self.vector@.len() && self.vector@[r->0 as int].0 == *target,
//@loop 0 iter=it
invariant it.seq().len() == self.vector@.len(), forall|k: int| 0 <= k < it.seq().len() ==> (#[trigger] it.seq()[k]).0 == k && *it.seq()[k].1 == self.vector@[k],
   forall|k: int| 0 <= k < it.index@ ==> (#[trigger] self.vector@[k]).0 != *target,
//@fn VecProgress::move_up | math
requires index < old(self).vector@.len(), lawful::<P>(), 
ensures r <= index, final(self).vector@ == moved(old(self).vector@, index as int, r as int),
  final(self).quorum_set == old(self).quorum_set, final(self).granted == old(self).granted, final(self).voter_count == old(self).voter_count,
  forall|k: int| r <= k < index ==> plt(#[trigger] old(self).val(k), old(self).val(index as int)),
  r > 0 ==> ple(old(self).val(index as int), old(self).val(r - 1)),
//@proof start
proof { lemma_moved(old(self).vector@, index as int, index as int); }
//@loop 0 iter=it
invariant index < old(self).vector@.len(), lawful::<P>(), self.vector@ == moved(old(self).vector@, index as int, index - it.index@),
  self.quorum_set == old(self).quorum_set, self.granted == old(self).granted, self.voter_count == old(self).voter_count,
  forall|k: int| index - it.index@ <= k < index ==> plt(#[trigger] old(self).val(k), old(self).val(index as int)),
//@loop 0 start
proof { lemma_moved(old(self).vector@, index as int, i + 1); lemma_moved(old(self).vector@, index as int, i as int); }
assert(self.vector@[i as int] == old(self).vector@[i as int] && self.vector@[i + 1] == old(self).vector@[index as int]);
assert(self.vector@[i as int].1.b() == old(self).val(i as int) && self.vector@[i + 1].1.b() == old(self).val(index as int));
proof { lemma_total(old(self).val(index as int), old(self).val(i as int)); }
assert(!plt(old(self).val(i as int), old(self).val(index as int)) ==> ple(old(self).val(index as int), old(self).val(i as int)));
//@raw
/// what `f` may turn `a` into
#[verifier::prophetic]
pub open spec fn updates<V, F: FnOnce(&mut V)>(f: F, a: V, b: V) -> bool { exists|m: &mut V| #[trigger] call_ensures(f, (m,), ()) && *m == a && *final(m) == b }
/// where `id` is recorded
pub open spec fn pos<V>(v: Seq<(u64, V)>, id: u64) -> int { choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == id }
pub open spec fn same_voters<V: BorrowView<P>, P: PartialOrd>(a: VecProgress<V, P>, b: VecProgress<V, P>) -> bool { a.quorum_set == b.quorum_set && a.voter_count == b.voter_count }
/// nothing but the record of `id` differs
pub open spec fn only<V>(a: Seq<(u64, V)>, b: Seq<(u64, V)>, id: u64) -> bool { b.len() == a.len() && (entry(a, id) is Some) == (entry(b, id) is Some) && forall|x: u64| x != id ==> #[trigger] entry(b, x) == entry(a, x) }
pub proof fn lemma_pos<V>(v: Seq<(u64, V)>, id: u64)
    requires distinct(v),
    ensures forall|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == id ==> k == pos(v, id) && entry(v, id) == Some(v[k].1),
       (forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).0 != id) ==> entry(v, id) is None,
       entry(v, id) is Some ==> 0 <= pos(v, id) < v.len() && v[pos(v, id)].0 == id && v[pos(v, id)].1 == entry(v, id)->0,
{
    assert forall|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == id implies k == pos(v, id) && entry(v, id) == Some(v[k].1) by {
        lemma_entry(v, k);
        let c = pos(v, id);
        if c < k { assert(v[c].0 != v[k].0); }
        if k < c { assert(v[k].0 != v[c].0); }
    }
}
/// The record of `id` is replaced by one that is not below it.
pub open spec fn raised<V: BorrowView<P>, P: PartialOrd>(o: VecProgress<V, P>, n: VecProgress<V, P>, id: u64) -> bool {
    let k = pos(o.vector@, id);
    &&& o.of(id) is Some
    &&& same_voters(o, n)
    &&& n.granted == o.granted
    &&& n.vector@ == o.vector@.update(k, (id, n.vector@[k].1))
    &&& ple(o.val(k), n.val(k))
}
pub proof fn lemma_shape<V: BorrowView<P>, P: PartialOrd>(o: VecProgress<V, P>, n: VecProgress<V, P>, id: u64)
    requires o.shape(), raised(o, n, id),
    ensures n.shape(), only(o.vector@, n.vector@, id), n.of(id) == Some(n.vector@[pos(o.vector@, id)].1), pos(n.vector@, id) == pos(o.vector@, id),
{
    let k = pos(o.vector@, id);
    lemma_pos(o.vector@, id);
    lemma_update_entries(o.vector@, k, n.vector@[k]);
    lemma_pos(n.vector@, id);
    assert forall|j: int| #![trigger n.vector@[j]] 0 <= j < n.vector@.len() implies (n.voters().contains(n.vector@[j].0) == (j < n.voter_count)) by { assert(o.vector@[j].0 == n.vector@[j].0); }
    assert forall|x: u64| #[trigger] n.voters().contains(x) implies exists|k: int| 0 <= k < n.voter_count && (#[trigger] n.vector@[k]).0 == x by {
        assert(o.voters().contains(x));
        let j = choose|j: int| 0 <= j < o.voter_count && (#[trigger] o.vector@[j]).0 == x;
        assert(n.vector@[j].0 == x);
    }
}
/// ... of a learner, or up to the granted value: nothing else changes
pub proof fn lemma_raised<V: BorrowView<P>, P: PartialOrd>(o: VecProgress<V, P>, n: VecProgress<V, P>, id: u64)
    requires lawful::<P>(), o.wf(), raised(o, n, id),
       ({ let k = pos(o.vector@, id); k >= o.voter_count || ple(n.val(k), n.granted) || n.val(k) == o.val(k) }),
    ensures n.wf(),
{
    broadcast use lemma_total;
    let k = pos(o.vector@, id);
    let g = o.granted;
    lemma_pos(o.vector@, id);
    lemma_shape(o, n, id);
    assert forall|i: int, j: int| #![trigger n.vector@[i], n.vector@[j]] 0 <= i < j < n.voter_count && plt(g, n.val(j)) implies ple(n.val(j), n.val(i)) by {
        assert(o.vector@[i].0 == n.vector@[i].0 && o.vector@[j].0 == n.vector@[j].0);
        if i == k && n.val(k) != o.val(k) { assert(ple(o.val(j), o.val(k))); assert(ple(o.val(j), n.val(k))); }
    }
    assert forall|p: P| plt(g, p) || p == g implies forall|x: u64| o.voters().contains(x) && x != id ==> #[trigger] n.reached(p).contains(x) == o.reached(p).contains(x) by { }
    assert forall|p: P| plt(g, p) implies #[trigger] n.reached(p) == o.reached(p) by {
        assert forall|x: u64| n.reached(p).contains(x) == o.reached(p).contains(x) by {
            if x == id && k < o.voter_count && n.val(k) != o.val(k) { 
                if ple(p, n.val(k)) { assert(ple(p, g)); }
                if ple(p, o.val(k)) { assert(ple(p, n.val(k))); }
            }
            if x == id && k >= o.voter_count { assert(!o.voters().contains(x)); }
        }
        assert(n.reached(p) =~= o.reached(p));
    }
    assert forall|x: u64| o.reached(g).contains(x) implies n.reached(g).contains(x) by {
        if x == id { assert(ple(g, o.val(k))); assert(ple(g, n.val(k))); }
    }
    if o.quorum_set.qs_quorum(o.reached(g)) { lemma_quorum_mono(o.quorum_set, o.reached(g), n.reached(g)); }
}
/// ... of a voter, above the granted value: it moves up to its place
pub open spec fn moved_up<V: BorrowView<P>, P: PartialOrd>(m: VecProgress<V, P>, n: VecProgress<V, P>, id: u64, to: int) -> bool {
    let k = pos(m.vector@, id);
    &&& same_voters(m, n)
    &&& n.granted == m.granted
    &&& m.of(id) is Some && k < m.voter_count
    &&& plt(m.granted, m.val(k))
    &&& 0 <= to <= k
    &&& n.vector@ == moved(m.vector@, k, to)
    &&& forall|j: int| to <= j < k ==> plt(#[trigger] m.val(j), m.val(k))
    &&& to > 0 ==> ple(m.val(k), m.val(to - 1))
}
pub proof fn lemma_moved_up<V: BorrowView<P>, P: PartialOrd>(o: VecProgress<V, P>, m: VecProgress<V, P>, n: VecProgress<V, P>, id: u64, to: int)
    requires lawful::<P>(), o.wf(), raised(o, m, id), moved_up(m, n, id, to),
    ensures n.shape(), n.sorted(), n.is_granted(), only(o.vector@, n.vector@, id), n.of(id) == m.of(id),
      forall|p: P| #[trigger] plt(n.granted, p) && !ple(p, n.val(to)) ==> n.reached(p) == o.reached(p),
      plt(n.granted, o.val(pos(o.vector@, id))) ==> n.wf(),
{
    broadcast use {lemma_total, lemma_trans, lemma_trans2};
    let k = pos(o.vector@, id);
    let g = o.granted;
    lemma_pos(o.vector@, id);
    lemma_shape(o, m, id);
    lemma_pos(m.vector@, id);
    lemma_moved(m.vector@, k, to);
    lemma_moved_entries(m.vector@, k, to);
    let back = |k2: int| if k2 < to { k2 } else if k2 == to { k } else if k2 <= k { k2 - 1 } else { k2 };
    let fwd = |k2: int| if k2 < to { k2 } else if k2 < k { k2 + 1 } else if k2 == k { to } else { k2 };
    assert forall|j: int| #![trigger n.vector@[j]] 0 <= j < n.vector@.len() implies (n.voters().contains(n.vector@[j].0) == (j < n.voter_count)) by { assert(n.vector@[j] == m.vector@[back(j)]); }
    assert forall|x: u64| #[trigger] n.voters().contains(x) implies exists|k: int| 0 <= k < n.voter_count && (#[trigger] n.vector@[k]).0 == x by {
        assert(m.voters().contains(x));
        let j = choose|j: int| 0 <= j < m.voter_count && (#[trigger] m.vector@[j]).0 == x;
        assert(n.vector@[fwd(j)] == m.vector@[j]);
    }
    assert forall|i: int, j: int| #![trigger n.vector@[i], n.vector@[j]] 0 <= i < j < n.voter_count && plt(g, n.val(j)) implies ple(n.val(j), n.val(i)) by {
        let bi = back(i); let bj = back(j);
        assert(n.vector@[i] == m.vector@[bi] && n.vector@[j] == m.vector@[bj]);
        assert(bi != bj);
        if bi != k { assert(o.vector@[bi] == m.vector@[bi]); }
        if bj != k { assert(o.vector@[bj] == m.vector@[bj]); }
        if j == to {
            // the moved one: below everything before it
            assert(bj == k && i < to);
            if i < to - 1 { assert(o.vector@[to - 1] == m.vector@[to - 1]); assert(ple(o.val(to - 1), o.val(i))); assert(ple(m.val(k), m.val(to - 1))); }
        } else if i == to {
            assert(bi == k);
            if bj < k { assert(plt(m.val(bj), m.val(k))); }
            else { assert(ple(o.val(bj), o.val(k))); assert(ple(o.val(k), m.val(k))); }
        } else {
            assert(bi < bj && bi != k && bj != k);
            assert(ple(o.val(bj), o.val(bi)));
        }
    }
    assert forall|p: P, x: u64| x != id && o.voters().contains(x) implies n.reached(p).contains(x) == o.reached(p).contains(x) by { }
    assert forall|x: u64| o.reached(g).contains(x) implies n.reached(g).contains(x) by { if x == id { } }
    if o.quorum_set.qs_quorum(o.reached(g)) { lemma_quorum_mono(o.quorum_set, o.reached(g), n.reached(g)); }
    assert(n.vector@[to] == m.vector@[k]);
    assert forall|p: P| #[trigger] plt(n.granted, p) && !ple(p, n.val(to)) implies n.reached(p) == o.reached(p) by {
        assert(!ple(p, o.val(k))) by { if ple(p, o.val(k)) { assert(ple(o.val(k), m.val(k))); } }
        assert(n.of(id)->0.b() == n.val(to));
        assert(n.reached(p) =~= o.reached(p));
    }
    if plt(g, o.val(k)) && has_voters(n.quorum_set) {
        let q = o.val(k);
        assert forall|p: P| plt(g, p) implies !n.quorum_set.qs_quorum(#[trigger] n.reached(p)) by {
            assert(!o.quorum_set.qs_quorum(o.reached(p)));
            assert(!o.quorum_set.qs_quorum(o.reached(q)));
            if n.quorum_set.qs_quorum(n.reached(p)) {
                if ple(p, q) {
                    assert forall|x: u64| n.reached(p).contains(x) implies o.reached(p).contains(x) by { }
                    lemma_quorum_mono(o.quorum_set, n.reached(p), o.reached(p));
                } else {
                    assert forall|x: u64| n.reached(p).contains(x) implies o.reached(q).contains(x) by {
                        if x != id { assert(o.reached(p).contains(x)); assert(ple(q, p)); }
                    }
                    lemma_quorum_mono(o.quorum_set, n.reached(p), o.reached(q));
                }
            }
        }
    }
}
/// the ids at the first k positions
pub open spec fn prefix<V>(v: Seq<(u64, V)>, k: int) -> Set<u64> { ids_seq(v.take(k)).to_set() }
pub open spec fn unlike<V: BorrowView<P>, P: PartialOrd>(n: VecProgress<V, P>, s: VecProgress<V, P>, g: P) -> bool { same_voters(n, s) && s.vector == n.vector && s.granted == g }
pub proof fn lemma_unlike<V: BorrowView<P>, P: PartialOrd>(n: VecProgress<V, P>, s: VecProgress<V, P>)
    requires same_voters(n, s), s.vector == n.vector,
    ensures n.shape() ==> s.shape(), s.granted == n.granted && n.sorted() ==> s.sorted(), forall|p: P| #[trigger] s.reached(p) == n.reached(p),
{
    if n.shape() { assert forall|k: int| #![trigger s.vector@[k]] 0 <= k < s.vector@.len() implies (s.voters().contains(s.vector@[k].0) == (k < s.voter_count)) by { assert(n.vector@[k] == s.vector@[k]); } }
    if s.granted == n.granted && n.sorted() {
        assert forall|i: int, j: int| #![trigger s.vector@[i], s.vector@[j]] 0 <= i < j < s.voter_count && plt(s.granted, s.val(j)) implies ple(s.val(j), s.val(i)) by { assert(n.vector@[i] == s.vector@[i] && n.vector@[j] == s.vector@[j]); }
    }
}
/// those that reached p are at the first positions
pub proof fn lemma_prefix<V: BorrowView<P>, P: PartialOrd>(n: VecProgress<V, P>, h: int, p: P)
    requires lawful::<P>(), n.shape(), n.sorted(), 0 <= h < n.voter_count, plt(n.granted, p), h + 1 == n.voter_count || !ple(p, n.val(h + 1)),
       !n.quorum_set.qs_quorum(prefix(n.vector@, h + 1)),
    ensures !n.quorum_set.qs_quorum(n.reached(p)),
{
    broadcast use {lemma_total, lemma_trans, lemma_trans2};
    assert forall|x: u64| n.reached(p).contains(x) implies prefix(n.vector@, h + 1).contains(x) by {
        let j = choose|j: int| 0 <= j < n.voter_count && (#[trigger] n.vector@[j]).0 == x;
        lemma_entry(n.vector@, j);
        assert(ple(p, n.val(j)));
        if j > h { 
            assert(plt(n.granted, n.val(j)));
            if j > h + 1 { assert(n.vector@[h + 1].0 == n.vector@[h + 1].0); assert(ple(n.val(j), n.val(h + 1))); assert(ple(p, n.val(h + 1))); }
            assert(false);
        }
        assert(ids_seq(n.vector@.take(h + 1))[j] == x);
    }
    if n.quorum_set.qs_quorum(n.reached(p)) { lemma_quorum_mono(n.quorum_set, n.reached(p), prefix(n.vector@, h + 1)); }
}
pub proof fn lemma_scan_none<V: BorrowView<P>, P: PartialOrd>(o: VecProgress<V, P>, m: VecProgress<V, P>, n: VecProgress<V, P>, id: u64, to: int, h: int, s: VecProgress<V, P>)
    requires lawful::<P>(), o.wf(), raised(o, m, id), moved_up(m, n, id, to), to <= h < n.voter_count,
      !n.quorum_set.qs_quorum(prefix(n.vector@, h + 1)),
      h + 1 == n.voter_count || ple(n.val(h + 1), n.granted),
      unlike(n, s, n.granted),
    ensures s.wf(),
{
    broadcast use {lemma_total, lemma_trans, lemma_trans2};
    lemma_moved_up(o, m, n, id, to);
    assert forall|p: P| plt(n.granted, p) implies !s.quorum_set.qs_quorum(#[trigger] s.reached(p)) by {
        lemma_unlike(n, s);
        if h + 1 < n.voter_count { assert(!ple(p, n.val(h + 1))) by { if ple(p, n.val(h + 1)) { assert(plt(n.granted, n.val(h + 1))); } } }
        lemma_prefix(n, h, p);
    }
    lemma_unlike(n, s);
    assert(s.reached(s.granted) == n.reached(n.granted));
}
pub proof fn lemma_scan_found<V: BorrowView<P>, P: PartialOrd>(o: VecProgress<V, P>, m: VecProgress<V, P>, n: VecProgress<V, P>, id: u64, to: int, i: int, s: VecProgress<V, P>)
    requires lawful::<P>(), o.wf(), raised(o, m, id), moved_up(m, n, id, to), to <= i < n.voter_count,
      i > to ==> !n.quorum_set.qs_quorum(prefix(n.vector@, i)),
      n.quorum_set.qs_quorum(prefix(n.vector@, i + 1)),
      plt(n.granted, n.val(i)), unlike(n, s, n.val(i)),
    ensures s.wf(),
{
    broadcast use {lemma_total, lemma_trans, lemma_trans2};
    lemma_moved_up(o, m, n, id, to);
    lemma_unlike(n, s);
    let g = n.granted;
    let v = n.val(i);
    assert forall|x: u64| prefix(n.vector@, i + 1).contains(x) implies n.reached(v).contains(x) by {
        let j = ids_seq(n.vector@.take(i + 1)).index_of(x);
        assert(n.vector@[j].0 == x);
        lemma_entry(n.vector@, j);
        if j < i { assert(n.vector@[i].0 == n.vector@[i].0); assert(ple(n.val(i), n.val(j))); }
        else { assert(ple(v, v)); }
    }
    lemma_quorum_mono(n.quorum_set, prefix(n.vector@, i + 1), n.reached(v));
    assert(s.reached(v) == n.reached(v));
    assert forall|p: P| plt(v, p) && has_voters(n.quorum_set) implies !s.quorum_set.qs_quorum(#[trigger] s.reached(p)) by {
        assert(s.reached(p) == n.reached(p));
        assert(ple(v, p));
        assert(plt(g, p));
        assert(!ple(p, n.val(i)));
        if i > to { lemma_prefix(n, i - 1, p); }
        else { assert(n.reached(p) == o.reached(p)); }
    }
    assert forall|a: int, b: int| #![trigger s.vector@[a], s.vector@[b]] 0 <= a < b < s.voter_count && plt(v, s.val(b)) implies ple(s.val(b), s.val(a)) by { 
        assert(n.vector@[a] == s.vector@[a] && n.vector@[b] == s.vector@[b]);
        assert(ple(v, s.val(b)));
        assert(plt(g, s.val(b))); }
}
//@raw
pub proof fn lemma_ret<V: BorrowView<P>, P: PartialOrd>(o: VecProgress<V, P>, n: VecProgress<V, P>, id: u64)
    requires lawful::<P>(), o.wf(),
    ensures raised(o, n, id) && (pos(o.vector@, id) >= o.voter_count || pcmp(n.val(pos(o.vector@, id)), n.granted) != Some(Ordering::Greater) || n.val(pos(o.vector@, id)) == o.val(pos(o.vector@, id)))
       ==> n.wf() && only(o.vector@, n.vector@, id) && n.of(id) == Some(n.vector@[pos(o.vector@, id)].1),
       same_voters(o, n) && n.granted == o.granted && n.vector == o.vector ==> n.wf(),
       ple(o.granted, o.granted),
{
    lemma_total(o.granted, o.granted);
    if same_voters(o, n) && n.granted == o.granted && n.vector == o.vector { lemma_unlike(o, n); assert(n.reached(n.granted) == o.reached(n.granted)); assert forall|p: P| plt(o.granted, p) && has_voters(o.quorum_set) implies !n.quorum_set.qs_quorum(#[trigger] n.reached(p)) by { assert(n.reached(p) == o.reached(p)); } }
    if raised(o, n, id) {
        lemma_shape(o, n, id);
        let k = pos(o.vector@, id);
        lemma_total(n.val(k), n.granted);
        if k >= o.voter_count || ple(n.val(k), n.granted) || n.val(k) == o.val(k) { lemma_raised(o, n, id); }
    }
}
//@fn Progress<ID,V,P,QS> for VecProgress<ID,V,P,QS>::update_with | as=VecProgress shim math
//@attrs #[verifier::rlimit(100)]
requires lawful::<P>(), old(self).wf(),
  old(self).of(*id) is Some ==> forall|m: &mut V| *m == old(self).of(*id)->0 ==> call_requires(f, (m,)),
  old(self).of(*id) is Some ==> forall|e: V| #[trigger] updates(f, old(self).of(*id)->0, e) ==> ple(old(self).of(*id)->0.b(), e.b()),
ensures final(self).wf(), same_voters(*old(self), *final(self)), only(old(self).vector@, final(self).vector@, *id),
  ple(old(self).granted, final(self).granted),
  old(self).of(*id) is Some ==> r is Ok && *r->Ok_0 == final(self).granted && updates(f, old(self).of(*id)->0, final(self).of(*id)->0),
  old(self).of(*id) is None ==> r is Err && *r->Err_0 == final(self).granted && final(self).granted == old(self).granted && final(self).vector == old(self).vector,
//@proof start
let ghost vx_o = *self;
proof { lemma_pos(self.vector@, *id); }
//@proof after `f(`
proof { assert(updates(f, vx_o.of(*id)->0, elt.1)); lemma_total(vx_o.of(*id)->0.b(), elt.1.b()); lemma_total(elt.1.b(), vx_o.of(*id)->0.b()); }
//@proof before `let new_index =`
let ghost vx_m = *self;
proof { lemma_shape(vx_o, vx_m, *id); lemma_pos(vx_m.vector@, *id); }
//@proof after `let new_index =`
let ghost vx_n = *self;
proof { assert(moved_up(vx_m, vx_n, *id, new_index as int)); lemma_moved_up(vx_o, vx_m, vx_n, *id, new_index as int); }
//@proof return
proof { lemma_ret(vx_o, *self, *id); }
//@proof after `let it =`
proof {
    broadcast use {lemma_total, lemma_trans, lemma_trans2};
    assert(unref(it@) =~= ids_seq(vx_n.vector@.take(i + 1)));
    assert(unref(it@).no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < b < it@.len() implies unref(it@)[a] != unref(it@)[b] by { assert(vx_n.vector@[a].0 != vx_n.vector@[b].0); } }
    assert(ids_of(it@) == prefix(vx_n.vector@, i + 1));
}
//@closure 0
|x: &(u64, V)| -> (o: &u64) ensures *o == x.0
//@proof before `break`
proof { lemma_total(vx_n.val(new_index as int), vx_n.granted); assert(i > new_index); assert(!vx_n.quorum_set.qs_quorum(prefix(vx_n.vector@, (i - 1) + 1))); lemma_scan_none(vx_o, vx_m, vx_n, *id, new_index as int, i - 1, *self); }
//@proof after `self.granted =`
proof { lemma_total(vx_n.val(i as int), vx_n.granted); if i > new_index { assert(!vx_n.quorum_set.qs_quorum(prefix(vx_n.vector@, (i - 1) + 1))); }
   lemma_scan_found(vx_o, vx_m, vx_n, *id, new_index as int, i as int, *self); }
//@loop 0 end
proof { if i + 1 == vx_n.voter_count { lemma_scan_none(vx_o, vx_m, vx_n, *id, new_index as int, i as int, *self); } }
//@loop 0 iter=it
invariant_except_break new_index + it.index@ == vx_n.voter_count ==> self.wf(), self.granted == vx_n.granted, forall|j: int| new_index <= j < new_index + it.index@ ==> !vx_n.quorum_set.qs_quorum(#[trigger] prefix(vx_n.vector@, j + 1)),
invariant self.vector == vx_n.vector, same_voters(vx_n, *self),
ensures self.wf(), ple(vx_n.granted, self.granted),
//@fn Progress::update
//@emit impl<V: Borrow<P>, P: PartialOrd + Copy> VecProgress<V, P>
requires lawful::<P>(), old(self).wf(), old(self).of(*id) is Some ==> ple(old(self).of(*id)->0.b(), value.b()),
ensures final(self).wf(), same_voters(*old(self), *final(self)), only(old(self).vector@, final(self).vector@, *id),
  ple(old(self).granted, final(self).granted),
  old(self).of(*id) is Some ==> r is Ok && *r->Ok_0 == final(self).granted && final(self).of(*id) == Some(value),
  old(self).of(*id) is None ==> r is Err && *r->Err_0 == final(self).granted && final(self).granted == old(self).granted && final(self).vector == old(self).vector,
//@closure 0
|x: &mut V| ensures *final(x) == value
//@fn Progress::increase_to
//@emit impl<V: Borrow<P> + PartialOrd, P: PartialOrd + Copy> VecProgress<V, P>
requires lawful::<P>(), lawful::<V>(), forall|a: V, b: V| #[trigger] ple(a, b) ==> ple(a.b(), b.b()), old(self).wf(),
ensures final(self).wf(), same_voters(*old(self), *final(self)), only(old(self).vector@, final(self).vector@, *id),
  ple(old(self).granted, final(self).granted),
  old(self).of(*id) is Some ==> r is Ok && *r->Ok_0 == final(self).granted && final(self).of(*id) == Some(if plt(old(self).of(*id)->0, value) { value } else { old(self).of(*id)->0 }),
  old(self).of(*id) is None ==> r is Err && *r->Err_0 == final(self).granted && final(self).granted == old(self).granted && final(self).vector == old(self).vector,
//@proof start
proof { let vx_v = self.of(*id)->0; lemma_total(vx_v, value); lemma_total(vx_v, vx_v); lemma_total(value, vx_v); assert(ple(vx_v, vx_v)); assert(plt(vx_v, value) ==> ple(vx_v, value)); }
//@closure 0
|x: &mut V| requires lawful::<V>(), ensures *final(x) == (if plt(*old(x), value) { value } else { *old(x) })
//@fn Progress<ID,V,P,QS> for VecProgress<ID,V,P,QS>::try_get | as=VecProgress trymatch
requires self.wf(),
ensures match r { Some(x) => self.of(*id) == Some(*x), None => self.of(*id) is None },
//@proof start
proof { lemma_pos(self.vector@, *id); }
//@fn Progress<ID,V,P,QS> for VecProgress<ID,V,P,QS>::get_mut | as=VecProgress trymatch
requires old(self).wf(),
ensures r is Some == old(self).of(*id) is Some,
  r is None ==> *final(self) == *old(self),
  r is Some ==> *r->0 == old(self).of(*id)->0 && final(self).vector@ == old(self).vector@.update(pos(old(self).vector@, *id), (*id, *final(r->0)))
     && same_voters(*old(self), *final(self)) && final(self).granted == old(self).granted,
//@proof start
proof { lemma_pos(self.vector@, *id); }
//@fn Progress<ID,V,P,QS> for VecProgress<ID,V,P,QS>::get | as=VecProgress
requires self.wf(), self.of(*id) is Some,
ensures *r == self.of(*id)->0,
//@proof start
proof { lemma_pos(self.vector@, *id); }
//@fn Progress<ID,V,P,QS> for VecProgress<ID,V,P,QS>::granted | as=VecProgress
ensures *r == self.granted,
//@fn Progress<ID,V,P,QS> for VecProgress<ID,V,P,QS>::quorum_set | as=VecProgress
ensures *r == self.quorum_set,
//@fn Progress<ID,V,P,QS> for VecProgress<ID,V,P,QS>::is_voter | as=VecProgress trymatch
requires self.wf(),
ensures r == (match self.of(*id) { Some(_) => Some(self.voters().contains(*id)), None => None }),
//@proof start
proof { lemma_pos(self.vector@, *id); }
//@fn Progress<ID,V,P,QS> for VecProgress<ID,V,P,QS>::iter | as=VecProgress shim rename=vx_iter
//@retty Vec<&(u64, V)>
ensures r@.len() == self.vector@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.vector@[i],
//@fn VecProgress::iter_mut | shim rename=vx_iter_mut
//@retty &mut Vec<(u64, V)>
ensures *r == old(self).vector, final(self).vector == *final(r), final(self).quorum_set == old(self).quorum_set, final(self).granted == old(self).granted,
   final(self).voter_count == old(self).voter_count,
//@fn VecProgress::into_iter | shim rename=vx_into_iter
//@retty Vec<(u64, V)>
ensures r@ == self.vector@,
//@raw
pub proof fn lemma_listed(t: Seq<u64>, m: Set<u64>)
    ensures forall|s: Seq<u64>| #[trigger] lists_set(s, m) && s.len() == t.len() && (forall|i: int| 0 <= i < t.len() ==> t[i] == s[i]) ==> t == s,
{ assert forall|s: Seq<u64>| #[trigger] lists_set(s, m) && s.len() == t.len() && (forall|i: int| 0 <= i < t.len() ==> t[i] == s[i]) implies t == s by { assert(t =~= s); } }
pub open spec fn starts<V, F: Fn() -> V>(f: F, v: V) -> bool { call_ensures(f, (), v) }
pub proof fn lemma_new<V: BorrowView<P>, P: PartialOrd>(r: VecProgress<V, P>, ls: Seq<u64>, g: P)
    requires lawful::<P>(), r.quorum_set.qs_wf(), r.voter_count <= r.vector@.len(), lists_set(ids_seq(r.vector@.take(r.voter_count as int)), r.voters()),
      ids_seq(r.vector@.skip(r.voter_count as int)) == ls, ls.no_duplicates(), forall|i: int| 0 <= i < ls.len() ==> !r.voters().contains(#[trigger] ls[i]),
      r.granted == g, forall|k: int| #![trigger r.vector@[k]] 0 <= k < r.vector@.len() ==> r.vector@[k].1.b() == g,
    ensures r.wf(), forall|x: u64| #[trigger] r.of(x) is Some == (r.voters().contains(x) || ls.contains(x)),
      forall|x: u64| #[trigger] r.of(x) is Some ==> 0 <= pos(r.vector@, x) < r.vector@.len() && r.of(x)->0 == r.vector@[pos(r.vector@, x)].1,
{
    broadcast use {lemma_total, lemma_trans, lemma_trans2};
    let vs = ids_seq(r.vector@.take(r.voter_count as int));
    lemma_lists_set(vs, r.voters());
    let vc = r.voter_count as int;
    assert forall|k: int| #![trigger r.vector@[k]] 0 <= k < r.vector@.len() implies (r.voters().contains(r.vector@[k].0) == (k < vc)) by {
        if k < vc { assert(vs[k] == r.vector@[k].0); assert(r.voters().contains(vs[k])); }
        else { assert(ls[k - vc] == r.vector@[k].0); }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.vector@.len() implies (#[trigger] r.vector@[i]).0 != (#[trigger] r.vector@[j]).0 by {
        if j < vc { assert(vs[i] < vs[j]); }
        else if i >= vc { assert(ls[i - vc] != ls[j - vc]); }
    }
    assert forall|x: u64| #[trigger] r.voters().contains(x) implies exists|k: int| 0 <= k < r.voter_count && (#[trigger] r.vector@[k]).0 == x by {
        let k = vs.index_of(x);
        assert(r.vector@[k].0 == x);
    }
    assert forall|x: u64| #[trigger] r.of(x) is Some == (r.voters().contains(x) || ls.contains(x)) by {
        lemma_pos(r.vector@, x);
        if r.voters().contains(x) { let k = choose|k: int| 0 <= k < r.voter_count && (#[trigger] r.vector@[k]).0 == x; lemma_entry(r.vector@, k); }
        if ls.contains(x) { let k = ls.index_of(x); assert(r.vector@[k + vc].0 == x); lemma_entry(r.vector@, k + vc); }
        if r.of(x) is Some { let k = pos(r.vector@, x); assert(r.vector@[k].0 == x); if k >= vc { assert(ls[k - vc] == x); } }
    }
    assert forall|x: u64| #[trigger] r.of(x) is Some implies 0 <= pos(r.vector@, x) < r.vector@.len() && r.of(x)->0 == r.vector@[pos(r.vector@, x)].1 by { lemma_pos(r.vector@, x); }
    assert forall|x: u64| r.voters().contains(x) implies #[trigger] r.reached(g).contains(x) by { assert(r.of(x) is Some); assert(ple(g, g)); }
    assert forall|p: P| plt(g, p) implies r.reached(p) == Set::<u64>::empty() by {
        assert forall|x: u64| !r.reached(p).contains(x) by { if r.voters().contains(x) { assert(r.of(x) is Some); } }
        assert(r.reached(p) =~= Set::empty());
    }
}
//@raw
pub proof fn lemma_take_entry<V>(v: Seq<(u64, V)>, k: int)
    requires 0 <= k < v.len(), distinct(v),
    ensures entry(v.take(k), v[k].0) is None, entry(v, v[k].0) == Some(v[k].1),
      forall|x: u64| #[trigger] entry(v.take(k + 1), x) == (if x == v[k].0 { Some(v[k].1) } else { entry(v.take(k), x) }),
{
    let a = v.take(k); let b = v.take(k + 1);
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).0 != (#[trigger] a[j]).0 by { assert(v[i].0 != v[j].0); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by { assert(v[i].0 != v[j].0); }
    lemma_entry(v, k);
    lemma_pos(a, v[k].0);
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).0 != v[k].0 by { assert(v[i].0 != v[k].0); }
    assert forall|x: u64| #[trigger] entry(b, x) == (if x == v[k].0 { Some(v[k].1) } else { entry(a, x) }) by {
        lemma_pos(a, x); lemma_pos(b, x);
        if x == v[k].0 { assert(b[k].0 == x); }
        else {
            if entry(a, x) is Some { let i = pos(a, x); assert(b[i].0 == x); }
            else { assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0 != x by { if i < k { assert(a[i].0 == b[i].0); lemma_entry(a, i); } } }
        }
    }
}
//@fn VecProgress::new | shim
//@emit impl<V: Borrow<P>, P: PartialOrd + Copy> VecProgress<V, P>
//@argty learner_ids => Vec<u64>
requires quorum_set.qs_wf(), lawful::<P>(), learner_ids@.no_duplicates(),
  forall|i: int| 0 <= i < learner_ids@.len() ==> !quorum_set.qs_ids().contains(#[trigger] learner_ids@[i]),
  call_requires(default_v, ()), forall|a: V, b: V| call_ensures(default_v, (), a) && call_ensures(default_v, (), b) ==> a.b() == b.b(),
ensures r.wf(), r.quorum_set == quorum_set, exists|v: V| call_ensures(default_v, (), v) && r.granted == v.b(),
  forall|x: u64| (quorum_set.qs_ids().contains(x) || learner_ids@.contains(x)) == (#[trigger] r.of(x) is Some),
  forall|x: u64| #[trigger] r.of(x) is Some ==> call_ensures(default_v, (), r.of(x)->0),
//@closure 0
|id: u64| -> (o: (u64, V)) requires call_requires(default_v, ()), ensures o.0 == id, call_ensures(default_v, (), o.1)
//@closure 1
|id: u64| -> (o: (u64, V)) requires call_requires(default_v, ()), ensures o.0 == id, call_ensures(default_v, (), o.1)
//@proof after `let mut vector`
proof { lemma_listed(ids_seq(vector@), quorum_set.qs_ids()); assert(lists_set(ids_seq(vector@), quorum_set.qs_ids())); }
let ghost vx_vs = vector@;
//@proof after `let voter_count`
assert(voter_count == vx_vs.len());
assert forall|k: int| 0 <= k < vx_vs.len() implies call_ensures(default_v, (), (#[trigger] vx_vs[k]).1) by { }
//@proof after `vector.extend`
proof {
    assert(vector@.take(voter_count as int) =~= vx_vs);
    assert(ids_seq(vector@.skip(voter_count as int)) =~= learner_ids@);
    assert forall|k: int| 0 <= k < vector@.len() implies call_ensures(default_v, (), (#[trigger] vector@[k]).1) by { if k < vx_vs.len() { assert(vector@[k] == vx_vs[k]); } }
}
//@proof end
proof {
    lemma_new(r, learner_ids@, r.granted);
}
//@fn Progress<ID,V,P,QS> for VecProgress<ID,V,P,QS>::upgrade_quorum_set | as=VecProgress shim
//@argty leaner_ids => Vec<u64>
requires self.wf(), quorum_set.qs_wf(), lawful::<P>(), leaner_ids@.no_duplicates(),
  forall|i: int| 0 <= i < leaner_ids@.len() ==> !quorum_set.qs_ids().contains(#[trigger] leaner_ids@[i]),
  call_requires(default_v, ()), forall|a: V, b: V| call_ensures(default_v, (), a) && call_ensures(default_v, (), b) ==> a.b() == b.b(),
  forall|a: V, x: u64| #[trigger] call_ensures(default_v, (), a) && #[trigger] self.of(x) is Some ==> ple(a.b(), self.of(x)->0.b()),
ensures r.wf(), r.quorum_set == quorum_set,
  forall|x: u64| (quorum_set.qs_ids().contains(x) || leaner_ids@.contains(x)) == (#[trigger] r.of(x) is Some),
  // what is known of a node is kept
  forall|x: u64| #[trigger] r.of(x) is Some ==> if self.of(x) is Some { r.of(x) == self.of(x) } else { call_ensures(default_v, (), r.of(x)->0) },
//@proof before `new_prog.stat =`
let ghost vx_p = new_prog;
//@proof after `new_prog.stat =`
proof { lemma_ret(vx_p, new_prog, 0); 
  assert forall|x: u64| #[trigger] new_prog.of(x) == vx_p.of(x) by { }
  assert forall|x: u64| #[trigger] new_prog.of(x) is Some implies entry(self.vector@.take(0), x) is None by { assert(self.vector@.take(0) =~= Seq::empty()); } }
//@loop 0 iter=it
invariant it.seq() == self.vector@, new_prog.wf(), new_prog.quorum_set == quorum_set,
  forall|x: u64| (quorum_set.qs_ids().contains(x) || leaner_ids@.contains(x)) == (#[trigger] new_prog.of(x) is Some),
  forall|x: u64| #[trigger] new_prog.of(x) is Some ==> if entry(self.vector@.take(it.index@ as int), x) is Some { new_prog.of(x) == self.of(x) } else { call_ensures(default_v, (), new_prog.of(x)->0) },
//@loop 0 start
proof { lemma_take_entry(self.vector@, it.index@ as int); assert(new_prog.of(id) is Some ==> call_ensures(default_v, (), new_prog.of(id)->0)); assert(self.of(id) == Some(v)); }
let ghost vx_q = new_prog;
//@loop 0 end
proof { assert forall|x: u64| (#[trigger] new_prog.of(x) is Some) == (vx_q.of(x) is Some) by { } 
  assert forall|x: u64| x != id implies #[trigger] new_prog.of(x) == vx_q.of(x) by { } }
//@loop 0 after
assert(self.vector@.take(self.vector@.len() as int) =~= self.vector@);
//@source openraft/src/progress/entry/mod.rs
//@raw
impl BorrowView<Option<LogId>> for ProgressEntry { open spec fn b(&self) -> Option<LogId> { self.matching } }
impl BorrowView<bool> for bool { open spec fn b(&self) -> bool { *self } }
impl BorrowView<Option<Instant>> for Option<Instant> { open spec fn b(&self) -> Option<Instant> { *self } }
/// core: `Borrow<T> for T`
impl Borrow<bool> for bool { fn borrow(&self) -> (r: &bool) { self } }
impl Borrow<Option<Instant>> for Option<Instant> { fn borrow(&self) -> (r: &Option<Instant>) { self } }
/// core: the comparison operators of `bool`
pub axiom fn axiom_bool_order()
    ensures <bool as PartialOrdSpec<bool>>::obeys_partial_cmp_spec(), forall|a: bool, b: bool| #[trigger] a.partial_cmp_spec(&b) == Some(if a == b { Ordering::Equal } else if b { Ordering::Less } else { Ordering::Greater });
pub proof fn lemma_lawful_bool()
    ensures lawful::<bool>(), forall|a: bool, b: bool| #[trigger] ple(a, b) == (!a || b), forall|a: bool, b: bool| #[trigger] plt(a, b) == (!a && b),
{ axiom_bool_order(); }
pub proof fn lemma_lawful_instant()
    ensures lawful::<Option<Instant>>(),
{ }
pub proof fn lemma_lawful_log_id()
    ensures lawful::<Option<LogId>>(), forall|a: Option<LogId>, b: Option<LogId>| #[trigger] ple(a, b) == olog_le(a, b), forall|a: Option<LogId>, b: Option<LogId>| #[trigger] plt(a, b) == olog_lt(a, b),
{ }
//@fn Borrow<Option<LogId<C::NodeId>>> for ProgressEntry<C>::borrow
