// Prelude of the extracted crate: names, and the contracts assumed on what is not extracted.
#![cfg_attr(verus_keep_ghost, verifier::loop_isolation(false))]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_camel_case_types, unused_parens, unused_braces, unused_assignments, unreachable_code, private_interfaces, non_snake_case)]
pub use core::cmp::Ordering;
pub use std::collections::{BTreeMap, BTreeSet, VecDeque};
pub use std::ops::{Deref, DerefMut};
pub use std::marker::PhantomData;
pub use std::sync::Arc;
pub use vstd::prelude::*;
pub use vstd::std_specs::cmp::{OrdSpec, PartialEqSpec, PartialOrdSpec};
verus! {

/// Debug assertions and assertions of the source: an obligation.
pub fn vx_assert(b: bool)
    requires b,
{
}

/// `panic!`, `unreachable!`: an obligation that the program point is unreachable.
#[verifier::external_body]
pub fn vx_unreachable<T>() -> (r: T)
    requires false,
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vx_string() -> (r: String) {
    unimplemented!()
}

/// T11: integer addition treated as mathematical (an index, term or length does not reach 2^64).
#[verifier::external_body]
pub fn vx_add<T: VxInt, U: VxArg<T>>(a: T, b: U) -> (r: T)
    ensures r.iv() == a.iv() + b.av(),
{
    unimplemented!()
}

pub open spec fn u64_cmp(a: u64, b: u64) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}

} // verus!
verus! {

/// std: binary search with a comparator that is consistent with the order of the slice.
pub open spec fn ord_le(o: Ordering, p: Ordering) -> bool { o == Ordering::Less || p == Ordering::Greater || (o == Ordering::Equal && p == Ordering::Equal) }

pub assume_specification<'a, T, F>[ <[T]>::binary_search_by ](s: &'a [T], f: F) -> (r: Result<usize, usize>)
    where F: FnMut(&'a T) -> Ordering,
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&#[trigger] s@[i],)),
    ensures
        (forall|i: int, j: int, o: Ordering, p: Ordering| 0 <= i < j < s@.len() && #[trigger] call_ensures(f, (&s@[i],), o) && #[trigger] call_ensures(f, (&s@[j],), p)
            ==> ord_le(o, p)) ==> match r {
            Ok(k) => k < s@.len() && call_ensures(f, (&s@[k as int],), Ordering::Equal),
            Err(k) => k <= s@.len()
                && (forall|i: int| 0 <= i < k ==> call_ensures(f, (&#[trigger] s@[i],), Ordering::Less))
                && (forall|i: int| k <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), Ordering::Greater)),
        },
;

} // verus!
verus! {
pub assume_specification<T>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    where T: PartialEq
    ensures T::obeys_eq_spec() ==> (r == exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x)),
;
/// core: two elements of a slice are exchanged
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]),
;
/// core: `From<T> for T` is the identity
pub assume_specification<T>[ <T as From<T>>::from ](t: T) -> (r: T)
    ensures r == t,
;
pub assume_specification<'a, T>[ Option::<&T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    where T: Copy
    ensures r == (match o { None => None::<T>, Some(x) => Some(*x) }),
;
/// core: of two equal values `max` gives the second, `min` the first
pub assume_specification<T>[ core::cmp::max ](a: T, b: T) -> (r: T)
    where T: Ord
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == Ordering::Less { a } else { b }),
;
pub assume_specification<T>[ core::cmp::min ](a: T, b: T) -> (r: T)
    where T: Ord
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == Ordering::Less { b } else { a }),
;
/// core: false < true
pub assume_specification[ <bool as PartialOrd<bool>>::partial_cmp ](a: &bool, b: &bool) -> (r: Option<Ordering>)
    ensures r == Some(if *a == *b { Ordering::Equal } else if *b { Ordering::Less } else { Ordering::Greater }),
;
} // verus!
pub mod vx_node { use super::*; verus! {
/// `C::Node`: the application's node type; nothing is known of it but that it can be copied and compared.
#[derive(PartialEq, Eq)]
pub struct Node { pub v: u64 }
impl Clone for Node { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Node { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
pub uninterp spec fn default_node() -> Node;
impl Default for Node { #[verifier::external_body] fn default() -> (r: Node) ensures r == default_node() { unimplemented!() } }

} }
pub use vx_node::*;
// ---- T14: std collections and iterators. An iterator is represented by the Vec of the items it yields.
pub mod vx_axioms { use super::*; verus! {
pub broadcast axiom fn axiom_set_eq_obeys()
    ensures #[trigger] <BTreeSet<u64> as PartialEqSpec<BTreeSet<u64>>>::obeys_eq_spec();
/// Two sets are equal exactly when they have the same elements (and nothing else of them is observable).
pub broadcast axiom fn axiom_set_eq(a: &BTreeSet<u64>, b: &BTreeSet<u64>)
    ensures #[trigger] a.eq_spec(b) == (a@ == b@), a@ == b@ ==> *a == *b;
pub broadcast axiom fn axiom_map_eq_obeys()
    ensures #[trigger] <BTreeMap<u64, Node> as PartialEqSpec<BTreeMap<u64, Node>>>::obeys_eq_spec();
pub broadcast axiom fn axiom_map_eq(a: &BTreeMap<u64, Node>, b: &BTreeMap<u64, Node>)
    ensures #[trigger] a.eq_spec(b) == (a@ == b@), a@ == b@ ==> *a == *b;
pub broadcast axiom fn axiom_vec_eq_obeys<T: PartialEq>()
    requires T::obeys_eq_spec(),
    ensures #[trigger] <Vec<T> as PartialEqSpec<Vec<T>>>::obeys_eq_spec();
pub broadcast axiom fn axiom_vec_eq<T: PartialEq>(a: &Vec<T>, b: &Vec<T>)
    ensures #[trigger] a.eq_spec(b) == (a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i]).eq_spec(&b@[i])),
       a@ == b@ ==> *a == *b;
pub broadcast axiom fn axiom_arc_eq_obeys<T: PartialEq>()
    requires T::obeys_eq_spec(),
    ensures #[trigger] <Arc<T> as PartialEqSpec<Arc<T>>>::obeys_eq_spec();
pub broadcast axiom fn axiom_arc_eq<T: PartialEq>(a: &Arc<T>, b: &Arc<T>)
    ensures #[trigger] a.eq_spec(b) == (**a).eq_spec(&**b);
pub broadcast group group_vx_eq { axiom_arc_eq_obeys, axiom_arc_eq, axiom_set_eq_obeys, axiom_set_eq, axiom_map_eq_obeys, axiom_map_eq, axiom_vec_eq_obeys, axiom_vec_eq }
} }
verus! {

pub open spec fn unref<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub open spec fn ascending(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]) < (#[trigger] s[j]) }
pub open spec fn keys_of<V>(s: Seq<(u64, V)>) -> Seq<u64> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn pairs_of<V>(s: Seq<(&u64, &V)>) -> Seq<(u64, V)> { Seq::new(s.len(), |i: int| (*s[i].0, *s[i].1)) }
/// the pairs of a map, in key order
pub open spec fn lists_map<V>(s: Seq<(u64, V)>, m: Map<u64, V>) -> bool {
    &&& ascending(keys_of(s))
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: u64| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
/// the elements of a set, in order
pub open spec fn lists_set(s: Seq<u64>, m: Set<u64>) -> bool {
    &&& ascending(s)
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains(#[trigger] s[i])
    &&& forall|k: u64| #[trigger] m.contains(k) ==> s.contains(k)
    &&& s.len() == m.len()
}
pub proof fn lemma_lists_set(s: Seq<u64>, m: Set<u64>)
    requires lists_set(s, m),
    ensures s.to_set() == m, s.no_duplicates(),
{
    assert forall|x: u64| s.to_set().contains(x) == m.contains(x) by {
        if s.to_set().contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(m.contains(s[i])); }
        if m.contains(x) { assert(s.contains(x)); }
    }
    assert(s.to_set() =~= m);
}
pub proof fn lemma_lists_set_to_set(m: Set<u64>)
    ensures forall|s: Seq<u64>| #[trigger] lists_set(s, m) ==> s.to_set() == m,
{ assert forall|s: Seq<u64>| #[trigger] lists_set(s, m) implies s.to_set() == m by { lemma_lists_set(s, m); } }
/// `clone()` gives an equal value (derived and std `Clone`).
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VxClone for T {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { unimplemented!() }
}
pub trait VxSet: Sized {
    fn vx_iter(&self) -> (r: Vec<&u64>);
    fn vx_union<'a>(&'a self, o: &'a BTreeSet<u64>) -> (r: Vec<&'a u64>);
    fn vx_difference<'a>(&'a self, o: &'a BTreeSet<u64>) -> (r: Vec<&'a u64>);
    fn vx_intersection<'a>(&'a self, o: &'a BTreeSet<u64>) -> (r: Vec<&'a u64>);
    fn vx_into_iter(self) -> (r: Vec<u64>);
    fn vx_extend(&mut self, o: Vec<u64>);
    fn vx_is_subset(&self, o: &BTreeSet<u64>) -> (r: bool);
}
impl VxSet for BTreeSet<u64> {
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: Vec<&u64>) ensures lists_set(unref(r@), self@) { unimplemented!() }
    #[verifier::external_body]
    fn vx_union<'a>(&'a self, o: &'a BTreeSet<u64>) -> (r: Vec<&'a u64>) ensures lists_set(unref(r@), self@.union(o@)) { unimplemented!() }
    #[verifier::external_body]
    fn vx_difference<'a>(&'a self, o: &'a BTreeSet<u64>) -> (r: Vec<&'a u64>) ensures lists_set(unref(r@), self@.difference(o@)) { unimplemented!() }
    #[verifier::external_body]
    fn vx_intersection<'a>(&'a self, o: &'a BTreeSet<u64>) -> (r: Vec<&'a u64>) ensures lists_set(unref(r@), self@.intersect(o@)) { unimplemented!() }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: Vec<u64>) ensures lists_set(r@, self@) { unimplemented!() }
    #[verifier::external_body]
    fn vx_extend(&mut self, o: Vec<u64>) ensures final(self)@ == old(self)@.union(o@.to_set()) { unimplemented!() }
    #[verifier::external_body]
    fn vx_is_subset(&self, o: &BTreeSet<u64>) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() }
}
pub trait VxMap<V>: Sized {
    fn vx_iter(&self) -> (r: Vec<(&u64, &V)>);
    fn vx_into_iter(self) -> (r: Vec<(u64, V)>);
    fn vx_keys(&self) -> (r: Vec<&u64>);
    fn vx_entry(&mut self, k: u64) -> (r: VxEntry<'_, V>);
}
/// `BTreeMap::entry`
pub struct VxEntry<'a, V> { pub m: &'a mut BTreeMap<u64, V>, pub k: u64 }
impl<'a, V> VxEntry<'a, V> {
    #[verifier::external_body]
    pub fn vx_or_insert(self, v: V)
        ensures final(self.m)@ == (if old(self.m)@.contains_key(self.k) { old(self.m)@ } else { old(self.m)@.insert(self.k, v) }) { unimplemented!() }
}
impl<V> VxMap<V> for BTreeMap<u64, V> {
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: Vec<(&u64, &V)>) ensures lists_map(pairs_of(r@), self@) { unimplemented!() }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: Vec<(u64, V)>) ensures lists_map(r@, self@) { unimplemented!() }
    #[verifier::external_body]
    fn vx_keys(&self) -> (r: Vec<&u64>) ensures lists_set(unref(r@), self@.dom()) { unimplemented!() }
    fn vx_entry(&mut self, k: u64) -> (r: VxEntry<'_, V>) ensures *r.m == *old(self), r.k == k, *final(self) == *final(r.m) { VxEntry { m: self, k } }
}
pub trait VxSlice<T> { fn vx_iter(&self) -> (r: Vec<&T>); }
impl<T> VxSlice<T> for [T] {
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: Vec<&T>) ensures unref(r@) == self@, r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i] { unimplemented!() }
}
pub trait VxRefs<T> { fn vx_copied(self) -> (r: Vec<T>); fn vx_cloned(self) -> (r: Vec<T>); }
impl<'a, T> VxRefs<T> for Vec<&'a T> {
    #[verifier::external_body]
    fn vx_copied(self) -> (r: Vec<T>) ensures r@ == unref(self@) { unimplemented!() }
    #[verifier::external_body]
    fn vx_cloned(self) -> (r: Vec<T>) ensures r@ == unref(self@) { unimplemented!() }
}
pub trait VxArc<T> { spec fn vx_target(&self) -> T; fn vx_as_ref(&self) -> (r: &T) ensures *r == self.vx_target(); }
impl<T> VxArc<T> for Arc<T> {
    open spec fn vx_target(&self) -> T { **self }
    #[verifier::external_body]
    fn vx_as_ref(&self) -> (r: &T) { unimplemented!() }
}
pub trait VxOption<T>: Sized {
    spec fn vx_opt(self) -> Option<T>;
    fn vx_unwrap_or_default(self) -> (r: T) where T: Default ensures match self.vx_opt() { Some(x) => r == x, None => call_ensures(<T as Default>::default, (), r) };
    fn vx_as_ref(&self) -> (r: Option<&T>) ensures (match r { Some(x) => Some(*x), None => None }) == self.vx_opt();
}
impl<T> VxOption<T> for Option<T> {
    open spec fn vx_opt(self) -> Option<T> { self }
    fn vx_unwrap_or_default(self) -> (r: T) where T: Default { match self { Some(x) => x, None => T::default() } }
    fn vx_as_ref(&self) -> (r: Option<&T>) { match self { None => None, Some(x) => Some(x) } }
}
pub trait VxOptRef<T> { fn vx_copied(self) -> (r: Option<T>); fn vx_cloned(self) -> (r: Option<T>); }
impl<'a, T> VxOptRef<T> for Option<&'a T> {
    #[verifier::external_body]
    fn vx_copied(self) -> (r: Option<T>) ensures r == (match self { None => None::<T>, Some(x) => Some(*x) }) { unimplemented!() }
    #[verifier::external_body]
    fn vx_cloned(self) -> (r: Option<T>) ensures r == (match self { None => None::<T>, Some(x) => Some(*x) }) { unimplemented!() }
}
pub trait VxSeq<T>: Sized + View<V = Seq<T>> {
    fn vx_collect<R: VxFrom<T>>(self) -> (r: R) ensures R::vx_from_spec(self@, r);
    fn vx_into_iter(self) -> (r: Vec<T>) ensures r@ == self@;
    fn vx_extend(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@;
    fn vx_filter<F: FnMut(&T) -> bool>(self, f: F) -> (r: Vec<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains(#[trigger] r@[i]) && call_ensures(f, (&r@[i],), true),
            forall|i: int| 0 <= i < self@.len() ==> r@.contains(#[trigger] self@[i]) || call_ensures(f, (&self@[i],), false),
            self@.no_duplicates() ==> r@.no_duplicates(),
            r@.len() <= self@.len(),
            r@.len() == self@.len() ==> r@ == self@;
    fn vx_any<F: FnMut(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), true),
            !r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), false);
    fn vx_all<F: FnMut(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures !r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), false),
            r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), true);
    fn vx_map<U, F: FnMut(T) -> U>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(),
            forall|i: int| #![trigger self@[i]] #![trigger r@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), r@[i]);
    fn vx_enumerate(self) -> (r: Vec<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == self@[i];
    fn vx_rev(self) -> (r: Vec<T>) ensures r@ == self@.reverse();
    fn vx_chain(self, o: Vec<T>) -> (r: Vec<T>) ensures r@ == self@ + o@;
}
/// `Option` and arrays as iterators
pub trait VxItems<T>: Sized { spec fn vx_items(self) -> Seq<T>; fn vx_into_iter(self) -> (r: Vec<T>) ensures r@ == self.vx_items(); }
impl<T> VxItems<T> for Option<T> {
    open spec fn vx_items(self) -> Seq<T> { match self { Some(x) => seq![x], None => Seq::empty() } }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: Vec<T>) { unimplemented!() }
}
/// `expect` and `unwrap`: the value must be there
pub trait VxExpect<T>: Sized {
    spec fn vx_there(self) -> Option<T>;
    fn vx_expect(self, m: &str) -> (r: T) requires self.vx_there() is Some ensures Some(r) == self.vx_there();
    fn vx_unwrap(self) -> (r: T) requires self.vx_there() is Some ensures Some(r) == self.vx_there();
}
impl<T> VxExpect<T> for Option<T> {
    open spec fn vx_there(self) -> Option<T> { self }
    fn vx_expect(self, m: &str) -> (r: T) { match self { Some(x) => x, None => vx_unreachable() } }
    fn vx_unwrap(self) -> (r: T) { match self { Some(x) => x, None => vx_unreachable() } }
}
impl<T, E> VxExpect<T> for Result<T, E> {
    open spec fn vx_there(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn vx_expect(self, m: &str) -> (r: T) { match self { Ok(x) => x, Err(_) => vx_unreachable() } }
    fn vx_unwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => vx_unreachable() } }
}
pub trait VxCount { fn vx_count(&self) -> (r: usize);  }
impl<T> VxCount for Vec<T> { fn vx_count(&self) -> (r: usize) ensures r == self@.len() { self.len() } }
pub trait VxIterMut: Sized { fn vx_iter_mut(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r); }
impl<T> VxIterMut for Vec<T> { fn vx_iter_mut(&mut self) -> (r: &mut Self) { self } }
pub trait VxFrom<T>: Sized { spec fn vx_from_spec(s: Seq<T>, r: Self) -> bool; }
impl VxFrom<u64> for BTreeSet<u64> { open spec fn vx_from_spec(s: Seq<u64>, r: Self) -> bool { r@ == s.to_set() } }
impl<T> VxFrom<T> for Vec<T> { open spec fn vx_from_spec(s: Seq<T>, r: Self) -> bool { r@ == s } }
impl<V> VxFrom<(u64, V)> for BTreeMap<u64, V> {
    open spec fn vx_from_spec(s: Seq<(u64, V)>, r: Self) -> bool {
        ascending(keys_of(s)) ==> lists_map(s, r@)
    }
}
impl<T> VxSeq<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_collect<R: VxFrom<T>>(self) -> (r: R) { unimplemented!() }
    fn vx_into_iter(self) -> (r: Vec<T>) { self }
    #[verifier::external_body]
    fn vx_extend(&mut self, o: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_filter<F: FnMut(&T) -> bool>(self, f: F) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_any<F: FnMut(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_all<F: FnMut(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_map<U, F: FnMut(T) -> U>(self, f: F) -> (r: Vec<U>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_enumerate(self) -> (r: Vec<(usize, T)>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_rev(self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_chain(self, o: Vec<T>) -> (r: Vec<T>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_set_from(v: Vec<u64>) -> (r: BTreeSet<u64>) ensures r@ == v@.to_set() { unimplemented!() }

/// `std::cmp::max` and `min`, by the order of `partial_cmp`
pub fn vx_max<T: PartialOrd>(a: T, b: T) -> (r: T)
    requires T::obeys_partial_cmp_spec(),
    ensures r == (if a.partial_cmp_spec(&b) == Some(Ordering::Greater) { a } else { b }),
{ if let Some(Ordering::Greater) = a.partial_cmp(&b) { a } else { b } }
pub fn vx_min<T: PartialOrd>(a: T, b: T) -> (r: T)
    requires T::obeys_partial_cmp_spec(),
    ensures r == (if a.partial_cmp_spec(&b) == Some(Ordering::Greater) { b } else { a }),
{ if let Some(Ordering::Greater) = a.partial_cmp(&b) { b } else { a } }
/// T11 on other integer types
pub trait VxInt: Sized { spec fn iv(self) -> int; }
impl VxInt for u64 { open spec fn iv(self) -> int { self as int } }
impl VxInt for usize { open spec fn iv(self) -> int { self as int } }
pub trait VxArg<T>: Sized { spec fn av(self) -> int; }
impl VxArg<u64> for u64 { open spec fn av(self) -> int { self as int } }
impl VxArg<u64> for &u64 { open spec fn av(self) -> int { *self as int } }
impl VxArg<usize> for usize { open spec fn av(self) -> int { self as int } }
} // verus!
