//@module load
//@deps log_id_list
//@raw
#[verifier::external_body]
pub struct StorageError { _p: u8 }
/// The reader of a log store, while the node starts: what it holds does not change.
pub trait RaftLogReaderExt: Sized {
    spec fn log(&self) -> Map<int, LogId>;
    /// the id of the log stored at an index, or an error
    fn get_log_id(&mut self, i: u64) -> (r: Result<LogId, StorageError>)
        ensures final(self).log() == old(self).log(), r is Ok ==> old(self).log().contains_key(i as int) && r->Ok_0 == old(self).log()[i as int];
}
/// The log from `f`, which is the last purged or the first, to `l`: ids at their own index, leaders in order.
pub open spec fn log_of(f: LogId, m: Map<int, LogId>, i: int) -> LogId { if i == f.index { f } else { m[i] } }
pub open spec fn stored(f: LogId, l: LogId, m: Map<int, LogId>) -> bool {
    &&& f.index <= l.index && log_of(f, m, l.index as int) == l
    &&& forall|i: int| f.index <= i <= l.index ==> (#[trigger] log_of(f, m, i)).index == i
    &&& forall|i: int, j: int| f.index <= i <= j <= l.index ==> leader_le((#[trigger] log_of(f, m, i)).leader_id, (#[trigger] log_of(f, m, j)).leader_id)
}
/// the stretches still to be looked at, the next one on top
pub open spec fn stretches(s: Seq<(LogId, LogId)>, f: LogId, l: LogId, m: Map<int, LogId>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> f.index <= (#[trigger] s[k]).0.index <= s[k].1.index <= l.index
          && s[k].0 == log_of(f, m, s[k].0.index as int) && s[k].1 == log_of(f, m, s[k].1.index as int)
    &&& forall|k: int| 0 <= k < s.len() - 1 ==> (#[trigger] s[k]).0.leader_id == s[k + 1].1.leader_id && s[k].0.index >= s[k + 1].1.index
    &&& s.len() > 0 ==> s[0].1.leader_id == l.leader_id
    &&& forall|k: int| 0 < k < s.len() ==> (#[trigger] s[k]).0.index < s[k].1.index
}
/// the first log ids of the leaders from `f` up to the log at `p`
pub open spec fn firsts(r: Seq<LogId>, f: LogId, m: Map<int, LogId>, p: int) -> bool {
    &&& r.len() > 0 && r[0] == f
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).index < (#[trigger] r[j]).index && leader_le(r[i].leader_id, r[j].leader_id) && r[i].leader_id != r[j].leader_id
    &&& forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]) == log_of(f, m, r[k].index as int) && r[k].index <= p
    &&& forall|i: int| f.index <= i <= p ==> (#[trigger] log_of(f, m, i)).leader_id == r[cover(r, i)].leader_id
}
/// the first log the node keeps: the last purged one, or the one at index 0
pub open spec fn kept(p: Option<LogId>, m: Map<int, LogId>) -> LogId { if p is Some { p->0 } else { m[0] } }
/// What is known before the next stretch.
#[verifier::opaque]
pub open spec fn loaded(r: Seq<LogId>, s: Seq<(LogId, LogId)>, f: LogId, l: LogId, m: Map<int, LogId>) -> bool {
    &&& stretches(s, f, l, m)
    &&& r.len() == 0 ==> s.len() > 0 && s.last().0 == f
    &&& r.len() > 0 ==> firsts(r, f, m, if s.len() == 0 { l.index as int } else { s.last().0.index as int })
    &&& r.len() > 0 && s.len() > 0 ==> r.last().leader_id == s.last().0.leader_id
}
/// one more leader, or the same one for longer
pub proof fn lemma_firsts_same(r: Seq<LogId>, f: LogId, l: LogId, m: Map<int, LogId>, p: int, q: int)
    requires stored(f, l, m), firsts(r, f, m, p), f.index <= p <= q <= l.index, log_of(f, m, q).leader_id == r.last().leader_id, log_of(f, m, p).leader_id == r.last().leader_id,
    ensures firsts(r, f, m, q),
{
    assert forall|i: int| f.index <= i <= q implies (#[trigger] log_of(f, m, i)).leader_id == r[cover(r, i)].leader_id by {
        if i > p { 
            assert(leader_le(log_of(f, m, p).leader_id, log_of(f, m, i).leader_id));
            assert(leader_le(log_of(f, m, i).leader_id, log_of(f, m, q).leader_id));
            assert(r.last().index <= p);
        }
    }
}
pub proof fn lemma_firsts_push(r: Seq<LogId>, f: LogId, l: LogId, m: Map<int, LogId>, p: int, n: LogId)
    requires stored(f, l, m), firsts(r, f, m, p), f.index <= p < l.index, n == log_of(f, m, p + 1), r.last().leader_id != n.leader_id, log_of(f, m, p).leader_id == r.last().leader_id,
    ensures firsts(r.push(n), f, m, p + 1),
{
    let t = r.push(n);
    assert(n.index == p + 1);
    assert(leader_le(r.last().leader_id, n.leader_id)) by { assert(leader_le(log_of(f, m, p).leader_id, log_of(f, m, p + 1).leader_id)); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).index < (#[trigger] t[j]).index && leader_le(t[i].leader_id, t[j].leader_id) && t[i].leader_id != t[j].leader_id by {
        if j == t.len() - 1 { if i < r.len() - 1 { assert(r[i].leader_id != r.last().leader_id); assert(leader_le(r[i].leader_id, r.last().leader_id)); } }
    }
    assert forall|i: int| f.index <= i <= p + 1 implies (#[trigger] log_of(f, m, i)).leader_id == t[cover(t, i)].leader_id by {
        if i <= p { assert(t.drop_last() =~= r); assert(r[0].index <= i); lemma_fcover(r, i); }
    }
}
pub proof fn lemma_fcover(s: Seq<LogId>, idx: int)
    requires s.len() > 0, s[0].index <= idx,
    ensures 0 <= cover(s, idx) < s.len(),
    decreases s.len()
{
    if s.last().index <= idx { } else { let d = s.drop_last(); assert(d[0] == s[0]); lemma_fcover(d, idx); }
}
pub proof fn lemma_firsts_one(f: LogId, l: LogId, m: Map<int, LogId>)
    requires stored(f, l, m),
    ensures firsts(seq![f], f, m, f.index as int),
{
}
/// the whole list
pub proof fn lemma_firsts_all(r: Seq<LogId>, f: LogId, l: LogId, m: Map<int, LogId>, t: Seq<LogId>)
    requires stored(f, l, m), firsts(r, f, m, l.index as int), t == (if r.last() == l { r } else { r.push(l) }),
    ensures ids_wf(t), first_log(t) == Some(f), last_log(t) == Some(l),
      forall|i: int| f.index <= i <= l.index ==> #[trigger] ids_at(t, i) == Some(log_of(f, m, i)),
{
    assert(r.last().leader_id == l.leader_id) by { assert(r.last().index <= l.index); assert(log_of(f, m, l.index as int).leader_id == r[cover(r, l.index as int)].leader_id); }
    assert(r.last() == log_of(f, m, r.last().index as int));
    if r.last() != l { assert(r.last().index < l.index); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).index < (#[trigger] t[j]).index && leader_le(t[i].leader_id, t[j].leader_id) by {
        if j == r.len() { if i < r.len() - 1 { assert(r[i].index < r.last().index); assert(leader_le(r[i].leader_id, r.last().leader_id)); } }
    }
    assert forall|i: int| f.index <= i <= l.index implies #[trigger] ids_at(t, i) == Some(log_of(f, m, i)) by {
        assert(log_of(f, m, i).index == i);
        assert(log_of(f, m, i).leader_id == r[cover(r, i)].leader_id);
        lemma_fcover(r, i);
        if r.last() != l { assert(t.drop_last() =~= r); if i < l.index { } }
    }
}
pub open spec fn begun(r: Seq<LogId>, a: LogId) -> Seq<LogId> { if r.len() == 0 { r.push(a) } else { r } }
pub open spec fn between(f: LogId, m: Map<int, LogId>, a: LogId, b: LogId, c: LogId) -> bool { a.index < c.index < b.index && c == log_of(f, m, c.index as int) }
pub proof fn lemma_loaded_begin(f: LogId, l: LogId, m: Map<int, LogId>, r: Seq<LogId>, s: Seq<(LogId, LogId)>)
    requires stored(f, l, m), r.len() == 0, s == seq![(f, l)],
    ensures loaded(r, s, f, l, m),
{ reveal(loaded); assert(f == log_of(f, m, f.index as int)); }
pub proof fn lemma_loaded_end(f: LogId, l: LogId, m: Map<int, LogId>, r: Seq<LogId>, s: Seq<(LogId, LogId)>)
    requires loaded(r, s, f, l, m), s.len() == 0,
    ensures r.len() > 0, firsts(r, f, m, l.index as int),
{ reveal(loaded); }
/// a stretch of one leader
pub proof fn lemma_one(f: LogId, l: LogId, m: Map<int, LogId>, r: Seq<LogId>, s: Seq<(LogId, LogId)>)
    requires stored(f, l, m), loaded(r, s, f, l, m), s.len() > 0, s.last().0.leader_id == s.last().1.leader_id,
    ensures loaded(begun(r, s.last().0), s.drop_last(), f, l, m),
{
    reveal(loaded);
    let (a, b) = s.last(); let t = s.drop_last(); let q = begun(r, a);
    if r.len() == 0 { lemma_firsts_one(f, l, m); assert(q =~= seq![f]); }
    assert(firsts(q, f, m, a.index as int));
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] == s[k] by { }
    lemma_next(f, l, m, q, s, a.index as int);
}
/// the next stretch starts where no leader is left out
pub proof fn lemma_next(f: LogId, l: LogId, m: Map<int, LogId>, q: Seq<LogId>, s: Seq<(LogId, LogId)>, p: int)
    requires stored(f, l, m), stretches(s, f, l, m), s.len() > 0, f.index <= p <= s.last().1.index, firsts(q, f, m, p),
       q.last().leader_id == s.last().1.leader_id, log_of(f, m, p).leader_id == q.last().leader_id,
    ensures loaded(q, s.drop_last(), f, l, m),
{
    reveal(loaded);
    let t = s.drop_last();
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] == s[k] by { }
    if t.len() > 0 { let n = s.len() - 2; assert(s[n].0.leader_id == s[n + 1].1.leader_id); assert(t.last() == s[n]); lemma_firsts_same(q, f, l, m, p, t.last().0.index as int); }
    else { assert(s[0].1.leader_id == l.leader_id); assert(log_of(f, m, l.index as int) == l); lemma_firsts_same(q, f, l, m, p, l.index as int); }
}
/// two adjacent logs of two leaders
pub proof fn lemma_adjacent(f: LogId, l: LogId, m: Map<int, LogId>, r: Seq<LogId>, s: Seq<(LogId, LogId)>)
    requires stored(f, l, m), loaded(r, s, f, l, m), s.len() > 0, s.last().0.leader_id != s.last().1.leader_id, s.last().0.index + 1 == s.last().1.index,
    ensures loaded(begun(r, s.last().0).push(s.last().1), s.drop_last(), f, l, m),
{
    reveal(loaded);
    let (a, b) = s.last(); let q = begun(r, a);
    if r.len() == 0 { lemma_firsts_one(f, l, m); assert(q =~= seq![f]); }
    lemma_firsts_push(q, f, l, m, a.index as int, b);
    lemma_next(f, l, m, q.push(b), s, b.index as int);
}
/// the chain of stretches with another one on top
pub proof fn lemma_chain(f: LogId, l: LogId, m: Map<int, LogId>, s: Seq<(LogId, LogId)>, x: (LogId, LogId))
    requires stretches(s, f, l, m), f.index <= x.0.index <= x.1.index <= l.index, x.0 == log_of(f, m, x.0.index as int), x.1 == log_of(f, m, x.1.index as int),
      x.0.index < x.1.index || s.len() == 0,
      s.len() > 0 ==> s.last().0.leader_id == x.1.leader_id && s.last().0.index >= x.1.index,
      s.len() == 0 ==> x.1.leader_id == l.leader_id,
    ensures stretches(s.push(x), f, l, m),
{
    let u = s.push(x);
    assert forall|k: int| 0 <= k < u.len() implies (f.index <= (#[trigger] u[k]).0.index <= u[k].1.index <= l.index
          && u[k].0 == log_of(f, m, u[k].0.index as int) && u[k].1 == log_of(f, m, u[k].1.index as int) && (k > 0 ==> u[k].0.index < u[k].1.index)) by { if k < s.len() { assert(u[k] == s[k]); } }
    assert forall|k: int| 0 <= k < u.len() - 1 implies (#[trigger] u[k]).0.leader_id == u[k + 1].1.leader_id && u[k].0.index >= u[k + 1].1.index by {
        assert(u[k] == s[k]); if k + 1 < s.len() { assert(u[k + 1] == s[k + 1]); } }
}
pub proof fn lemma_rest(f: LogId, l: LogId, m: Map<int, LogId>, s: Seq<(LogId, LogId)>)
    requires stretches(s, f, l, m), s.len() > 0,
    ensures stretches(s.drop_last(), f, l, m),
      s.len() > 1 ==> s.drop_last().last().0.leader_id == s.last().1.leader_id && s.drop_last().last().0.index >= s.last().1.index,
      s.len() == 1 ==> s.last().1.leader_id == l.leader_id,
      s.len() > 1 ==> s.last().0.index < s.last().1.index,
{
    let t = s.drop_last();
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] == s[k] by { }
    assert forall|k: int| 0 <= k < t.len() - 1 implies (#[trigger] t[k]).0.leader_id == t[k + 1].1.leader_id && t[k].0.index >= t[k + 1].1.index by { assert(t[k] == s[k]); assert(t[k + 1] == s[k + 1]); }
    if s.len() > 1 { let n = s.len() - 2; assert(s[n].0.leader_id == s[n + 1].1.leader_id); assert(t.last() == s[n]); }
}
/// a stretch is divided
pub proof fn lemma_divide(f: LogId, l: LogId, m: Map<int, LogId>, r: Seq<LogId>, s: Seq<(LogId, LogId)>, c: LogId)
    requires stored(f, l, m), loaded(r, s, f, l, m), s.len() > 0, between(f, m, s.last().0, s.last().1, c),
    ensures
      c.leader_id == s.last().0.leader_id ==> loaded(begun(r, s.last().0), s.drop_last().push((c, s.last().1)), f, l, m),
      c.leader_id == s.last().1.leader_id ==> loaded(r, s.drop_last().push((s.last().0, c)), f, l, m),
      loaded(r, s.drop_last().push((c, s.last().1)).push((s.last().0, c)), f, l, m),
{
    reveal(loaded);
    let (a, b) = s.last(); let t = s.drop_last(); let q = begun(r, a);
    assert(s[s.len() - 1] == (a, b));
    lemma_rest(f, l, m, s);
    lemma_chain(f, l, m, t, (c, b));
    lemma_chain(f, l, m, t.push((c, b)), (a, c));
    if c.leader_id == a.leader_id {
        if r.len() == 0 { lemma_firsts_one(f, l, m); assert(q =~= seq![f]); }
        lemma_firsts_same(q, f, l, m, a.index as int, c.index as int);
    }
    if c.leader_id == b.leader_id {
        lemma_chain(f, l, m, t, (a, c));
    }
}
/// all that a stretch may turn out to be
pub proof fn lemma_load_step(f: LogId, l: LogId, m: Map<int, LogId>, r: Seq<LogId>, s: Seq<(LogId, LogId)>)
    requires stored(f, l, m), loaded(r, s, f, l, m), s.len() > 0,
    ensures
      r.len() > 0 ==> r.last().leader_id == s.last().0.leader_id,
      s.last().0.index <= s.last().1.index, s.last().0.leader_id != s.last().1.leader_id ==> s.last().0.index < s.last().1.index,
      s.last().0.leader_id == s.last().1.leader_id ==> loaded(begun(r, s.last().0), s.drop_last(), f, l, m),
      s.last().0.leader_id != s.last().1.leader_id && s.last().0.index + 1 == s.last().1.index ==> loaded(begun(r, s.last().0).push(s.last().1), s.drop_last(), f, l, m),
      f.index <= s.last().0.index, s.last().1.index <= l.index,
{
    assert(s.last() == s[s.len() - 1]);
    if s.last().0.leader_id == s.last().1.leader_id { lemma_one(f, l, m, r, s); } else if s.last().0.index + 1 == s.last().1.index { lemma_adjacent(f, l, m, r, s); }
    reveal(loaded);
}
//@source openraft/src/engine/log_id_list.rs
//@fn LogIdList::new | shim
//@argty key_log_ids => Vec<LogId>
ensures r.key_log_ids@ == key_log_ids@,
//@fn LogIdList::load_log_ids | shim math
//@attrs #[verifier::exec_allows_no_decreases_clause]
//@attrs #[verifier::allow_complex_invariants]
requires
  last_log_id is Some ==> stored(kept(last_purged_log_id, old(sto).log()), last_log_id->0, old(sto).log()),
ensures final(sto).log() == old(sto).log(),
  r is Ok && last_log_id is None ==> (r->Ok_0).key_log_ids@.len() == 0,
  // the list answers for every index as the stored log does
  r is Ok && last_log_id is Some ==> ({ let f = kept(last_purged_log_id, old(sto).log()); let s = (r->Ok_0).key_log_ids@;
      ids_wf(s) && first_log(s) == Some(f) && last_log(s) == last_log_id
      && forall|i: int| f.index <= i <= last_log_id->0.index ==> #[trigger] ids_at(s, i) == Some(log_of(f, old(sto).log(), i)) }),
//@loop 0
invariant sto.log() == old(sto).log(), last_log_id == Some(last), first == kept(last_purged_log_id, old(sto).log()),
  stored(first, last, sto.log()), loaded(res@, stack@, first, last, sto.log()),
ensures stack@.len() == 0,
//@loop 0 before
proof { assert(stack@ =~= seq![(first, last)]); lemma_loaded_begin(first, last, sto.log(), res@, stack@); }
//@loop 0 start
let ghost vx_s = stack@; let ghost vx_r = res@; let ghost vx_f = first; let ghost vx_l = last; let ghost vx_m = sto.log();
//@proof before `if first.leader_id == last.leader_id`
proof { assert(stack@ =~= vx_s.drop_last()); lemma_load_step(vx_f, vx_l, vx_m, vx_r, vx_s); }
//@proof after `let mid`
proof { let i = (first.index + last.index) / 2; assert(first.index < i < last.index); assert(log_of(vx_f, vx_m, i).index == i); assert(mid == log_of(vx_f, vx_m, i)); lemma_divide(vx_f, vx_l, vx_m, vx_r, vx_s, mid); }
//@proof before `if res.last() != Some(&last)`
proof { lemma_loaded_end(first, last, sto.log(), res@, stack@); lemma_firsts_all(res@, first, last, sto.log(), if res@.last() == last { res@ } else { res@.push(last) }); }
