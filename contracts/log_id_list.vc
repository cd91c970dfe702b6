//@module log_id_list
//@deps ids_spec
//@source openraft/src/engine/log_id_list.rs
//@type LogIdList
//@fn LogIdList::get
requires ids_wf(self.key_log_ids@),
ensures r == ids_at(self.key_log_ids@, index as int),
//@closure 0
|log_id: &LogId| -> (o: Ordering) ensures o == u64_cmp(log_id.index, index)
//@proof start
broadcast use {lemma_cover_is};
//@fn LogIdList::first
ensures deref_opt(r) == first_log(self.key_log_ids@),
//@fn LogIdList::last
ensures deref_opt(r) == last_log(self.key_log_ids@),
//@fn LogIdList::append
requires ids_wf(old(self).key_log_ids@),
  last_log(old(self).key_log_ids@) is Some ==> leader_le(last_log(old(self).key_log_ids@)->0.leader_id, new_log_id.leader_id)
     && last_log(old(self).key_log_ids@)->0.index < new_log_id.index,
ensures ids_wf(final(self).key_log_ids@),
  last_log(final(self).key_log_ids@) == Some(new_log_id),
  old(self).key_log_ids@.len() > 0 ==> first_log(final(self).key_log_ids@) == first_log(old(self).key_log_ids@),
  old(self).key_log_ids@.len() == 0 ==> first_log(final(self).key_log_ids@) == Some(new_log_id),
  forall|i: int| old(self).key_log_ids@.len() > 0 && i <= last_log(old(self).key_log_ids@)->0.index ==> #[trigger] ids_at(final(self).key_log_ids@, i) == ids_at(old(self).key_log_ids@, i),
  forall|i: int| old(self).key_log_ids@.len() > 0 && last_log(old(self).key_log_ids@)->0.index < i < new_log_id.index ==> #[trigger] ids_at(final(self).key_log_ids@, i)
     == Some(LogId { leader_id: last_log(old(self).key_log_ids@)->0.leader_id, index: i as u64 }),
//@proof start
broadcast use {lemma_ids_push, lemma_ids_replace, lemma_ids_first};
//@fn LogIdList::truncate
requires ids_wf(old(self).key_log_ids@),
ensures ids_cut(old(self).key_log_ids@, final(self).key_log_ids@, at as int),
//@closure 0
|log_id: &LogId| -> (o: Ordering) ensures o == u64_cmp(log_id.index, at)
//@proof start
broadcast use {lemma_ids_take};
//@fn LogIdList::purge
requires ids_wf(old(self).key_log_ids@),
  upto.index >= next_idx(last_log(old(self).key_log_ids@)) && old(self).key_log_ids@.len() > 0 ==> log_lt(old(self).key_log_ids@.last(), *upto),
ensures ids_purged(old(self).key_log_ids@, final(self).key_log_ids@, *upto),
//@closure 0
|log_id: &LogId| -> (o: Ordering) ensures o == u64_cmp(log_id.index, upto.index)
//@proof start
broadcast use {lemma_ids_skip, lemma_ids_bump, lemma_ids_head};
//@proof after `self.key_log_ids = vec![*upto];`
assert(self.key_log_ids@ =~= seq![*upto]);
//@fn LogIdList::key_log_ids
ensures r@ == self.key_log_ids@,
//@fn LogIdList::by_last_leader
requires ids_wf(self.key_log_ids@),
ensures self.key_log_ids@.len() == 0 ==> r@.len() == 0,
  self.key_log_ids@.len() > 0 ==> 0 < r@.len() <= self.key_log_ids@.len() && r@.last() == self.key_log_ids@.last()
     && r@ == self.key_log_ids@.subrange(self.key_log_ids@.len() - r@.len(), self.key_log_ids@.len() as int)
     && r@[0].leader_id == self.key_log_ids@.last().leader_id
     && (forall|i: int| 0 <= i < self.key_log_ids@.len() - r@.len() ==> (#[trigger] self.key_log_ids@[i]).leader_id != self.key_log_ids@.last().leader_id),
//@raw
/// `ids` may be appended after `o`: later, and without a gap among themselves
pub open spec fn ids_can_ext<LID: RaftLogIdView>(o: Seq<LogId>, ids: Seq<LID>) -> bool {
    &&& o.len() > 0 && ids.len() > 0 ==> leader_le(o.last().leader_id, ids[0].rl_log_id().leader_id) && o.last().index < ids[0].rl_log_id().index
    &&& forall|i: int, j: int| 0 <= i < j < ids.len() ==> leader_le((#[trigger] ids[i]).rl_log_id().leader_id, (#[trigger] ids[j]).rl_log_id().leader_id)
        && ids[i].rl_log_id().index + (j - i) == ids[j].rl_log_id().index
}
pub open spec fn one_leader<LID: RaftLogIdView>(ids: Seq<LID>) -> bool {
    forall|i: int| 0 <= i < ids.len() ==> (#[trigger] ids[i]).rl_log_id().leader_id == ids[0].rl_log_id().leader_id
        && ids[i].rl_log_id().index == ids[0].rl_log_id().index + i
}
/// `n` is `o` after appending `ids`
pub open spec fn ids_ext<LID: RaftLogIdView>(o: Seq<LogId>, n: Seq<LogId>, ids: Seq<LID>) -> bool {
    &&& ids_wf(n)
    &&& ids.len() == 0 ==> n == o
    &&& ids.len() > 0 ==> last_log(n) == Some(ids.last().rl_log_id())
    &&& o.len() > 0 ==> first_log(n) == first_log(o)
    &&& o.len() == 0 && ids.len() > 0 ==> first_log(n) == Some(ids[0].rl_log_id())
    &&& forall|i: int| o.len() > 0 && i <= o.last().index ==> #[trigger] ids_at(n, i) == ids_at(o, i)
    &&& forall|i: int| 0 <= i < ids.len() ==> ids_at(n, (#[trigger] ids[i]).rl_log_id().index as int) == Some(ids[i].rl_log_id())
}
/// `n` is `o` after removing everything from index `at` on
pub open spec fn ids_cut(o: Seq<LogId>, n: Seq<LogId>, at: int) -> bool {
    &&& ids_wf(n)
    &&& forall|i: int| i < at ==> #[trigger] ids_at(n, i) == ids_at(o, i)
    &&& forall|i: int| i >= at ==> #[trigger] ids_at(n, i) is None
    &&& last_log(n) == (if o.len() == 0 || at <= o[0].index { None }
         else if at > o.last().index { last_log(o) } else { ids_at(o, at - 1) })
    &&& last_log(n) is Some ==> first_log(n) == first_log(o)
}
/// `n` is `o` after removing everything before `upto`, whose id is kept
pub open spec fn ids_purged(o: Seq<LogId>, n: Seq<LogId>, upto: LogId) -> bool {
    &&& ids_wf(n)
    &&& upto.index >= next_idx(last_log(o)) ==> n == seq![upto]
    &&& upto.index < next_idx(last_log(o)) ==> (forall|i: int| i >= upto.index ==> #[trigger] ids_at(n, i) == ids_at(o, i))
        && (forall|i: int| i < upto.index && i < next_idx(last_log(o)) && upto.index >= o[0].index ==> #[trigger] ids_at(n, i) is None)
        && (upto.index < o[0].index ==> n == o)
        && (upto.index >= o[0].index ==> first_log(n) == ids_at(o, upto.index as int))
        && last_log(n) == last_log(o)
}
//@fn LogIdList::extend_from_same_leader
requires ids_wf(old(self).key_log_ids@), ids_can_ext(old(self).key_log_ids@, new_ids@), one_leader(new_ids@),
ensures ids_ext(old(self).key_log_ids@, final(self).key_log_ids@, new_ids@),
//@fn LogIdList::extend
requires ids_wf(old(self).key_log_ids@), ids_can_ext(old(self).key_log_ids@, new_ids@),
ensures ids_ext(old(self).key_log_ids@, final(self).key_log_ids@, new_ids@),
//@loop 0 iter=it
invariant
  it.seq().len() == new_ids@.len(), forall|k: int| 0 <= k < new_ids@.len() ==> *(#[trigger] it.seq()[k]) == new_ids@[k],
  ids_wf(self.key_log_ids@),
  it.index@ == 0 ==> *self == *old(self),
  it.index@ > 0 ==> self.key_log_ids@.len() > 0 && self.key_log_ids@.last().index <= new_ids@[it.index@ - 1].rl_log_id().index,
  prev == (match last_log(self.key_log_ids@) { None => None::<LeaderId>, Some(x) => Some(x.leader_id) }),
  it.index@ > 0 ==> prev == Some(new_ids@[it.index@ - 1].rl_log_id().leader_id),
  old(self).key_log_ids@.len() > 0 ==> self.key_log_ids@.len() > 0 && self.key_log_ids@[0] == old(self).key_log_ids@[0] && old(self).key_log_ids@.last().index <= self.key_log_ids@.last().index,
  old(self).key_log_ids@.len() == 0 && it.index@ > 0 ==> self.key_log_ids@[0] == new_ids@[0].rl_log_id(),
  forall|i: int| old(self).key_log_ids@.len() > 0 && i <= old(self).key_log_ids@.last().index ==> #[trigger] ids_at(self.key_log_ids@, i) == ids_at(old(self).key_log_ids@, i),
  forall|i: int| 0 <= i < it.index@ && self.key_log_ids@.last().index < (#[trigger] new_ids@[i]).rl_log_id().index ==> Some(new_ids@[i].rl_log_id().leader_id) == prev,
  forall|i: int| 0 <= i < it.index@ && self.key_log_ids@.last().index >= (#[trigger] new_ids@[i]).rl_log_id().index ==> ids_at(self.key_log_ids@, new_ids@[i].rl_log_id().index as int) == Some(new_ids@[i].rl_log_id()),
