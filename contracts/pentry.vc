//@module pentry
//@deps raft_state
//@names LogIdRange Inflight ProgressEntry
//@raw
broadcast use {lemma_at_some, lemma_at_mono};
//@source openraft/src/log_id_range.rs
//@type LogIdRange derive=Clone,Copy,PartialEq,Eq
//@fn LogIdRange::new
ensures r.prev == prev, r.last == last,
//@source openraft/src/progress/inflight/mod.rs
//@type Inflight derive=Clone,Copy,PartialEq,Eq
//@raw
impl Inflight {
    pub open spec fn wf(self) -> bool { self is Logs ==> olog_lt(self->log_id_range.prev, self->log_id_range.last) }
}
//@fn Inflight::logs
ensures r == (if olog_lt(prev, last) { Inflight::Logs { log_id_range: LogIdRange { prev, last } } } else { Inflight::None }), r.wf(),
//@fn Inflight::snapshot
ensures r == (Inflight::Snapshot { last_log_id: snapshot_last_log_id }),
//@fn Inflight::is_none
ensures r == (self is None),
//@fn Inflight::is_sending_log
ensures r == (self is Logs),
//@fn Inflight::is_sending_snapshot
ensures r == (self is Snapshot),
//@fn Inflight::ack
requires !(*old(self) is None), *old(self) is Snapshot ==> olog_le((*old(self))->last_log_id, upto),
  *old(self) is Logs ==> olog_le((*old(self))->log_id_range.prev, upto) && olog_le(upto, (*old(self))->log_id_range.last),
ensures final(self).wf(), *final(self) == (match *old(self) {
   Inflight::Logs { log_id_range } => if olog_lt(upto, log_id_range.last) { Inflight::Logs { log_id_range: LogIdRange { prev: upto, last: log_id_range.last } } } else { Inflight::None },
   _ => Inflight::None }),
//@fn Inflight::conflict
requires *old(self) is Logs, (*old(self))->log_id_range.prev is Some, (*old(self))->log_id_range.prev->0.index == conflict,
ensures *final(self) is None,
//@source openraft/src/progress/entry/mod.rs
//@type ProgressEntry derive=Clone,Copy,PartialEq,Eq
//@raw
impl ProgressEntry {
    /// what is in flight starts inside the range still to be searched
    pub open spec fn wf(self) -> bool { self.shape() && (self.inflight is Logs ==> pos_le(self.matching, self.inflight->log_id_range.prev)) }
    pub open spec fn shape(self) -> bool {
        &&& next_idx(self.matching) <= self.searching_end
        &&& self.inflight.wf()
        &&& self.inflight is Logs ==> next_idx(self.inflight->log_id_range.prev) <= self.searching_end
        &&& self.inflight is Snapshot ==> olog_lt(self.matching, self.inflight->last_log_id) && lidx(self.matching) < lidx(self.inflight->last_log_id)
    }
    /// an acknowledgement that belongs to what is in flight
    pub open spec fn ack_ok(self, m: Option<LogId>) -> bool {
        match self.inflight {
            Inflight::None => false,
            Inflight::Logs { log_id_range } => pos_le(log_id_range.prev, m) && olog_le(m, log_id_range.last),
            Inflight::Snapshot { last_log_id } => m == last_log_id,
        }
    }
    pub open spec fn conflict_ok(self, c: u64) -> bool {
        self.inflight is Logs && self.inflight->log_id_range.prev is Some && self.inflight->log_id_range.prev->0.index == c && c >= next_idx(self.matching)
    }
}
//@fn ProgressEntry::new
ensures r.matching == matching, r.inflight is None, r.searching_end == next_idx(matching), r.wf(),
//@fn ProgressEntry::empty
ensures r.matching is None, r.inflight is None, r.searching_end == end, r.wf(),
//@fn ProgressEntry::is_log_range_inflight
ensures r == (self.inflight is Logs && olog_lt(self.inflight->log_id_range.prev, Some(*upto))),
//@fn ProgressEntry::update_matching
requires old(self).shape(), old(self).ack_ok(matching), pos_le(old(self).matching, matching),
ensures final(self).wf(), final(self).matching == matching, pos_le(old(self).matching, final(self).matching),
   final(self).searching_end >= old(self).searching_end,
   final(self).searching_end == (if old(self).searching_end >= next_idx(matching) { old(self).searching_end as int } else { next_idx(matching) }),
   final(self).inflight is None || final(self).inflight == (Inflight::Logs { log_id_range: LogIdRange { prev: matching, last: old(self).inflight->log_id_range.last } }) && old(self).inflight is Logs,
//@fn ProgressEntry::update_conflicting
requires old(self).wf(), old(self).conflict_ok(conflict),
ensures final(self).wf(), final(self).matching == old(self).matching, final(self).searching_end == conflict, final(self).searching_end < old(self).searching_end, final(self).inflight is None,
//@fn ProgressEntry::next_send | math
//@argty log_state => &RaftState
requires old(self).wf(), log_state.ordered(), old(self).inflight is None ==> old(self).searching_end <= next_idx(log_state.last()),
   // what is acknowledged as matching is in the leader's log
   log_state.holds(old(self).matching),
   log_state.snapshot_meta.last_log_id is None ==> next_idx(log_state.purge_upto) <= old(self).searching_end,
   log_state.snapshot_meta.last_log_id is Some && lidx(old(self).matching) < lidx(log_state.snapshot_meta.last_log_id) ==> olog_lt(old(self).matching, log_state.snapshot_meta.last_log_id),
ensures final(self).wf(), final(self).matching == old(self).matching, final(self).searching_end == old(self).searching_end,
   r is Ok ==> *(r->Ok_0) == final(self).inflight, r is Err ==> *(r->Err_0) == final(self).inflight,
   // one request at a time
   !(old(self).inflight is None) ==> r is Err && *final(self) == *old(self),
   old(self).inflight is None && old(self).searching_end < next_idx(log_state.purge_upto) ==> r is Ok && final(self).inflight == (Inflight::Snapshot { last_log_id: log_state.snapshot_meta.last_log_id }),
   old(self).inflight is None && old(self).searching_end >= next_idx(log_state.purge_upto) ==> match r {
       Err(_) => final(self).inflight is None,
       Ok(_) => final(self).inflight is Logs && sends(*old(self), *log_state, max_entries, final(self).inflight->log_id_range),
   },
   // nothing is sent only when there is nothing to send, or it is not allowed
   old(self).inflight is None && r is Err ==> max_entries == 0 || old(self).searching_end >= next_idx(log_state.last()) || next_idx(old(self).matching) < old(self).searching_end,
//@proof start
proof { lemma_holds_le(*log_state, self.matching); }
//@fn ProgressEntry::calc_mid | math
requires matching_next <= end,
ensures matching_next <= r <= end, matching_next < end ==> r < end,
//@raw
/// A batch of entries to send: starts inside the range to be searched, right after a log the leader has, holds at
/// most `max` entries and reaches only logs the leader has.
pub open spec fn sends(p: ProgressEntry, st: RaftState, max: u64, g: LogIdRange) -> bool {
    &&& next_idx(p.matching) <= next_idx(g.prev) <= p.searching_end
    &&& next_idx(g.prev) >= next_idx(st.purge_upto)
    &&& g.prev is Some ==> st.at(g.prev->0.index as int) == g.prev
    &&& g.last is Some && st.at(g.last->0.index as int) == g.last
    &&& next_idx(g.prev) < next_idx(g.last) <= next_idx(g.prev) + max
}
