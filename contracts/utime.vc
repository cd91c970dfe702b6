//@module utime
//@deps time vote
//@source openraft/src/utime.rs
//@substall T => Vote
//@substall I => Instant
//@type Leased derive=Clone
//@fn Default for Leased<T,I>::default
ensures r.data == (Vote { leader_id: LeaderId { term: 0, node_id: 0 }, committed: false }), r.last_update is None, r.lease.ns == 0, r.lease_enabled,
//@fn Deref for Leased<T,I>::deref
ensures *r == self.data,
//@fn DerefMut for Leased<T,I>::deref_mut
ensures *r == old(self).data, final(self).data == *final(r), final(self).last_update == old(self).last_update, final(self).lease == old(self).lease, final(self).lease_enabled == old(self).lease_enabled,
//@fn Leased::new
ensures r == (Leased { data, last_update: Some(now), lease, lease_enabled: true }),
//@fn Leased::without_last_update
ensures r.data == data, r.last_update is None, r.lease.ns == 0, r.lease_enabled,
//@fn Leased::last_update
ensures r == self.last_update,
//@fn Leased::lease_info
ensures r == (self.last_update, self.lease, self.lease_enabled),
//@fn Leased::into_inner
ensures r == self.data,
//@fn Leased::update
ensures *final(self) == (Leased { data, last_update: Some(now), lease, lease_enabled: true }),
//@fn Leased::disable_lease
ensures final(self).lease.ns == 0, !final(self).lease_enabled, final(self).data == old(self).data, final(self).last_update == old(self).last_update,
//@fn Leased::is_expired
ensures r == (match self.last_update { None => true, Some(t) => now.ns > t.ns + self.lease.ns + timeout.ns }),
//@fn Leased::touch
requires oinst(old(self).last_update) <= now.ns,
ensures final(self).data == old(self).data, final(self).last_update == Some(now), final(self).lease_enabled == old(self).lease_enabled,
  final(self).lease == (if old(self).lease_enabled { lease } else { old(self).lease }),
//@raw
/// A refresh never brings the end of an enabled lease forward, unless it is given a shorter length.
pub open spec fn lease_end(l: Leased) -> int { match l.last_update { None => -1, Some(t) => t.ns + l.lease.ns } }
