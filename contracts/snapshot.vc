//@module snapshot
//@deps command
//@noglob
//@names SnapshotMismatch InstallSnapshotError ReplicationClosed SnapshotSegmentId
//@raw
broadcast use {vx_axioms::group_vx_eq, joint_vec::group_configs_eq, snap_axioms::group_string_eq};
pub mod snap_axioms { use super::*;
    pub broadcast axiom fn axiom_string_eq_obeys()
        ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec();
    /// strings are equal exactly when their characters are (and nothing else of them is observable)
    pub broadcast axiom fn axiom_string_eq(a: &String, b: &String)
        ensures #[trigger] a.eq_spec(b) == (a@ == b@), a@ == b@ ==> *a == *b;
    pub broadcast axiom fn axiom_string_ref_eq_obeys()
        ensures #[trigger] <&String as vstd::std_specs::cmp::PartialEqSpec<&String>>::obeys_eq_spec();
    pub broadcast axiom fn axiom_string_ref_eq(a: &&String, b: &&String)
        ensures #[trigger] a.eq_spec(b) == ((**a)@ == (**b)@), (**a)@ == (**b)@ ==> **a == **b;
    pub broadcast group group_string_eq { axiom_string_eq_obeys, axiom_string_eq, axiom_string_ref_eq_obeys, axiom_string_ref_eq }
}
#[verifier::external_body]
pub struct IoError { _p: u8 }
#[verifier::external_body]
pub struct StorageError { _p: u8 }
#[verifier::external_body]
pub struct ErrorSubject { _p: u8 }
pub enum ErrorVerb { Read, Write, Seek }
impl ErrorSubject {
    #[allow(non_snake_case)]
    #[verifier::external_body]
    pub fn Snapshot(s: Option<SnapshotSignature>) -> Self { unimplemented!() }
}
impl StorageError {
    #[verifier::external_body]
    pub fn from_io_error(s: ErrorSubject, v: ErrorVerb, e: IoError) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn write_snapshot(s: Option<SnapshotSignature>, e: &IoError) -> Self { unimplemented!() }
}
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
/// `b` is `a` with `d` written at `off`: nothing else of it changes
pub open spec fn placed(a: Seq<u8>, b: Seq<u8>, off: int, d: Seq<u8>) -> bool {
    &&& b.len() == (if off + d.len() > a.len() { off + d.len() } else { a.len() as int })
    &&& forall|i: int| off <= i < off + d.len() ==> #[trigger] b[i] == d[i - off]
    &&& forall|i: int| 0 <= i < a.len() && !(off <= i < off + d.len()) ==> #[trigger] b[i] == a[i]
}
/// The application's snapshot file: a position, and bytes.  After a failure nothing is known about it.
impl SnapshotData {
    pub uninterp spec fn content(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, IoError>)
        ensures r is Ok ==> final(self).content() == old(self).content() && final(self).pos() == r->Ok_0 && match to { SeekFrom::Start(x) => r->Ok_0 == x, SeekFrom::End(x) => r->Ok_0 == old(self).content().len() + x, SeekFrom::Current(x) => r->Ok_0 == old(self).pos() + x } { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, d: &Vec<u8>) -> (r: Result<(), IoError>)
        ensures r is Ok ==> placed(old(self).content(), final(self).content(), old(self).pos(), d@) && final(self).pos() == old(self).pos() + d@.len() && final(self).pos() <= u64::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn shutdown(&mut self) -> (r: Result<(), IoError>)
        ensures r is Ok ==> final(self).content() == old(self).content() { unimplemented!() }
}
pub fn vx_some_mut<'a, T>(l: &'a mut Option<T>) -> (r: &'a mut T)
    requires *old(l) is Some,
    ensures *r == (*old(l))->0, *final(l) == Some(*final(r)),
{ match l { Some(b) => b, None => { assert(false); vx_unreachable() } } }
//@source openraft/src/raft_types.rs
//@type SnapshotSegmentId
//@source openraft/src/error.rs
//@type SnapshotMismatch
//@type InstallSnapshotError
//@type Fatal
//@type RaftError
//@raw
/// derived (thiserror)
impl vstd::std_specs::convert::FromSpecImpl<StorageError> for Fatal { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: StorageError) -> Fatal { Fatal::StorageError(e) } }
impl From<StorageError> for Fatal { fn from(e: StorageError) -> (r: Fatal) { Fatal::StorageError(e) } }
impl<E> vstd::std_specs::convert::FromSpecImpl<StorageError> for RaftError<E> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: StorageError) -> RaftError<E> { RaftError::Fatal(Fatal::StorageError(e)) } }
//@fn From<StorageError<C>> for RaftError<C,E>::from
ensures r is Fatal,
//@source openraft/src/raft/message/install_snapshot.rs
//@type InstallSnapshotRequest
//@raw
#[verifier::external_body]
pub struct Raft { _p: u8 }
impl Raft {
    /// an empty snapshot file of the application's, to write to
    #[verifier::external_body]
    pub fn begin_receiving_snapshot(&self) -> (r: Result<Box<SnapshotData>, RaftError<Infallible>>)
        ensures r is Ok ==> (r->Ok_0).content().len() == 0 && (r->Ok_0).pos() == 0, r is Err ==> r->Err_0 is Fatal { unimplemented!() }
}
//@source openraft/src/storage/snapshot.rs
//@fn Snapshot::new
ensures r == (Snapshot { meta, snapshot }),
//@source openraft/src/network/snapshot_transport.rs
//@type Streaming
//@type Chunked
//@raw
impl Streaming {
    /// the writer stands where the stream says it does
    pub open spec fn wf(&self) -> bool { self.snapshot_data.pos() == self.offset }
}
//@fn Streaming::new
ensures r.offset == 0, r.received == 0, r.snapshot_id == snapshot_id, r.snapshot_data == snapshot_data,
//@fn Streaming::snapshot_id
ensures *r == self.snapshot_id,
//@fn Streaming::has_gap
ensures r == (self.received < self.offset),
//@fn Streaming::into_snapshot_data
ensures r == self.snapshot_data,
//@fn Streaming::receive | math shim
//@rewrite `self.snapshot_data.as_mut()` => `self.snapshot_data`
requires old(self).wf(),
ensures final(self).snapshot_id == old(self).snapshot_id,
  // written at the offset the chunk carries, and nowhere else
  r is Ok ==> final(self).wf() && r->Ok_0 == req.done && placed(old(self).snapshot_data.content(), final(self).snapshot_data.content(), req.offset as int, req.data@),
  // how far everything has been received
  r is Ok ==> final(self).offset == req.offset + req.data@.len() && final(self).received == upto_received(old(self).received as int, req),
//@raw
/// how far everything has been received after a chunk: nothing new if it leaves a hole
pub open spec fn upto_received(a: int, req: InstallSnapshotRequest) -> int { let e = req.offset + req.data@.len(); if req.offset <= a && e > a { e } else { a } }
pub open spec fn received_upto(s: Option<Streaming>, id: SnapshotId) -> int { if s is Some && s->0.snapshot_id == id { s->0.received as int } else { 0 } }
/// what a chunk is written over: what has been received of the snapshot, or nothing
pub open spec fn received(s: Option<Streaming>, id: SnapshotId) -> Seq<u8> { if s is Some && s->0.snapshot_id == id { s->0.snapshot_data.content() } else { Seq::empty() } }
//@fn SnapshotTransport<C> for Chunked::receive_snapshot | as=Chunked shim trymatch
//@rewrite `data.as_mut()` => `data`
requires *old(streaming) is Some ==> (*old(streaming))->0.wf(),
ensures *final(streaming) is Some ==> (*final(streaming))->0.wf(),
  // in the middle of a snapshot that is not being received: refused, with the position expected
  !(*old(streaming) is Some && (*old(streaming))->0.snapshot_id == req.meta.snapshot_id) && req.offset != 0 ==>
    *final(streaming) == *old(streaming) && match r { Err(RaftError::APIError(InstallSnapshotError::SnapshotMismatch(m))) => m.expect.id == req.meta.snapshot_id && m.expect.offset == 0 && m.got.id == req.meta.snapshot_id && m.got.offset == req.offset, _ => false },
  r is Err ==> *final(streaming) == *old(streaming) || *final(streaming) is None,
  // only the chunk marked last completes it
  r is Ok ==> (r->Ok_0 is Some) == req.done,
  // and only if everything before it has been received: otherwise the sender has to start over
  r is Ok && req.done ==> req.offset <= received_upto(*old(streaming), req.meta.snapshot_id),
  r is Err && r->Err_0 is APIError ==> match r { Err(RaftError::APIError(InstallSnapshotError::SnapshotMismatch(m))) => m.expect.id == req.meta.snapshot_id && m.expect.offset == 0 && m.got.offset == req.offset, _ => false },
  r is Ok && !req.done ==> *final(streaming) is Some && (*final(streaming))->0.received == upto_received(received_upto(*old(streaming), req.meta.snapshot_id), req),
  r is Ok && req.done ==> *final(streaming) is None && (r->Ok_0)->0.meta == req.meta && placed(received(*old(streaming), req.meta.snapshot_id), (r->Ok_0)->0.snapshot.content(), req.offset as int, req.data@),
  r is Ok && !req.done ==> *final(streaming) is Some && (*final(streaming))->0.snapshot_id == req.meta.snapshot_id && placed(received(*old(streaming), req.meta.snapshot_id), (*final(streaming))->0.snapshot_data.content(), req.offset as int, req.data@),
//@raw
#[verifier::external_body]
pub struct Timeout { _p: u8 }
#[verifier::external_body]
pub struct Unreachable { _p: u8 }
#[verifier::external_body]
pub struct PayloadTooLarge { _p: u8 }
#[verifier::external_body]
pub struct NetworkError { _p: u8 }
#[verifier::external_body]
pub struct Elapsed { _p: u8 }
#[verifier::external_body]
pub struct ReplicationClosed { _p: u8 }
impl vstd::std_specs::convert::FromSpecImpl<ReplicationClosed> for StreamingError<Fatal> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ReplicationClosed) -> StreamingError<Fatal> { StreamingError::Closed(e) } }
impl From<ReplicationClosed> for StreamingError<Fatal> { fn from(e: ReplicationClosed) -> Self { StreamingError::Closed(e) } }
impl vstd::std_specs::convert::FromSpecImpl<StorageError> for StreamingError<Fatal> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: StorageError) -> StreamingError<Fatal> { StreamingError::StorageError(e) } }
impl From<StorageError> for StreamingError<Fatal> { fn from(e: StorageError) -> Self { StreamingError::StorageError(e) } }
/// the caller's wish to stop, asked before every chunk
#[verifier::external_body]
pub struct VxCancel { _p: u8 }
impl VxCancel {
    #[verifier::external_body]
    pub fn now_or_never(&mut self) -> Option<ReplicationClosed> { unimplemented!() }
}
#[verifier::external_body]
pub struct RPCOption { _p: u8 }
impl RPCOption {
    #[verifier::external_body]
    pub fn snapshot_chunk_size(&self) -> (r: Option<usize>) ensures r is Some { unimplemented!() }
    #[verifier::external_body]
    pub fn hard_ttl(&self) -> Duration { unimplemented!() }
}
impl Clone for RPCOption { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
/// a buffer with room for at least so many bytes
pub uninterp spec fn room(v: &Vec<u8>) -> nat;
#[verifier::external_body]
pub fn vx_with_capacity(n: usize) -> (r: Vec<u8>) ensures room(&r) >= n, r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_capacity(v: &Vec<u8>) -> (r: usize) ensures r == room(v) { unimplemented!() }
impl SnapshotData {
    /// reads some of what follows, as much as there is room for; nothing only at the end, or with no room
    #[verifier::external_body]
    pub fn read_buf(&mut self, b: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        ensures final(self).content() == old(self).content(), room(final(b)) == room(old(b)),
          r is Ok ==> ({ let n = r->Ok_0 as int; let p = old(self).pos();
            &&& n > 0 ==> 0 <= p && p + n <= old(self).content().len() && final(b)@ == old(b)@ + old(self).content().subrange(p, p + n)
            &&& n == 0 ==> final(b)@ == old(b)@ && (p >= old(self).content().len() || old(b)@.len() >= room(old(b)))
            &&& (old(b)@.len() <= room(old(b)) ==> final(b)@.len() <= room(final(b))) && final(self).pos() == p + n }) { unimplemented!() }
}
pub type NetResult = Result<InstallSnapshotResponse, RPCError<RaftError<InstallSnapshotError>>>;
/// The connection to the receiver: every chunk sent, and the answer.
#[verifier::external_body]
pub struct Net { _p: u8 }
impl Net {
    pub uninterp spec fn sent(&self) -> Seq<(InstallSnapshotRequest, NetResult)>;
    #[verifier::external_body]
    pub fn install_snapshot(&mut self, req: InstallSnapshotRequest, o: RPCOption) -> (r: NetResult) ensures final(self).sent() == old(self).sent().push((req, r)) { unimplemented!() }
}
/// an answer that comes too late is no answer
#[verifier::external_body]
pub fn vx_timeout(d: Duration, r: NetResult) -> (x: Result<NetResult, Elapsed>) ensures x is Ok ==> x->Ok_0 == r { unimplemented!() }
pub trait VxStoRes<T>: Sized { spec fn res(self) -> Result<T, IoError>; fn sto_res(self, f: ()) -> (r: Result<T, StorageError>) ensures self.res() is Ok <==> r is Ok, r is Ok ==> r->Ok_0 == self.res()->Ok_0; }
impl<T> VxStoRes<T> for Result<T, IoError> {
    open spec fn res(self) -> Result<T, IoError> { self }
    #[verifier::external_body]
    fn sto_res(self, f: ()) -> (r: Result<T, StorageError>) { unimplemented!() }
}
//@source openraft/src/error.rs
//@type RPCError
//@type RemoteError
//@source openraft/src/error/streaming_error.rs
//@type StreamingError
//@raw
/// a chunk of the snapshot: what is in it at the offset, marked last exactly if it reaches the end
pub open spec fn chunk_of(q: InstallSnapshotRequest, m: SnapshotMeta, v: Vote, c: Seq<u8>) -> bool {
    &&& q.vote == v && q.meta == m
    &&& q.offset + q.data@.len() <= c.len() && q.data@ == c.subrange(q.offset as int, q.offset + q.data@.len())
    &&& q.done == (q.offset + q.data@.len() == c.len())
}
pub open spec fn mismatch(r: NetResult) -> bool { match r { Err(RPCError::RemoteError(e)) => e.source is APIError, _ => false } }
/// where the next chunk may start: after the last one if it was taken, at the start if the receiver has another one, or the same again
pub open spec fn may_follow(x: (InstallSnapshotRequest, NetResult), off: int, v: Vote) -> bool {
    ||| off == x.0.offset
    ||| off == 0 && mismatch(x.1)
    ||| off == x.0.offset + x.0.data@.len() && x.1 is Ok && !x.0.done && !vote_lt(v, (x.1->Ok_0).vote)
}
/// Everything sent since `n` are chunks of the snapshot, each in its place.
pub open spec fn orderly(s: Seq<(InstallSnapshotRequest, NetResult)>, n: int, m: SnapshotMeta, v: Vote, c: Seq<u8>) -> bool {
    &&& s.len() >= n
    &&& forall|i: int| n <= i < s.len() ==> chunk_of((#[trigger] s[i]).0, m, v, c)
    &&& s.len() > n ==> s[n].0.offset == 0
    &&& forall|i: int| n <= i < s.len() - 1 ==> may_follow(#[trigger] s[i], s[i + 1].0.offset as int, v)
}
/// where the next chunk after all those may start
pub open spec fn next_at(s: Seq<(InstallSnapshotRequest, NetResult)>, n: int, off: int, v: Vote) -> bool { if s.len() == n { off == 0 } else { may_follow(s.last(), off, v) } }
//@source openraft/src/network/snapshot_transport.rs
//@fn SnapshotTransport<C> for Chunked::send_snapshot | as=Chunked math shim
//@attrs #[verifier::exec_allows_no_decreases_clause]
//@argty cancel => VxCancel
//@argty net => &mut Net
//@rewrite `|| (ErrorSubject::Snapshot(Some(snapshot.meta.signature())), ErrorVerb::Read)` => `()`
//@rewrite `std::pin::pin!(cancel)` => `cancel`
//@rewrite `c.as_mut().now_or_never()` => `c.now_or_never()`
//@rewrite `C::sleep(Duration::from_millis(1))` => `()`
//@rewrite `Vec::with_capacity(chunk_size)` => `vx_with_capacity(chunk_size)`
//@rewrite `buf.capacity()` => `vx_capacity(&buf)`
//@rewrite `C::timeout(option.hard_ttl(), net.install_snapshot(req, option.clone()))` => `vx_timeout(option.hard_ttl(), net.install_snapshot(req, option.clone()))`
ensures
  orderly(final(net).sent(), old(net).sent().len() as int, snapshot.meta, vote, snapshot.snapshot.content()),
  // it is over when the last chunk was taken, or there is a higher vote
  r is Ok ==> ({ let x = final(net).sent().last(); final(net).sent().len() > old(net).sent().len() && x.1 is Ok && r->Ok_0.vote == (x.1->Ok_0).vote && (x.0.done || vote_lt(vote, r->Ok_0.vote)) }),
//@proof start
let ghost vx_m = snapshot.meta; let ghost vx_c = snapshot.snapshot.content(); let ghost vx_n = net.sent().len() as int;
//@loop 0
invariant snapshot.meta == vx_m, snapshot.snapshot.content() == vx_c, end == vx_c.len(), offset <= end, vx_n == old(net).sent().len(),
  orderly(net.sent(), vx_n, vx_m, vote, vx_c), next_at(net.sent(), vx_n, offset as int, vote),
//@loop 0 start
let ghost vx_s = net.sent();
//@loop 1
invariant snapshot.meta == vx_m, snapshot.snapshot.content() == vx_c, end == vx_c.len(), offset <= end, 
  offset + buf@.len() <= vx_c.len(), buf@ == vx_c.subrange(offset as int, offset + buf@.len()), snapshot.snapshot.pos() == offset + buf@.len(), buf@.len() <= room(&buf),
decreases room(&buf) - buf@.len(),
//@raw
/// Chunks in their places: what agrees with the snapshot up to `k` agrees up to the end of the chunk, once it is written;
/// and is the snapshot, once the last chunk is.
pub proof fn lemma_in_place(c: Seq<u8>, a: Seq<u8>, b: Seq<u8>, k: int, q: InstallSnapshotRequest, m: SnapshotMeta, v: Vote)
    requires chunk_of(q, m, v, c), placed(a, b, q.offset as int, q.data@), 0 <= k <= a.len() <= c.len(), q.offset <= k, a.take(k) == c.take(k),
    ensures ({ let e = q.offset + q.data@.len(); let j = if e > k { e } else { k }; j <= b.len() <= c.len() && b.take(j) == c.take(j) }), q.done ==> b == c,
{
    let e = q.offset + q.data@.len(); let j = if e > k { e } else { k };
    assert forall|i: int| 0 <= i < j implies b[i] == c[i] by { if q.offset <= i && i < e { assert(q.data@[i - q.offset] == c.subrange(q.offset as int, e)[i - q.offset]); assert(b[i] == q.data@[i - q.offset]); assert(c.subrange(q.offset as int, e)[i - q.offset] == c[i]); } else { assert(i < k); assert(b[i] == a[i]); assert(a.take(k)[i] == a[i]); assert(c.take(k)[i] == c[i]); assert(a.take(k)[i] == c.take(k)[i]); } }
    assert(b.take(j) =~= c.take(j));
    if q.done { assert(b =~= c); }
}
