//@module entries
//@deps raft_state
//@raw
/// `oneshot::Sender` of the runtime
pub struct OneshotSenderOf<T> { pub t: PhantomData<T> }
/// types of the application that no contract looks into
pub struct VxOpaque { pub x: u64 }
pub struct AppData { pub x: u64 }
#[verifier::external_body]
pub struct SnapshotData { _p: u8 }
/// `error::Infallible` (no variants)
pub struct Infallible { pub x: VxOpaque }
pub type ResultSender<T, E = Infallible> = OneshotSenderOf<Result<T, E>>;
//@source openraft/src/storage/snapshot.rs
//@type Snapshot
//@source openraft/src/entry/payload.rs
//@type EntryPayload
//@raw
impl EntryPayload {
    pub open spec fn mem(self) -> Option<Membership> { match self { EntryPayload::Membership(m) => Some(m), _ => None } }
}
//@fn RaftPayload<C> for EntryPayload<C>::is_blank | as=EntryPayload
ensures r == (*self is Blank),
//@fn RaftPayload<C> for EntryPayload<C>::get_membership | as=EntryPayload
ensures deref_opt(r) == self.mem(),
//@source openraft/src/entry/mod.rs
//@type Entry
//@raw
impl RaftLogIdView for Entry { open spec fn rl_log_id(&self) -> LogId { self.log_id } open spec fn rl_with(&self, id: LogId) -> Entry { Entry { log_id: id, ..*self } } }
//@fn RaftLogId<C::NodeId> for Entry<C>::get_log_id
//@fn RaftLogId<C::NodeId> for Entry<C>::set_log_id
//@fn RaftPayload<C> for Entry<C>::is_blank | as=Entry
ensures r == (self.payload is Blank),
//@fn RaftPayload<C> for Entry<C>::get_membership | as=Entry
ensures deref_opt(r) == self.payload.mem(),
//@fn RaftEntry<C> for Entry<C>::new_blank | as=Entry
ensures r == (Entry { log_id, payload: EntryPayload::Blank }),
//@fn RaftEntry<C> for Entry<C>::new_membership | as=Entry
ensures r == (Entry { log_id, payload: EntryPayload::Membership(m) }),
//@raw
/// the log ids of entries
pub open spec fn eids(s: Seq<Entry>) -> Seq<LogId> { s.map_values(|e: Entry| e.log_id) }
