// The application's storage, in memory: what is written is visible at once, durable when it is flushed, and a crash
// loses what was not.  Reports misuse by the node (writes that the storage contract does not allow) in `bad`.
use std::collections::VecDeque;
use std::ops::{Bound, RangeBounds};
use std::sync::Mutex;
use crate::entry::RaftPayload;
use crate::storage::{IOFlushed, LogState, RaftLogStorage, RaftStateMachine, Snapshot, SnapshotMeta};
use crate::{EntryPayload, OptionalSend, RaftLogReader, RaftSnapshotBuilder, StorageError, StoredMembership};

pub type L = LogId<u64>;
pub type Ent = crate::Entry<Cfg>;
pub type SErr = StorageError<Cfg>;

#[derive(Clone, Debug, Default)]
pub struct Machine { pub done: Vec<Ent>, pub last: Option<L>, pub mem: StoredMembership<Cfg> }
#[derive(Default)]
pub struct Inner {
    pub vote: Option<Vote<u64>>,
    pub log: BTreeMap<u64, Ent>,
    pub durable: BTreeMap<u64, Ent>,
    pub purged: Option<L>,
    pub committed: Option<L>,
    pub sm: Machine,
    pub snap: Option<(SnapshotMeta<Cfg>, Vec<u8>)>,
    pub nsnap: u64,
    /// content of every snapshot ever made, by the number it starts with
    pub reg: Arc<Mutex<BTreeMap<u64, Machine>>>,
    pub pend: VecDeque<(Vec<u64>, Option<IOFlushed<Cfg>>)>,
    /// how many appends may stay unflushed; 0: every append is durable when it returns
    pub lag: u64,
    pub rng: u64,
    pub bad: Vec<String>,
    /// votes saved and logs made durable, for the promises made to other nodes
    pub reads: u64,
    pub pad: usize,
    pub me: u64,
    pub keep_committed: bool,
    /// every log id that ever was durable here, and every vote saved
    pub ever: BTreeSet<L>,
    pub votes: BTreeSet<(u64, u64, bool)>,
}
impl Inner {
    pub fn last(&self) -> Option<L> { self.log.values().next_back().map(|e| e.log_id).or(self.purged) }
    pub fn flush(&mut self, n: usize) {
        for _ in 0..n {
            let Some((idx, cb)) = self.pend.pop_front() else { return };
            for i in idx { if let Some(e) = self.log.get(&i) { self.ever.insert(e.log_id); self.durable.insert(i, e.clone()); } }
            if let Some(cb) = cb { cb.io_completed(Ok(())); }
        }
    }
    pub fn flush_all(&mut self) { let n = self.pend.len(); self.flush(n) }
    /// a crash: what was not flushed is lost, except for some of it
    pub fn crash(&mut self, keep: u64) {
        let mut k = keep;
        while k > 0 && !self.pend.is_empty() {
            let (idx, _) = self.pend.pop_front().unwrap();
            for i in idx { if let Some(e) = self.log.get(&i) { self.ever.insert(e.log_id); self.durable.insert(i, e.clone()); } }
            k -= 1;
        }
        self.pend.clear();
        self.log = self.durable.clone();
    }
    fn bad(&mut self, s: String) { if self.bad.len() < 20 { self.bad.push(s); } }
}
#[derive(Clone, Default)]
pub struct Store(pub Arc<Mutex<Inner>>);
#[derive(Clone)]
pub struct SmStore(pub Store);
pub struct Builder(pub Machine, pub Store);
/// what just happened in a store, for those who watch
pub enum Note { Vote(Vote<u64>), Append(Vec<Ent>), Apply(Vec<Ent>), Install(SnapshotMeta<Cfg>) }

impl Store {
    pub fn with<T>(&self, f: impl FnOnce(&mut Inner) -> T) -> T { f(&mut self.0.lock().unwrap_or_else(|e| e.into_inner())) }
}
fn bound(r: &impl RangeBounds<u64>) -> (u64, u64) {
    let a = match r.start_bound() { Bound::Included(x) => *x, Bound::Excluded(x) => *x + 1, Bound::Unbounded => 0 };
    let b = match r.end_bound() { Bound::Included(x) => *x + 1, Bound::Excluded(x) => *x, Bound::Unbounded => u64::MAX };
    (a, b)
}
impl RaftLogReader<Cfg> for Store {
    async fn try_get_log_entries<RB: RangeBounds<u64> + Clone + std::fmt::Debug + OptionalSend>(&mut self, range: RB) -> Result<Vec<Ent>, SErr> {
        let (a, b) = bound(&range);
        Ok(self.with(|s| { s.reads += 1; if a >= b { vec![] } else { s.log.range(a..b).map(|x| x.1.clone()).collect() } }))
    }
    async fn read_vote(&mut self) -> Result<Option<Vote<u64>>, SErr> { Ok(self.with(|s| s.vote)) }
}
impl RaftLogStorage<Cfg> for Store {
    type LogReader = Store;
    async fn get_log_state(&mut self) -> Result<LogState<Cfg>, SErr> {
        Ok(self.with(|s| LogState { last_purged_log_id: s.purged, last_log_id: s.last() }))
    }
    async fn get_log_reader(&mut self) -> Store { self.clone() }
    async fn save_vote(&mut self, vote: &Vote<u64>) -> Result<(), SErr> {
        pause().await;
        self.with(|s| {
            if let Some(v) = s.vote { if !(*vote >= v) { s.bad(format!("vote {vote} saved over {v}")); } }
            s.flush_all();
            s.vote = Some(*vote);
            s.votes.insert((vote.leader_id.term, vote.leader_id.node_id, vote.committed));
        });
        note(self, Note::Vote(*vote));
        Ok(())
    }
    async fn save_committed(&mut self, c: Option<L>) -> Result<(), SErr> {
        self.with(|s| if s.keep_committed { if c < s.committed { s.bad(format!("committed {c:?} saved over {:?}", s.committed)); } s.committed = c; });
        Ok(())
    }
    async fn read_committed(&mut self) -> Result<Option<L>, SErr> { Ok(self.with(|s| s.committed)) }
    async fn append<I>(&mut self, entries: I, callback: IOFlushed<Cfg>) -> Result<(), SErr>
    where I: IntoIterator<Item = Ent> + OptionalSend, I::IntoIter: OptionalSend {
        let v: Vec<Ent> = entries.into_iter().collect();
        pause().await;
        let w = v.clone();
        let left = self.with(|s| {
            let mut idx = vec![];
            for e in v {
                let next = s.last().map(|x| x.index + 1).unwrap_or(0);
                if e.log_id.index != next { s.bad(format!("log {} appended after {:?}", e.log_id, s.last())); }
                if let Some(l) = s.last() { if !(l < e.log_id) { s.bad(format!("log {} appended after {l}", e.log_id)); } }
                if let Some(v) = s.vote { if e.log_id.leader_id.term > v.leader_id.term { s.bad(format!("log {} appended with vote {v} saved", e.log_id)); } } else if e.log_id.index > 0 { s.bad(format!("log {} appended with no vote saved", e.log_id)); }
                idx.push(e.log_id.index);
                s.log.insert(e.log_id.index, e);
            }
            s.pend.push_back((idx, Some(callback)));
            s.rng = s.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let stay = if s.lag == 0 { 0 } else { (s.rng >> 33) % (s.lag + 1) } as usize;
            let n = s.pend.len().saturating_sub(stay);
            s.flush(n);
            stay > 0
        });
        note(self, Note::Append(w));
        if left { later(self); }
        Ok(())
    }
    async fn truncate(&mut self, l: L) -> Result<(), SErr> {
        pause().await;
        self.with(|s| {
            s.flush_all();
            if s.log.get(&l.index).map(|e| e.log_id) != Some(l) { s.bad(format!("truncate since {l}, which is not in the log")); }
            if let Some(a) = s.sm.last { if l.index <= a.index { s.bad(format!("truncate since {l}, with {a} applied")); } }
            s.log.retain(|i, _| *i < l.index);
            s.durable.retain(|i, _| *i < l.index);
        });
        Ok(())
    }
    async fn purge(&mut self, l: L) -> Result<(), SErr> {
        pause().await;
        self.with(|s| {
            s.flush_all();
            if Some(l) < s.purged { s.bad(format!("purge upto {l}, with {:?} purged", s.purged)); }
            if Some(l) > s.sm.last { s.bad(format!("purge upto {l}, with {:?} applied", s.sm.last)); }
            s.log.retain(|i, _| *i > l.index);
            s.durable.retain(|i, _| *i > l.index);
            s.purged = Some(l);
        });
        Ok(())
    }
}
impl RaftStateMachine<Cfg> for SmStore {
    type SnapshotBuilder = Builder;
    async fn applied_state(&mut self) -> Result<(Option<L>, StoredMembership<Cfg>), SErr> { Ok(self.0.with(|s| (s.sm.last, s.sm.mem.clone()))) }
    async fn apply<I>(&mut self, entries: I) -> Result<Vec<u64>, SErr>
    where I: IntoIterator<Item = Ent> + OptionalSend, I::IntoIter: OptionalSend {
        let v: Vec<Ent> = entries.into_iter().collect();
        pause().await;
        let w = v.clone();
        let r = self.0.with(|s| {
            let mut r = vec![];
            for e in v {
                let next = s.sm.last.map(|x| x.index + 1).unwrap_or(0);
                if e.log_id.index != next { s.bad(format!("log {} applied after {:?}", e.log_id, s.sm.last)); }
                s.sm.last = Some(e.log_id);
                if let Some(m) = e.get_membership() { s.sm.mem = StoredMembership::new(Some(e.log_id), m.clone()); }
                r.push(match &e.payload { EntryPayload::Normal(d) => *d + 1_000_000, _ => 0 });
                s.sm.done.push(e);
            }
            r
        });
        note(&self.0, Note::Apply(w));
        Ok(r)
    }
    async fn get_snapshot_builder(&mut self) -> Builder { Builder(self.0.with(|s| s.sm.clone()), self.0.clone()) }
    async fn begin_receiving_snapshot(&mut self) -> Result<Box<Data>, SErr> { Ok(Box::new(fresh())) }
    async fn install_snapshot(&mut self, meta: &SnapshotMeta<Cfg>, snapshot: Box<Data>) -> Result<(), SErr> {
        pause().await;
        self.0.with(|s| {
            let b = snapshot.into_inner();
            let id = b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(u64::MAX);
            let Some(m) = s.reg.lock().unwrap().get(&id).cloned() else { s.bad(format!("installed snapshot {meta} with content no one made")); return };
            if b != bytes_of(id, m.last, s.pad) { s.bad(format!("installed snapshot {meta}: the content is not the one made")); }
            if m.last != meta.last_log_id || m.mem != meta.last_membership { s.bad(format!("installed snapshot {meta}: the content is that of {:?} {:?}", m.last, m.mem)); }
            if meta.last_log_id < s.sm.last { s.bad(format!("installed snapshot {meta} over {:?}", s.sm.last)); }
            s.sm = m;
            s.snap = Some((meta.clone(), b));
        });
        note(&self.0, Note::Install(meta.clone()));
        Ok(())
    }
    async fn get_current_snapshot(&mut self) -> Result<Option<Snapshot<Cfg>>, SErr> {
        Ok(self.0.with(|s| s.snap.clone().map(|(meta, b)| Snapshot { meta, snapshot: Box::new(Data::new(b)) })))
    }
}
pub fn bytes_of(id: u64, l: Option<L>, pad: usize) -> Vec<u8> {
    let mut b = id.to_le_bytes().to_vec();
    let n = pad + (id as usize * 7) % 23;
    for k in 0..n { b.push((id as usize * 31 + k * 17 + l.map(|x| x.index as usize).unwrap_or(0)) as u8); }
    b
}
impl RaftSnapshotBuilder<Cfg> for Builder {
    async fn build_snapshot(&mut self) -> Result<Snapshot<Cfg>, SErr> {
        let m = self.0.clone();
        pause().await;
        Ok(self.1.with(|s| {
            s.nsnap += 1;
            let id = { let mut g = s.reg.lock().unwrap(); let id = g.len() as u64; g.insert(id, m.clone()); id };
            let meta = SnapshotMeta { last_log_id: m.last, last_membership: m.mem.clone(), snapshot_id: format!("{}-{}", s.me, id) };
            let b = bytes_of(id, m.last, s.pad);
            if s.snap.as_ref().map(|x| x.0.last_log_id) <= Some(m.last) { s.snap = Some((meta.clone(), b.clone())); }
            Snapshot { meta, snapshot: Box::new(Data::new(b)) }
        }))
    }
}
