// Whole nodes: real `Raft`s on a simulated network, clock and storage, with crashes, partitions, losses and delays.
// Contracts across nodes are evaluated on everything that reaches a store or is answered.
#[path = ""]
mod sim { use super::super::common::*; include!("sim.rs"); }
mod store {
    use super::super::common::*;
    use super::sim::{Disk, SimCfg};
    use super::sim::SimCfg as Cfg;
    type Data = Disk;
    fn fresh() -> Data { let mut d = Disk::new(vec![]); d.fail = super::w(|w| w.diskfail); d }
    async fn pause() { super::pause().await }
    fn note(s: &Store, n: Note) { super::note(s, n) }
    fn later(s: &Store) { super::later(s) }
    include!("store.rs");
}
use sim::*;
use store::*;
use sim::SimCfg as Cfg;
use crate::async_runtime::watch::WatchReceiver;
use std::cell::RefCell;
use std::future::Future;
use crate::entry::RaftPayload;
use crate::error::*;
use crate::network::v2::RaftNetworkV2;
use crate::network::{Backoff, RPCOption};
use crate::network::snapshot_transport::{Chunked, SnapshotTransport};
use crate::raft::*;
use crate::raft::message::TransferLeaderRequest;
use crate::error::decompose::DecomposeResult;
use crate::storage::{Snapshot, SnapshotMeta};
use crate::{ChangeMembers, Config, EntryPayload, Membership, Raft, SnapshotPolicy};

type V = Vote<u64>;
#[derive(Default)]
pub struct World {
    up: BTreeMap<u64, (u64, Raft<Cfg>)>,
    stores: BTreeMap<u64, Store>,
    booting: BTreeSet<u64>,
    cut: BTreeSet<(u64, u64)>,
    loss: u64,
    slow: u64,
    dup: u64,
    diskfail: u64,
    pause: u64,
    chunked: bool,
    groups: u64,
    // what happened
    logs: BTreeMap<L, String>,
    applied: BTreeMap<u64, (L, String, V)>,
    mems: BTreeMap<L, Membership<Cfg>>,
    led: BTreeSet<(u64, u64)>,
    acked: Vec<(L, u64)>,
    acked_upto: Option<u64>,
    quiet: bool,
    changing: u64,
    changes: u64,
    gave_up: u64,
    touched: BTreeMap<u64, (u64, u64, V)>,
    transfers: bool,
    lease: u64,
    errs: Vec<(&'static [&'static str], String)>,
    pub stat: BTreeMap<&'static str, u64>,
    trace: bool,
}
thread_local! { static W: RefCell<World> = RefCell::new(World::default()); }
fn w<T>(f: impl FnOnce(&mut World) -> T) -> T { W.with(|x| f(&mut x.borrow_mut())) }
fn err(ids: &'static [&'static str], s: String) {
    let t = now();
    w(|w| if w.errs.len() < 30 { w.errs.push((ids, format!("at {}ms: {s}", t / 1_000_000))) })
}
fn stat(k: &'static str) { w(|w| *w.stat.entry(k).or_insert(0) += 1) }
fn tr(f: impl FnOnce() -> String) { if w(|w| w.trace) { println!("# {:>7}us {}", now() / 1000, f()); } }

async fn pause() {
    let p = w(|w| w.pause);
    if p > 0 && rnd(3) == 0 { nap(Duration::from_micros(1 + rnd(p * 1000))).await }
}
fn later(s: &Store) {
    let s = s.clone();
    let g = sched(|x| x.group);
    let left = s.with(|x| x.pend.len());
    spawn_in(g, async move {
        nap(Duration::from_micros(rnd(30_000))).await;
        s.with(|x| x.flush(left));
    });
}
fn quorum_of(m: &Membership<Cfg>, have: &BTreeSet<u64>) -> bool {
    m.get_joint_config().iter().all(|c| c.iter().filter(|x| have.contains(x)).count() * 2 > c.len())
}
fn pay(e: &Ent) -> String { match &e.payload { EntryPayload::Normal(d) => format!("{d}"), EntryPayload::Blank => "blank".into(), EntryPayload::Membership(m) => format!("{m:?}") } }
/// the nodes that durably hold a log id: it is in the log on disk, or the state machine is past it
fn holders(w: &World, l: &L) -> BTreeSet<u64> {
    w.stores.iter().filter(|(_, s)| s.with(|s| s.durable.get(&l.index).map(|e| e.log_id) == Some(*l) || s.sm.last >= Some(*l) || s.snap.as_ref().map(|x| x.0.last_log_id >= Some(*l)).unwrap_or(false))).map(|x| *x.0).collect()
}
pub fn note(s: &Store, n: Note) {
    let me = s.with(|s| s.me);
    match n {
        Note::Vote(v) => tr(|| format!("n{me} saves {v}")),
        Note::Append(es) => {
            tr(|| format!("n{me} appends {}..={}", es[0].log_id, es[es.len() - 1].log_id));
            for e in &es {
                let p = pay(e);
                let old = w(|w| {
                    if let Some(m) = e.get_membership() { w.mems.insert(e.log_id, m.clone()); }
                    w.logs.entry(e.log_id).or_insert(p.clone()).clone()
                });
                if old != p { err(&["C07", "C17", "C01", "C03"], format!("n{me} appends {} with {p}, which elsewhere has {old}", e.log_id)); }
                let t = (e.log_id.leader_id.term, e.log_id.leader_id.node_id);
                if t.0 > 0 && w(|w| w.led.insert(t)) {
                    let (votes, ok) = w(|w| {
                        let votes: BTreeSet<u64> = w.stores.iter().filter(|(_, s)| s.with(|s| s.votes.contains(&(t.0, t.1, false)))).map(|x| *x.0).collect();
                        let ok = w.mems.values().any(|m| quorum_of(m, &votes));
                        (votes, ok)
                    });
                    stat("leaders");
                    if !ok { err(&["C03", "C04", "C12"], format!("n{} leads in term {} (log {} is appended), and only {votes:?} saved their vote for it", t.1, t.0, e.log_id)); }
                    // a leader has all that was committed by the leaders before it
                    let led = Vote::new(t.0, t.1);
                    if me == t.1 {
                        let miss = w(|w| s.with(|s| w.applied.values().find(|a| a.2 < led && a.0.index < e.log_id.index && s.sm.last.map(|x| x.index) < Some(a.0.index) && s.log.get(&a.0.index).map(|x| x.log_id) != Some(a.0) && s.purged.map(|x| x.index) < Some(a.0.index)).map(|a| a.0)));
                        if let Some(l) = miss { err(&["C02", "C03", "C04", "C05", "C12", "C07", "C11"], format!("n{me} leads in term {} without {l}, which was committed before", t.0)); }
                        let last = w(|w| w.applied.values().rev().find(|a| a.2 < led).map(|a| a.0));
                        if let Some(l) = last { if l.index >= e.log_id.index { err(&["C02", "C03", "C04", "C05", "C12", "C07", "C11"], format!("n{me} leads in term {} with its first log {}, and {l} was committed before", t.0, e.log_id)); } }
                    }
                }
            }
        }
        Note::Apply(es) => {
            if es.is_empty() { return; }
            tr(|| format!("n{me} applies {}..={}", es[0].log_id, es[es.len() - 1].log_id));
            let v = s.with(|s| s.vote.unwrap_or_default());
            for e in &es {
                stat("applied");
                let p = pay(e);
                let old = w(|w| w.applied.get(&e.log_id.index).cloned());
                match old {
                    Some((l, q, _)) => if l != e.log_id || q != p { err(&["C05", "C07", "C09", "C02", "C03", "C04", "C11", "C12"], format!("n{me} applies {} with {p}, where {l} with {q} was applied", e.log_id)); }
                    None => {
                        let have = w(|w| holders(w, &e.log_id));
                        let ok = w(|w| w.mems.values().any(|m| quorum_of(m, &have)));
                        // the first entry is committed before any vote
                        if !ok { err(&["C05", "C12", "C09"], format!("n{me} applies {}, which is durable only on {have:?}", e.log_id)); }
                        w(|w| w.applied.insert(e.log_id.index, (e.log_id, p, v)));
                    }
                }
            }
        }
        Note::Install(m) => {
            stat("installed");
            tr(|| format!("n{me} installs {:?}", m.last_log_id));
            if let Some(l) = m.last_log_id { if let Some(a) = w(|w| w.applied.get(&l.index).map(|x| x.0)) { if a != l { err(&["C11"], format!("n{me} installs a snapshot upto {l}, where {a} was applied")); } } }
            let done: Vec<Ent> = s.with(|s| s.sm.done.clone());
            if done.len() as u64 != m.last_log_id.map(|x| x.index + 1).unwrap_or(0) { err(&["C11", "C22"], format!("n{me} installs a snapshot upto {:?} with {} entries", m.last_log_id, done.len())); }
        }
    }
}
#[derive(Debug)]
struct Lost(&'static str);
impl std::fmt::Display for Lost { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for Lost {}
fn delay() -> Duration {
    let slow = w(|w| w.slow);
    Duration::from_micros(if rnd(20) == 0 { rnd(slow * 10_000 + 1) } else { rnd(slow * 1000 + 1) })
}
fn cut(a: u64, b: u64) -> bool { w(|w| w.cut.contains(&(a, b))) }
fn lost() -> bool { let l = w(|w| w.loss); rnd(100) < l }
fn raft_of(n: u64) -> Option<Raft<Cfg>> { w(|w| w.up.get(&n).map(|x| x.1.clone())) }
/// Carry a request to a node and its answer back; either may be late or lost.  Once sent, it arrives even if the sender gives up.
async fn carry<R: Send + 'static, F: Future<Output = R> + Send + 'static>(from: u64, to: u64, call: impl FnOnce(Raft<Cfg>) -> F + Send + 'static) -> Result<R, Lost> {
    let h = spawn_in(0, async move {
        nap(delay()).await;
        if lost() { nap(delay()).await; return Err(Lost("request lost")); }
        if cut(from, to) { return Err(Lost("unreachable")); }
        let Some(r) = raft_of(to) else { return Err(Lost("down")) };
        let x = call(r).await;
        if lost() { nap(delay()).await; return Err(Lost("answer lost")); }
        if cut(to, from) { nap(delay()).await; return Err(Lost("answer unreachable")); }
        nap(delay()).await;
        Ok(x)
    });
    h.await.unwrap_or(Err(Lost("gone")))
}
fn rpc<E: std::error::Error>(e: Lost) -> RPCError<Cfg, E> { if e.0 == "unreachable" || e.0 == "down" { RPCError::Unreachable(Unreachable::new(&e)) } else { RPCError::Network(NetworkError::new(&e)) } }
async fn at_append(to: u64, r: Raft<Cfg>, q: AppendEntriesRequest<Cfg>) -> Result<AppendEntriesResponse<Cfg>, RaftError<Cfg>> {
    let t = now();
    let ids: Vec<L> = q.entries.iter().map(|e| e.log_id).collect();
    let (vote, prev) = (q.vote, q.prev_log_id);
    let x = r.append_entries(q).await;
    tr(|| format!("n{to} answers append {prev:?} +{ids:?} of {vote}: {:?}", x.as_ref().map(|y| format!("{y}"))));
    if let Ok(AppendEntriesResponse::Success) = &x {
        stat("appended");
        let s = w(|w| w.stores[&to].clone());
        for l in ids.iter().chain(prev.iter()) {
            if !s.with(|s| s.ever.contains(l) || s.sm.last.map(|x| x.index) >= Some(l.index)) { err(&["C12", "C07"], format!("n{to} accepts entries {ids:?} after {prev:?}, and {l} is not flushed")); }
        }
        if !s.with(|s| s.vote >= Some(vote)) { err(&["C12", "C01"], format!("n{to} accepts entries of {vote}, and has saved {:?}", s.with(|s| s.vote))); }
        w(|w| { let n = now(); let e = w.touched.entry(to).or_insert((0, 0, vote)); if t >= e.0 { *e = (t, n, vote); } });
    }
    x
}
async fn at_vote(to: u64, r: Raft<Cfg>, q: VoteRequest<Cfg>) -> Result<VoteResponse<Cfg>, RaftError<Cfg>> {
    let vote = q.vote;
    let t = now();
    let touched = w(|w| w.touched.get(&to).cloned());
    let x = r.vote(q).await;
    tr(|| format!("n{to} answers {vote}: {:?}", x.as_ref().map(|y| format!("{y}"))));
    if let Ok(a) = &x {
        if a.vote_granted {
            stat("granted");
            let s = w(|w| w.stores[&to].clone());
            if !s.with(|s| s.votes.contains(&(vote.leader_id.term, vote.leader_id.node_id, vote.committed))) { err(&["C12", "C02"], format!("n{to} grants {vote}, and has saved {:?}", s.with(|s| s.vote))); }
            if let Some((at, seen, v)) = touched {
                let lease = w(|w| if w.transfers { 0 } else { w.lease });
                if seen < t && now() - at < lease * 1_000_000 && v.leader_id < vote.leader_id { err(&["C02", "C15", "C21"], format!("n{to} grants {vote} {}us after it heard of leader {v}", (now() - at) / 1000)); }
            }
        }
    }
    x
}
pub struct Net(u64);
pub struct Conn { me: u64, to: u64 }
pub struct Conn1 { me: u64, to: u64 }
impl crate::network::RaftNetworkFactory<Cfg> for Net {
    type Network = Conn;
    async fn new_client(&mut self, target: u64, _: &u64) -> Conn { Conn { me: self.0, to: target } }
}
impl RaftNetworkV2<Cfg> for Conn {
    async fn append_entries(&mut self, mut q: AppendEntriesRequest<Cfg>, _: RPCOption) -> Result<AppendEntriesResponse<Cfg>, RPCError<Cfg>> {
        let (me, to) = (self.me, self.to);
        stat("append");
        let mut part = None;
        if q.entries.len() > 1 && rnd(40) == 0 { return Err(RPCError::PayloadTooLarge(PayloadTooLarge::new_entries_hint(1 + rnd(q.entries.len() as u64 - 1)))); }
        if q.entries.len() > 1 && rnd(30) == 0 { let k = 1 + rnd(q.entries.len() as u64 - 1) as usize; q.entries.truncate(k); part = Some(q.entries[k - 1].log_id); }
        if w(|w| w.dup) > rnd(100) {
            let q = q.clone();
            let d = delay() * 5;
            spawn_in(0, async move { nap(d).await; let _ = carry(me, to, move |r| at_append(to, r, q)).await; });
        }
        let x = carry(me, to, move |r| at_append(to, r, q)).await.map_err(rpc)?;
        match x {
            Ok(AppendEntriesResponse::Success) if part.is_some() => Ok(AppendEntriesResponse::PartialSuccess(part)),
            Ok(x) => Ok(x),
            Err(_) => Err(RPCError::Unreachable(Unreachable::new(&Lost("stopped")))),
        }
    }
    async fn vote(&mut self, q: VoteRequest<Cfg>, _: RPCOption) -> Result<VoteResponse<Cfg>, RPCError<Cfg>> {
        let (me, to) = (self.me, self.to);
        if w(|w| w.dup) > rnd(100) {
            let q = q.clone();
            let d = delay() * 5;
            spawn_in(0, async move { nap(d).await; let _ = carry(me, to, move |r| at_vote(to, r, q)).await; });
        }
        carry(me, to, move |r| at_vote(to, r, q)).await.map_err(rpc)?.map_err(|_| RPCError::Unreachable(Unreachable::new(&Lost("stopped"))))
    }
    async fn full_snapshot(&mut self, vote: V, snapshot: Snapshot<Cfg>, cancel: impl Future<Output = ReplicationClosed> + crate::OptionalSend + 'static, option: RPCOption) -> Result<SnapshotResponse<Cfg>, StreamingError<Cfg>> {
        let (me, to) = (self.me, self.to);
        stat("snapshots");
        if w(|w| w.chunked) {
            let mut c = Conn1 { me, to };
            return Chunked::send_snapshot(&mut c, vote, snapshot, cancel, option).await.decompose_infallible();
        }
        let f = carry(me, to, move |r| async move { r.install_full_snapshot(vote, snapshot).await });
        match <SimRuntime as crate::AsyncRuntime>::timeout(option.hard_ttl(), f).await {
            Err(_) => Err(StreamingError::Network(NetworkError::new(&Lost("timeout")))),
            Ok(Err(e)) => Err(StreamingError::Unreachable(Unreachable::new(&e))),
            Ok(Ok(Err(_))) => Err(StreamingError::Unreachable(Unreachable::new(&Lost("stopped")))),
            Ok(Ok(Ok(x))) => Ok(x),
        }
    }
    async fn transfer_leader(&mut self, q: TransferLeaderRequest<Cfg>, _: RPCOption) -> Result<(), RPCError<Cfg>> {
        let to = self.to;
        let _ = carry(self.me, to, move |r| async move { r.handle_transfer_leader(q).await }).await.map_err(rpc)?;
        Ok(())
    }
    fn backoff(&self) -> Backoff { Backoff::new(std::iter::repeat(ms(100))) }
}
impl crate::network::RaftNetwork<Cfg> for Conn1 {
    async fn append_entries(&mut self, _: AppendEntriesRequest<Cfg>, _: RPCOption) -> Result<AppendEntriesResponse<Cfg>, RPCError<Cfg, RaftError<Cfg>>> { unreachable!() }
    async fn vote(&mut self, _: VoteRequest<Cfg>, _: RPCOption) -> Result<VoteResponse<Cfg>, RPCError<Cfg, RaftError<Cfg>>> { unreachable!() }
    async fn install_snapshot(&mut self, q: InstallSnapshotRequest<Cfg>, _: RPCOption) -> Result<InstallSnapshotResponse<Cfg>, RPCError<Cfg, RaftError<Cfg, InstallSnapshotError>>> {
        // a chunk given up does not arrive later: the receiver drops the connection with the sender
        let (from, to) = (self.me, self.to);
        stat("chunks");
        nap(delay()).await;
        if lost() { return Err(rpc(Lost("request lost"))); }
        if cut(from, to) { return Err(rpc(Lost("unreachable"))); }
        let Some(r) = raft_of(to) else { return Err(rpc(Lost("down"))) };
        let x = r.install_snapshot(q).await.map_err(|e| RPCError::RemoteError(RemoteError::new(to, e)));
        if lost() || cut(to, from) { return Err(rpc(Lost("answer lost"))); }
        nap(delay()).await;
        x
    }
}
fn config(rng: &mut Rng) -> Config {
    Config {
        cluster_name: "sim".into(),
        heartbeat_interval: 50,
        election_timeout_min: 150,
        election_timeout_max: 300,
        install_snapshot_timeout: 150,
        send_snapshot_timeout: 0,
        max_payload_entries: *rng.pick(&[1, 2, 5, 300]),
        replication_lag_threshold: *rng.pick(&[1, 5, 20, 1000]),
        snapshot_policy: if rng.chance(1, 5) { SnapshotPolicy::Never } else { SnapshotPolicy::LogsSinceLast(*rng.pick(&[3, 10, 25])) },
        snapshot_max_chunk_size: *rng.pick(&[7, 16, 64, 4096]),
        max_in_snapshot_log_to_keep: *rng.pick(&[0, 1, 5, 100]),
        purge_batch_size: *rng.pick(&[1, 1, 3, 8]),
        ..Default::default()
    }
}
async fn boot(n: u64, cfg: Arc<Config>) {
    if !w(|w| !w.up.contains_key(&n) && w.booting.insert(n)) { return; }
    let (g, s) = w(|w| { w.groups += 1; (w.groups, w.stores[&n].clone()) });
    tr(|| format!("n{n} starts"));
    let c = s.clone();
    let h = spawn_in(g, async move { Raft::<Cfg>::new(n, cfg, Net(n), c.clone(), SmStore(c)).await });
    match h.await {
        Ok(Ok(r)) => w(|w| { w.up.insert(n, (g, r)); }),
        Ok(Err(e)) => err(&["C20"], format!("n{n} does not start: {e}")),
        Err(e) => err(&["C20"], format!("n{n} does not start: {e}")),
    }
    w(|w| w.booting.remove(&n));
    stat("starts");
}
fn crash(n: u64, volatile: bool) {
    let Some((g, r)) = w(|w| w.up.remove(&n)) else { return };
    tr(|| format!("n{n} crashes"));
    kill(g);
    drop(r);
    let s = w(|w| { w.touched.remove(&n); w.stores[&n].clone() });
    let k = rnd(4);
    s.with(|s| {
        // A node that is all of its cluster goes on leading when it is back.  What it had sent to a node that it was adding, and lost itself, it would
        // replace then (see DESIGN.md); it loses nothing here.
        let lone = |m: &Membership<Cfg>| m.nodes().count() <= 1;
        let alone = s.log.values().filter_map(|e| e.get_membership()).any(lone) || lone(s.sm.mem.membership()) || s.durable.values().filter_map(|e| e.get_membership()).any(lone);
        // (a known finding: see `run`)
        let k = if alone && std::env::var("SIM_SOLE").is_err() { 1000 } else { k };
        s.crash(k);
        if volatile {
            s.sm = match &s.snap { Some((m, b)) => { let id = u64::from_le_bytes(b[..8].try_into().unwrap()); let x = s.reg.lock().unwrap().get(&id).cloned(); x.unwrap_or_default() } None => Machine::default() };
        }
    });
}
type CwErr = RaftError<Cfg, ClientWriteError<Cfg>>;
async fn with_time<T>(t: u64, f: impl Future<Output = T> + Send) -> Option<T> { <SimRuntime as crate::AsyncRuntime>::timeout(ms(t), f).await.ok() }
async fn write(n: u64, d: u64) -> Result<L, Option<u64>> {
    let Some(r) = raft_of(n) else { return Err(None) };
    match with_time(1500, r.client_write(d)).await {
        Some(Ok(x)) => {
            stat("writes");
            tr(|| format!("write {d} answered {}", x.log_id));
            if x.data != d + 1_000_000 { err(&["C09", "C17"], format!("the write of {d} at {} is answered with {}", x.log_id, x.data)); }
            let a = w(|w| w.applied.get(&x.log_id.index).cloned());
            if a.as_ref().map(|a| (a.0, a.1.clone())) != Some((x.log_id, format!("{d}"))) { err(&["C09", "C05", "C17"], format!("the write of {d} is answered with {}, where {:?} is applied", x.log_id, a.map(|a| (a.0, a.1)))); }
            w(|w| { w.acked.push((x.log_id, d)); w.acked_upto = w.acked_upto.max(Some(x.log_id.index)); });
            Ok(x.log_id)
        }
        Some(Err(RaftError::APIError(ClientWriteError::ForwardToLeader(f)))) => Err(f.leader_id),
        _ => Err(None),
    }
}
async fn client(k: u64, nodes: u64, ops: u64) {
    let mut at = 1 + rnd(nodes);
    for i in 0..ops {
        nap(Duration::from_micros(rnd(60_000))).await;
        let d = (k << 32) + i;
        // a read makes a leader that has given up its lease for another to take over look alive
        if w(|w| w.quiet) { return; }
        match rnd(16) {
            0..=10 => match write(at, d).await { Ok(_) => {} Err(Some(l)) => at = l, Err(None) => at = 1 + rnd(nodes) },
            11..=12 => {
                let Some(r) = raft_of(at) else { continue };
                let before = w(|w| w.acked_upto);
                let x = with_time(1500, r.ensure_linearizable()).await;
                if let Some(Ok(l)) = x {
                    stat("reads");
                    let s = w(|w| w.stores[&at].clone());
                    let have = s.with(|s| s.sm.last.map(|x| x.index));
                    if have < before || l.map(|x| x.index) < before { err(&["C14"], format!("n{at} may read, upto {l:?}, with {have:?} applied, and {before:?} was answered before")); }
                }
            }
            13 => {
                let Some(r) = raft_of(at) else { continue };
                let new = 1 + rnd(nodes);
                let x = with_time(1500, r.add_learner(new, 100 + new, rnd(2) == 0)).await;
                if let Some(Ok(_)) = x { stat("learners"); }
            }
            14 => {
                let Some(r) = raft_of(at) else { continue };
                let mut m: BTreeSet<u64> = (1..=nodes).filter(|_| rnd(3) > 0).collect();
                if m.is_empty() { m.insert(1); }
                let retain = rnd(2) == 0;
                tr(|| format!("change to {m:?} at n{at}"));
                let alone = w(|w| { w.changing += 1; w.changes += 1; if w.changing == 1 && w.gave_up == 0 { Some(w.changes) } else { None } });
                let x = match rnd(4) {
                    0 => with_time(2500, r.change_membership(ChangeMembers::AddVoterIds(m.clone()), retain)).await,
                    1 if m.len() < nodes as usize / 2 => with_time(2500, r.change_membership(ChangeMembers::RemoveVoters(m.clone()), retain)).await,
                    _ => with_time(2500, r.change_membership(m.clone(), retain)).await,
                };
                // what was given up may still be carried out
                let alone = w(|w| { w.changing -= 1; if x.is_none() { w.gave_up += 1; } alone == Some(w.changes) });
                if let Some(Ok(x)) = x {
                    stat("changes");
                    if alone { stat("changes alone"); }
                    tr(|| format!("changed to {m:?}: {:?}", x.membership));
                    if alone && x.membership.as_ref().map(|m| m.get_joint_config().len()) != Some(1) { err(&["C06"], format!("a membership change ends in {:?}", x.membership)); }
                }
            }
            _ => {
                let Some(r) = raft_of(at) else { continue };
                let m = r.metrics().borrow_watched().clone();
                check_metrics(&m);
                at = m.current_leader.unwrap_or(1 + rnd(nodes));
            }
        }
    }
}
fn check_metrics(m: &crate::RaftMetrics<Cfg>) {
    let me = m.id;
    let v = m.vote;
    // the vote reported is the one on disk, which may be behind
    if m.state.is_leader() && !(m.current_leader.is_none() || m.current_leader == Some(me)) { err(&["C18", "C14"], format!("n{me} reports itself leader, and {:?} as its leader", m.current_leader)); }
    if m.state.is_leader() && v.leader_id.node_id == me && !v.committed && m.current_leader.is_none() && m.membership_config.membership().get_joint_config().iter().any(|c| c.contains(&me)) { err(&["C18"], format!("n{me} reports itself leader with {v}, and no leader")); }
    if let Err(e) = &m.running_state { err(&["C07", "C09", "C11", "C12", "C20", "C32"], format!("n{me} stopped: {e}")); }
}
struct Plan { nodes: u64, voters: u64, cfg: Arc<Config>, time: u64, wild: u64, volatile: bool, shake: bool }
async fn nemesis(p: Arc<Plan>) {
    let end = now() + p.time * 1_000_000;
    while now() < end {
        nap(Duration::from_micros(rnd(p.wild * 1000) + 1000)).await;
        let n = 1 + rnd(p.nodes);
        match rnd(14) {
            0..=2 => {
                if raft_of(n).is_some() {
                    crash(n, p.volatile);
                    let cfg = p.cfg.clone();
                    let down = rnd(1500);
                    spawn_in(0, async move { nap(ms(down)).await; if w(|w| !w.up.contains_key(&n)) { boot(n, cfg).await; } });
                }
            }
            3 | 4 => w(|w| { let nodes = p.nodes; let side: BTreeSet<u64> = (1..=nodes).filter(|_| rnd(2) == 0).collect(); let one = rnd(4) == 0; w.cut.clear(); for a in 1..=nodes { for b in 1..=nodes { if side.contains(&a) != side.contains(&b) && !(one && side.contains(&a)) { w.cut.insert((a, b)); } } } }),
            5 => { let l = rnd(40); w(|w| w.loss = l) }
            6 => { let l = *[1, 3, 10, 40].get(rnd(4) as usize).unwrap(); w(|w| w.slow = l) }
            7 | 8 => w(|w| { w.cut.clear(); w.loss = 0; w.slow = 2; }),
            9 => { if let Some(r) = raft_of(n) { let _ = r.trigger().snapshot().await; } }
            10 => { if let Some(r) = raft_of(n) { let i = w(|w| w.applied.len() as u64); let _ = r.trigger().purge_log(rnd(i + 1)).await; } }
            11 if p.shake => { if let Some(r) = raft_of(n) { let _ = r.trigger().elect().await; } }
            12 if p.shake => { if let Some(r) = raft_of(n) { let l = r.metrics().borrow_watched().current_leader; if let Some(r) = l.and_then(raft_of) { let _ = r.trigger().transfer_leader(n).await; } } }
            13 => { if let Some(r) = raft_of(n) { let _ = r.trigger().heartbeat().await; } }
            _ => {}
        }
        let all: Vec<Raft<Cfg>> = w(|w| w.up.values().map(|x| x.1.clone()).collect());
        for r in all { check_metrics(&r.metrics().borrow_watched()); }
    }
}
async fn drive(p: Arc<Plan>, done: Arc<std::sync::atomic::AtomicBool>) {
    for n in 1..=p.nodes { boot(n, p.cfg.clone()).await; }
    let first: BTreeMap<u64, u64> = (1..=p.voters).map(|n| (n, 100 + n)).collect();
    let r = raft_of(1).unwrap();
    if let Err(e) = r.initialize(first).await { err(&["C19"], format!("cannot initialize: {e}")); }
    drop(r);
    nap(ms(rnd(300))).await;
    let nem = spawn_in(0, nemesis(p.clone()));
    let cl: Vec<_> = (1..=3).map(|k| spawn_in(0, client(k, p.nodes, 1_000_000))).collect();
    let _ = nem.await;
    // faults cease
    w(|w| { w.cut.clear(); w.loss = 0; w.slow = 2; w.dup = 0; w.diskfail = 0; });
    for n in 1..=p.nodes { if raft_of(n).is_none() { boot(n, p.cfg.clone()).await; } }
    w(|w| w.quiet = true);
    nap(ms(4000)).await;
    drop(cl);
    let mut ok = None;
    let mut at = 1;
    for i in 0..200 {
        nap(ms(50)).await;
        match write(at, (9 << 32) + i).await { Ok(l) => { ok = Some(l); break } Err(Some(l)) => at = l, Err(None) => at = 1 + rnd(p.nodes) }
    }
    // A node that has appended, and not committed, its own removal does not stand for election; a candidate with a shorter log may need its vote
    // (see DESIGN.md): no write can be answered then.
    if ok.is_none() {
        let ms: Vec<_> = w(|w| w.up.values().map(|x| x.1.metrics().borrow_watched().clone()).collect());
        let voter = |m: &crate::RaftMetrics<Cfg>| m.membership_config.membership().get_joint_config().iter().any(|c| c.contains(&m.id));
        let best = ms.iter().filter(|m| voter(m)).map(|m| m.last_log_index).max();
        let top = ms.iter().map(|m| m.current_term).max();
        if !ms.iter().any(|m| m.state.is_leader() && Some(m.current_term) == top) && ms.iter().any(|m| !voter(m) && Some(m.last_log_index) > best) { stat("stuck by removal"); done.store(true, std::sync::atomic::Ordering::SeqCst); return; }
    }
    let Some(l) = ok else { err(&["C16", "C05", "C30"], format!("no write is answered, 15 seconds after all faults ceased: {:?}", w(|w| w.up.iter().map(|x| format!("{}", x.1.1.metrics().borrow_watched().clone())).collect::<Vec<_>>()))); done.store(true, std::sync::atomic::Ordering::SeqCst); return };
    tr(|| format!("final write at {l}"));
    let mut late = vec![];
    for _ in 0..200 {
        nap(ms(50)).await;
        let m = raft_of(at).map(|r| r.metrics().borrow_watched().clone());
        let Some(m) = m else { break };
        late = m.membership_config.membership().nodes().map(|x| *x.0).filter(|n| w(|w| w.stores[n].with(|s| s.sm.last.map(|x| x.index) < Some(l.index)))).collect();
        if late.is_empty() { break; }
    }
    if !late.is_empty() { err(&["C16", "C09", "C11"], format!("{late:?} did not apply {l}, 10 seconds after it was answered and after all faults ceased")); }
    let all: Vec<Raft<Cfg>> = w(|w| w.up.values().map(|x| x.1.clone()).collect());
    for r in all { check_metrics(&r.metrics().borrow_watched()); }
    for n in 1..=p.nodes {
        let Some(r) = raft_of(n) else { continue };
        let s = w(|w| w.stores[&n].clone());
        let x = r.with_raft_state(move |st| {
            use crate::raft_state::LogStateReader;
            let mut o = vec![];
            s.with(|s| {
                if !(Some(st.vote_ref().leader_id) >= s.vote.map(|v| v.leader_id)) { o.push((&["C01", "C12", "C20"][..], format!("has vote {}, and {:?} is saved", st.vote_ref(), s.vote))); }
                for (i, e) in &s.log { if st.get_log_id(*i).map(|x| x != e.log_id).unwrap_or(false) { o.push((&["C08", "C20"][..], format!("takes log {i} for {:?}, and it is {}", st.get_log_id(*i), e.log_id))); } }
                if st.committed() < s.sm.last.as_ref() { o.push((&["C09"][..], format!("has committed {:?} and applied {:?}", st.committed(), s.sm.last))); }
            });
            o
        }).await;
        if let Ok(v) = x { for (ids, t) in v { err(ids, format!("n{n} {t}")); } }
    }
    for (l, d) in w(|w| w.acked.clone()) {
        let a = w(|w| w.applied.get(&l.index).cloned());
        if a.as_ref().map(|a| (a.0, a.1.clone())) != Some((l, format!("{d}"))) { err(&["C05", "C07", "C12"], format!("the write of {d} was answered with {l}, and {a:?} is applied there")); }
    }
    done.store(true, std::sync::atomic::Ordering::SeqCst);
}
fn bad_ids(s: &str) -> &'static [&'static str] {
    if s.starts_with("vote") { &["C01", "C12"] } else if s.contains("with vote") || s.contains("no vote saved") { &["C12", "C01"] } else if s.contains("appended after") { &["C07", "C17", "C11", "C08"] }
    else if s.starts_with("committed") { &["C09"] } else if s.starts_with("truncate") { &["C07", "C09", "C11"] } else if s.starts_with("purge") { &["C10", "C11"] } else if s.contains("applied after") { &["C09", "C20", "C11"] }
    else if s.contains("content") { &["C22"] } else { &["C11"] }
}
pub struct Out { pub errs: Vec<(Vec<&'static str>, String)>, pub stat: BTreeMap<&'static str, u64>, pub what: String }
pub fn once(seed: u64, trace: bool) -> Out {
    let mut rng = Rng::new(seed ^ 0x5151);
    let cfg = config(&mut rng);
    let nodes = 3 + rng.below(3);
    let voters = *rng.pick(&[1, 3, 3, 3, 3]);
    let p = Plan { nodes, voters, time: 3000 + rng.below(4000), wild: *rng.pick(&[100, 300, 800]), volatile: rng.chance(1, 2), shake: rng.chance(1, 3), cfg: Arc::new(cfg.clone().validate().unwrap()) };
    let lag = *rng.pick(&[0, 2, 5]);
    let keep = rng.chance(1, 2);
    let what = format!("seed {seed} nodes {nodes} voters {voters} lag {lag} keep_committed {keep} volatile {} shake {} payload {} chunk {} keep {} purge batch {} policy {:?} lag threshold {}", p.volatile, p.shake, cfg.max_payload_entries, cfg.snapshot_max_chunk_size, cfg.max_in_snapshot_log_to_keep, cfg.purge_batch_size, cfg.snapshot_policy, cfg.replication_lag_threshold);
    sim::start(seed);
    let reg = Arc::new(std::sync::Mutex::new(BTreeMap::new()));
    w(|w| {
        *w = World { slow: *rng.pick(&[1, 2, 5]), dup: *rng.pick(&[0, 0, 5, 20]), diskfail: *rng.pick(&[0, 0, 3, 10]), pause: *rng.pick(&[0, 1, 5]), chunked: rng.chance(2, 3), lease: 300, transfers: p.shake, trace, ..Default::default() };
        for n in 1..=nodes {
            let s = Store::default();
            s.with(|s| { s.me = n; s.lag = lag; s.rng = seed + n; s.keep_committed = keep; s.reg = reg.clone(); s.pad = 40; });
            w.stores.insert(n, s);
        }
    });
    let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let d = done.clone();
    spawn_in(0, drive(Arc::new(p), done.clone()));
    let end = now() + 60_000_000_000;
    let r = sim::run_until(|| d.load(std::sync::atomic::Ordering::SeqCst) || w(|w| w.errs.len() >= 5), end, 6_000_000);
    if r != "done" { err(&["C16", "C30"], format!("the run ends {r}")); }
    let rafts: Vec<_> = w(|w| std::mem::take(&mut w.up).into_values().collect());
    drop(rafts);
    let s = sim::stop();
    let mut wd = w(|w| std::mem::take(w));
    *wd.stat.entry("polls").or_insert(0) += s.polls;
    let mut errs: Vec<(Vec<&'static str>, String)> = vec![];
    for (g, x) in s.panics { errs.push((vec!["C01", "C03", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C16", "C17", "C18", "C20", "C22"], format!("panic in group {g}: {x}"))); }
    for (n, st) in &wd.stores { for b in st.with(|s| s.bad.clone()) { errs.push((bad_ids(&b).to_vec(), format!("n{n}: {b}"))); } }
    errs.extend(wd.errs.into_iter().map(|(i, x)| (i.to_vec(), x)));
    Out { errs, stat: wd.stat, what }
}
/// One run, in a process of its own (so that it depends on nothing but its seed); prints what it found.
fn child(seed: u64, trace: bool) {
    let o = once(seed, trace);
    println!("WHAT {}", o.what);
    for (k, v) in &o.stat { println!("STAT {k} {v}"); }
    for (i, e) in &o.errs { println!("ERR {} {}", i.join(","), e.replace('\n', " ")); }
    println!("END");
}
pub fn run(cx: &mut Cx) {
    if let Ok(s) = std::env::var("SIM_ONE") {
        child(s.parse().unwrap(), std::env::var("SIM_TRACE").is_ok());
        std::process::exit(0);
    }
    let n = cx.scale(2400, 40_000);
    let (seed, threads) = (cx.seed, 8);
    let t0 = std::time::Instant::now();
    let cap = if cx.thorough { 500 } else { 60 };
    let exe = std::env::current_exe().unwrap();
    let hs: Vec<_> = (0..threads).map(|k| {
        let exe = exe.clone();
        std::thread::spawn(move || {
            let mut out = vec![];
            for i in (k..n).step_by(threads as usize) {
                if t0.elapsed().as_secs() > cap { break; }
                let s = seed.wrapping_mul(1_000_003) + i;
                let r = std::process::Command::new(&exe).args(["all", "1"]).env("SIM_ONE", s.to_string()).output();
                out.push((s, r.map(|r| (String::from_utf8_lossy(&r.stdout).to_string(), format!("{:?}", r.status))).unwrap_or_default()));
            }
            out
        })
    }).collect();
    let mut total: BTreeMap<String, u64> = BTreeMap::new();
    for h in hs {
        for (s, (o, st)) in h.join().unwrap_or_default() {
            let mut what = format!("seed {s}");
            let mut errs: Vec<String> = vec![];
            let mut end = false;
            for l in o.lines() {
                let mut f = l.splitn(3, ' ');
                match (f.next(), f.next(), f.next()) {
                    (Some("WHAT"), Some(a), Some(b)) => what = format!("{a} {b}"),
                    (Some("STAT"), Some(k), Some(v)) => *total.entry(k.into()).or_insert(0) += v.parse().unwrap_or(0),
                    (Some("ERR"), Some(i), Some(e)) => { let ids: Vec<&str> = i.split(',').collect(); if cx.wants(&ids) { errs.push(format!("{e} [SIM_ONE={s}]")); } }
                    (Some("END"), ..) => end = true,
                    _ => {}
                }
            }
            if !end && !o.is_empty() { errs.push(format!("the process ended early: {st} [SIM_ONE={s}]")); }
            cx.case("cluster", || what.clone(), || match errs.first() { None => Ok(()), Some(e) => Err(e.clone()) });
        }
    }
    // The known finding: a node that is the only one goes on leading when it restarts, with logs it had sent to a node
    // being added, and lost
    if cx.wants(&["C20"]) {
        const SOLE: u64 = 1297;
        let r = std::process::Command::new(&exe).args(["all", "1"]).env("SIM_ONE", SOLE.to_string()).env("SIM_SOLE", "1").output();
        let o = r.map(|r| String::from_utf8_lossy(&r.stdout).to_string()).unwrap_or_default();
        let e = o.lines().find(|l| l.starts_with("ERR ") && l.contains("which elsewhere has")).map(|l| l.to_string());
        cx.case("a sole leader that restarts", || format!("seed {SOLE} with SIM_SOLE"), || match e { None => Ok(()), Some(e) => Err(e) });
    }
    println!("# cluster: {total:?} in {:.1} s", t0.elapsed().as_secs_f64());
}
