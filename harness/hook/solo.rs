// Executable contracts of the engine: one real Engine against an abstract rest of the cluster.
//
// The rest of the world is a consistent raft history: leaders whose logs all contain what is committed so far.  Every
// operation on the engine is compared with what its contract says, from the state before it: the log (as the commands
// pushed build it, and as the log-id map answers), vote, commit, membership, purge and snapshot positions, the commands.
use std::collections::VecDeque;
use std::ops::Deref;
use crate::core::sm;
use crate::engine::Command;
use crate::engine::Condition;
use crate::engine::handler::leader_handler::LeaderHandler;
use crate::entry::RaftEntry;
use crate::entry::RaftPayload;
use crate::progress::Inflight;
use crate::progress::Progress;
use crate::raft::AppendEntriesResponse;
use crate::raft::SnapshotResponse;
use crate::raft::VoteRequest;
use crate::raft::VoteResponse;
use crate::raft_state::IOId;
use crate::raft_state::LogStateReader;
use crate::raft_state::RaftState;
use crate::raft_state::VoteStateReader;
use crate::replication::request::Data;
use crate::replication::request::Replicate;
use crate::replication::response::ReplicationResult;
use crate::storage::Snapshot;
use crate::storage::SnapshotMeta;
use crate::type_config::TypeConfigExt;
use crate::ChangeMembers;
use crate::EntryPayload;
use crate::Membership;
use crate::ServerState;
use crate::SnapshotPolicy;
use crate::StoredMembership;

type L = LogId<u64>;
type Ent = crate::Entry<Cfg>;
type Res = Result<(), String>;
type Rx<T> = <<crate::TokioRuntime as crate::AsyncRuntime>::Oneshot as crate::async_runtime::Oneshot>::Receiver<T>;

fn ids(v: &[Ent]) -> String { v.iter().map(|e| format!("{}-{}.{}{}", e.log_id.leader_id.term, e.log_id.leader_id.node_id, e.log_id.index, if e.get_membership().is_some() { "m" } else { "" })).collect::<Vec<_>>().join(" ") }

/// a log with everything ever in it; `pn` entries of it are purged
#[derive(Clone, Debug, Default)]
struct Sh { v: Vec<Ent>, pn: usize }
impl Sh {
    fn last(&self) -> Option<L> { self.v.last().map(|e| e.log_id) }
    fn id(&self, i: u64) -> Option<L> { self.v.get(i as usize).map(|e| e.log_id) }
    /// what the log-id map is to answer: the retained entries and the last purged one
    fn answer(&self, i: u64) -> Option<L> { if (i as usize) + 1 < self.pn { None } else { self.id(i) } }
    fn last_mem(&self, upto: usize) -> Option<StoredMembership<Cfg>> {
        self.v[..upto].iter().rev().find_map(|e| e.get_membership().map(|m| StoredMembership::new(Some(e.log_id), m.clone())))
    }
    fn show(&self) -> String { format!("[{}] purged {}", ids(&self.v), self.pn) }
}

#[derive(Clone, Debug)]
struct Ldr { vote: Vote<u64>, log: Vec<Ent>, commit: usize }

enum Wait {
    Append(Rx<Result<AppendEntriesResponse<Cfg>, crate::error::Infallible>>, Vote<u64>, Option<L>, Vec<L>),
    Snap(Rx<Result<SnapshotResponse<Cfg>, crate::error::Infallible>>, Vote<u64>, L),
}
#[derive(Clone, Debug)]
enum Sm { Build, Install(SnapshotMeta<Cfg>, IOId<Cfg>), Apply(u64, L) }
enum No { Io(IOId<Cfg>), SelfVote(Vote<u64>), Built(SnapshotMeta<Cfg>), Installed(IOId<Cfg>, SnapshotMeta<Cfg>), Applied(L) }
#[derive(Clone, Debug)]
struct Strm { inflight: Option<Data2>, matching: Option<L>, acked: Option<L> }
#[derive(Clone, Debug, PartialEq)]
enum Data2 { Logs(Option<L>, Option<L>), Snap(Option<L>) }

struct Solo {
    w: String,
    rng: Rng,
    me: u64,
    eng: Engine<Cfg>,
    plog: Sh,
    vlog: Sh,
    seen: usize,
    pend: VecDeque<(IOId<Cfg>, Vec<L>)>,
    durable: BTreeMap<u64, L>,
    saved_vote: Vote<u64>,
    io_done: Option<IOId<Cfg>>,
    smq: VecDeque<Sm>,
    applied: usize,
    snap: Option<SnapshotMeta<Cfg>>,
    notif: VecDeque<No>,
    waits: Vec<Wait>,
    truth: Vec<Ent>,
    ldrs: Vec<Ldr>,
    acc: Option<(Vote<u64>, Option<L>)>,
    streams: BTreeMap<u64, Strm>,
    wm: BTreeMap<u64, usize>,
    noop_at: Option<usize>,
    own: Vec<L>,
    trans: bool,
    done: bool,
    lease: bool,
    lease_on: bool,
    hist: VecDeque<String>,
    newcmds: Vec<String>,
    cur: String,
    n_ops: u64,
    rule: bool,
    stale: bool,
    stat: BTreeMap<String, u64>,
}

macro_rules! ck {
    ($s:expr, $ids:expr, $c:expr, $($f:tt)*) => { if $s.wants(&$ids) && !($c) { return Err(format!("{:?}: {}", $ids, format!($($f)*))); } };
}

fn quorum(m: &Membership<Cfg>, set: &dyn Fn(u64) -> bool) -> bool {
    m.get_joint_config().iter().all(|c| c.iter().filter(|x| set(**x)).count() * 2 > c.len())
}
fn mem_entry(m: Membership<Cfg>) -> Ent { Ent::new_membership(L::default(), m) }
fn no_lid(id: Option<L>) -> u64 { id.map(|x| x.index + 1).unwrap_or(0) }

fn tick_clock() { let t = std::time::Instant::now(); while std::time::Instant::now() <= t {} }

impl Solo {
    fn wants(&self, ids: &[&str]) -> bool { self.w == "all" || ids.contains(&self.w.as_str()) }
    fn pick(&mut self, n: u64) -> u64 { self.rng.below(n) }

    fn new(w: &str, seed: u64) -> Solo {
        let mut rng = Rng::new(seed);
        let me = 1;
        let mut eng = Engine::<Cfg>::new(RaftState::default(), EngineConfig::new_default(me));
        let lease = rng.chance(1, 4);
        let rule = rng.chance(1, 2);
        eng.config.snapshot_policy = if rng.chance(1, 4) { SnapshotPolicy::Never } else { SnapshotPolicy::LogsSinceLast(2 + rng.below(6)) };
        eng.config.max_in_snapshot_log_to_keep = rng.below(4);
        eng.config.purge_batch_size = 1 + rng.below(3);
        eng.config.max_payload_entries = 1 + rng.below(4);
        eng.config.timer_config.leader_lease = if lease { Duration::from_secs(3600) } else { Duration::from_millis(0) };
        let mut voters = BTreeSet::from([me]);
        for x in 2..=5 { if rng.chance(1, 2) { voters.insert(x); } }
        if rng.chance(1, 6) { voters.remove(&me); }
        if voters.is_empty() { voters.insert(2); }
        let nodes: BTreeMap<u64, u64> = (1..=6).filter(|x| voters.contains(x) || *x == me || rng.next() % (x + 2) == 0).map(|x| (x, 100 + x)).collect();
        let mut e0 = mem_entry(Membership::new(vec![voters], nodes));
        e0.log_id = L::default();
        let mut s = Solo {
            w: w.to_string(), rng, me, eng, plog: Sh::default(), vlog: Sh::default(), seen: 0, pend: VecDeque::new(), durable: BTreeMap::new(),
            saved_vote: Vote::default(), io_done: None, smq: VecDeque::new(), applied: 0, snap: None, notif: VecDeque::new(), waits: vec![],
            truth: vec![e0.clone()], ldrs: vec![], acc: None, streams: BTreeMap::new(), wm: BTreeMap::new(), noop_at: None, own: vec![], trans: false, done: false,
            lease, lease_on: false, hist: VecDeque::new(), newcmds: vec![], cur: String::new(), n_ops: 0, rule, stale: false, stat: BTreeMap::new(),
        };
        s.ldrs.push(Ldr { vote: Vote::new_committed(1, 2), log: vec![e0], commit: 1 });
        s.eng.startup();
        s
    }

    fn mem_of(log: &[Ent], upto: usize) -> (Option<usize>, Membership<Cfg>) {
        for i in (0..upto.min(log.len())).rev() { if let Some(m) = log[i].get_membership() { return (Some(i), m.clone()); } }
        (None, Membership::default())
    }

    // ---- the world ----
    /// what might already be committed: what the real leader's acknowledgements could commit
    fn must_have(&self) -> Vec<Ent> {
        let mut n = self.truth.len();
        let mut src = &self.truth;
        if self.eng.leader.is_some() {
            let v = &self.plog.v;
            for i in n..v.len() {
                let cnt = i + 1;
                let q = |m: &Membership<Cfg>| quorum(m, &|x| x == self.me || self.wm.get(&x).map_or(false, |c| *c >= cnt));
                let (ei, em) = Self::mem_of(v, v.len());
                let (_, pm) = Self::mem_of(v, ei.unwrap_or(0));
                if q(&em) || q(&pm) { n = cnt; src = v; }
            }
        }
        src[..n].to_vec()
    }
    fn max_vote(&self) -> Vote<u64> {
        let mut m = *self.eng.state.vote_ref();
        for l in &self.ldrs { if l.vote > m { m = l.vote; } }
        m
    }
    fn grow_leader(&mut self) {
        // the abstract leader with the greatest vote appends and commits
        let real = self.eng.leader.is_some() && self.ldrs.iter().all(|l| l.vote < *self.eng.leader.as_ref().unwrap().committed_vote);
        let r = self.pick(10);
        let stale = |l: &Ldr| l.log.len() < self.truth.len() || l.log.iter().zip(&self.truth).any(|(a, b)| a.log_id != b.log_id);
        let stale = stale(self.ldrs.iter().max_by_key(|l| (l.vote.leader_id().term, l.vote.leader_id().node_id)).unwrap());
        if r < 4 || real || stale {
            // nobody replaces a leader where a quorum needs its vote
            let ms = &self.eng.state.membership_state;
            if self.eng.leader.is_some() && [ms.effective(), ms.committed()].iter().any(|m| !quorum(m.membership(), &|x| x != self.me)) { return; }
            let must = self.must_have();
            let max = self.max_vote();
            // base: any leader's log, or the real log, that has all that may be committed
            let mut bases: Vec<Vec<Ent>> = self.ldrs.iter().map(|l| l.log.clone()).collect();
            bases.push(self.plog.v.clone());
            bases.retain(|b| b.len() >= must.len() && b[..must.len()].iter().zip(&must).all(|(x, y)| x.log_id == y.log_id));
            if bases.is_empty() { bases.push(must.clone()); }
            let b = self.rng.pick(&bases).clone();
            let n = must.len() as u64 + self.pick((b.len() - must.len()) as u64 + 1);
            let mut log = b[..n as usize].to_vec();
            let term = max.leader_id().term + self.pick(3);
            let node = 2 + self.pick(5);
            let vote = Vote::new_committed(term, node);
            if !(vote > max) || log.last().map_or(false, |e| e.log_id.leader_id >= CommittedLeaderId::new(term, node)) { return; }
            let mut e = Ent::new_blank(L::default());
            e.log_id = lid(term, node, log.len() as u64);
            log.push(e);
            let commit = self.truth.len();
            self.ldrs.push(Ldr { vote, log, commit });
            if self.ldrs.len() > 5 { self.ldrs.remove(0); }
            return;
        }
        let commit_now = self.truth.len();
        let k = (0..self.ldrs.len()).max_by_key(|i| (self.ldrs[*i].vote.leader_id().term, self.ldrs[*i].vote.leader_id().node_id)).unwrap();
        if r < 8 {
            for _ in 0..1 + self.pick(4) {
                let (mi, m) = Self::mem_of(&self.ldrs[k].log, self.ldrs[k].log.len());
                let v = self.ldrs[k].vote;
                let mut e = if mi.map_or(true, |i| i < commit_now) && self.rng.chance(1, 3) { mem_entry(self.next_mem(&m)) } else { Ent { log_id: L::default(), payload: EntryPayload::Normal(self.rng.below(100)) } };
                e.log_id = lid(v.leader_id().term, v.leader_id().node_id, self.ldrs[k].log.len() as u64);
                self.ldrs[k].log.push(e);
            }
        } else {
            // commit some entry of its own
            let l = &self.ldrs[k];
            let n = l.log.len() as u64;
            let c = commit_now as u64 + self.rng.below(n - commit_now as u64 + 1);
            if c as usize > commit_now {
                let e = &l.log[c as usize - 1];
                if e.log_id.leader_id == CommittedLeaderId::new(l.vote.leader_id().term, l.vote.leader_id().node_id) || l.log.len() == 1 {
                    let t = l.log[..c as usize].to_vec();
                    self.truth = t;
                    self.ldrs[k].commit = c as usize;
                }
            } else { self.ldrs[k].commit = commit_now; }
        }
    }
    fn next_mem(&mut self, m: &Membership<Cfg>) -> Membership<Cfg> {
        let mut voters: BTreeSet<u64> = m.voter_ids().collect();
        let cfgs = m.get_joint_config().clone();
        let mut nodes: BTreeMap<u64, u64> = m.nodes().map(|(a, b)| (*a, *b)).collect();
        if cfgs.len() > 1 { return Membership::new(vec![cfgs[1].clone()], nodes); }
        let x = 1 + self.pick(6);
        if self.rng.chance(1, 2) { voters.insert(x); } else if voters.len() > 1 { voters.remove(&x); }
        for v in &voters { nodes.entry(*v).or_insert(100 + *v); }
        if self.rng.chance(1, 2) { Membership::new(vec![cfgs.first().cloned().unwrap_or_default(), voters].into_iter().filter(|c| !c.is_empty()).collect(), nodes) } else { Membership::new(vec![voters], nodes) }
    }

    // ---- reading the commands pushed ----
    fn scan(&mut self) -> Result<Vec<String>, String> {
        let mut out = vec![];
        let vote = *self.eng.state.vote_ref();
        let cmds: Vec<&Command<Cfg>> = self.eng.output.iter_commands().skip(self.seen).collect();
        let n = cmds.len();
        let mut plog = self.plog.clone();
        let mut strm = self.streams.clone();
        let purged0 = plog.pn;
        let new_snap = cmds.iter().find_map(|c| match c { Command::StateMachine { command: sm::Command::InstallFullSnapshot { snapshot, .. } } => snapshot.meta.last_log_id.map(|x| x.index), _ => None });
        for c in cmds {
            out.push(format!("{}", c).split_whitespace().collect::<Vec<_>>().join(" "));
            match c {
                Command::AppendInputEntries { committed_vote, entries } => {
                    ck!(self, ["C07", "C17", "C12"], !entries.is_empty(), "an empty batch is written");
                    ck!(self, ["C07", "C17", "C08"], entries[0].log_id.index == plog.v.len() as u64, "entries written at {} do not follow the log {}", entries[0].log_id, plog.show());
                    for w in entries.windows(2) { ck!(self, ["C07", "C17"], w[0].log_id.index + 1 == w[1].log_id.index && w[0].log_id < w[1].log_id, "entries written are not consecutive: {}", ids(entries)); }
                    ck!(self, ["C07", "C17"], plog.last() < Some(entries[0].log_id), "the entry written {} is not after {:?}", entries[0].log_id, plog.last());
                    let _ = committed_vote;
                    plog.v.extend(entries.iter().cloned());
                }
                Command::TruncateLog { since } => {
                    ck!(self, ["C07", "C11", "C08"], plog.id(since.index) == Some(*since) && since.index as usize >= plog.pn, "truncate since {} which is not in the log {}", since, plog.show());
                    // logs a snapshot covers are replaced by it
                    let covered = new_snap.map_or(false, |x| x >= since.index);
                    ck!(self, ["C07", "C09", "C11"], covered || self.stale || since.index as usize >= self.truth.len().min(plog.v.len()) || plog.v[since.index as usize..].iter().zip(self.truth.iter().skip(since.index as usize)).next().map_or(true, |(a, b)| a.log_id != b.log_id), "committed entries are truncated since {}", since);
                    plog.v.truncate(since.index as usize);
                }
                Command::PurgeLog { upto } => {
                    ck!(self, ["C10"], Some(*upto) <= self.eng.state.snapshot_meta.last_log_id, "purge up to {} beyond the snapshot {:?}", upto, self.eng.state.snapshot_meta.last_log_id);
                    ck!(self, ["C10"], upto.index as usize + 1 > plog.pn, "purge up to {} again: {} purged", upto, plog.pn);
                    // an entry being installed by a snapshot need not be in the log
                    if let Some(x) = plog.id(upto.index) { ck!(self, ["C10", "C11"], x == *upto || self.eng.state.snapshot_meta.last_log_id == Some(*upto), "purge up to {} but the log has {}", upto, x); }
                    if self.eng.leader.is_some() { for (k, st) in &strm {
                        if let Some(Data2::Logs(p, l)) = &st.inflight { ck!(self, ["C10", "C16"], no_lid(*p) > upto.index || p >= l, "purge up to {} while ({:?},{:?}] is being sent to {}", upto, p, l, k); }
                    } }
                    let n = upto.index as usize + 1;
                    if n > plog.v.len() || plog.v[n - 1].log_id != *upto {
                        // only after a snapshot beyond the log: the log is the snapshot
                        ck!(self, ["C10", "C11"], self.truth.get(n - 1).map(|e| e.log_id) == Some(*upto), "purge up to {} which is not committed", upto);
                        plog.v = self.truth[..n].to_vec();
                    }
                    plog.pn = n;
                }
                Command::SaveVote { vote: v } => { ck!(self, ["C01", "C12"], *v == vote, "vote {} saved while the vote is {}", v, vote); }
                Command::SaveCommitted { committed } => { ck!(self, ["C09"], Some(*committed) == self.eng.state.committed, "saved {} as committed, state has {:?}", committed, self.eng.state.committed); }
                Command::Apply { already_committed, upto } => { ck!(self, ["C09"], Some(*upto) == self.eng.state.committed && *already_committed < Some(*upto), "apply ({:?},{}] while {:?} is committed", already_committed, upto, self.eng.state.committed); }
                Command::ReplicateCommitted { committed } => { ck!(self, ["C09", "C16"], *committed == self.eng.state.committed, "replicate committed {:?}", committed); }
                Command::BroadcastHeartbeat { session_id, committed } => {
                    ck!(self, ["C09", "C16"], *committed <= self.eng.state.committed, "heartbeat with committed {:?}", committed);
                    ck!(self, ["C16", "C15"], self.eng.leader.as_ref().map(|l| l.committed_vote) == Some(session_id.leader_vote) && session_id.membership_log_id == *self.eng.state.membership_state.effective().log_id(), "heartbeat of another session {}", session_id);
                }
                Command::RebuildReplicationStreams { targets } => {
                    strm.clear();
                    for t in targets { strm.insert(t.0, Strm { inflight: None, matching: t.1.matching, acked: t.1.matching }); }
                    let want: BTreeSet<u64> = self.eng.state.membership_state.effective().membership().nodes().map(|x| *x.0).filter(|x| *x != self.me).collect();
                    ck!(self, ["C16"], targets.iter().map(|t| t.0).collect::<BTreeSet<_>>() == want && targets.len() == want.len(), "replication streams to {:?}, members are {:?}", targets.iter().map(|t| t.0).collect::<Vec<_>>(), want);
                }
                Command::Replicate { target, req } => {
                    ck!(self, ["C16"], strm.contains_key(target), "replicate to {} which has no stream", target);
                    if let (Replicate::Data(d), Some(st)) = (req, strm.get_mut(target)) {
                        ck!(self, ["C16", "C10"], st.inflight.is_none(), "second request in flight to {}: {:?} and {}", target, st.inflight, d);
                        match d {
                            Data::Logs(r) => {
                                let (a, b) = (no_lid(r.prev), no_lid(r.last));
                                ck!(self, ["C16"], a < b && b as usize <= plog.v.len() && b - a <= self.eng.config.max_payload_entries, "bad range {} to {} of {}", r, target, plog.show());
                                ck!(self, ["C16", "C10"], a as usize >= plog.pn && a as usize >= no_lid(self.eng.state.purge_upto) as usize, "range {} to {} starts in purged logs {}", r, target, plog.show());
                                ck!(self, ["C16"], r.last == plog.id(b - 1) && (a == 0 || r.prev == plog.id(a - 1)), "range {} to {} is not of the log {}", r, target, plog.show());
                                ck!(self, ["C16"], a >= no_lid(st.matching) || a as usize >= plog.pn, "range {} to {} starts before what matches {:?}", r, target, st.matching);
                                st.inflight = Some(Data2::Logs(r.prev, r.last));
                            }
                            Data::Snapshot(l) => {
                                ck!(self, ["C16"], *l == self.eng.state.snapshot_meta.last_log_id && l.is_some(), "snapshot {:?} to {}, held {:?}", l, target, self.eng.state.snapshot_meta.last_log_id);
                                st.inflight = Some(Data2::Snap(*l));
                            }
                            _ => {}
                        }
                    }
                }
                Command::StateMachine { command: sm::Command::InstallFullSnapshot { io_id, snapshot } } => {
                    let s = no_lid(snapshot.meta.last_log_id) as usize;
                    ck!(self, ["C12", "C11"], io_id.last_log_id() == snapshot.meta.last_log_id.as_ref(), "install {:?} counted as {:?}", snapshot.meta.last_log_id, io_id);
                    if plog.v.len() < s || plog.v[s - 1].log_id != snapshot.meta.last_log_id.unwrap() {
                        ck!(self, ["C11"], plog.last() < snapshot.meta.last_log_id, "conflicting log {} is left when {:?} is installed", plog.show(), snapshot.meta.last_log_id);
                        plog.v = self.truth[..s].to_vec();
                    }
                }
                _ => {}
            }
        }
        self.seen += n;
        ck!(self, ["C10"], plog.pn >= purged0, "purge goes back");
        self.plog = plog;
        self.streams = strm;
        Ok(out)
    }

    // ---- invariants after every operation ----
    fn invariants(&mut self, pre: &RaftState<Cfg>, what: &str) -> Res {
        let new = self.scan()?;
        if self.hist.len() > 14 { self.hist.pop_front(); }
        self.hist.push_back(format!("{what} => {}", new.join("; ")));
        for c in &new { let k = c.split(&[':', ' '][..]).next().unwrap().to_string(); *self.stat.entry(format!("cmd {k}")).or_insert(0) += 1; }
        let k: String = what.split_whitespace().take_while(|x| x.chars().all(|c| c.is_ascii_lowercase())).collect::<Vec<_>>().join(" ");
        *self.stat.entry(format!("op {k}")).or_insert(0) += 1;
        if self.eng.leader.is_some() && self.eng.state.committed > pre.committed { *self.stat.entry(format!("leader commits, {} voters", self.eng.state.membership_state.effective().voter_ids().count())).or_insert(0) += 1; }
        if self.eng.leader.is_some() && what.starts_with("vote answer") { *self.stat.entry(format!("elected, {} voters", self.eng.state.membership_state.effective().voter_ids().count())).or_insert(0) += 1; }
        self.newcmds = new;
        let st: &RaftState<Cfg> = &self.eng.state;
        // C01
        let (v0, v1) = (*pre.vote_ref(), *st.vote_ref());
        ck!(self, ["C01"], v1 >= v0, "the vote went back from {} to {}", v0, v1);
        ck!(self, ["C01", "C12"], v1 == v0 || self.newcmds.iter().any(|c| c == &format!("SaveVote: {v1}")) || what.starts_with("initialize"), "vote {} is not saved: {:?}", v1, self.newcmds);
        // C08
        for i in 0..self.plog.v.len() as u64 + 3 { ck!(self, ["C08", "C07", "C11", "C17"], st.get_log_id(i) == self.plog.answer(i), "log id at {}: {:?}, log is {}", i, st.get_log_id(i), self.plog.show()); }
        ck!(self, ["C08", "C07", "C11", "C17"], st.last_log_id().copied() == self.plog.last(), "last log id {:?}, log is {}", st.last_log_id(), self.plog.show());
        ck!(self, ["C08", "C10", "C11"], no_lid(st.last_purged_log_id().copied()) as usize == self.plog.pn, "last purged {:?}, log is {}", st.last_purged_log_id(), self.plog.show());
        // C09
        ck!(self, ["C09", "C05"], st.committed >= pre.committed, "commit went back from {:?} to {:?}", pre.committed, st.committed);
        let c = no_lid(st.committed) as usize;
        if st.committed != pre.committed {
            ck!(self, ["C09", "C11"], c <= self.plog.v.len() && self.plog.id(c as u64 - 1) == st.committed, "committed {:?} is not in the log {}", st.committed, self.plog.show());
            let snap = self.newcmds.iter().any(|x| x.contains("InstallFullSnapshot"));
            if !snap {
                let ap: Vec<&String> = self.newcmds.iter().filter(|x| x.starts_with("Apply:")).collect();
                let want = { use crate::display_ext::DisplayOptionExt; format!("Apply: ({}, {}]", pre.committed.display(), st.committed.unwrap()) };
                ck!(self, ["C09"], ap.len() == 1 && *ap[0] == want, "commit {:?} to {:?} asks to apply {:?}", pre.committed, st.committed, ap);
                ck!(self, ["C09", "C20"], self.newcmds.iter().any(|x| x == &format!("SaveCommitted: {}", st.committed.unwrap())), "committed is not saved");
            }
        } else { ck!(self, ["C09"], !self.newcmds.iter().any(|x| x.starts_with("Apply:") || x.starts_with("SaveCommitted")), "nothing is newly committed but {:?}", self.newcmds); }
        if self.eng.leader.is_none() { for i in 0..c { ck!(self, ["C09", "C07", "C11"], self.plog.id(i as u64) == self.truth.get(i).map(|e| e.log_id), "committed up to {:?} but at {} the cluster committed {:?}, log {}", st.committed, i, self.truth.get(i).map(|e| e.log_id), self.plog.show()); } }
        // C10, C11
        ck!(self, ["C10", "C11"], st.purge_upto >= pre.purge_upto, "purge position went back from {:?} to {:?}", pre.purge_upto, st.purge_upto);
        ck!(self, ["C10", "C11"], st.last_purged_log_id() <= st.purge_upto.as_ref() && st.purge_upto <= st.snapshot_meta.last_log_id && st.snapshot_meta.last_log_id <= st.committed, "positions: purged {:?} purge_upto {:?} snapshot {:?} committed {:?}", st.last_purged_log_id(), st.purge_upto, st.snapshot_meta.last_log_id, st.committed);
        ck!(self, ["C11"], st.snapshot_meta.last_log_id >= pre.snapshot_meta.last_log_id, "snapshot went back");
        ck!(self, ["C11", "C10"], st.last_log_id() >= st.snapshot_meta.last_log_id.as_ref(), "last log id {:?} before the snapshot's {:?}", st.last_log_id(), st.snapshot_meta.last_log_id);
        // C12
        let iop = &st.io_state.io_progress;
        ck!(self, ["C12"], iop.flushed() <= iop.submitted() && iop.submitted() <= iop.accepted(), "io progress {:?}", iop);
        let iop0 = &pre.io_state.io_progress;
        ck!(self, ["C12"], iop.flushed() >= iop0.flushed() && iop.submitted() >= iop0.submitted() && iop.accepted() >= iop0.accepted(), "io progress goes back from {:?} to {:?}", iop0, iop);
        // C13
        let (em, cm) = (st.membership_state.effective(), st.membership_state.committed());
        let lm = self.plog.last_mem(self.plog.v.len());
        ck!(self, ["C13", "C11", "C06"], *em.log_id() == lm.as_ref().and_then(|m| *m.log_id()) && lm.as_ref().map_or(true, |m| m.membership() == em.membership()), "effective membership {:?}, last in the log {:?}", em.log_id(), lm.map(|m| *m.log_id()));
        let before = em.log_id().map(|x| self.plog.last_mem(x.index as usize)).unwrap_or(None).and_then(|m| *m.log_id());
        if *em.log_id() <= st.committed { ck!(self, ["C13"], cm.log_id() == em.log_id(), "committed membership {:?}, effective {:?} is committed", cm.log_id(), em.log_id()); }
        ck!(self, ["C13"], cm.log_id() == em.log_id() || *cm.log_id() == before, "committed membership {:?} effective {:?} before it {:?}", cm.log_id(), em.log_id(), before);
        let cidx = no_lid(*cm.log_id()) as usize;
        ck!(self, ["C13"], self.eng.leader.is_some() || cidx <= self.truth.len() && (cidx == 0 || self.truth[cidx - 1].log_id == cm.log_id().unwrap()), "committed membership {:?} is not committed", cm.log_id());
        ck!(self, ["C13"], cm.log_id() >= pre.membership_state.committed().log_id(), "committed membership goes back from {:?} to {:?}", pre.membership_state.committed().log_id(), cm.log_id());
        // C18
        let me = self.me;
        let known = em.membership().contains(&me);
        let named = v1.leader_id().voted_for() == Some(me);
        let voter = em.membership().is_voter(&me);
        let exp = if known && named { if v1.is_committed() { ServerState::Leader } else { ServerState::Candidate } } else if voter { ServerState::Follower } else { ServerState::Learner };
        ck!(self, ["C18"], st.calc_server_state(&me) == exp, "calc_server_state {:?}, vote {} known {} voter {}", st.calc_server_state(&me), v1, known, voter);
        // a leader that has just left reports its role until it steps down
        let lingering = self.eng.leader.is_some() && !known;
        if !lingering { ck!(self, ["C18", "C13"], st.server_state == exp, "server state {:?}, vote {} known {} voter {}", st.server_state, v1, known, voter); }
        ck!(self, ["C18"], self.eng.leader.is_none() || named, "acts as leader with vote {}", v1);
        let f = st.forward_to_leader();
        let ln = v1.leader_id().voted_for().filter(|x| v1.is_committed() && em.membership().contains(x));
        ck!(self, ["C18", "C14"], f.leader_id == ln && f.leader_node == ln.and_then(|x| em.membership().get_node(&x).copied()), "forwards to {:?}, vote {}", f.leader_id, v1);
        // C17
        if let Some(l) = &self.eng.leader {
            if !self.trans || true { ck!(self, ["C17"], l.last_log_id().copied() == self.plog.last(), "leader's last {:?}, log {}", l.last_log_id(), self.plog.show()); }
            ck!(self, ["C16"], l.progress.iter().map(|(k, _)| *k).collect::<BTreeSet<_>>() == em.membership().nodes().map(|x| *x.0).collect(), "progress of {:?}", l.progress.iter().map(|x| x.0).collect::<Vec<_>>());
            for (k, p) in l.progress.iter() {
                if *k == me { ck!(self, ["C05", "C12"], p.matching <= self.io_done.and_then(|x| x.last_log_id().copied()).max(self.own_flushed()), "own progress {:?} beyond what is flushed", p.matching); continue; }
                let st = self.streams.get(k);
                ck!(self, ["C16"], st.map_or(false, |s| p.matching <= s.acked), "matching of {} is {:?}, acknowledged {:?}", k, p.matching, st.map(|s| s.acked));
                ck!(self, ["C16"], no_lid(p.matching) <= p.searching_end && p.searching_end as usize <= self.plog.v.len(), "search of {}: {:?} to {}", k, p.matching, p.searching_end);
                let inf = match &p.inflight { Inflight::None => None, Inflight::Logs { log_id_range: r } => Some(Data2::Logs(r.prev, r.last)), Inflight::Snapshot { last_log_id } => Some(Data2::Snap(*last_log_id)) };
                ck!(self, ["C16"], st.map_or(false, |s| s.inflight == inf), "in flight to {}: {:?}, sent {:?}", k, inf, st.map(|s| &s.inflight));
            }
        }
        Ok(())
    }
    fn own_flushed(&self) -> Option<L> {
        // a leader's own writes that are flushed
        let mut r = None;
        for (_, l) in &self.durable { if self.plog.id(l.index) == Some(*l) { r = r.max(Some(*l)); } }
        r
    }

    fn role_keep(&self, pre: &RaftState<Cfg>) -> Res {
        let st: &RaftState<Cfg> = &self.eng.state;
        ck!(self, ["C01", "C02", "C07", "C11"], st.vote_ref() == pre.vote_ref() && st.server_state == pre.server_state && st.committed == pre.committed && st.log_ids == pre.log_ids && st.membership_state == pre.membership_state && st.snapshot_meta == pre.snapshot_meta && st.purge_upto == pre.purge_upto, "a rejected message changed the state");
        Ok(())
    }

    // ---- operations ----
    fn op_append(&mut self, k: usize) -> Res {
        let l = self.ldrs[k].clone();
        // a leader that lost its leadership need not have what is committed since
        self.stale = l.log.len() < self.truth.len() || l.log.iter().zip(&self.truth).any(|(a, b)| a.log_id != b.log_id);
        let heart = self.rng.chance(1, 6);
        let pc = if heart { 0 } else {
            let near = (self.plog.v.len() as u64).min(l.log.len() as u64);
            if self.rng.chance(2, 3) { near.saturating_sub(self.pick(3)) } else { self.pick(l.log.len() as u64 + 1) }
        } as usize;
        let n = if heart { 0 } else { self.pick((l.log.len() - pc) as u64 + 1).min(self.pick(7)) as usize };
        let entries = l.log[pc..pc + n].to_vec();
        let prev = if pc == 0 { None } else { Some(l.log[pc - 1].log_id) };
        let cc = self.pick(l.commit as u64 + 1).max(self.pick(l.commit as u64 + 1)) as usize;
        let commit = if cc == 0 { None } else { Some(l.log[cc - 1].log_id) };
        let what = format!("append vote {} prev {:?} entries [{}] commit {:?}", l.vote, prev.map(|x| x.to_string()), ids(&entries), commit.map(|x| x.to_string()));
        let pre = self.eng.state.deref().clone();
        let log0 = self.plog.clone();
        let had_leader = self.eng.leader.is_some();
        self.cur = format!("{what}; log {}", self.plog.show());
        let (tx, mut rx) = Cfg::oneshot();
        let ok = self.eng.handle_append_entries(&l.vote, prev, entries.clone(), Some(tx));
        let resp = self.eng.output.iter_commands().last().map(|c| format!("{c}")).unwrap_or_default();
        let (when, val) = match self.eng.output.iter_commands().last() { Some(Command::Respond { when, resp: crate::engine::Respond::AppendEntries(v) }) => (*when, match v.value() { Ok(AppendEntriesResponse::HigherVote(x)) => AppendEntriesResponse::<Cfg>::HigherVote(*x), Ok(AppendEntriesResponse::Conflict) => AppendEntriesResponse::Conflict, Ok(AppendEntriesResponse::PartialSuccess(l)) => AppendEntriesResponse::PartialSuccess(*l), _ => AppendEntriesResponse::Success }), _ => return Err(format!("no response is queued: {resp}")) };
        self.invariants(&pre, &what)?;
        let v0 = *pre.vote_ref();
        let _ = &mut rx;
        if !(l.vote >= v0) {
            ck!(self, ["C01", "C07"], !ok && val == AppendEntriesResponse::HigherVote(v0), "stale leader {} against {} answered {}", l.vote, v0, val);
            ck!(self, ["C01", "C07"], self.newcmds.len() == 1 && had_leader == self.eng.leader.is_some(), "stale leader: {:?}", self.newcmds);
            return self.role_keep(&pre);
        }
        ck!(self, ["C01"], *self.eng.state.vote_ref() == l.vote, "vote {} after a message of {}", self.eng.state.vote_ref(), l.vote);
        if l.vote > v0 { ck!(self, ["C01", "C12"], self.newcmds[0] == format!("SaveVote: {}", l.vote), "vote not saved before it is acted on: {:?}", self.newcmds); }
        ck!(self, ["C01", "C18"], self.eng.leader.is_none() && self.eng.candidate.is_none(), "still leads under vote {}", l.vote);
        self.lease_on = self.lease;
        let matches = pc == 0 || log0.id(pc as u64 - 1) == prev;
        ck!(self, ["C07"], ok == matches, "prev {:?} of log {}: accepted {}", prev, log0.show(), ok);
        if self.acc.map(|a| a.0) != Some(l.vote) { self.acc = Some((l.vote, None)); }
        if !matches {
            ck!(self, ["C07"], val == AppendEntriesResponse::Conflict, "conflict answered {}", val);
            let keep = (pc - 1).min(log0.v.len());
            ck!(self, ["C07"], self.plog.v.len() >= keep && self.plog.v.len() <= log0.v.len() && self.plog.v.iter().zip(&log0.v).all(|(a, b)| a == b), "log after conflict at {} {} -> {}", pc - 1, log0.show(), self.plog.show());
            ck!(self, ["C09"], self.eng.state.committed == pre.committed, "commit after conflict");
            return Ok(());
        }
        ck!(self, ["C07"], val == AppendEntriesResponse::Success, "match answered {}", val);
        let diff = (0..n).find(|i| log0.id((pc + i) as u64) != Some(entries[*i].log_id));
        let mut want = log0.v.clone();
        if let Some(i) = diff { want.truncate(pc + i); want.extend(entries[i..].iter().cloned()); }
        ck!(self, ["C07"], self.plog.v == want, "log {} after [{}] at {} is {}", log0.show(), ids(&entries), pc, self.plog.show());
        let last = prev.max(entries.last().map(|e| e.log_id));
        let a = self.acc.unwrap().1.max(last);
        self.acc = Some((l.vote, a));
        // C12: the answer waits for what was accepted
        match when {
            Some(Condition::IOFlushed { io_id }) => { ck!(self, ["C12"], *io_id.vote_ref() == l.vote && io_id.last_log_id().copied() >= last, "answer to {:?} waits for {}", last, io_id); }
            w => { ck!(self, ["C12"], false, "answer does not wait: {:?}", w); }
        }
        let lastids: Vec<L> = entries.iter().map(|e| e.log_id).collect();
        self.waits.push(Wait::Append(rx, l.vote, last, lastids));
        // then commit
        let pre = self.eng.state.deref().clone();
        let log0 = self.plog.clone();
        self.eng.handle_commit_entries(commit);
        self.invariants(&pre, &format!("commit {:?}", commit.map(|x| x.to_string())))?;
        let c = pre.committed.max(commit.min(a));
        ck!(self, ["C09"], self.eng.state.committed == c, "committed {:?}, contract says {:?} (leader committed {:?}, accepted {:?})", self.eng.state.committed, c, commit, a);
        ck!(self, ["C09", "C07"], self.plog.v == log0.v, "commit changed the log");
        Ok(())
    }

    fn op_vote(&mut self) -> Res {
        let max = self.max_vote().leader_id().term;
        let term = match self.pick(4) { 0 => self.eng.state.vote_ref().leader_id().term, 1 => self.pick(max + 2), _ => max + self.pick(2) };
        let vote = Vote::new(term, 2 + self.pick(5));
        let last = match self.pick(6) {
            0 => None,
            1 => self.plog.last(),
            2 => self.plog.last().map(|mut x| { x.index += 1; x }),
            3 => self.plog.last().map(|mut x| { x.index = x.index.saturating_sub(1); x }),
            4 => { let k = self.pick(self.ldrs.len() as u64) as usize; self.ldrs[k].log.last().map(|e| e.log_id) }
            _ => { let n = self.pick(self.truth.len() as u64) as usize; Some(self.truth[n].log_id) }
        };
        // a candidate can not outrank a leader already established with that term and node
        self.cur = String::new();
        let what = format!("vote request {vote} last {:?}", last.map(|x| x.to_string()));
        let pre = self.eng.state.deref().clone();
        let had = (self.eng.leader.is_some(), self.eng.candidate.is_some());
        let resp = self.eng.handle_vote_req(VoteRequest::new(vote, last));
        self.invariants(&pre, &what)?;
        let v0 = *pre.vote_ref();
        let leased = v0.is_committed() && self.lease_on;
        let grant = !leased && last >= pre.last_log_id().copied() && vote >= v0;
        ck!(self, ["C02", "C15"], resp.vote_granted == grant, "granted {}: own vote {} (leased {}), own last {:?}", resp.vote_granted, v0, leased, pre.last_log_id());
        ck!(self, ["C02"], resp.last_log_id == pre.last_log_id().copied() && resp.vote == *self.eng.state.vote_ref(), "answer {}", resp);
        if grant {
            ck!(self, ["C02", "C01"], *self.eng.state.vote_ref() == vote, "granted {} but has {}", vote, self.eng.state.vote_ref());
            if vote > v0 { ck!(self, ["C02", "C01", "C12"], self.newcmds.len() == 1 && self.newcmds[0] == format!("SaveVote: {vote}"), "granted: {:?}", self.newcmds); ck!(self, ["C01", "C18"], self.eng.leader.is_none() && self.eng.candidate.is_none(), "still leads"); self.lease_on = false; }
        } else {
            ck!(self, ["C02", "C01"], self.newcmds.is_empty() && had == (self.eng.leader.is_some(), self.eng.candidate.is_some()), "refused: {:?}", self.newcmds);
            self.role_keep(&pre)?;
        }
        // log and commit never change
        ck!(self, ["C02"], self.eng.state.log_ids == pre.log_ids && self.eng.state.committed == pre.committed, "a vote request changed the log");
        Ok(())
    }

    fn op_snapshot(&mut self, k: usize) -> Res {
        let l = self.ldrs[k].clone();
        // a leader that lost its leadership need not have what is committed since
        self.stale = l.log.len() < self.truth.len() || l.log.iter().zip(&self.truth).any(|(a, b)| a.log_id != b.log_id);
        let s = self.pick(l.commit as u64) as usize;
        let sid = l.log[s].log_id;
        let sh = Sh { v: l.log.clone(), pn: 0 };
        let mem = sh.last_mem(s + 1).unwrap_or_default();
        let meta = SnapshotMeta { last_log_id: Some(sid), last_membership: mem.clone(), snapshot_id: format!("s{}", s) };
        let what = format!("install snapshot vote {} last {}", l.vote, sid);
        let pre = self.eng.state.deref().clone();
        let log0 = self.plog.clone();
        let (tx, rx) = Cfg::oneshot();
        self.cur = format!("{what}; log {}", log0.show());
        self.eng.handle_install_full_snapshot(l.vote, Snapshot { meta: meta.clone(), snapshot: Box::new(std::io::Cursor::new(vec![s as u8])) }, tx);
        let when = match self.eng.output.iter_commands().last() { Some(Command::Respond { when, .. }) => *when, _ => return Err("no response is queued".into()) };
        self.invariants(&pre, &what)?;
        let v0 = *pre.vote_ref();
        if !(l.vote >= v0) {
            ck!(self, ["C01", "C11"], self.newcmds.len() == 1, "stale leader's snapshot: {:?}", self.newcmds);
            return self.role_keep(&pre);
        }
        self.lease_on = self.lease;
        if self.acc.map(|a| a.0) != Some(l.vote) { self.acc = Some((l.vote, None)); }
        ck!(self, ["C01"], *self.eng.state.vote_ref() == l.vote && self.eng.leader.is_none(), "vote {} after a message of {}", self.eng.state.vote_ref(), l.vote);
        let st: &RaftState<Cfg> = &self.eng.state;
        if Some(sid) <= pre.committed || Some(sid) <= pre.snapshot_meta.last_log_id {
            ck!(self, ["C11"], st.committed == pre.committed && st.snapshot_meta == pre.snapshot_meta && st.purge_upto == pre.purge_upto && self.plog.v == log0.v && st.membership_state == pre.membership_state && when.is_none(), "an old snapshot {} changed the state", sid);
            return Ok(());
        }
        let keeps = log0.id(s as u64) == Some(sid);
        let want = if keeps { log0.v.clone() } else { self.truth[..s + 1].to_vec() };
        ck!(self, ["C11"], st.committed == Some(sid) && st.snapshot_meta == meta && st.purge_upto == Some(sid) && st.last_purged_log_id() == Some(&sid), "after the snapshot {}: committed {:?} snapshot {:?} purge {:?}", sid, st.committed, st.snapshot_meta.last_log_id, st.purge_upto);
        ck!(self, ["C11"], self.plog.v == want, "log {} after snapshot {} is {}", log0.show(), sid, self.plog.show());
        // conflicting logs are removed before the snapshot is installed, and the covered ones purged after
        let pos = |p: &str| self.newcmds.iter().position(|c| c.contains(p));
        ck!(self, ["C11", "C12"], pos("InstallFullSnapshot").is_some() && pos("PurgeLog") > pos("InstallFullSnapshot") && pos("TruncateLog") < pos("InstallFullSnapshot"), "order: {:?}", self.newcmds);
        let conflict = !keeps && (log0.v.len() > s || log0.last() > Some(sid));
        ck!(self, ["C11"], conflict == pos("TruncateLog").is_some(), "conflicting {}: {:?}, log {}", conflict, self.newcmds, log0.show());
        ck!(self, ["C12", "C11"], when == Some(Condition::Snapshot { log_id: Some(sid) }), "answer waits for {:?}", when);
        self.acc = Some((l.vote, self.acc.unwrap().1.max(Some(sid))));
        self.waits.push(Wait::Snap(rx, l.vote, sid));
        Ok(())
    }

    /// a leader starts another election; the simulation ends with it
    fn op_reelect(&mut self) -> Res {
        self.done = true;
        let pre = self.eng.state.deref().clone();
        if !pre.membership_state.effective().is_voter(&self.me) || !pre.vote_ref().is_committed() { return Ok(()); }
        self.cur = "elect while leading".to_string();
        self.eng.elect();
        let v = Vote::new(pre.vote_ref().leader_id().term + 1, self.me);
        ck!(self, ["C01", "C03"], *self.eng.state.vote_ref() == v && self.eng.candidate.as_ref().map(|c| *c.vote_ref()) == Some(v) || *self.eng.state.vote_ref() == Vote { committed: true, ..v }, "elect while leading: vote {}", self.eng.state.vote_ref());
        if *self.eng.state.vote_ref() == v {
            // it is a candidate: no longer a leader that writes or reads
            let f = self.eng.leader_handler().err();
            ck!(self, ["C14", "C17", "C18"], f.map(|f| f.leader_id) == Some(None), "a candidate with vote {} still acts as the leader it was", v);
            ck!(self, ["C14", "C17"], self.eng.get_leader_handler_or_reject(None).is_none(), "a candidate with vote {} takes writes", v);
            ck!(self, ["C03", "C17"], self.eng.state.last_log_id() == pre.last_log_id(), "log changed");
            let voters: Vec<u64> = pre.membership_state.effective().voter_ids().collect();
            for k in voters { let last = pre.last_log_id().copied(); self.eng.handle_vote_resp(k, VoteResponse::new(v, last, true)); }
            let w = Vote { committed: true, ..v };
            ck!(self, ["C03", "C17"], *self.eng.state.vote_ref() == w && self.eng.leader.as_ref().map(|l| *l.committed_vote) == Some(w) && self.eng.candidate.is_none(), "granted by all, vote {}", self.eng.state.vote_ref());
            ck!(self, ["C17"], self.eng.state.last_log_id() == Some(&lid(w.leader_id().term, self.me, no_lid(pre.last_log_id().copied()))), "first log of the new leadership {:?} after {:?}", self.eng.state.last_log_id(), pre.last_log_id());
            ck!(self, ["C14"], self.eng.leader_handler().map(|l| l.get_read_log_id()).ok() == Some(self.eng.state.last_log_id().copied()), "read log id");
        }
        Ok(())
    }

    fn op_elect(&mut self) -> Res {
        if self.eng.leader.is_some() && self.rng.chance(1, 8) { return self.op_reelect(); }
        if self.eng.state.server_state == ServerState::Leader || !self.eng.state.membership_state.effective().is_voter(&self.me) || self.eng.leader.is_some() { return Ok(()); }
        let pre = self.eng.state.deref().clone();
        self.eng.elect();
        self.invariants(&pre, "elect")?;
        self.lease_on = false;
        let v = Vote::new(pre.vote_ref().leader_id().term + 1, self.me);
        ck!(self, ["C03", "C01", "C12"], *self.eng.state.vote_ref() == v && self.newcmds.len() == 2 && self.newcmds[0] == format!("SaveVote: {v}") && self.newcmds[1].starts_with("SendVote"), "elect: {:?}", self.newcmds);
        ck!(self, ["C03"], self.eng.leader.is_none() && self.eng.candidate.as_ref().map(|c| (*c.vote_ref(), c.last_log_id().copied(), c.granters().count())) == Some((v, pre.last_log_id().copied(), 0)), "candidate {:?}", self.eng.candidate.as_ref().map(|c| c.to_string()));
        Ok(())
    }

    /// one answer to the candidate; `granted` as the world decides
    fn vote_answer(&mut self, from: u64, resp: VoteResponse<Cfg>) -> Res {
        let pre = self.eng.state.deref().clone();
        let Some(cand) = self.eng.candidate.as_ref() else {
            self.eng.handle_vote_resp(from, resp);
            self.invariants(&pre, "vote answer without candidate")?;
            ck!(self, ["C03"], self.newcmds.is_empty(), "{:?}", self.newcmds);
            return self.role_keep(&pre);
        };
        let cv = *cand.vote_ref();
        let mut granted: BTreeSet<u64> = cand.granters().collect();
        let m = self.eng.state.membership_state.effective().membership().clone();
        let counts = resp.vote_granted && resp.vote == cv;
        let what = format!("vote answer of {from}: {} {} last {:?}; candidate {cv}", resp.vote, resp.vote_granted, resp.last_log_id.map(|x| x.to_string()));
        let g0 = granted.clone();
        if counts { granted.insert(from); }
        let wins = counts && quorum(&m, &|x| granted.contains(&x));
        self.eng.handle_vote_resp(from, resp.clone());
        if wins { self.trans = false; self.wm.clear(); self.own = vec![]; self.noop_at = Some(self.plog.v.len()); self.acc = None; }
        let log0 = self.plog.clone();
        if wins { for k in m.nodes().map(|x| *x.0).collect::<Vec<_>>() { let n = self.rng.below(log0.v.len() as u64 + 1) as usize; self.wm.insert(k, n.min(log0.v.len())); } }
        self.invariants(&pre, &what)?;
        if wins {
            let v = Vote::new_committed(cv.leader_id().term, self.me);
            ck!(self, ["C03"], *self.eng.state.vote_ref() == v && self.eng.leader.as_ref().map(|l| *l.committed_vote) == Some(v) && self.eng.candidate.is_none(), "granted by {:?}: vote {}", granted, self.eng.state.vote_ref());
            ck!(self, ["C17", "C03"], self.plog.v.len() == log0.v.len() + 1 && self.plog.v[..log0.v.len()] == log0.v[..] && self.plog.v[log0.v.len()].log_id == lid(v.leader_id().term, self.me, log0.v.len() as u64) && self.plog.v[log0.v.len()].is_blank(), "first entry of the leader: {} after {}", self.plog.show(), log0.show());
            self.lease_on = self.lease;
            let p = |s: &str| self.newcmds.iter().position(|c| c.starts_with(s));
            ck!(self, ["C12", "C01", "C03"], p("SaveVote").is_some() && p("SaveVote") < p("AppendInputEntries"), "{:?}", self.newcmds);
        } else {
            ck!(self, ["C03"], self.eng.leader.is_none() && !self.eng.state.vote_ref().is_committed() || *self.eng.state.vote_ref() == resp.vote, "leads after granted by {:?} of {}", granted, m);
            ck!(self, ["C03"], self.plog.v == log0.v, "log changed");
            if counts { ck!(self, ["C03"], self.eng.candidate.as_ref().map(|c| c.granters().collect::<BTreeSet<_>>()) == Some(granted.clone()), "granters {:?}", granted); }
            else if resp.vote > *pre.vote_ref() { ck!(self, ["C01", "C03"], *self.eng.state.vote_ref() == resp.vote && self.eng.candidate.is_none(), "higher vote {} is not taken", resp.vote); self.lease_on = self.lease && resp.vote.is_committed(); }
            else { ck!(self, ["C03", "C01"], *self.eng.state.vote_ref() == *pre.vote_ref() && self.eng.candidate.as_ref().map(|c| c.granters().collect::<BTreeSet<_>>()) == Some(g0), "candidate changed"); }
        }
        Ok(())
    }

    fn op_vote_answer(&mut self) -> Res {
        let Some(c) = self.eng.candidate.as_ref() else { return Ok(()) };
        let cv = *c.vote_ref();
        let m = self.eng.state.membership_state.effective().membership().clone();
        let voters: Vec<u64> = m.voter_ids().filter(|x| *x != self.me).collect();
        if voters.is_empty() { return Ok(()); }
        let from = *self.rng.pick(&voters);
        let must = self.must_have();
        let full = self.plog.v.len() >= must.len() && self.plog.v.iter().zip(&must).all(|(a, b)| a.log_id == b.log_id);
        let may = full && self.ldrs.iter().all(|l| l.vote < cv);
        let r = self.pick(10);
        let resp = if r < 6 && may { VoteResponse::new(cv, self.plog.last(), true) }
            else if r < 7 { VoteResponse::new(cv, self.plog.last(), false) }
            else if r < 8 { let k = self.pick(self.ldrs.len() as u64) as usize; let l = &self.ldrs[k]; VoteResponse::new(l.vote, l.log.last().map(|e| e.log_id), false) }
            else if r < 9 { VoteResponse::new(Vote::new(self.pick(cv.leader_id().term + 2), 2 + self.pick(4)), self.plog.last(), self.rng.chance(1, 2)) }
            else { VoteResponse::new(Vote::new(cv.leader_id().term.saturating_sub(1), self.me), self.plog.last(), true) };
        if resp.vote_granted && resp.vote != cv && resp.vote > cv { return Ok(()); }
        self.vote_answer(from, resp)
    }

    fn op_higher(&mut self) -> Res {
        // the HigherVote notification of a replication stream
        if self.eng.leader.is_none() { return Ok(()); }
        let hv = Vote::new(self.max_vote().leader_id().term + self.pick(2), 2 + self.pick(5));
        let pre = self.eng.state.deref().clone();
        let _ = self.eng.vote_handler().update_vote(&hv);
        self.invariants(&pre, &format!("higher vote {hv}"))?;
        if hv > *pre.vote_ref() { ck!(self, ["C01", "C18"], *self.eng.state.vote_ref() == hv && self.eng.leader.is_none(), "higher vote {} ignored", hv); self.lease_on = false; }
        Ok(())
    }

    fn op_write(&mut self) -> Res {
        let pre = self.eng.state.deref().clone();
        let log0 = self.plog.clone();
        let mem = self.rng.chance(1, if self.rule { 10 } else { 4 });
        let mut es = vec![];
        if self.eng.leader.is_some() && mem {
            let x = 1 + self.pick(6);
            let ids: BTreeSet<u64> = { let b = self.rng.next(); (1..=5).filter(|i| b >> (i + 7) & 1 == 1).collect() };
            let ch: ChangeMembers<Cfg> = match self.pick(5) {
                0 => ChangeMembers::AddVoterIds(BTreeSet::from([x])),
                1 => ChangeMembers::RemoveVoters(BTreeSet::from([x])),
                2 => ChangeMembers::AddNodes(BTreeMap::from([(x, 100 + x)])),
                3 => ChangeMembers::RemoveNodes(BTreeSet::from([x])),
                _ => ChangeMembers::ReplaceAllVoters(ids),
            };
            let retain = self.rng.chance(1, 2);
            match pre.membership_state.change_handler().apply(ch.clone(), retain) {
                Ok(m) => {
                    ck!(self, ["C06"], pre.membership_state.committed().log_id() == pre.membership_state.effective().log_id(), "changed while {:?} is not committed", pre.membership_state.effective().log_id());
                    ck!(self, ["C06"], m.get_joint_config().iter().any(|c| pre.membership_state.effective().membership().get_joint_config().contains(c)), "{} shares no voter set", m);
                    es.push(mem_entry(m));
                }
                Err(_) => return Ok(()),
            }
        } else {
            for _ in 0..self.pick(4) { es.push(Ent { log_id: lid(self.pick(3), 1, self.pick(9)), payload: EntryPayload::Normal(self.rng.below(100)) }); }
        }
        let n = es.len();
        let what = format!("write {}", n);
        let is_leader = self.eng.leader.is_some();
        let v = self.eng.leader.as_ref().map(|l| *l.committed_vote);
        let got = {
            match self.eng.get_leader_handler_or_reject(None) {
                Some((mut lh, _)) => {
                    if lh.leader.get_transfer_to().is_some() { None } else { lh.leader_append_entries(es.clone()); Some(()) }
                }
                None => None,
            }
        };
        self.invariants(&pre, &what)?;
        let accepted = got.is_some();
        ck!(self, ["C17", "C14"], accepted == (is_leader && !self.trans), "write accepted {} leader {} transferring {}", accepted, is_leader, self.trans);
        if !accepted { ck!(self, ["C17"], self.newcmds.is_empty(), "refused: {:?}", self.newcmds); return Ok(()); }
        let v = v.unwrap();
        let mut want = log0.v.clone();
        for e in &es { let mut e = e.clone(); e.log_id = lid(v.leader_id().term, self.me, want.len() as u64); want.push(e); }
        ck!(self, ["C17"], self.plog.v == want, "log {} after {} writes is {}", log0.show(), n, self.plog.show());
        ck!(self, ["C09", "C05"], self.eng.state.committed == pre.committed, "a write commits");
        Ok(())
    }

    fn op_read(&mut self) -> Res {
        let pre = self.eng.state.deref().clone();
        let is_leader = self.eng.leader.is_some();
        let noop = self.noop_at.map(|i| i as u64);
        let got = self.eng.leader_handler().map(|lh| lh.get_read_log_id());
        match got {
            Ok(r) => {
                ck!(self, ["C14"], is_leader && pre.vote_ref().is_committed(), "read on a node with vote {}", pre.vote_ref());
                let own = noop.and_then(|i| self.plog.id(i));
                ck!(self, ["C14"], r >= pre.committed && r >= own && (r == pre.committed || r == own), "read log id {:?} committed {:?} first own {:?}", r, pre.committed, own);
            }
            Err(f) => {
                ck!(self, ["C14"], !is_leader, "leader refuses to read");
                let ln = pre.vote_ref().leader_id().voted_for().filter(|x| pre.vote_ref().is_committed() && pre.membership_state.effective().membership().contains(x));
                ck!(self, ["C14", "C18"], f.leader_id == ln, "redirects to {:?}", f.leader_id);
            }
        }
        Ok(())
    }

    fn expected_commit(&self, pre: &RaftState<Cfg>) -> Option<L> {
        let l = self.eng.leader.as_ref().unwrap();
        let prog: BTreeMap<u64, Option<L>> = l.progress.iter().map(|(k, p)| (*k, p.matching)).collect();
        let m = self.eng.state.membership_state.effective().membership();
        let mut best = None;
        for v in prog.values().flatten() { if quorum(m, &|x| prog.get(&x).map_or(false, |y| *y >= Some(*v))) { best = best.max(Some(*v)); } }
        let lv = *l.committed_vote;
        if best.map_or(false, |b| b.leader_id == CommittedLeaderId::new(lv.leader_id().term, lv.leader_id().node_id)) { pre.committed.max(best) } else { pre.committed }
    }

    /// one replication answer
    fn op_ack(&mut self) -> Res {
        if self.eng.leader.is_none() { return Ok(()); }
        let busy: Vec<u64> = self.streams.iter().filter(|(_, s)| s.inflight.is_some()).map(|(k, _)| *k).collect();
        if busy.is_empty() { return Ok(()); }
        let k = *self.rng.pick(&busy);
        // the command has to have been run
        if self.eng.output.iter_commands().any(|c| matches!(c, Command::Replicate { target, .. } if *target == k)) { return Ok(()); }
        let pre = self.eng.state.deref().clone();
        let prog0: BTreeMap<u64, Option<L>> = self.eng.leader.as_ref().unwrap().progress.iter().map(|(k, p)| (*k, p.matching)).collect();
        let inf = self.streams[&k].inflight.clone().unwrap();
        let lead_v = *self.eng.leader.as_ref().unwrap().committed_vote;
        let deposed = self.ldrs.iter().any(|l| l.vote > lead_v);
        let have = *self.wm.entry(k).or_insert(0);
        let res: Result<ReplicationResult<Cfg>, String>;
        let lost = self.rng.chance(1, 6) || deposed;
        let mut matched = None;
        match &inf {
            _ if lost => { res = Err("lost".into()); self.streams.get_mut(&k).unwrap().inflight = None; }
            Data2::Logs(p, l) => {
                if no_lid(*p) as usize > have { res = Ok(ReplicationResult(Err(p.unwrap()))); self.streams.get_mut(&k).unwrap().inflight = None; }
                else {
                    let (a, b) = (no_lid(*p), no_lid(*l));
                    let upto = a + 1 + self.pick(b - a);
                    let id = self.plog.id(upto - 1);
                    matched = Some(id);
                    let h = self.wm.get_mut(&k).unwrap();
                    *h = (*h).max(upto as usize);
                    let st = self.streams.get_mut(&k).unwrap();
                    st.acked = st.acked.max(id);
                    st.inflight = if upto < b { Some(Data2::Logs(id, *l)) } else { None };
                    res = Ok(ReplicationResult(Ok(id)));
                }
            }
            Data2::Snap(l) => {
                matched = Some(*l);
                let h = self.wm.get_mut(&k).unwrap();
                *h = (*h).max(no_lid(*l) as usize);
                let st = self.streams.get_mut(&k).unwrap();
                st.acked = st.acked.max(*l);
                st.inflight = None;
                res = Ok(ReplicationResult(Ok(*l)));
            }
        }
        let what = format!("answer of {k} to {inf:?}: {res:?}");
        self.eng.replication_handler().update_progress(k, res);
        self.invariants(&pre, &what)?;
        let prog1: BTreeMap<u64, Option<L>> = self.eng.leader.as_ref().unwrap().progress.iter().map(|(k, p)| (*k, p.matching)).collect();
        for (x, p) in &prog1 { if *x != k { ck!(self, ["C05", "C16"], prog0.get(x) == Some(p), "progress of {} changed by {}", x, k); } }
        ck!(self, ["C16", "C05"], prog1.get(&k) == Some(&matched.unwrap_or(prog0[&k])), "matching of {} is {:?} after {}", k, prog1.get(&k), what);
        if matched.is_some() { let e = self.expected_commit(&pre); ck!(self, ["C05", "C09"], self.eng.state.committed == e, "committed {:?}, contract says {:?} with {:?}", self.eng.state.committed, e, prog1); }
        else { ck!(self, ["C05", "C09"], self.eng.state.committed == pre.committed, "committed without an acknowledgement"); }
        self.learn_commit();
        Ok(())
    }
    fn learn_commit(&mut self) {
        let c = no_lid(self.eng.state.committed) as usize;
        if self.eng.leader.is_some() && c > self.truth.len() { self.truth = self.plog.v[..c.min(self.plog.v.len())].to_vec(); }
    }

    fn op_purge(&mut self) -> Res {
        let i = self.pick(self.plog.v.len() as u64 + 3);
        let pre = self.eng.state.deref().clone();
        let log0 = self.plog.clone();
        self.eng.trigger_purge_log(i);
        self.invariants(&pre, &format!("purge up to {i}"))?;
        let snap = pre.snapshot_meta.last_log_id;
        let st: &RaftState<Cfg> = &self.eng.state;
        let want = match snap { None => pre.purge_upto, Some(s) => { let j = i.min(s.index); if i < no_lid(pre.purge_upto) { pre.purge_upto } else { pre.purge_upto.max(log0.id(j)) } } };
        ck!(self, ["C10"], st.purge_upto == want, "purge position {:?}, contract says {:?}; snapshot {:?}", st.purge_upto, want, snap);
        ck!(self, ["C10"], self.plog.pn as u64 <= no_lid(want).max(log0.pn as u64) && self.plog.v == log0.v, "purged {} by a request up to {}", self.plog.pn, i);
        if self.eng.leader.is_none() && want > pre.purge_upto { ck!(self, ["C10"], self.plog.pn as u64 == no_lid(want).max(log0.pn as u64), "purged {}, scheduled {:?}", self.plog.pn, want); }
        Ok(())
    }

    fn op_tick(&mut self) -> Res {
        if self.eng.state.io_applied() < self.eng.state.membership_state.effective().log_id().as_ref() { return Ok(()); }
        if self.eng.state.vote_ref().leader_id().voted_for() != Some(self.me) && self.eng.state.vote_ref() == &Vote::default() { return Ok(()); }
        let pre = self.eng.state.deref().clone();
        let lead = self.eng.leader.is_some();
        self.eng.leader_step_down();
        self.invariants(&pre, "step down if removed")?;
        let known = pre.membership_state.effective().membership().contains(&self.me);
        if lead && *pre.membership_state.effective().log_id() <= pre.committed { ck!(self, ["C18"], self.eng.leader.is_some() == known, "leader removed {} leads {}", !known, self.eng.leader.is_some()); }
        Ok(())
    }

    fn op_misc(&mut self) -> Res {
        let pre = self.eng.state.deref().clone();
        match self.pick(4) {
            0 => { self.eng.snapshot_handler().trigger_snapshot(); self.invariants(&pre, "trigger snapshot")?; }
            1 => {
                let mut sent = false;
                if let Some((mut lh, _)) = self.eng.get_leader_handler_or_reject(None) { lh.send_heartbeat(); sent = true; }
                self.invariants(&pre, "heartbeat")?;
                let _ = sent;
            }
            2 if self.rng.chance(1, 4) && !self.trans && self.eng.leader.is_some() => {
                let to = 2 + self.pick(4);
                // only a voter can take over
                let takes = to != self.eng.config.id && self.eng.state.membership_state.effective().is_voter(&to) && self.eng.get_leader_handler_or_reject(None).is_some();
                self.eng.trigger_transfer_leader(to);
                if takes { self.trans = true; self.lease_on = false; }
                self.invariants(&pre, "transfer leader")?;
                if takes { ck!(self, ["C15"], self.eng.state.vote.is_expired(Cfg::now(), Duration::from_millis(0)), "the lease survives a transfer"); }
                else { ck!(self, ["C14", "C17"], self.eng.leader.as_ref().map(|l| l.get_transfer_to().is_none()).unwrap_or(true), "leadership transferred to {} that cannot take over", to); }
            }
            _ => {
                // initialize: refused unless pristine
                let inc = self.rng.chance(3, 4);
                let mut vs: BTreeSet<u64> = (2..=4).filter(|_| self.rng.chance(1, 2)).collect();
                if inc { vs.insert(self.me); }
                if vs.is_empty() { vs.insert(3); }
                let first = self.truth[0].clone();
                // a pristine node is initialized as its cluster is
                let pristine = pre.last_log_id().is_none() && *pre.vote_ref() == Vote::default();
                let ent = if pristine && self.truth.len() == 1 && self.rng.chance(3, 4) { first.clone() } else if pristine && vs.contains(&self.me) { return Ok(()); } else { mem_entry(Membership::new(vec![vs.clone()], vs.iter().map(|x| (*x, 100 + x)).collect::<BTreeMap<u64, u64>>())) };
                let m = ent.get_membership().unwrap().clone();
                let can = pristine && m.is_voter(&self.me);
                let had = self.eng.leader.is_some();
                let r = self.eng.initialize(ent.clone());
                self.invariants(&pre, "initialize")?;
                ck!(self, ["C19"], r.is_ok() == can, "initialize: {:?}, log {} vote {}", r.is_ok(), self.plog.show(), pre.vote_ref());
                if can {
                    ck!(self, ["C19"], self.plog.v.len() == 1 && self.plog.v[0].log_id == L::default() && self.plog.v[0].get_membership() == Some(&m), "first entry: {}", self.plog.show());
                    ck!(self, ["C19", "C03"], self.eng.candidate.is_some() && self.eng.state.vote_ref().leader_id().voted_for() == Some(self.me) && self.newcmds.iter().any(|c| c.starts_with("SendVote")), "no election: {:?}", self.newcmds);
                    self.lease_on = false;
                } else {
                    ck!(self, ["C19"], self.newcmds.is_empty() && had == self.eng.leader.is_some(), "refused but {:?}", self.newcmds);
                    let ok = match (&r, pristine) { (Err(crate::error::InitializeError::NotAllowed(e)), false) => e.last_log_id == pre.last_log_id().copied() && e.vote == *pre.vote_ref(), (Err(crate::error::InitializeError::NotInMembers(e)), true) => e.node_id == self.me && e.membership == m, _ => false };
                    ck!(self, ["C19"], ok, "refused with {:?}", r);
                    if self.wants(&["C19"]) { let st: &RaftState<Cfg> = &self.eng.state; if st.vote != pre.vote || st.log_ids != pre.log_ids || st.membership_state != pre.membership_state || st.io_state != pre.io_state { return Err("a refused initialize changed the state".into()); } }
                }
            }
        }
        Ok(())
    }

    // ---- the runtime ----
    fn run_commands(&mut self, max: u64) -> Res {
        for _ in 0..max {
            let Some(cmd) = self.eng.output.pop_command() else { return Ok(()) };
            let io = &self.eng.state.io_state.io_progress;
            let ready = match cmd.condition() {
                None => true,
                Some(Condition::IOFlushed { io_id }) => io.flushed() >= Some(&io_id),
                Some(Condition::LogFlushed { log_id }) => io.flushed().and_then(|x| x.last_log_id()) >= log_id.as_ref(),
                Some(Condition::Applied { log_id }) => self.eng.state.io_applied() >= log_id.as_ref(),
                Some(Condition::Snapshot { log_id }) => self.eng.state.io_state().snapshot() >= log_id.as_ref(),
            };
            if !ready { self.eng.output.postpone_command(cmd); return Ok(()); }
            self.seen -= 1;
            match cmd {
                Command::UpdateIOProgress { io_id, .. } => { self.eng.state.io_state.io_progress.submit(io_id); self.notif.push_back(No::Io(io_id)); }
                Command::AppendInputEntries { committed_vote, entries } => {
                    let io_id = IOId::new_log_io(committed_vote, entries.last().map(|e| e.log_id));
                    self.eng.state.io_state.io_progress.submit(io_id);
                    ck!(self, ["C07", "C11"], entries[0].log_id.index == self.vlog.v.len() as u64, "hole: writing [{}] after {}", ids(&entries), self.vlog.show());
                    self.vlog.v.extend(entries.iter().cloned());
                    self.pend.push_back((io_id, entries.iter().map(|e| e.log_id).collect()));
                }
                Command::SaveVote { vote } => {
                    self.eng.state.io_state_mut().io_progress.submit(IOId::new(vote));
                    ck!(self, ["C01"], vote >= self.saved_vote, "vote {} saved after {}", vote, self.saved_vote);
                    self.saved_vote = vote;
                    // writes are serialized: earlier ones are on disk, though not yet reported
                    for p in self.pend.iter() { for e in &p.1 { self.durable.insert(e.index, *e); } }
                    self.notif.push_back(No::Io(IOId::new(vote)));
                    self.notif.push_back(No::SelfVote(vote));
                }
                Command::PurgeLog { upto } => {
                    ck!(self, ["C10", "C11"], self.snap.as_ref().map_or(false, |s| s.last_log_id >= Some(upto)), "purge up to {} before the snapshot is there", upto);
                    ck!(self, ["C10"], self.applied as u64 > upto.index, "purge up to {} before it is applied", upto);
                    let n = upto.index as usize + 1;
                    self.vlog.pn = n.max(self.vlog.pn);
                    self.eng.state.io_state_mut().update_purged(Some(upto));
                }
                Command::TruncateLog { since } => {
                    self.vlog.v.truncate(since.index as usize);
                    let _ = self.durable.split_off(&since.index);
                    for p in self.pend.iter_mut() { p.1.retain(|x| x.index < since.index); }
                }
                Command::StateMachine { command } => match command {
                    sm::Command::BuildSnapshot => self.smq.push_back(Sm::Build),
                    sm::Command::InstallFullSnapshot { io_id, snapshot } => { self.eng.state.io_state.io_progress.try_submit(io_id); self.smq.push_back(Sm::Install(snapshot.meta, io_id)); }
                    _ => {}
                },
                Command::Apply { already_committed, upto } => {
                    self.smq.push_back(Sm::Apply(no_lid(already_committed), upto));
                }
                Command::Respond { resp, .. } => { resp.send(); self.check_waits()?; }
                Command::SendVote { .. } | Command::RebuildReplicationStreams { .. } | Command::Replicate { .. } | Command::ReplicateCommitted { .. } | Command::BroadcastHeartbeat { .. } | Command::BroadcastTransferLeader { .. } => {}
                Command::SaveCommitted { .. } => {}
            }
        }
        Ok(())
    }
    fn check_waits(&mut self) -> Res {
        let ws = std::mem::take(&mut self.waits);
        for w in ws {
            match w {
                Wait::Append(mut rx, v, last, es) => match rx.try_recv() {
                    Ok(r) => {
                        if r.unwrap() == AppendEntriesResponse::Success && v == *self.eng.state.vote_ref() {
                            ck!(self, ["C12"], self.saved_vote >= v, "success answered to {} before the vote is saved", v);
                            for e in es { ck!(self, ["C12"], self.durable.get(&e.index) == Some(&e) || (e.index as usize) < self.vlog.pn || (e.index as usize) < self.applied, "success answered but {} is not flushed", e); }
                            let _ = last;
                        }
                    }
                    Err(tokio::sync::oneshot::error::TryRecvError::Empty) => self.waits.push(Wait::Append(rx, v, last, es)),
                    Err(_) => {}
                },
                Wait::Snap(mut rx, v, id) => match rx.try_recv() {
                    Ok(_) => { ck!(self, ["C12", "C11"], self.snap.as_ref().map_or(false, |s| s.last_log_id >= Some(id)) && self.applied as u64 > id.index, "install of {} answered before it is done", id); }
                    Err(tokio::sync::oneshot::error::TryRecvError::Empty) => self.waits.push(Wait::Snap(rx, v, id)),
                    Err(_) => {}
                },
            }
        }
        Ok(())
    }
    /// the log store reports a write
    fn flush(&mut self) {
        if let Some((io, es)) = self.pend.pop_front() {
            for e in es { self.durable.insert(e.index, e); }
            self.notif.push_back(No::Io(io));
        }
    }
    fn sm_step(&mut self) -> Res {
        let Some(c) = self.smq.pop_front() else { return Ok(()) };
        match c {
            Sm::Build => {
                let sh = Sh { v: self.truth.clone(), pn: 0 };
                let last = if self.applied == 0 { None } else { Some(self.truth[self.applied - 1].log_id) };
                let meta = SnapshotMeta { last_log_id: last, last_membership: sh.last_mem(self.applied).unwrap_or_default(), snapshot_id: format!("b{}", self.applied) };
                if self.snap.as_ref().map_or(true, |s| s.last_log_id <= last) { self.snap = Some(meta.clone()); }
                self.notif.push_back(No::Built(meta));
            }
            Sm::Install(meta, io) => {
                let n = no_lid(meta.last_log_id) as usize;
                ck!(self, ["C11"], self.vlog.last() <= meta.last_log_id || self.vlog.id(n as u64 - 1) == meta.last_log_id, "a conflicting log {} is still there when {:?} is installed", self.vlog.show(), meta.last_log_id);
                ck!(self, ["C11", "C09"], n >= self.applied, "snapshot {:?} reverts the state machine at {}", meta.last_log_id, self.applied);
                self.applied = n;
                if self.vlog.v.len() < n { self.vlog.v = self.truth[..n].to_vec(); }
                self.snap = Some(meta.clone());
                self.notif.push_back(No::Installed(io, meta));
            }
            Sm::Apply(first, last) => {
                ck!(self, ["C09", "C11"], first as usize == self.applied, "apply from {} after {} entries", first, self.applied);
                for i in first..=last.index {
                    ck!(self, ["C09", "C10", "C11"], i as usize >= self.vlog.pn && self.vlog.v.len() as u64 > i, "entry {} to apply is gone: {}", i, self.vlog.show());
                    ck!(self, ["C09", "C07"], self.vlog.id(i) == self.truth.get(i as usize).map(|e| e.log_id), "applies {:?} at {}, committed {:?}", self.vlog.id(i), i, self.truth.get(i as usize).map(|e| e.log_id));
                }
                self.applied = last.index as usize + 1;
                self.notif.push_back(No::Applied(last));
            }
        }
        Ok(())
    }
    fn notify(&mut self) -> Res {
        let Some(n) = self.notif.pop_front() else { return Ok(()) };
        let pre = self.eng.state.deref().clone();
        match n {
            No::Io(io_id) => {
                self.eng.state.io_state.io_progress.try_flush(io_id);
                if self.io_done < Some(io_id) { self.io_done = Some(io_id); }
                if let IOId::Log(x) = io_id {
                    if self.eng.leader.as_ref().map(|l| *l.committed_vote) == Some(*io_id.vote_ref()) {
                        let me = self.me;
                        let had = self.eng.leader.as_ref().unwrap().progress.try_get(&me).map(|p| p.matching);
                        self.eng.replication_handler().update_local_progress(x.log_id);
                        self.invariants(&pre, &format!("flushed {io_id}"))?;
                        let got = self.eng.leader.as_ref().and_then(|l| l.progress.try_get(&me).map(|p| p.matching));
                        ck!(self, ["C12", "C05"], got == had.map(|h| h.max(x.log_id)), "own progress {:?} after flushing {:?}", got, x.log_id);
                        if had.map_or(false, |h| h < x.log_id) { let e = self.expected_commit(&pre); ck!(self, ["C05", "C09"], self.eng.state.committed == e, "committed {:?}, contract says {:?}", self.eng.state.committed, e); }
                        else { ck!(self, ["C05", "C09"], self.eng.state.committed == pre.committed, "committed without an acknowledgement"); }
                        self.learn_commit();
                        return Ok(());
                    }
                }
                self.invariants(&pre, &format!("flushed {io_id}"))
            }
            No::SelfVote(v) => {
                if self.eng.candidate.as_ref().map(|c| *c.vote_ref()) == Some(v) {
                    // only to win if the rest of the cluster allows it
                    let must = self.must_have();
                    let full = self.plog.v.len() >= must.len() && self.plog.v.iter().zip(&must).all(|(a, b)| a.log_id == b.log_id);
                    let may = full && self.ldrs.iter().all(|l| l.vote < v);
                    let m = self.eng.state.membership_state.effective().membership().clone();
                    let g: BTreeSet<u64> = self.eng.candidate.as_ref().unwrap().granters().collect();
                    if may || !quorum(&m, &|x| x == self.me || g.contains(&x)) { return self.vote_answer(self.me, VoteResponse::new(v, None, true)); }
                }
                Ok(())
            }
            No::Built(meta) => {
                let last = meta.last_log_id;
                let log0 = self.plog.clone();
                self.eng.finish_building_snapshot(meta.clone());
                self.invariants(&pre, &format!("built snapshot {:?}", last.map(|x| x.to_string())))?;
                let st: &RaftState<Cfg> = &self.eng.state;
                ck!(self, ["C11", "C10"], st.snapshot_meta.last_log_id == pre.snapshot_meta.last_log_id.max(last), "snapshot {:?} after {:?} was built", st.snapshot_meta.last_log_id, last);
                if last > pre.snapshot_meta.last_log_id {
                    let keep = self.eng.config.max_in_snapshot_log_to_keep;
                    let end = no_lid(last).saturating_sub(keep);
                    let want = if log0.pn as u64 + self.eng.config.purge_batch_size > end { pre.purge_upto } else { pre.purge_upto.max(log0.id(end - 1)) };
                    ck!(self, ["C10"], st.purge_upto == want, "purge position {:?} contract says {:?}: snapshot {:?} keep {} purged {}", st.purge_upto, want, last, keep, log0.pn);
                } else { ck!(self, ["C10", "C11"], st.purge_upto == pre.purge_upto && self.newcmds.is_empty(), "an old snapshot changes the state"); }
                if last >= self.eng.state.io_state.snapshot().copied() { self.eng.state.io_state_mut().update_snapshot(last); }
                Ok(())
            }
            No::Installed(io, meta) => {
                self.eng.state.io_state_mut().io_progress.try_flush(io);
                if self.io_done < Some(io) { self.io_done = Some(io); }
                let st = self.eng.state.io_state_mut();
                st.update_applied(meta.last_log_id);
                st.update_snapshot(meta.last_log_id);
                Ok(())
            }
            No::Applied(x) => { self.eng.state.io_state_mut().update_applied(Some(x)); Ok(()) }
        }
    }

    fn step(&mut self) -> Res {
        self.n_ops += 1;
        if self.lease { tick_clock(); }
        tick_clock();
        self.stale = false;
        let mut k = self.pick(100);
        let leads = self.eng.leader.is_some();
        if self.rule && !self.rng.chance(1, 25) {
            // lets this node win elections and keep leading
            if leads && (k < 12 || k >= 34 && k <= 40 || k == 48 || k == 41 && !self.rng.chance(1, 4)) { k = 52 + k % 18; }
            if !leads && (k < 49 && k >= 34 || k >= 52 && k < 70) { k = if self.eng.candidate.is_some() { 42 } else { 41 }; }
            if self.eng.candidate.is_some() && k < 34 { k = 95; }
        }
        let top = (0..self.ldrs.len()).max_by_key(|i| (self.ldrs[*i].vote.leader_id().term, self.ldrs[*i].vote.leader_id().node_id)).unwrap();
        let who = if self.rng.chance(2, 3) { top } else { self.pick(self.ldrs.len() as u64) as usize };
        match k {
            0..=11 => { if !leads || self.rng.chance(1, 8) { self.grow_leader() } }
            12..=33 => { if leads && self.rng.chance(1, 2) { self.op_write()? } else { self.op_append(who)? } }
            34..=37 => self.op_vote()?,
            38..=40 => self.op_snapshot(who)?,
            41 => self.op_elect()?,
            42..=47 => self.op_vote_answer()?,
            48 => self.op_higher()?,
            49 => self.op_write()?,
            50..=51 => self.op_read()?,
            52..=69 => { if leads { self.op_ack()? } }
            70..=71 => self.op_purge()?,
            72 => self.op_tick()?,
            73..=75 => self.op_misc()?,
            76..=83 => self.flush(),
            84..=88 => self.sm_step()?,
            _ => {}
        }
        if self.done { return Ok(()); }
        let r = self.pick(4);
        for _ in 0..r { match self.pick(4) { 0 => self.flush(), 1 => self.sm_step()?, 2 => self.notify()?, _ => { let pre = self.eng.state.deref().clone(); self.run_commands(4)?; self.invariants(&pre, "run")?; self.hist.pop_back(); } } }
        if self.eng.leader.is_none() && self.seen > 0 && self.rng.chance(1, 2) { self.run_commands(8)?; }
        Ok(())
    }
}

pub fn run(cx: &mut Cx) {
    let sims = cx.scale(8000, 150000);
    let t0 = std::time::Instant::now();
    let which = cx.which.clone();
    let mut leads = 0u64;
    let mut stat: BTreeMap<String, u64> = BTreeMap::new();
    for i in 0..sims {
        if t0.elapsed().as_secs() > cx.scale(60, 3000) { break; }
        let seed = cx.seed.wrapping_mul(1_000_003).wrapping_add(i);
        let mut s = Solo::new(&which, seed);
        let n = 60 + s.rng.below(200);
        for step in 0..n {
            let sp: *mut Solo = &mut s;
            let desc = || { let s = unsafe { &*sp }; format!("solo seed {seed} step {step}; last operations: {} || doing: {}", s.hist.iter().cloned().collect::<Vec<_>>().join(" || "), s.cur) };
            let r = cx.case("engine against a consistent cluster", desc, || unsafe { &mut *sp }.step());
            if !r || s.done { break; }
        }
        if s.eng.leader.is_some() { leads += 1; }
        for (k, v) in &s.stat { *stat.entry(k.clone()).or_insert(0) += v; }
    }
    if which == "all" { eprintln!("solo: {} of {} end as leader; {:?}", leads, sims, stat); }
}
