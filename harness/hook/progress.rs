// Executable contracts: the progress tracker (C05) and the replication progress entries (C16).
use crate::progress::entry::ProgressEntry;
use crate::progress::inflight::Inflight;
use crate::progress::Progress;
use crate::progress::VecProgress;
use crate::quorum::Joint;
use crate::raft_state::RaftState;
use crate::utime::Leased;
use crate::log_id::LogIdOptionExt;
use crate::SnapshotMeta;

type QS = Joint<u64, Vec<u64>, Vec<Vec<u64>>>;
type VP = VecProgress<u64, u64, u64, QS>;

fn is_q(cfgs: &[Vec<u64>], ids: &[u64]) -> bool {
    cfgs.iter().all(|c| 2 * c.iter().filter(|x| ids.contains(x)).count() > c.len())
}
/// the greatest value a quorum has reached
fn oracle(cfgs: &[Vec<u64>], vals: &BTreeMap<u64, u64>) -> u64 {
    let mut best = 0;
    for v in vals.values() {
        let ids: Vec<u64> = vals.iter().filter(|(_, x)| *x >= v).map(|(i, _)| *i).collect();
        if *v > best && is_q(cfgs, &ids) { best = *v; }
    }
    best
}
fn vals_of(p: &VP) -> BTreeMap<u64, u64> { p.iter().copied().collect() }
fn check(p: &VP, cfgs: &[Vec<u64>], want_vals: &BTreeMap<u64, u64>) -> Result<(), String> {
    want("number of entries", p.iter().count(), want_vals.len())?;
    want("values", &vals_of(p), want_vals)?;
    want("granted", *p.granted(), oracle(cfgs, want_vals))?;
    for i in 0..10u64 {
        want("try_get", p.try_get(&i).copied(), want_vals.get(&i).copied())?;
        let voter = cfgs.iter().any(|c| c.contains(&i));
        want(&format!("is_voter({i})"), p.is_voter(&i), want_vals.get(&i).map(|_| voter))?;
    }
    Ok(())
}
const CFGS: &[&[&[u64]]] = &[
    &[&[1]], &[&[1, 2]], &[&[1, 2, 3]], &[&[1, 2, 3, 4]], &[&[1, 2, 3, 4, 5]], &[&[3, 1, 2], &[2, 3, 4]],
    &[&[1, 2], &[3, 4]], &[&[1, 2, 3], &[4, 5, 6]], &[&[1, 2, 3, 4, 5, 6, 7]], &[&[2], &[1, 2, 3, 4]], &[&[1, 2, 3], &[3]],
];
fn cfgs_of(c: &[&[u64]]) -> Vec<Vec<u64>> { c.iter().map(|x| x.to_vec()).collect() }
fn voters(c: &[Vec<u64>]) -> BTreeSet<u64> { c.iter().flatten().copied().collect() }
fn learners(c: &[Vec<u64>], r: &mut Rng) -> Vec<u64> {
    let v = voters(c);
    (1..9u64).filter(|x| !v.contains(x) && r.chance(1, 3)).collect()
}
fn track(cx: &mut Cx) {
    for _ in 0..cx.scale(15000, 400000) {
        let mut c = cfgs_of(*cx.rng.pick(CFGS));
        let mut ls = learners(&c, &mut cx.rng);
        let mut vals: BTreeMap<u64, u64> = voters(&c).into_iter().chain(ls.iter().copied()).map(|x| (x, 0)).collect();
        let mut p: VP = VecProgress::new(Joint::from(c.clone()), ls.clone(), || 0);
        let mut hist = format!("new({c:?}, {ls:?})");
        let span = *cx.rng.pick(&[2u64, 4, 12]);
        for _ in 0..cx.rng.below(25) {
            match cx.rng.below(12) {
                0 => {
                    c = cfgs_of(*cx.rng.pick(CFGS));
                    ls = learners(&c, &mut cx.rng);
                    hist.push_str(&format!(".upgrade_quorum_set({c:?}, {ls:?})"));
                    let ids: BTreeSet<u64> = voters(&c).into_iter().chain(ls.iter().copied()).collect();
                    vals = ids.into_iter().map(|x| (x, vals.get(&x).copied().unwrap_or(0))).collect();
                    let q = p.clone();
                    if !cx.case("VecProgress::upgrade_quorum_set", || hist.clone(), || {
                        p = q.upgrade_quorum_set(Joint::from(c.clone()), ls.clone(), || 0);
                        check(&p, &c, &vals)
                    }) { break; }
                }
                1 => {
                    let id = cx.rng.below(10);
                    let v = cx.rng.below(span * 2);
                    hist.push_str(&format!(".increase_to({id},{v})"));
                    let known = vals.contains_key(&id);
                    if known && v > vals[&id] { vals.insert(id, v); }
                    let g = oracle(&c, &vals);
                    if !cx.case("VecProgress::increase_to", || hist.clone(), || {
                        let r = p.increase_to(&id, v).map(|x| *x).map_err(|x| *x);
                        want("result", r, if known { Ok(g) } else { Err(g) })?;
                        check(&p, &c, &vals)
                    }) { break; }
                }
                _ => {
                    let id = cx.rng.below(10);
                    let known = vals.contains_key(&id);
                    let v = vals.get(&id).copied().unwrap_or(0) + cx.rng.below(span);
                    hist.push_str(&format!(".update({id},{v})"));
                    if known { vals.insert(id, v); }
                    let g = oracle(&c, &vals);
                    let before = *p.granted();
                    if !cx.case("VecProgress::update", || hist.clone(), || {
                        let r = if v % 2 == 0 { p.update(&id, v).map(|x| *x).map_err(|x| *x) } else { p.update_with(&id, |x| *x = v).map(|x| *x).map_err(|x| *x) };
                        want("result", r, if known { Ok(g) } else { Err(g) })?;
                        holds("granted does not go back", *p.granted() >= before)?;
                        check(&p, &c, &vals)
                    }) { break; }
                }
            }
        }
    }
}

/// a leader's state: log from `first`, purge position requested, snapshot
pub fn state(log: &[LogId<u64>], purged: bool, purge_upto: Option<LogId<u64>>, snap: Option<LogId<u64>>, committed: Option<LogId<u64>>) -> RaftState<Cfg> {
    let mut s = RaftState::<Cfg>::default();
    let mut k: Vec<LogId<u64>> = vec![];
    for x in log {
        if k.last().map(|l| l.leader_id) != Some(x.leader_id) { k.push(*x); }
    }
    if let Some(l) = log.last() { if k.last() != Some(l) { k.push(*l); } }
    s.log_ids = LogIdList::new(k);
    s.purged_next = if purged { log[0].index + 1 } else { 0 };
    s.purge_upto = purge_upto;
    s.snapshot_meta = SnapshotMeta { last_log_id: snap, last_membership: Default::default(), snapshot_id: "s".to_string() };
    s.committed = committed;
    s
}
fn entries(cx: &mut Cx) {
    for _ in 0..cx.scale(20000, 500000) {
        let n = 1 + cx.rng.below(40);
        let start = *cx.rng.pick(&[0u64, 0, 1, 3, 10]);
        let mut t = 1;
        let log: Vec<LogId<u64>> = (0..n).map(|i| { if cx.rng.chance(1, 4) { t += 1; } lid(t, t % 3, start + i) }).collect();
        let last = *log.last().unwrap();
        let purged = start > 0;
        // purge_upto within the log
        let pu = if cx.rng.chance(1, 2) { Some(log[cx.rng.below(n) as usize]) } else if purged { Some(log[0]) } else { None };
        let lo = pu.map(|x| x.index - start).unwrap_or(0);
        let snap = if pu.is_some() { Some(log[(lo + cx.rng.below(n - lo)) as usize]) } else { None };
        let st = state(&log, purged, pu, snap, snap);
        let at = |i: u64| if i >= start && i < start + n { Some(log[(i - start) as usize]) } else { None };
        let prev = |i: u64| if i == 0 { None } else { at(i - 1) };
        // the follower: it matches the leader's log up to `m`
        let m = if cx.rng.chance(1, 3) { 0 } else { start + cx.rng.below(n + 1) };
        let matching0 = if cx.rng.chance(1, 2) { None } else if m > start { prev(start + cx.rng.below(m - start + 1)) } else { None };
        let matching0 = if matching0.is_some() && matching0 < pu && false { None } else { matching0 };
        let lowest = matching0.next_index();
        let end = lowest.max(m) + cx.rng.below((start + n).saturating_sub(lowest.max(m)) + 1);
        let mut p = ProgressEntry::<Cfg>::empty(end.min(start + n).max(lowest));
        p.matching = matching0;
        let mut hist = format!("log={:?}..{last} purge_upto={pu:?} snap={snap:?} follower_matches={m} matching={matching0:?} searching_end={}", log[0], p.searching_end);
        for _ in 0..12 {
            let max = *cx.rng.pick(&[1u64, 2, 3, 10, 300]);
            let q = p.clone();
            hist.push_str(&format!("; next_send({max})"));
            if !cx.case("ProgressEntry::next_send", || hist.clone(), || {
                let r = p.next_send(&st, max).map(|x| *x).map_err(|x| *x);
                want("matching", p.matching, q.matching)?;
                want("searching_end", p.searching_end, q.searching_end)?;
                if q.inflight != Inflight::None {
                    want("inflight is kept", (r, p.inflight), (Err(q.inflight), q.inflight))?;
                    return Ok(());
                }
                let pn = pu.next_index();
                if q.searching_end < pn {
                    return want("a snapshot is sent", (r, p.inflight), (Ok(Inflight::snapshot(snap)), Inflight::snapshot(snap)));
                }
                match r {
                    Err(x) => {
                        want("nothing in flight", (x, p.inflight), (Inflight::None, Inflight::None))?;
                        holds("nothing to send", q.searching_end >= start + n || q.matching.next_index() < q.searching_end)
                    }
                    Ok(x) => {
                        want("what is returned is in flight", x, p.inflight)?;
                        match x {
                            Inflight::Logs { log_id_range: g } => {
                                let (a, b) = (g.prev.next_index(), g.last.next_index());
                                holds("starts in the range to be searched", q.matching.next_index() <= a && a <= q.searching_end)?;
                                holds("does not start at purged logs", a >= pn)?;
                                holds("prev is a log of the leader", g.prev == prev(a))?;
                                holds("last is a log of the leader", g.last.is_some() && g.last == prev(b))?;
                                holds("at most max entries", a < b && b <= a + max)
                            }
                            x => Err(format!("logs are sent: got {x:?}")),
                        }
                    }
                }
            }) { break; }
            // what is in flight is determined, and so is the answer
            for i in 0..(start + n) {
                if let Some(l) = at(i) {
                    let exp = match p.inflight { Inflight::Logs { log_id_range: g } => Some(l) > g.prev, _ => false };
                    if i % 5 == 0 && !cx.case("ProgressEntry::is_log_range_inflight", || format!("{hist} {l}"), || want("is_log_range_inflight", p.is_log_range_inflight(&l), exp)) { return; }
                }
            }
            let q = p.clone();
            match p.inflight {
                Inflight::None => break,
                Inflight::Snapshot { last_log_id } => {
                    if Some(lid(0, 0, 0)) > last_log_id || q.matching >= last_log_id { break; }
                    hist.push_str(&format!("; update_matching({last_log_id:?})"));
                    if !cx.case("ProgressEntry::update_matching", || hist.clone(), || {
                        p.update_matching(last_log_id);
                        want("matching, searching_end", (p.matching, p.searching_end), (last_log_id, q.searching_end.max(last_log_id.next_index())))?;
                        want("inflight", p.inflight, Inflight::None)
                    }) { break; }
                }
                Inflight::Logs { log_id_range: g } => {
                    if g.prev.next_index() > m.max(q.matching.next_index()) && g.prev.is_some() {
                        let c = g.prev.unwrap().index;
                        hist.push_str(&format!("; update_conflicting({c})"));
                        if !cx.case("ProgressEntry::update_conflicting", || hist.clone(), || {
                            p.update_conflicting(c);
                            want("matching, searching_end", (p.matching, p.searching_end), (q.matching, c))?;
                            want("inflight", p.inflight, Inflight::None)
                        }) { break; }
                    } else {
                        // acknowledged in part or in full
                        let b = g.last.next_index();
                        let a = g.prev.next_index();
                        let k = if cx.rng.chance(1, 3) { a + cx.rng.below(b - a + 1) } else { b };
                        let ack = prev(k);
                        hist.push_str(&format!("; update_matching({ack:?})"));
                        if !cx.case("ProgressEntry::update_matching", || hist.clone(), || {
                            p.update_matching(ack);
                            want("matching, searching_end", (p.matching, p.searching_end), (ack, q.searching_end.max(ack.next_index())))?;
                            want("inflight", p.inflight, if ack < g.last { Inflight::logs(ack, g.last) } else { Inflight::None })
                        }) { break; }
                        if ack < g.last { break; }
                    }
                }
            }
        }
    }
}
fn small(cx: &mut Cx) {
    // first send: everything is enumerated for short logs
    for n in 1..6u64 {
        let log: Vec<LogId<u64>> = (0..n).map(|i| lid(1 + i / 2, 1, i)).collect();
        let prev = |i: u64| if i == 0 { None } else { Some(log[i as usize - 1]) };
        for m in 0..=n { for e in m..=n { for max in 0..4u64 {
            let st = state(&log, false, None, None, None);
            cx.case("ProgressEntry::next_send (small)", || format!("log 0..{n} matching {m} end {e} max {max}"), || {
                let mut p = ProgressEntry::<Cfg>::empty(e);
                p.matching = prev(m);
                let r = p.next_send(&st, max).is_ok();
                holds("sends", r == (max > 0 && (m < n) && (m < e || e < n)))?;
                let p2 = ProgressEntry::<Cfg>::new(prev(m));
                want("new", (p2.matching, p2.searching_end, p2.inflight), (prev(m), m, Inflight::None))
            });
        } } }
    }
}
pub fn run(cx: &mut Cx) {
    if cx.wants(&["C05", "C15"]) { track(cx); }
    if cx.wants(&["C16"]) { entries(cx); small(cx); }
}
