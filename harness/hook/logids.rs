// Executable contracts: the compressed log-id list against the full list of log ids (C08).
use crate::log_id::LogIdOptionExt;
type L = LogIdList<Cfg>;

/// the key log ids of a run of consecutive log ids: the first of every leader, and the last
fn keys(full: &[LogId<u64>]) -> Vec<LogId<u64>> {
    let mut r: Vec<LogId<u64>> = vec![];
    for x in full {
        if r.last().map(|l| l.leader_id) != Some(x.leader_id) { r.push(*x); }
    }
    if let Some(l) = full.last() {
        if r.last() != Some(l) { r.push(*l); }
    }
    r
}
/// all runs with `n` entries from index `start`; the leader changes where the bit of `mask` is set
pub fn full_log(start: u64, n: u64, mask: u64) -> Vec<LogId<u64>> {
    let mut t = 1;
    (0..n).map(|i| {
        if i > 0 && mask >> i & 1 == 1 { t += 1 + (i % 2); }
        lid(t, t % 3, start + i)
    }).collect()
}
/// `l` answers exactly as `full` does
fn same(l: &L, full: &[LogId<u64>], hi: u64) -> Result<(), String> {
    for i in 0..=hi {
        want(&format!("get({i})"), l.get(i), full.iter().find(|x| x.index == i).copied())?;
    }
    want("first", l.first(), full.first())?;
    want("last", l.last(), full.last())?;
    let k = l.key_log_ids();
    let mut seen = 0;
    for w in k.windows(2) {
        holds("key log ids ascend", w[0] < w[1] && w[0].index < w[1].index)?;
        if w[0].leader_id == w[1].leader_id { seen += 1; }
    }
    holds("at most the last two share a leader", seen <= 1 && (seen == 0 || k[k.len() - 1].leader_id == k[k.len() - 2].leader_id))
}
pub fn run(cx: &mut Cx) {
    let nmax = cx.scale(6, 8);
    for start in [0u64, 1, 3, 10] {
        for n in 0..=nmax {
            for m in 0..(1u64 << n.saturating_sub(1)) {
                let full = full_log(start, n, m << 1);
                let l = L::new(keys(&full));
                let hi = start + n + 3;
                cx.case("LogIdList::get, first, last, key_log_ids", || format!("{full:?}"), || same(&l, &full, hi));
                cx.case("LogIdList::by_last_leader", || format!("{full:?}"), || {
                    let b = l.by_last_leader();
                    match full.last() {
                        None => want("by_last_leader", b.len(), 0),
                        Some(last) => {
                            let f = full.iter().find(|x| x.leader_id == last.leader_id).unwrap();
                            let e = if f == last { vec![*f] } else { vec![*f, *last] };
                            want("by_last_leader", b.to_vec(), e)
                        }
                    }
                });
                let last = full.last().copied();
                for gap in 0..3u64 {
                    for bump in 0..2u64 {
                        if full.is_empty() && bump == 0 { continue; }
                        let t = last.map(|x| x.leader_id.term).unwrap_or(0) + bump;
                        let node = if bump == 0 { last.unwrap().leader_id.node_id } else { 1 };
                        let new = lid(t, node, last.map(|x| x.index + 1).unwrap_or(start) + gap);
                        cx.case("LogIdList::append", || format!("{full:?} + {new:?}"), || {
                            let mut l2 = l.clone();
                            l2.append(new);
                            let mut f2 = full.clone();
                            if let Some(x) = last {
                                for i in 0..gap { f2.push(LogId::new(x.leader_id, x.index + 1 + i)); }
                            }
                            f2.push(new);
                            same(&l2, &f2, hi + 3)
                        });
                    }
                }
                for at in 0..=hi {
                    cx.case("LogIdList::truncate", || format!("{full:?} truncate({at})"), || {
                        let mut l2 = l.clone();
                        l2.truncate(at);
                        let f2: Vec<_> = full.iter().filter(|x| x.index < at).copied().collect();
                        same(&l2, &f2, hi)
                    });
                }
                for u in full.iter().copied().chain((0..3).map(|k| lid(last.map(|x| x.leader_id.term + k % 2).unwrap_or(1), 9, start + n + k)))
                    .chain(if start > 0 && n > 0 { vec![lid(1, 0, start - 1)] } else { vec![] })
                {
                    if n == 0 && u.index < LogIdOptionExt::next_index(&last) { continue; }
                    if u.index >= start + n && last.is_some() && Some(u) <= last { continue; }
                    cx.case("LogIdList::purge", || format!("{full:?} purge({u:?})"), || {
                        let mut l2 = l.clone();
                        l2.purge(&u);
                        let f2: Vec<_> = if u.index >= start + n { vec![u] } else { full.iter().filter(|x| x.index >= u.index).copied().collect() };
                        same(&l2, &f2, hi + 2)
                    });
                }
                for k in 1..=3u64 {
                    for bits in 0..(1u64 << k) {
                        let mut f2 = full.clone();
                        let mut add = vec![];
                        let mut t = last.map(|x| x.leader_id).unwrap_or(CommittedLeaderId::new(0, 0));
                        for i in 0..k {
                            if bits >> i & 1 == 1 { t = CommittedLeaderId::new(t.term + 1, i); }
                            add.push(LogId::new(t, last.map(|x| x.index + 1).unwrap_or(start) + i));
                        }
                        f2.extend(add.iter().copied());
                        cx.case("LogIdList::extend", || format!("{full:?} extend {add:?}"), || {
                            let mut l2 = l.clone();
                            l2.extend(&add);
                            same(&l2, &f2, hi + 3)
                        });
                        if add.iter().all(|x| x.leader_id == add[0].leader_id) {
                            cx.case("LogIdList::extend_from_same_leader", || format!("{full:?} extend {add:?}"), || {
                                let mut l2 = l.clone();
                                l2.extend_from_same_leader(&add);
                                same(&l2, &f2, hi + 3)
                            });
                        }
                    }
                }
            }
        }
    }
    // order and helpers of log ids
    let ids: Vec<LogId<u64>> = (0..3).flat_map(|t| (0..2).flat_map(move |n| (0..3).map(move |i| lid(t, n, i)))).collect();
    for a in &ids {
        for b in &ids {
            cx.case("LogId: order", || format!("{a:?} ~ {b:?}"), || {
                want("cmp", a.cmp(b), (a.leader_id.term, a.leader_id.node_id, a.index).cmp(&(b.leader_id.term, b.leader_id.node_id, b.index)))?;
                want("partial_cmp", a.partial_cmp(b), Some(a.cmp(b)))?;
                want("eq", a == b, a.cmp(b) == std::cmp::Ordering::Equal)
            });
        }
        cx.case("LogIdOptionExt::next_index", || format!("{a:?}"), || {
            want("next_index", Some(*a).next_index(), a.index + 1)?;
            want("next_index None", None::<LogId<u64>>.next_index(), 0)
        });
    }
}
