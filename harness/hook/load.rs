// Executable contracts of start-up: what StorageHelper loads, from what a run can leave behind.
mod store {
    use super::super::common::*;
    type Data = std::io::Cursor<Vec<u8>>;
    fn fresh() -> Data { Data::new(vec![]) }
    async fn pause() {}
    fn note(_: &Store, _: Note) {}
    fn later(_: &Store) {}
    include!("store.rs");
}
use store::*;
use crate::entry::RaftEntry;
use crate::entry::RaftPayload;
use crate::raft_state::LogStateReader;
use crate::Membership;
use crate::StorageHelper;
use crate::StoredMembership;
use crate::storage::SnapshotMeta;

fn block<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = futures::task::noop_waker();
    let mut c = std::task::Context::from_waker(&w);
    loop { if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut c) { return x; } }
}
fn mem(k: u64) -> Membership<Cfg> {
    let vs: BTreeSet<u64> = (1..=(1 + k % 4)).collect();
    Membership::<Cfg>::new(vec![vs.clone()], vs.iter().map(|x| (*x, 100 + *x)).chain([(9, 109 + k)]).collect::<BTreeMap<u64, u64>>())
}
fn stored(v: &[Ent]) -> Vec<StoredMembership<Cfg>> {
    v.iter().filter_map(|e| e.get_membership().map(|m| StoredMembership::new(Some(e.log_id), m.clone()))).collect()
}
pub fn run(cx: &mut Cx) {
    let n = cx.scale(6_000, 100_000);
    for round in 0..n {
        let len = *cx.rng.pick(&[0u64, 1, 2, 3, 5, 9, 40, 63, 64, 65, 66, 127, 128, 129, 130, 200]);
        let jump = *cx.rng.pick(&[1u64, 2, 7, 30, 1000]);
        let dens = *cx.rng.pick(&[1u64, 3, 20, 70, 100]);
        // the whole history of the node, purged or not
        let (mut term, mut node) = (0, 0);
        let mut all: Vec<Ent> = vec![];
        for i in 0..len {
            if i == 1 || (i > 0 && cx.rng.chance(1, jump)) { term += 1 + cx.rng.below(2); node = 1 + cx.rng.below(3); }
            let l = lid(term, node, i);
            all.push(if i == 0 || cx.rng.chance(1, dens) { Ent::new_membership(l, mem(i)) } else if cx.rng.chance(1, 5) { Ent::new_blank(l) } else { Ent { log_id: l, payload: crate::EntryPayload::Normal(i) } });
        }
        let id = |k: u64| if k == 0 { None } else { Some(all[k as usize - 1].log_id) };
        // purged <= snapshot <= applied <= committed <= last, as counts
        let mut cut = vec![cx.rng.below(len + 1), cx.rng.below(len + 1), cx.rng.below(len + 1), cx.rng.below(len + 1)];
        if cx.rng.chance(1, 3) { cut[0] = 0; }
        if cx.rng.chance(1, 3) { cut[1] = cut[2]; }
        cut.sort();
        let (purged, snap, applied, commit) = (cut[0], cut[1], cut[2], cut[3]);
        let has_snap = snap > 0 && cx.rng.chance(3, 4);
        let keep_committed = cx.rng.chance(2, 3);
        // a crash after a snapshot is installed and before the logs are cleaned: the log ends before what is applied
        let behind = cx.rng.chance(1, 5) && applied > 0;
        let (applied, last) = if behind { (applied, purged + cx.rng.below(applied - purged + 1)) } else { (applied, len) };
        let commit = if !keep_committed { 0 } else if behind { cx.rng.below(last + 1) } else if cx.rng.chance(1, 6) { cx.rng.below(commit + 1) } else { commit };
        let snap = if behind { applied } else { snap };
        let vote = if cx.rng.chance(1, 6) { None } else { Some(if cx.rng.chance(1, 2) { Vote::new_committed(term + cx.rng.below(2), node) } else { Vote::new(term + 1, 2) }) };
        let st = Store::default();
        let machine = |k: u64| Machine { done: all[..k as usize].to_vec(), last: id(k), mem: stored(&all[..k as usize]).last().cloned().unwrap_or_default() };
        st.with(|s| {
            s.vote = vote; s.purged = id(purged); s.committed = id(commit); s.keep_committed = true;
            for e in &all[purged as usize..last as usize] { s.log.insert(e.log_id.index, e.clone()); }
            s.durable = s.log.clone();
            s.sm = machine(applied);
            if has_snap || behind { let m = machine(snap); s.snap = Some((SnapshotMeta { last_log_id: m.last, last_membership: m.mem, snapshot_id: "s".into() }, vec![1])); }
        });
        let c = applied.max(commit);
        let show = || format!("seed round {round}: {} logs ending {:?}, purged {purged} snapshot {snap}({has_snap}) applied {applied} committed {commit} in log {last}, vote {vote:?}", len, id(len));
        cx.case("StorageHelper::get_initial_state", show, || {
            let (mut ls, mut sm) = (st.clone(), SmStore(st.clone()));
            let x = block(StorageHelper::new(&mut ls, &mut sm).get_initial_state()).map_err(|e| format!("{e}"))?;
            let hole = id(last) < id(c);
            let (p, l) = if hole { (c, c) } else { (purged, last) };
            want("vote", *x.vote, vote.unwrap_or_default())?;
            want("committed", x.committed, id(c))?;
            want("applied", x.io_state.applied().copied(), id(c))?;
            want("purged_next", x.purged_next, p)?;
            want("purge_upto", x.purge_upto, id(p))?;
            want("last log id", x.last_log_id().copied(), id(l))?;
            want("last purged", x.last_purged_log_id().copied(), id(p))?;
            for i in 0..len + 2 {
                let exp = if i + 1 >= p.max(1) && i < l { Some(all[i as usize].log_id) } else { None };
                want(&format!("log id at {i}"), x.get_log_id(i), exp)?;
            }
            let (done, mems) = st.with(|s| (s.sm.done.iter().map(|e| e.log_id).collect::<Vec<_>>(), s.bad.clone()));
            want("applied to the state machine", done, all[..c as usize].iter().map(|e| e.log_id).collect())?;
            if let Some(b) = mems.first() { return Err(format!("storage misused: {b}")); }
            let m = stored(&all[c as usize..(last.max(c)) as usize]);
            let base = machine(c).mem;
            let e = m.last().cloned().unwrap_or(base.clone());
            let k = if m.len() >= 2 { m[m.len() - 2].clone() } else { base };
            want("effective membership", x.membership_state.effective().stored_membership().as_ref().clone(), e)?;
            want("committed membership", x.membership_state.committed().stored_membership().as_ref().clone(), k)?;
            match (has_snap || behind, p > 0) {
                (true, _) => want("snapshot", x.snapshot_meta.last_log_id, id(snap))?,
                (false, true) => { want("snapshot rebuilt", x.snapshot_meta.last_log_id, id(c))?; want("its membership", x.snapshot_meta.last_membership.clone(), machine(c).mem)?; }
                (false, false) => want("no snapshot", x.snapshot_meta.last_log_id, None)?,
            }
            want("snapshot position", x.io_state.snapshot().copied(), x.snapshot_meta.last_log_id)
        });
        cx.case("StorageHelper::last_membership_in_log", show, || {
            let (mut ls, mut sm) = (st.clone(), SmStore(st.clone()));
            let lo = st.with(|s| s.purged.map(|x| x.index + 1).unwrap_or(0));
            let hi = st.with(|s| s.last().map(|x| x.index + 1).unwrap_or(0));
            for since in [0, lo, lo + 1, hi.saturating_sub(64), hi.saturating_sub(1), hi, hi + 1, applied] {
                let got = block(StorageHelper::new(&mut ls, &mut sm).last_membership_in_log(since)).map_err(|e| format!("{e}"))?;
                let a = since.max(lo).min(hi) as usize;
                let m = stored(&all[a..hi as usize]);
                let exp = m[m.len().saturating_sub(2)..].to_vec();
                want(&format!("memberships since {since}"), got, exp)?;
            }
            Ok(())
        });
    }
}
