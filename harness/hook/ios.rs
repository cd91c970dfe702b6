// Executable contracts: io ids and io progress (C12).
use crate::raft_state::IOId;
use crate::raft_state::io_state::io_progress::IOProgress;
use crate::raft_state::io_state::IOState;
use crate::raft_state::io_state::log_io_id::LogIOId;
use validit::Validate;
pub type Io = IOId<Cfg>;
pub fn all_ios() -> Vec<Io> {
    let mut r = vec![];
    for t in 0..3u64 {
        for n in 0..2u64 {
            r.push(Io::new(Vote::new(t, n)));
            r.push(Io::new(Vote::new_committed(t, n)));
            for (lt, i) in [(0, 0), (t, 1), (t, 2)] {
                r.push(Io::new_log_io(Vote::new(t, n).into_committed(), Some(lid(lt, 0, i))));
            }
        }
    }
    r
}
pub fn iokey(x: &Io) -> (u64, u64, bool, Option<(u64, u64, u64)>) {
    let v = x.vote_ref();
    (v.leader_id.term, v.leader_id.node_id, v.committed, x.last_log_id().map(|l| (l.leader_id.term, l.leader_id.node_id, l.index)))
}
pub fn run(cx: &mut Cx) {
    let ios = all_ios();
    for a in &ios {
        cx.case("IOId::new", || format!("{a:?}"), || {
            let v = *a.vote_ref();
            let n = Io::new(v);
            want("vote", *n.vote_ref(), v)?;
            want("log", n.last_log_id(), None)?;
            holds("committed vote -> Log, other -> Vote", matches!(n, IOId::Log(_)) == v.committed)
        });
        for b in &ios {
            cx.case("PartialOrd for IOId::partial_cmp", || format!("{a:?} ~ {b:?}"), || {
                want("cmp", a.partial_cmp(b), Some(iokey(a).cmp(&iokey(b))))?;
                want("eq", a == b, iokey(a) == iokey(b))
            });
            for c in &ios {
                if !(a <= b && b <= c) { continue; }
                cx.case("IOProgress::accept, submit, flush", || format!("{a:?} {b:?} {c:?}"), || {
                    let mut p: IOProgress<Io> = IOProgress::default();
                    want("default", (p.accepted(), p.submitted(), p.flushed()), (None, None, None))?;
                    p.accept(*b);
                    p.accept(*c);
                    p.submit(*a);
                    p.submit(*b);
                    p.flush(*a);
                    want("three cursors", (p.accepted(), p.submitted(), p.flushed()), (Some(c), Some(b), Some(a)))?;
                    holds("validate", p.validate().is_ok())?;
                    if a < b {
                        let mut q: IOProgress<Io> = IOProgress::default();
                        q.accept(*c); q.submit(*a); q.flush(*b);
                        holds("flushed beyond submitted is invalid", q.validate().is_err())?;
                        let mut q: IOProgress<Io> = IOProgress::default();
                        q.accept(*a); q.submit(*b); q.flush(*a);
                        holds("submitted beyond accepted is invalid", q.validate().is_err())?;
                    }
                    Ok(())
                });
            }
        }
    }
    let os = [None, Some(lid(1, 0, 1)), Some(lid(1, 0, 2)), Some(lid(2, 1, 3))];
    for v in [Vote::new(1, 1), Vote::new_committed(2, 1)] {
        for ap in os { for sn in os { for pu in os {
            cx.case("IOState::new", || format!("{v:?} {ap:?} {sn:?} {pu:?}"), || {
                let mut s: IOState<Cfg> = IOState::new(v, ap, sn, pu);
                want("cursors", (s.applied().copied(), s.snapshot().copied(), s.purged().copied()), (ap, sn, pu))?;
                want("not building", s.building_snapshot(), false)?;
                let io = Io::new(v);
                want("io progress", (s.io_progress.accepted(), s.io_progress.submitted(), s.io_progress.flushed()), (Some(&io), Some(&io), Some(&io)))?;
                want("validate", s.validate().is_ok(), sn <= ap && pu <= sn)?;
                let newer = Some(lid(9, 9, 9));
                s.update_applied(newer); s.update_snapshot(newer); s.update_purged(newer);
                s.set_building_snapshot(true);
                want("updated", (s.applied().copied(), s.snapshot().copied(), s.purged().copied(), s.building_snapshot()), (newer, newer, newer, true))
            });
        }}}
    }
    let _ = LogIOId::<Cfg>::new(Vote::new(1, 1).into_committed(), None);
}
