// Executable contracts: leader ids, votes and their order (C01).
use std::cmp::Ordering;

fn all_votes() -> Vec<Vote<u64>> {
    let mut v = vec![];
    for t in [0, 1, 2, 7, u64::MAX] {
        for n in [0, 1, 2, u64::MAX] {
            v.push(Vote::new(t, n));
            v.push(Vote::new_committed(t, n));
        }
    }
    v
}
fn key(v: &Vote<u64>) -> (u64, u64, bool) { (v.leader_id.term, v.leader_id.node_id, v.committed) }

pub fn run(cx: &mut Cx) {
    let vs = all_votes();
    for a in &vs {
        cx.case("Vote::is_committed, leader_id, into_committed", || format!("{a:?}"), || {
            want("is_committed", a.is_committed(), a.committed)?;
            want("leader_id", *a.leader_id(), a.leader_id)?;
            let c: CommittedVote<Cfg> = a.into_committed();
            want("into_committed", key(&c), (a.leader_id.term, a.leader_id.node_id, true))?;
            want("committed_leader_id", c.committed_leader_id(), CommittedLeaderId::new(a.leader_id.term, a.leader_id.node_id))?;
            if !a.committed {
                let n: NonCommittedVote<Cfg> = a.into_non_committed();
                want("into_non_committed", key(&n), key(a))?;
            }
            want("get_term", a.leader_id.get_term(), a.leader_id.term)?;
            want("voted_for", a.leader_id.voted_for(), Some(a.leader_id.node_id))
        });
        for b in &vs {
            cx.case("PartialOrd for Vote::partial_cmp", || format!("{a:?} ~ {b:?}"), || {
                let o = key(a).cmp(&key(b));
                want("partial_cmp", a.partial_cmp(b), Some(o))?;
                want(">=", a >= b, o != Ordering::Less)?;
                want(">", a > b, o == Ordering::Greater)?;
                want("<", a < b, o == Ordering::Less)?;
                want("<=", a <= b, o != Ordering::Greater)?;
                want("==", a == b, o == Ordering::Equal)
            });
            cx.case("CommittedVote::cmp", || format!("{a:?} ~ {b:?}"), || {
                let (x, y): (CommittedVote<Cfg>, CommittedVote<Cfg>) = (a.into_committed(), b.into_committed());
                want("cmp", x.cmp(&y), (key(a).0, key(a).1).cmp(&(key(b).0, key(b).1)))
            });
            cx.case("Vote::is_same_leader", || format!("{a:?} ~ {b:?}"), || {
                let c = b.leader_id.to_committed();
                want("is_same_leader", a.is_same_leader(&c), (key(a).0, key(a).1) == (key(b).0, key(b).1))
            });
        }
    }
}
