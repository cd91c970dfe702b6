// Executable contracts: what a node reports from its vote and membership (C18).
use crate::raft_state::RaftState;
use crate::raft_state::LogStateReader;
use crate::type_config::TypeConfigExt;
use crate::utime::Leased;
use crate::EffectiveMembership;
use crate::Membership;
use crate::MembershipState;
use crate::ServerState;

fn st(v: Vote<u64>, voters: &[Vec<u64>], learners: &[u64]) -> RaftState<Cfg> {
    let mut s = RaftState::<Cfg>::default();
    s.vote = Leased::new(Cfg::now(), Duration::from_millis(0), v);
    let mut nodes: BTreeMap<u64, u64> = BTreeMap::new();
    for x in voters.iter().flatten().chain(learners.iter()) { nodes.insert(*x, 100 + *x); }
    let m = Membership::<Cfg>::new(voters.iter().map(|x| x.iter().copied().collect()).collect(), nodes);
    let e = Arc::new(EffectiveMembership::new(Some(lid(1, 1, 1)), m));
    s.membership_state = MembershipState::new(e.clone(), e);
    s
}

pub fn run(cx: &mut Cx) {
    let mems: &[(&[&[u64]], &[u64])] = &[(&[], &[]), (&[&[1]], &[]), (&[&[1, 2, 3]], &[4]), (&[&[1, 2], &[2, 3]], &[4, 5]), (&[&[2]], &[1]), (&[&[2, 3]], &[])];
    for (vs, ls) in mems {
        let voters: Vec<Vec<u64>> = vs.iter().map(|x| x.to_vec()).collect();
        for term in 0..3u64 { for node in 0..6u64 { for committed in [false, true] {
            let v = if committed { Vote::new_committed(term, node) } else { Vote::new(term, node) };
            let s = st(v, &voters, ls);
            let known = |x: u64| voters.iter().flatten().any(|y| *y == x) || ls.contains(&x);
            let voter = |x: u64| voters.iter().flatten().any(|y| *y == x);
            for me in 0..6u64 {
                cx.case("RaftState: server state", || format!("vote {v} voters {voters:?} learners {ls:?} node {me}"), || {
                    let named = known(me) && node == me;
                    want("is_voter", s.is_voter(&me), voter(me))?;
                    want("is_leading", s.is_leading(&me), named)?;
                    want("is_leader", s.is_leader(&me), named && committed)?;
                    let exp = if named { if committed { ServerState::Leader } else { ServerState::Candidate } } else if voter(me) { ServerState::Follower } else { ServerState::Learner };
                    want("calc_server_state", s.calc_server_state(&me), exp)?;
                    let f = s.new_forward_to_leader(me);
                    want("new_forward_to_leader", (f.leader_id, f.leader_node), if known(me) { (Some(me), Some(100 + me)) } else { (None, None) })
                });
            }
            cx.case("RaftState: forward_to_leader", || format!("vote {v} voters {voters:?} learners {ls:?}"), || {
                let f = s.forward_to_leader();
                want("forward_to_leader", (f.leader_id, f.leader_node), if committed && known(node) { (Some(node), Some(100 + node)) } else { (None, None) })?;
                want("is_initialized", s.is_initialized(), v != Vote::default())
            });
        } } }
    }
}
