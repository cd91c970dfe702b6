// Executable contracts: memberships, membership changes, the two memberships a node keeps (C04, C06, C13).
use crate::error::ChangeMembershipError;
use crate::error::{EmptyMembership, InProgress, LearnerNotFound};
use crate::log_id::LogIdOptionExt;
use crate::quorum::QuorumSet;
use crate::{ChangeMembers, EffectiveMembership, Membership, MembershipState};

type M = Membership<Cfg>;
type Em = EffectiveMembership<Cfg>;
type Sets = Vec<BTreeSet<u64>>;
type Nodes = BTreeMap<u64, u64>;

pub fn set(m: u64) -> BTreeSet<u64> { (0..6).filter(|i| m >> i & 1 == 1).collect() }
fn nodes_of(ids: &BTreeSet<u64>, tag: u64) -> Nodes { ids.iter().map(|i| (*i, tag + i)).collect() }
fn raw(cfgs: &Sets, nodes: &Nodes) -> M { M::new_unchecked(cfgs.clone(), nodes.clone()) }
fn all(cfgs: &Sets) -> BTreeSet<u64> { cfgs.iter().flatten().copied().collect() }
fn maj(v: &BTreeSet<u64>, ids: &BTreeSet<u64>) -> bool { v.intersection(ids).count() * 2 > v.len() }

/// the membership a change leads to, as the statement of C06 says; Err: the change has to be refused
fn oracle(cfgs: &Sets, nodes: &Nodes, ch: &ChangeMembers<Cfg>, retain: bool) -> Result<(Sets, Nodes), u64> {
    let last = cfgs.last().cloned().unwrap_or_default();
    let mut n = nodes.clone();
    let goal = match ch {
        ChangeMembers::AddVoterIds(s) => Some(last.union(s).copied().collect()),
        ChangeMembers::AddVoters(m) => {
            for (k, v) in m { if !n.contains_key(k) { n.insert(*k, *v); } }
            Some(last.union(&m.keys().copied().collect()).copied().collect::<BTreeSet<u64>>())
        }
        ChangeMembers::RemoveVoters(s) => Some(last.difference(s).copied().collect()),
        ChangeMembers::ReplaceAllVoters(s) => Some(s.clone()),
        ChangeMembers::AddNodes(m) => { for (k, v) in m { if !n.contains_key(k) { n.insert(*k, *v); } } None }
        ChangeMembers::SetNodes(m) => { for (k, v) in m { n.insert(*k, *v); } None }
        ChangeMembers::RemoveNodes(s) => { for k in s { n.remove(k); } None }
        ChangeMembers::ReplaceAllNodes(m) => { n = m.clone(); None }
    };
    let c = match goal {
        None => cfgs.clone(),
        Some(g) => {
            let c = if cfgs.contains(&g) || cfgs.is_empty() { vec![g] } else { vec![last, g] };
            if !retain { let keep = all(&c); for x in all(cfgs) { if !keep.contains(&x) { n.remove(&x); } } }
            c
        }
    };
    if c.iter().any(|x| x.is_empty()) { return Err(0); }
    if all(&c).iter().any(|x| !n.contains_key(x)) { return Err(1); }
    Ok((c, n))
}

fn one_change(cx: &mut Cx, cfgs: &Sets, nodes: &Nodes, ch: ChangeMembers<Cfg>, retain: bool) {
    let m = raw(cfgs, nodes);
    cx.case("Membership::change", || format!("{cfgs:?} {nodes:?} {ch:?} retain={retain}"), || {
        let e = oracle(cfgs, nodes, &ch, retain);
        let r = m.clone().change(ch.clone(), retain);
        match (&r, &e) {
            (Ok(g), Ok((c, n))) => {
                want("voter sets", g.get_joint_config(), c)?;
                want("nodes", g.nodes().map(|(a, b)| (*a, *b)).collect::<Nodes>(), n.clone())?;
                holds("shares a voter set", cfgs.is_empty() || c.iter().any(|x| cfgs.contains(x)))
            }
            (Err(ChangeMembershipError::EmptyMembership(EmptyMembership {})), Err(0)) => Ok(()),
            (Err(ChangeMembershipError::LearnerNotFound(LearnerNotFound { .. })), Err(1)) => Ok(()),
            _ => Err(format!("got {r:?}, contract says {e:?}")),
        }
    });
    // a change is refused while another one is not committed
    let c0 = Arc::new(Em::new(Some(lid(1, 1, 3)), m.clone()));
    let e1 = Arc::new(Em::new(Some(lid(1, 1, 5)), m.clone()));
    let e2 = Arc::new(Em::new(Some(lid(2, 1, 3)), m.clone()));
    cx.case("ChangeHandler::apply", || format!("{cfgs:?} {nodes:?} {ch:?} retain={retain}"), || {
        for (c, e, quiet) in [(&c0, &c0, true), (&c0, &e1, false), (&c0, &e2, false)] {
            let st = MembershipState::new(c.clone(), e.clone());
            let r = st.change_handler().apply(ch.clone(), retain);
            let expect = if quiet {
                m.clone().change(ch.clone(), retain)
            } else {
                Err(ChangeMembershipError::InProgress(InProgress { committed: *c.log_id(), membership_log_id: *e.log_id() }))
            };
            want("apply", r, expect)?;
        }
        Ok(())
    });
}

fn membership_state(cx: &mut Cx) {
    let m = |i: u64| M::new_unchecked(vec![set(1 + i % 6), set(3)], nodes_of(&set(7 + i), i));
    let ids: Vec<Option<LogId<u64>>> = vec![None, Some(lid(0, 0, 0)), Some(lid(1, 1, 1)), Some(lid(1, 1, 2)), Some(lid(1, 1, 4)), Some(lid(2, 2, 2)), Some(lid(2, 2, 4)), Some(lid(2, 2, 5)), Some(lid(3, 1, 7))];
    for (ic, c) in ids.iter().enumerate() {
        for (ie, e) in ids.iter().enumerate() {
            if !(c <= e && c.index() <= e.index()) { continue; }
            if c == e && ic != ie { continue; }
            let ca = Arc::new(Em::new(*c, m(ic as u64)));
            let ea = Arc::new(Em::new(*e, m(ie as u64)));
            let st = MembershipState::new(ca.clone(), ea.clone());
            let show = format!("committed {c:?} effective {e:?}");
            for (ix, x) in ids.iter().enumerate() {
                if !(x >= e) || x.index() >= e.index() {
                    cx.case("MembershipState::commit", || format!("{show} commit {x:?}"), || {
                        let mut s = st.clone();
                        s.commit(x);
                        want("effective", s.effective(), &ea)?;
                        want("committed", s.committed(), if x >= e { &ea } else { &ca })
                    });
                }
                let xa = Arc::new(Em::new(*x, if x == c { m(ic as u64) } else if x == e { m(ie as u64) } else { m(10 + ix as u64) }));
                cx.case("MembershipState::update_committed", || format!("{show} update {x:?}"), || {
                    let mut s = st.clone();
                    let r = s.update_committed(xa.clone());
                    let newer = x.index() >= e.index();
                    want("effective", s.effective(), if newer { &xa } else { &ea })?;
                    want("committed", s.committed(), if x > c { &xa } else { &ca })?;
                    want("changed", r, if newer && xa.membership() != ea.membership() { Some(xa.clone()) } else { None })
                });
                if x > e && x.index() > e.index() {
                    cx.case("MembershipState::append", || format!("{show} append {x:?}"), || {
                        let mut s = st.clone();
                        s.append(xa.clone());
                        want("effective", s.effective(), &xa)?;
                        want("committed", s.committed(), &ea)
                    });
                }
            }
            for since in c.next_index()..c.next_index() + 10 {
                cx.case("MembershipState::truncate", || format!("{show} since {since}"), || {
                    let mut s = st.clone();
                    let r = s.truncate(since);
                    let back = Some(since) <= e.index();
                    want("committed", s.committed(), &ca)?;
                    want("effective", s.effective(), if back { &ca } else { &ea })?;
                    want("reverted to", r, if back { Some(ca.clone()) } else { None })
                });
            }
        }
    }
}

pub fn run(cx: &mut Cx) {
    let w6 = cx.wants(&["C06"]);
    let w13 = cx.wants(&["C13"]);
    let w4 = cx.wants(&["C04", "C06"]);
    let n = cx.scale(3, 4);
    for a in 0..(1u64 << n) {
        for b in 0..(1u64 << n) {
            for form in 0..3 {
                let cfgs: Sets = match form { 0 => vec![set(a)], 1 => vec![set(a), set(b)], _ => vec![set(b), set(a), set(a | b)] };
                if form == 0 && b > 3 { continue; }
                for extra in [0u64, 8, b << 2] {
                    let nodes = nodes_of(&(&all(&cfgs) | &set(extra)), 100);
                    if w4 {
                        cx.case("EffectiveMembership, Membership views", || format!("{cfgs:?} {nodes:?}"), || {
                            let m = raw(&cfgs, &nodes);
                            let e = Em::new(Some(lid(1, 1, 1)), m.clone());
                            want("new", M::new(cfgs.clone(), nodes.clone()), m.clone())?;
                            want("membership", e.membership(), &m)?;
                            want("voters", e.voter_ids().collect::<BTreeSet<u64>>(), all(&cfgs))?;
                            want("membership voters", m.voter_ids().collect::<BTreeSet<u64>>(), all(&cfgs))?;
                            let learners: BTreeSet<u64> = nodes.keys().copied().filter(|x| !all(&cfgs).contains(x)).collect();
                            want("learners", m.learner_ids().collect::<BTreeSet<u64>>(), learners.clone())?;
                            want("effective learners", e.learner_ids().collect::<BTreeSet<u64>>(), learners)?;
                            for i in 0..7u64 {
                                want("is_voter", m.is_voter(&i), all(&cfgs).contains(&i))?;
                                want("contains", m.contains(&i), nodes.contains_key(&i))?;
                                want("get_node", m.get_node(&i), nodes.get(&i))?;
                                want("effective get_node", e.get_node(&i), nodes.get(&i))?;
                            }
                            want("ids", QuorumSet::ids(&e).collect::<BTreeSet<u64>>(), all(&cfgs))?;
                            let q = m.to_quorum_set();
                            for s in 0..32u64 {
                                let ids = set(s);
                                let x = cfgs.iter().all(|c| maj(c, &ids));
                                want("is_quorum", e.is_quorum(ids.iter()), x)?;
                                want("to_quorum_set", q.is_quorum(ids.iter()), x)?;
                            }
                            want("valid", m.ensure_valid().is_ok(), cfgs.iter().all(|c| !c.is_empty()))
                        });
                    }
                    if w6 {
                        for retain in [false, true] {
                            for k in [0u64, 1, 2, 5, 8, 12, 9, 7, 4] {
                                let s = set(k);
                                let nn = nodes_of(&s, 200);
                                for ch in [
                                    ChangeMembers::AddVoterIds(s.clone()), ChangeMembers::AddVoters(nn.clone()), ChangeMembers::RemoveVoters(s.clone()),
                                    ChangeMembers::ReplaceAllVoters(s.clone()), ChangeMembers::AddNodes(nn.clone()), ChangeMembers::SetNodes(nn.clone()),
                                    ChangeMembers::RemoveNodes(s.clone()), ChangeMembers::ReplaceAllNodes(nn.clone()),
                                ] {
                                    one_change(cx, &cfgs, &nodes, ch, retain);
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // nodes missing for a voter
    cx.case("Membership::ensure_voter_nodes", || "voters {1,2}, nodes {1}".into(), || {
        want("missing", raw(&vec![set(6)], &nodes_of(&set(2), 0)).ensure_voter_nodes(), Err(2))
    });
    if w13 { membership_state(cx); }
}
