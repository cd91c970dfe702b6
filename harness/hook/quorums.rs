// Executable contracts: quorums, joint quorums, coherent steps (C04).
use crate::quorum::{AsJoint, Coherent, FindCoherent, Joint, QuorumSet};

fn bits(m: u64) -> BTreeSet<u64> { (0..6).filter(|i| m >> i & 1 == 1).collect() }
fn maj(v: &BTreeSet<u64>, ids: &BTreeSet<u64>) -> bool { v.intersection(ids).count() * 2 > v.len() }

pub fn run(cx: &mut Cx) {
    let n = cx.scale(5, 6);
    for v in 0..(1u64 << n) {
        let vs = bits(v);
        let vv: Vec<u64> = vs.iter().rev().copied().collect();
        cx.case("QuorumSet::ids", || format!("{vs:?}"), || {
            want("set ids", QuorumSet::ids(&vs).collect::<BTreeSet<u64>>(), vs.clone())?;
            want("vec ids", QuorumSet::ids(&vv).collect::<BTreeSet<u64>>(), vs.clone())?;
            want("slice ids", QuorumSet::ids(&vv.as_slice()).collect::<BTreeSet<u64>>(), vs.clone())
        });
        for q in 0..(1u64 << n) {
            let qs = bits(q);
            let e = maj(&vs, &qs);
            cx.case("QuorumSet::is_quorum", || format!("voters {vs:?} ids {qs:?}"), || {
                want("BTreeSet", vs.is_quorum(qs.iter()), e)?;
                let rev: Vec<u64> = qs.iter().rev().copied().collect();
                want("BTreeSet, other order", vs.is_quorum(rev.iter()), e)?;
                want("Vec", vv.is_quorum(qs.iter()), e)?;
                want("slice", vv.as_slice().is_quorum(qs.iter()), e)
            });
        }
    }
    let k = cx.scale(4, 5);
    for a in 0..(1u64 << k) {
        for b in 0..(1u64 << k) {
            let cfgs: Vec<Vec<BTreeSet<u64>>> = vec![vec![bits(a)], vec![bits(a), bits(b)], vec![bits(b), bits(a), bits(a ^ b)], vec![]];
            for cfg in &cfgs {
                let all: BTreeSet<u64> = cfg.iter().flatten().copied().collect();
                cx.case("Joint::ids, children", || format!("{cfg:?}"), || {
                    let j = Joint::from(cfg.clone());
                    want("children", j.children(), cfg)?;
                    want("vec ids", j.ids().collect::<BTreeSet<u64>>(), all.clone())?;
                    want("slice ids", cfg.as_joint().ids().collect::<BTreeSet<u64>>(), all.clone())
                });
                for q in 0..(1u64 << (k + 1)) {
                    let qs = bits(q);
                    let e = cfg.iter().all(|c| maj(c, &qs));
                    cx.case("Joint::is_quorum", || format!("{cfg:?} ids {qs:?}"), || {
                        want("vec", Joint::from(cfg.clone()).is_quorum(qs.iter()), e)?;
                        want("slice", cfg.as_joint().is_quorum(qs.iter()), e)
                    });
                }
                for c in [bits(a), bits(b), bits(a | b), bits(3), bits(b & 5)] {
                    cx.case("Coherent, FindCoherent", || format!("{cfg:?} -> {c:?}"), || {
                        let j: Joint<u64, BTreeSet<u64>, Vec<BTreeSet<u64>>> = Joint::from(cfg.clone());
                        want("is_coherent_with(set)", j.is_coherent_with(&c), cfg.contains(&c))?;
                        let f = j.find_coherent(c.clone());
                        let e = if cfg.contains(&c) || cfg.is_empty() { vec![c.clone()] } else { vec![cfg.last().unwrap().clone(), c.clone()] };
                        want("find_coherent", f.children(), &e)?;
                        for other in &cfgs {
                            let o = Joint::from(other.clone());
                            let sh = cfg.iter().any(|x| other.contains(x));
                            want("is_coherent_with(joint)", j.is_coherent_with(&o), sh)?;
                            want("is_coherent_with(joint slice)", cfg.as_joint().is_coherent_with(&other.as_joint()), sh)?;
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}
