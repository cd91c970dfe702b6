// Shared by the executable contracts: the type configuration, input generators and the reporter.
pub use std::collections::{BTreeMap, BTreeSet};
pub use std::sync::Arc;
pub use std::time::Duration;
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub use crate::engine::*;
pub use crate::log_id::LogId;
pub use crate::vote::*;
pub use crate::CommittedLeaderId;
pub use crate::LeaderId;
pub use crate::Vote;

#[derive(Debug, Clone, Copy, Default, Eq, PartialEq, Ord, PartialOrd)]
#[cfg_attr(feature = "serde", derive(serde::Deserialize, serde::Serialize))]
pub struct Cfg {}
impl crate::RaftTypeConfig for Cfg {
    type D = u64;
    type R = u64;
    type NodeId = u64;
    type Node = u64;
    type Entry = crate::Entry<Cfg>;
    type SnapshotData = std::io::Cursor<Vec<u8>>;
    type AsyncRuntime = crate::TokioRuntime;
    type Responder = crate::impls::OneshotResponder<Self>;
}

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { let i = self.below(s.len() as u64) as usize; &s[i] }
}

pub struct Cx {
    pub which: String,
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    evals: u64,
    nontrivial: u64,
    contracts: BTreeMap<String, u64>,
    fails: HashMap<String, u32>,
    samples: Vec<String>,
    nfail: u64,
    started: std::time::Instant,
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn last_panic() -> String { LAST_PANIC.with(|l| l.borrow().clone()) }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Cx {
    pub fn new(which: &str, seed: u64, thorough: bool) -> Cx {
        std::panic::set_hook(Box::new(|info| {
            let s = info.to_string();
            LAST_PANIC.with(|l| *l.borrow_mut() = s);
        }));
        Cx {
            which: which.to_string(),
            seed,
            thorough,
            rng: Rng::new(seed),
            evals: 0,
            nontrivial: 0,
            contracts: BTreeMap::new(),
            fails: HashMap::new(),
            samples: vec![],
            nfail: 0,
            started: std::time::Instant::now(),
        }
    }
    /// does the property being checked want this group of contracts?
    pub fn wants(&self, ids: &[&str]) -> bool { self.which == "all" || ids.contains(&self.which.as_str()) }
    pub fn elapsed(&self) -> f64 { self.started.elapsed().as_secs_f64() }
    pub fn scale(&self, quick: u64, thorough: u64) -> u64 { if self.thorough { thorough } else { quick } }

    /// Evaluate one contract on one input. `f` returns `Err(why)` when the postcondition does not hold; a panic of the
    /// code under test (the input satisfies the precondition) is a failure as well.
    pub fn case(&mut self, contract: &str, input: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) -> bool {
        self.evals += 1;
        if !self.contracts.contains_key(contract) {
            self.contracts.insert(contract.to_string(), 0);
            let s = format!("{}: {}", contract, input());
            if self.samples.len() < 40 { self.samples.push(s); }
        }
        *self.contracts.get_mut(contract).unwrap() += 1;
        let r = catch_unwind(AssertUnwindSafe(f));
        let why = match r {
            Ok(Ok(())) => return true,
            Ok(Err(w)) => w,
            Err(_) => format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone())),
        };
        self.fail(contract, &input(), &why);
        false
    }
    pub fn fail(&mut self, contract: &str, input: &str, why: &str) {
        self.nfail += 1;
        let n = self.fails.entry(contract.to_string()).or_insert(0);
        *n += 1;
        if *n <= 3 {
            println!("FAIL {{\"contract\": {}, \"input\": {}, \"why\": {}}}", js(contract), js(input), js(why));
        }
    }
    pub fn note_nontrivial(&mut self) { self.nontrivial += 1; }
    pub fn failed(&self, contract: &str) -> bool { self.fails.contains_key(contract) }

    pub fn finish(&mut self) -> i32 {
        let mut c = String::new();
        for (k, v) in &self.contracts {
            if !c.is_empty() { c.push_str(", "); }
            c.push_str(&format!("{}: {}", js(k), v));
        }
        let s: Vec<String> = self.samples.iter().map(|x| js(x)).collect();
        println!(
            "STATS {{\"evals\": {}, \"failures\": {}, \"per_contract\": {{{}}}, \"samples\": [{}]}}",
            self.evals, self.nfail, c, s.join(", ")
        );
        if self.nfail > 0 { 1 } else { 0 }
    }
}

pub fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, expect: T) -> Result<(), String> {
    if got == expect { Ok(()) } else { Err(format!("{}: got {:?}, contract says {:?}", what, got, expect)) }
}
pub fn holds(what: &str, ok: bool) -> Result<(), String> { if ok { Ok(()) } else { Err(format!("does not hold: {}", what)) } }

pub fn lid(term: u64, node: u64, index: u64) -> LogId<u64> { LogId::new(CommittedLeaderId::new(term, node), index) }
