//! Runs generated-input stages of a property, shrinks failures, records coverage.
//!
//! A stage is a strategy plus a test function. The test function runs the code under test on one
//! case, compares with its oracle, and says whether (and how) the case was non-trivial.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::rc::Rc;

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

pub use proptest;
pub use serde;
pub use serde_json;

/// What a passed case was: trivial, or non-trivial of some class.
pub enum Seen {
    Trivial,
    Class(String),
}

impl From<bool> for Seen {
    fn from(nontrivial: bool) -> Self {
        if nontrivial { Seen::Class("nontrivial".into()) } else { Seen::Trivial }
    }
}
impl From<&str> for Seen {
    fn from(s: &str) -> Self {
        if s.is_empty() { Seen::Trivial } else { Seen::Class(s.into()) }
    }
}
impl From<String> for Seen {
    fn from(s: String) -> Self {
        if s.is_empty() { Seen::Trivial } else { Seen::Class(s) }
    }
}

pub type Outcome = Result<Seen, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)+) => { if !($c) { return Err(format!($($fmt)+)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($fmt:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($fmt)+), a, b)); }
    }};
}

pub struct Ctx {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub rank: i32,
    pub ranks: i32,
    replay: Option<(String, Value)>,
    only: Option<String>,
    start: Option<(String, u64)>,
    out: PathBuf,
    stages: Vec<Value>,
    failed: bool,
}

fn env(name: &str) -> Option<String> {
    std::env::var(name).ok().filter(|s| !s.is_empty())
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn stable_hash(s: &str) -> u64 {
    // FNV-1a
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// Runs `f`, turning a panic into an error with message and place.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
    })
}

impl Ctx {
    /// Reads the environment set by the driver.
    pub fn from_env(property: &str) -> Self {
        std::panic::set_hook(Box::new(|info| {
            let place = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let message = info
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            let text = format!("panic at {place}: {message}");
            if env("VERIF_SHOW_PANICS").is_some() {
                eprintln!("{text}");
            }
            let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(text));
        }));
        let num = |name: &str, default: u64| env(name).and_then(|s| s.parse().ok()).unwrap_or(default);
        let replay = env("VERIF_REPLAY").map(|path| {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&path).expect("replay file"))
                .expect("replay file is JSON");
            (v["stage"].as_str().unwrap_or_default().to_string(), v["case"].clone())
        });
        Ctx {
            property: property.into(),
            thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
            seed: num("VERIF_SEED", 1),
            shard: num("VERIF_SHARD", 0),
            shards: num("VERIF_SHARDS", 1),
            rank: 0,
            ranks: 1,
            replay,
            only: env("VERIF_STAGE"),
            start: env("VERIF_START").map(|s| {
                let (stage, index) = s.split_once('/').expect("stage/index");
                (stage.into(), index.parse().expect("index"))
            }),
            out: env("VERIF_OUT").unwrap_or_else(|| "/dev/stdout".into()).into(),
            stages: vec![],
            failed: false,
        }
    }

    pub fn mpi(mut self, rank: i32, ranks: i32) -> Self {
        self.rank = rank;
        self.ranks = ranks;
        self
    }

    /// Number of cases of this shard in this tier.
    pub fn cases(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough { thorough } else { quick };
        let n = env("VERIF_CASES").and_then(|s| s.parse().ok()).unwrap_or(n);
        (n / self.shards + u64::from(self.shard < n % self.shards)).max(1)
    }

    fn rng(&self, stage: &str) -> TestRng {
        let mut bytes = [0u8; 32];
        let mut h = stable_hash(&format!("{}/{}/{}/{}", self.property, stage, self.seed, self.shard));
        for chunk in bytes.chunks_mut(8) {
            h ^= h >> 29;
            h = h.wrapping_mul(0xbf58476d1ce4e5b9).wrapping_add(0x9e3779b97f4a7c15);
            h ^= h >> 32;
            chunk.copy_from_slice(&h.to_le_bytes());
        }
        TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
    }

    fn skip(&self, stage: &str) -> bool {
        if let Some((s, _)) = &self.replay {
            return s != stage;
        }
        if let Some(o) = &self.only {
            return o != stage;
        }
        self.failed
    }

    /// Runs one stage on this process alone.
    pub fn stage<S, F>(&mut self, name: &str, rule: &str, cases: u64, strategy: S, test: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Clone + Debug,
        F: Fn(&S::Value) -> Outcome,
    {
        self.stage_agreeing(name, rule, cases, strategy, test, |o| o, false)
    }

    /// Runs one stage in lockstep on all ranks: the same cases in the same order. `agree` makes the
    /// outcome of a case common to all ranks. A panic ends the process (the other ranks may be
    /// waiting for this one), after the case has been recorded.
    pub fn stage_agreeing<S, F, A>(
        &mut self,
        name: &str,
        rule: &str,
        cases: u64,
        strategy: S,
        test: F,
        agree: A,
        panic_is_fatal: bool,
    ) where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Clone + Debug,
        F: Fn(&S::Value) -> Outcome,
        A: Fn(Outcome) -> Outcome,
    {
        if self.skip(name) {
            return;
        }
        // A continued run: the cases before this one, and the stages before this one, have been run.
        let mut start = 0;
        if let Some((stage, index)) = self.start.clone() {
            if stage != name {
                return;
            }
            start = index;
            self.start = None;
        }
        #[derive(Default)]
        struct Stats {
            index: u64,
            evaluations: u64,
            seen: HashSet<u64>,
            classes: BTreeMap<String, u64>,
            samples: Vec<(String, Value)>,
            failing: bool,
            original: Option<(String, Value)>,
        }
        let stats = Rc::new(RefCell::new(Stats::default()));
        let this: &Self = self;
        let record = env("VERIF_RECORD").is_some();
        let run = |case: &S::Value| -> Outcome {
            if record {
                // What is being run, for the case that this process does not survive it.
                let value = json!({"stage": name, "case": case});
                std::fs::write(this.out_path("case"), value.to_string()).expect("case file");
            }
            let outcome = match no_panic(|| test(case)) {
                Ok(o) => o,
                Err(message) => {
                    if panic_is_fatal {
                        let s = stats.borrow();
                        let mut v = this.stage_value(name, rule, s.evaluations, &s.seen, &s.classes, &s.samples);
                        // While a failure is being shrunk, it is the one that counts.
                        let (message, case) = s.original.clone().unwrap_or((message.clone(), json!(case)));
                        v["failure"] = json!({"message": message, "case": case, "rank": this.rank, "index": s.index});
                        let mut stages = this.stages.clone();
                        stages.push(v);
                        this.write(&stages, false);
                        eprintln!("rank {}: {}", this.rank, message);
                        std::process::exit(17);
                    }
                    Err(message)
                }
            };
            let outcome = agree(outcome);
            let mut s = stats.borrow_mut();
            if s.failing {
                return outcome;
            }
            s.evaluations += 1;
            match &outcome {
                Err(m) => {
                    s.failing = true;
                    s.original = Some((m.clone(), serde_json::to_value(case).unwrap()));
                }
                Ok(Seen::Trivial) => *s.classes.entry("trivial".into()).or_default() += 1,
                Ok(Seen::Class(class)) => {
                    *s.classes.entry(class.clone()).or_default() += 1;
                    let value = serde_json::to_value(case).unwrap();
                    let text = value.to_string();
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    name.hash(&mut h);
                    text.hash(&mut h);
                    let fresh = s.seen.insert(h.finish());
                    if fresh && s.samples.len() < 40 && text.len() < 2000 {
                        s.samples.push((class.clone(), value));
                    }
                }
            }
            outcome
        };
        let mut failure = None;
        if let Some((_, value)) = &self.replay {
            let case: S::Value = serde_json::from_value(value.clone()).expect("case of the replay file");
            if let Err(message) = run(&case) {
                failure = Some((message, value.clone()));
            }
        } else {
            let config = Config {
                cases: cases as u32,
                failure_persistence: None,
                max_shrink_iters: if env("VERIF_NOSHRINK").is_some() { 0 } else { 4000 },
                max_shrink_time: 120_000,
                max_global_rejects: 1_000_000,
                ..Config::default()
            };
            let mut runner = TestRunner::new_with_rng(config, self.rng(name));
            let result = runner.run(&strategy, |case| {
                let index = stats.borrow().index;
                stats.borrow_mut().index += 1;
                if index < start {
                    return Ok(());
                }
                run(&case).map(|_| ()).map_err(|m| TestCaseError::fail(m))
            });
            match result {
                Ok(()) => {}
                Err(TestError::Fail(reason, case)) => {
                    failure = Some((reason.message().to_string(), serde_json::to_value(&case).unwrap()));
                }
                Err(TestError::Abort(reason)) => {
                    eprintln!("stage {name}: generation aborted: {reason}");
                    std::process::exit(2);
                }
            }
        }
        let s = stats.borrow();
        let mut v = self.stage_value(name, rule, s.evaluations, &s.seen, &s.classes, &s.samples);
        if let Some((message, case)) = failure {
            let (first_message, first_case) = s.original.clone().unwrap();
            v["failure"] = json!({"message": message, "case": case, "rank": self.rank,
                "first_message": first_message, "first_case": first_case});
            self.failed = true;
        }
        drop(s);
        self.stages.push(v);
        self.write(&self.stages, false);
    }

    fn stage_value(
        &self,
        name: &str,
        rule: &str,
        evaluations: u64,
        seen: &HashSet<u64>,
        classes: &BTreeMap<String, u64>,
        samples: &[(String, Value)],
    ) -> Value {
        // A few samples, of different classes as far as possible.
        let mut picked: Vec<&Value> = vec![];
        let mut have = HashSet::new();
        for (class, value) in samples.iter() {
            if have.insert(class) && picked.len() < 3 {
                picked.push(value);
            }
        }
        json!({
            "stage": name, "rule": rule, "evaluations": evaluations,
            "hashes": seen.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>(),
            "classes": classes, "samples": picked, "ranks": self.ranks, "rank": self.rank,
        })
    }

    fn out_path(&self, what: &str) -> PathBuf {
        let mut path = self.out.display().to_string();
        if self.ranks > 1 {
            path = format!("{path}.r{}", self.rank);
        }
        if !what.is_empty() {
            path = format!("{path}.{what}");
        }
        path.into()
    }

    fn write(&self, stages: &[Value], done: bool) {
        std::fs::write(self.out_path(""), serde_json::to_string(&json!({"stages": stages, "done": done})).unwrap()).expect("result file");
    }

    pub fn finish(self) -> ! {
        self.write(&self.stages, true);
        if self.failed && env("VERIF_OUT").is_none() {
            for s in &self.stages {
                if !s["failure"].is_null() {
                    eprintln!("FAILED {} {}", s["stage"], s["failure"]);
                }
            }
        }
        std::process::exit(if self.failed { 1 } else { 0 })
    }

    pub fn failed(&self) -> bool {
        self.failed
    }
}

/// Makes the outcome of a case common to all ranks of the world.
pub fn agree_over_mpi(outcome: Outcome) -> Outcome {
    use mpi::traits::*;
    let world = mpi::topology::SimpleCommunicator::world();
    let bad = u8::from(outcome.is_err());
    let mut all = vec![0u8; world.size() as usize];
    world.all_gather_into(&bad, &mut all[..]);
    match all.iter().position(|b| *b != 0) {
        None => outcome,
        Some(root) => {
            let mut text = match &outcome {
                Err(m) if world.rank() as usize == root => format!("rank {root}: {m}").into_bytes(),
                _ => vec![],
            };
            let mut len = text.len() as u64;
            world.process_at_rank(root as i32).broadcast_into(&mut len);
            text.resize(len as usize, 0);
            world.process_at_rank(root as i32).broadcast_into(&mut text[..]);
            Err(String::from_utf8_lossy(&text).into_owned())
        }
    }
}
