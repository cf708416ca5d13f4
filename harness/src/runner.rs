//! Drives proptest over shards and threads, shrinks failures, collects what was covered.

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone)]
pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    /// no new cases after that
    pub guard: Duration,
    pub stop: Arc<AtomicBool>,
}

/// Result of one generated case.
#[derive(Default, Debug)]
pub struct One {
    pub fail: Option<String>,
    /// identifies the behaviour that was exercised
    pub hash: u64,
    pub nontrivial: bool,
    pub stats: BTreeMap<String, u64>,
    pub sample: Option<Value>,
    /// number of checked evaluations within the case (at least 1)
    pub evals: u64,
}

#[derive(Default)]
pub struct Cover {
    pub evaluations: u64,
    pub cases: u64,
    pub hashes: HashSet<u64>,
    pub stats: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failures: Vec<Failure>,
    pub guard_hit: bool,
    pub exhaustive: Option<String>,
    pub parts: Vec<Value>,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub part: String,
    pub case: Value,
    pub msg: String,
}

impl Cover {
    pub fn absorb(&mut self, o: Cover) {
        self.evaluations += o.evaluations;
        self.cases += o.cases;
        self.hashes.extend(o.hashes);
        for (k, v) in o.stats {
            *self.stats.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        self.failures.extend(o.failures);
        self.guard_hit |= o.guard_hit;
        if o.exhaustive.is_some() {
            self.exhaustive = o.exhaustive;
        }
        self.parts.extend(o.parts);
    }
    /// Distinct behaviours are counted exactly up to a limit that keeps memory bounded.
    pub fn hash(&mut self, h: u64) {
        if self.hashes.len() < 400_000 {
            self.hashes.insert(h);
        }
    }
    fn add(&mut self, o: One) {
        self.cases += 1;
        self.evaluations += o.evals.max(1);
        if o.nontrivial {
            self.hash(o.hash);
            if let Some(s) = o.sample {
                if self.samples.len() < 4 {
                    self.samples.push(s);
                }
            }
        }
        for (k, v) in o.stats {
            *self.stats.entry(k).or_default() += v;
        }
    }
}

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

pub fn seed_bytes(seed: u64, id: &str, part: &str, shard: u64) -> [u8; 32] {
    let mut h = mix(seed ^ 0x5eed);
    for b in id.bytes().chain(part.bytes()) {
        h = mix(h ^ b as u64);
    }
    h = mix(h ^ shard.wrapping_mul(0x1234567));
    let mut out = [0; 32];
    for i in 0..4 {
        h = mix(h);
        out[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

pub const SHARDS: u64 = 16;

/// Random search with shrinking. `total` cases are divided over the shards.
pub fn search<S, F>(cx: &Ctx, part: &str, total: u64, strat: impl Fn() -> S + Sync, run: F) -> Cover
where
    S: Strategy,
    S::Value: Serialize + DeserializeOwned + Clone + std::fmt::Debug,
    F: Fn(&S::Value) -> One + Sync,
{
    let t0 = Instant::now();
    let next = Mutex::new(0u64);
    let all = Mutex::new(Cover::default());
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(SHARDS as usize);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let shard = {
                        let mut n = next.lock().unwrap();
                        if *n >= SHARDS {
                            break;
                        }
                        *n += 1;
                        *n - 1
                    };
                    let c = one_shard(cx, part, shard, (total + SHARDS - 1) / SHARDS, &strat, &run);
                    all.lock().unwrap().absorb(c);
                })
                .unwrap();
        }
    });
    let mut c = all.into_inner().unwrap();
    c.parts.push(json!({"part": part, "cases": c.cases, "wall_s": t0.elapsed().as_secs_f64()}));
    c
}

fn one_shard<S, F>(cx: &Ctx, part: &str, shard: u64, cases: u64, strat: &(impl Fn() -> S + Sync), run: &F) -> Cover
where
    S: Strategy,
    S::Value: Serialize + Clone + std::fmt::Debug,
    F: Fn(&S::Value) -> One + Sync,
{
    let cover = RefCell::new(Cover::default());
    let failing = RefCell::new(None::<Instant>);
    let last_msg = RefCell::new(String::new());
    let config = Config {
        cases: cases as u32,
        failure_persistence: None,
        max_shrink_iters: 4000,
        max_global_rejects: 1 << 20,
        ..Config::default()
    };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(cx.seed, cx.id, part, shard));
    let mut runner = TestRunner::new_with_rng(config, rng);
    let shrink_time = Duration::from_secs(25);
    let r = runner.run(&strat(), |v| {
        if let Some(t) = *failing.borrow() {
            // shrinking: no statistics, bounded time
            if t.elapsed() > shrink_time {
                return Ok(());
            }
        } else if cx.start.elapsed() > cx.guard || cx.stop.load(Ordering::Relaxed) {
            cover.borrow_mut().guard_hit = cx.start.elapsed() > cx.guard;
            return Ok(());
        }
        let o = run(&v);
        let fail = o.fail.clone();
        if failing.borrow().is_none() {
            cover.borrow_mut().add(o);
        }
        match fail {
            None => Ok(()),
            Some(m) => {
                if failing.borrow().is_none() {
                    *failing.borrow_mut() = Some(Instant::now());
                    cx.stop.store(true, Ordering::Relaxed);
                }
                *last_msg.borrow_mut() = m.clone();
                Err(TestCaseError::fail(m))
            }
        }
    });
    let mut c = cover.into_inner();
    match r {
        Ok(()) => {}
        Err(TestError::Fail(_, v)) => {
            // the message belongs to the minimal value
            let o = run(&v);
            c.failures.push(Failure {
                part: part.to_string(),
                case: serde_json::to_value(&v).unwrap(),
                msg: o.fail.unwrap_or_else(|| last_msg.into_inner()),
            });
        }
        Err(TestError::Abort(r)) => panic!("generator aborted: {}", r),
    }
    c
}

/// Splits an exhaustive enumeration over threads. `f` gets an index range.
pub fn sweep<F>(cx: &Ctx, part: &str, n: u64, rule: &str, f: F) -> Cover
where
    F: Fn(u64, u64, &mut Cover) -> Option<Failure> + Sync,
{
    let t0 = Instant::now();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) as u64;
    let chunks = threads * 4;
    let next = Mutex::new(0u64);
    let all = Mutex::new(Cover::default());
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = {
                    let mut x = next.lock().unwrap();
                    if *x >= chunks {
                        break;
                    }
                    *x += 1;
                    *x - 1
                };
                let (a, b) = (n * i / chunks, n * (i + 1) / chunks);
                let mut c = Cover::default();
                if let Some(mut fl) = f(a, b, &mut c) {
                    fl.part = part.to_string();
                    c.failures.push(fl);
                }
                all.lock().unwrap().absorb(c);
            });
        }
    });
    let _ = cx;
    let mut c = all.into_inner().unwrap();
    c.exhaustive = Some(rule.to_string());
    c.parts.push(json!({"part": part, "exhaustive": rule, "cases": c.cases, "wall_s": t0.elapsed().as_secs_f64()}));
    c
}
