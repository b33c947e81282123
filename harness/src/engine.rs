//! Deciding engine: generated-input search with proptest, sharded over 8
//! fixed shards (a run is a pure function of the code, the seed and the
//! tier), shrinking, counting and replay.

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: u32 = 8;

/// Case counts given by the checks are multiplied by this.
pub const SCALE: u32 = 8;

/// Distinct cases are counted exactly up to this many per shard.
const DISTINCT_CAP: usize = 1_500_000;

/// A single case that runs this long counts as not terminating (ordinary
/// ones take milliseconds).
const HANG_SECS: u64 = 60;

/// Shrinking stops after this long.
const SHRINK_SECS: u64 = 30;

type Slot = Mutex<Option<(Instant, String)>>;

/// Where the watchdog reports a case that does not terminate.
pub static REPLAYS: Mutex<Option<String>> = Mutex::new(None);

fn slots() -> Vec<Slot> {
    (0..SHARDS).map(|_| Mutex::new(None)).collect()
}

/// Runs until `done`; a case that runs too long is reported from here,
/// unshrunk, because its thread cannot be stopped.
fn watchdog(prop: &str, sub: &str, seed: u64, slots: &[Slot], done: &AtomicBool) {
    while !done.load(Ordering::SeqCst) {
        std::thread::sleep(Duration::from_millis(20));
        for s in slots {
            let g = s.lock().unwrap();
            if let Some((t, case)) = &*g {
                if t.elapsed().as_secs() >= HANG_SECS {
                    let dir = REPLAYS.lock().unwrap().clone().unwrap_or_else(|| "/tmp".into());
                    let _ = std::fs::create_dir_all(&dir);
                    let path = format!("{}/{}-{}-{}.json", dir, prop, sub.replace(' ', "_"), seed);
                    let case: Value = serde_json::from_str(case).unwrap_or(Value::Null);
                    let m = format!("a case did not finish within {} s", HANG_SECS);
                    let body = json!({"property": prop, "sub": sub, "case": case, "message": m, "seed": seed});
                    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
                    println!("{}", m);
                    println!("VIOLATION property={} replay={}", prop, path);
                    std::process::exit(1);
                }
            }
        }
    }
}

/// Looks for a simpler case that fails as well, for a limited time.
fn shrink<V: ValueTree>(tree: &mut V, first: (V::Value, String), eval: impl Fn(&V::Value) -> Res) -> (V::Value, String) {
    let start = Instant::now();
    let mut best = first;
    let mut tries = 0;
    'simpler: while tree.simplify() {
        loop {
            tries += 1;
            if tries > 12_000 || start.elapsed() > Duration::from_secs(SHRINK_SECS) {
                break 'simpler;
            }
            let c = tree.current();
            match eval(&c) {
                Err(m) => {
                    best = (c, m);
                    break;
                }
                Ok(()) => {
                    if !tree.complicate() {
                        break 'simpler;
                    }
                }
            }
        }
    }
    best
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one evaluated case tells the statistics.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        if b {
            self.nontrivial = true;
        }
    }
}

pub type Res = Result<(), String>;

#[derive(Default)]
pub struct SubStats {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub exhaustive: bool,
}

pub struct Failure {
    pub sub: String,
    pub case: Value,
    pub message: String,
}

pub enum Mode {
    Run,
    /// Only re-run one stored case of one sub-check.
    Replay { sub: String, case: Value },
}

pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub mode: Mode,
    pub stats: BTreeMap<String, SubStats>,
    pub failure: Option<Failure>,
    pub replayed: bool,
    pub rules: Vec<String>,
    pub only: Option<String>,
}

fn fnv(s: &[u8], mut h: u64) -> u64 {
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
    }));
}

pub fn guarded<C>(f: &dyn Fn(&C, &mut Obs) -> Res, c: &C, obs: &mut Obs) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(c, obs))) {
        Ok(r) => r,
        Err(_) => Err(format!(
            "panicked: {}",
            LAST_PANIC.with(|p| p.borrow().clone())
        )),
    }
}

fn clip(v: Value) -> Value {
    let s = v.to_string();
    if s.len() <= 700 {
        v
    } else {
        let mut e = 690;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        Value::String(format!("{}...", &s[..e]))
    }
}

impl SubStats {
    fn count(&mut self, json: &str, obs: &Obs, keep: usize) {
        self.evaluations += 1;
        for l in &obs.labels {
            *self.labels.entry(l).or_insert(0) += 1;
        }
        if obs.nontrivial {
            self.nontrivial += 1;
            let h = fnv(json.as_bytes(), 0xcbf29ce484222325);
            if self.distinct.len() < DISTINCT_CAP
                && self.distinct.insert(h)
                && self.samples.len() < keep
            {
                self.samples.push(clip(serde_json::from_str(json).unwrap_or(Value::Null)));
            }
        }
    }
    fn merge(&mut self, o: SubStats, keep: usize) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < keep {
                self.samples.push(s);
            }
        }
    }
}

impl Ctx {
    pub fn new(prop: &'static str, tier: Tier, seed: u64, mode: Mode) -> Ctx {
        Ctx {
            prop,
            tier,
            seed,
            mode,
            stats: BTreeMap::new(),
            failure: None,
            replayed: false,
            rules: vec![],
            only: None,
        }
    }

    pub fn rule(&mut self, r: &str) {
        self.rules.push(r.to_string());
    }

    fn skip(&self, sub: &str) -> bool {
        self.failure.is_some() || self.only.as_deref().map_or(false, |o| o != sub)
    }

    /// Handles replay mode; true when there is nothing more to do for `sub`.
    fn replay_mode<C: DeserializeOwned>(
        &mut self,
        sub: &str,
        f: &dyn Fn(&C, &mut Obs) -> Res,
    ) -> bool {
        let case = match &self.mode {
            Mode::Run => return false,
            Mode::Replay { sub: s, case } => {
                if s != sub {
                    return true;
                }
                case.clone()
            }
        };
        let c: C = match serde_json::from_value(case.clone()) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("replay: cannot decode case for {}: {}", sub, e);
                std::process::exit(2);
            }
        };
        self.replayed = true;
        let mut o = Obs::default();
        if let Err(m) = guarded(f, &c, &mut o) {
            self.failure = Some(Failure {
                sub: sub.to_string(),
                case,
                message: m,
            });
        }
        true
    }

    /// The checks of C12 and C24 are slow enough as they are.
    fn quick_factor(&self) -> u32 {
        match self.prop {
            "C12" | "C24" => 1,
            _ => 3,
        }
    }

    /// Random search: `quick` cases in the quick tier, `quick * factor` in
    /// the thorough one.
    pub fn search<C, S>(
        &mut self,
        sub: &str,
        quick: u32,
        factor: u32,
        strat: impl Fn() -> S + Sync,
        f: impl Fn(&C, &mut Obs) -> Res + Sync,
    ) where
        C: Clone + Debug + Serialize + DeserializeOwned + Send,
        S: Strategy<Value = C>,
    {
        if self.replay_mode::<C>(sub, &f) || self.skip(sub) {
            return;
        }
        let total = match self.tier {
            Tier::Quick => quick.saturating_mul(SCALE).saturating_mul(self.quick_factor()),
            Tier::Thorough => quick.saturating_mul(factor).saturating_mul(SCALE),
        };
        let per = (total + SHARDS - 1) / SHARDS;
        let seed = self.seed;
        let tag = fnv(sub.as_bytes(), fnv(self.prop.as_bytes(), 0xcbf29ce484222325));
        let strat = &strat;
        let f = &f;
        let slots = slots();
        let slots = &slots;
        let done = AtomicBool::new(false);
        let done = &done;
        let prop = self.prop;
        let results: Vec<(SubStats, Option<(C, String)>)> = std::thread::scope(|sc| {
            sc.spawn(move || watchdog(prop, sub, seed, slots, done));
            let hs: Vec<_> = (0..SHARDS)
                .map(|shard| {
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            let mut bytes = [0u8; 32];
                            let mut z = mix(seed ^ tag).wrapping_add(mix(shard as u64 + 1));
                            for c in bytes.chunks_mut(8) {
                                z = mix(z);
                                c.copy_from_slice(&z.to_le_bytes());
                            }
                            // `cases` only bounds how often a flattened strategy is drawn
                            // again while shrinking
                            let cfg = Config {
                                cases: 64,
                                failure_persistence: None,
                                max_local_rejects: 1 << 20,
                                ..Config::default()
                            };
                            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
                            let mut runner = TestRunner::new_with_rng(cfg, rng);
                            let mut st = SubStats::default();
                            let strategy = strat();
                            let eval = |c: &C, o: &mut Obs| -> (Res, String) {
                                let json = serde_json::to_string(c).unwrap_or_default();
                                *slots[shard as usize].lock().unwrap() = Some((Instant::now(), json));
                                let r = guarded(f, c, o);
                                let json = slots[shard as usize].lock().unwrap().take();
                                (r, json.map(|j| j.1).unwrap_or_default())
                            };
                            let mut fail = None;
                            for _ in 0..per {
                                let mut tree = match strategy.new_tree(&mut runner) {
                                    Ok(t) => t,
                                    Err(reason) => {
                                        eprintln!("search aborted: {}", reason);
                                        std::process::exit(2);
                                    }
                                };
                                let c = tree.current();
                                let mut o = Obs::default();
                                let (r, json) = eval(&c, &mut o);
                                st.count(&json, &o, if shard == 0 { 3 } else { 0 });
                                if let Err(m) = r {
                                    fail = Some(shrink(&mut tree, (c, m), |c| eval(c, &mut Obs::default()).0));
                                    break;
                                }
                            }
                            (st, fail)
                        })
                        .expect("spawn")
                })
                .collect();
            let r = hs.into_iter().map(|h| h.join().expect("shard")).collect();
            done.store(true, Ordering::SeqCst);
            r
        });
        let entry = self.stats.entry(sub.to_string()).or_default();
        let mut fail: Option<(C, String)> = None;
        for (st, fl) in results {
            entry.merge(st, 3);
            if let Some(x) = fl {
                let better = match &fail {
                    None => true,
                    Some((c, _)) => {
                        serde_json::to_string(&x.0).unwrap().len()
                            < serde_json::to_string(c).unwrap().len()
                    }
                };
                if better {
                    fail = Some(x);
                }
            }
        }
        if let Some((c, message)) = fail {
            self.failure = Some(Failure {
                sub: sub.to_string(),
                case: serde_json::to_value(&c).unwrap(),
                message,
            });
        }
    }

    /// Bounded-exhaustive supplement: every case of a finite, ordered list
    /// (smallest first, so the first failure is the minimal one).
    pub fn sweep<C>(&mut self, sub: &str, cases: Vec<C>, f: impl Fn(&C, &mut Obs) -> Res + Sync)
    where
        C: Clone + Debug + Serialize + DeserializeOwned + Send + Sync,
    {
        if self.replay_mode::<C>(sub, &f) || self.skip(sub) {
            return;
        }
        let f = &f;
        let cases = &cases;
        let slots = slots();
        let slots = &slots;
        let done = AtomicBool::new(false);
        let done = &done;
        let (prop, seed) = (self.prop, self.seed);
        let results: Vec<(SubStats, Option<(usize, String)>)> = std::thread::scope(|sc| {
            sc.spawn(move || watchdog(prop, sub, seed, slots, done));
            let hs: Vec<_> = (0..SHARDS as usize)
                .map(|shard| {
                    sc.spawn(move || {
                        let mut st = SubStats::default();
                        let mut i = shard;
                        while i < cases.len() {
                            let mut o = Obs::default();
                            let json = serde_json::to_string(&cases[i]).unwrap_or_default();
                            *slots[shard].lock().unwrap() = Some((Instant::now(), json));
                            let r = guarded(f, &cases[i], &mut o);
                            let json = slots[shard].lock().unwrap().take();
                            st.count(&json.map(|j| j.1).unwrap_or_default(), &o, if shard == 0 { 2 } else { 0 });
                            if let Err(m) = r {
                                return (st, Some((i, m)));
                            }
                            i += SHARDS as usize;
                        }
                        (st, None)
                    })
                })
                .collect();
            let r = hs.into_iter().map(|h| h.join().expect("shard")).collect();
            done.store(true, Ordering::SeqCst);
            r
        });
        let entry = self.stats.entry(sub.to_string()).or_default();
        entry.exhaustive = true;
        let mut fail: Option<(usize, String)> = None;
        for (st, fl) in results {
            entry.merge(st, 2);
            if let Some(x) = fl {
                if fail.as_ref().map_or(true, |(i, _)| x.0 < *i) {
                    fail = Some(x);
                }
            }
        }
        if let Some((i, message)) = fail {
            self.failure = Some(Failure {
                sub: sub.to_string(),
                case: serde_json::to_value(&cases[i]).unwrap(),
                message,
            });
        }
    }

    pub fn summary(&self) -> Value {
        let mut subs = serde_json::Map::new();
        let (mut ev, mut nt) = (0u64, 0u64);
        let mut samples = vec![];
        for (k, s) in &self.stats {
            ev += s.evaluations;
            nt += s.distinct.len() as u64;
            subs.insert(
                k.clone(),
                json!({
                    "evaluations": s.evaluations,
                    "nontrivial": s.nontrivial,
                    "distinct_nontrivial": s.distinct.len(),
                    "classes": s.labels,
                    "enumerated_completely": s.exhaustive,
                }),
            );
            for x in &s.samples {
                samples.push(json!({"sub": k, "case": x}));
            }
        }
        json!({
            "evaluations": ev,
            "distinct_nontrivial": nt,
            "rules": self.rules,
            "samples": samples,
            "sub_checks": subs,
        })
    }
}

#[allow(dead_code)]
pub fn one_value<S: Strategy>(s: &S) -> S::Value {
    let mut r = TestRunner::deterministic();
    s.new_tree(&mut r).unwrap().current()
}
