//! Runner: drives proptest with fixed seeds and case counts, shrinks, saves replays, writes evidence.

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub const SHARDS: u64 = 8;
/// Wall seconds after which a run starts no further cases, so that it ends with an answer on a slow machine
/// (the evidence says which sub-checks were cut short).
const ENOUGH_S: f64 = 690.0;
/// CPU seconds one case may burn in a thread before it counts as a call that never returns.
const HANG_CPU_S: f64 = 60.0;
/// Wall seconds after which a case that uses next to no CPU time counts as blocked for good.
const STUCK_S: f64 = 240.0;

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
    /// exact signature, compared with known_findings.json
    pub sig: Option<String>,
    /// (sub-check, value) that reproduces this failure on its own, if it was found inside a batch
    pub single: Option<(String, Value)>,
}

impl Fail {
    pub fn single(mut self, sub: &str, v: impl Serialize) -> Self {
        self.single = Some((sub.to_string(), serde_json::to_value(v).expect("value to json")));
        self
    }
}

pub type R = Result<(), Fail>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), sig: None, single: None })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c { return $crate::run::fail(format!($($a)*)); }
    };
}

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_SUT.with(|x| x.get()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string().replace('\n', " "));
        } else {
            old(info);
        }
    }));
}

/// Calls into the code under test. A panic inside it is a failure of the property.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    let nested = IN_SUT.with(|x| x.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|x| x.set(nested));
    r.map_err(|_| {
        let p = LAST_PANIC.with(|p| p.borrow().clone());
        Fail { msg: format!("{what} panicked: {p}"), sig: None, single: None }
    })
}

#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// cases checked inside this one, if it is a batch
    pub weight: u64,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, b: bool, l: &'static str) {
        if b {
            self.labels.push(l);
        }
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b;
    }
}

#[derive(Default)]
pub struct Tally {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, String>,
    pub cut_short: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub sub: String,
    pub message: String,
    pub value: Value,
}

pub enum Mode {
    Search,
    Replay(String, Value),
    /// one sub-check, its cases made from the bytes of a coverage-guided fuzzer
    Fuzz(String, crate::fuzz::Driver),
}

struct Watch {
    stat: PathBuf,
    slot: Mutex<Option<(f64, Instant, String)>>,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub dir: PathBuf,
    pub root: PathBuf,
    pub mode: Mode,
    journal: Option<PathBuf>,
    pub known_sigs: BTreeMap<String, String>,
    subs: Vec<Value>,
    evaluations: u64,
    distinct: u64,
    samples: Vec<Value>,
    violations: Vec<PathBuf>,
    known_hit: BTreeMap<String, String>,
    pub replay_found: bool,
    pub replay_failed: bool,
    assumptions: Vec<String>,
    exhaustive_any: bool,
    start: Instant,
}

pub fn hash64(x: impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn clip(v: &Value) -> Value {
    match v {
        Value::String(s) if s.chars().count() > 160 => {
            Value::String(format!("{}… ({} chars)", s.chars().take(160).collect::<String>(), s.chars().count()))
        }
        Value::Array(a) => {
            let mut r: Vec<Value> = a.iter().take(24).map(clip).collect();
            if a.len() > 24 {
                r.push(json!(format!("… {} more", a.len() - 24)));
            }
            Value::Array(r)
        }
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), clip(v))).collect()),
        _ => v.clone(),
    }
}

fn thread_cpu(stat: &Path) -> Option<f64> {
    let s = std::fs::read_to_string(stat).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some(t / 100.0)
}

fn own_stat() -> PathBuf {
    let tid = std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|x| x.to_owned()))
        .unwrap_or_default();
    PathBuf::from("/proc/self/task").join(tid).join("stat")
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, root: PathBuf, replay: Option<Replay>) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let dir = std::env::temp_dir().join(format!("vh-{}-{}", id, std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let mut known_sigs = BTreeMap::new();
        if let Ok(t) = std::fs::read_to_string(root.join("known_findings.json")) {
            let v: Value = serde_json::from_str(&t).expect("known_findings.json");
            for k in v["known"].as_array().cloned().unwrap_or_default() {
                if k["property"] == id {
                    known_sigs.insert(
                        k["signature"].as_str().expect("signature").to_string(),
                        k["what"].as_str().unwrap_or("").to_string(),
                    );
                }
            }
        }
        Self {
            id: id.to_string(),
            tier,
            seed,
            dir,
            root,
            mode: match replay {
                Some(r) => Mode::Replay(r.sub, r.value),
                None => Mode::Search,
            },
            journal: std::env::var_os("VH_JOURNAL").map(PathBuf::from),
            known_sigs,
            subs: vec![],
            evaluations: 0,
            distinct: 0,
            samples: vec![],
            violations: vec![],
            known_hit: BTreeMap::new(),
            replay_found: false,
            replay_failed: false,
            assumptions: vec![],
            exhaustive_any: false,
            start: Instant::now(),
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// case count for the tier
    pub fn n(&self, quick: u32, thorough: u32) -> u32 {
        let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        // so that each thorough check takes under ten minutes or so on eight cores
        let thorough = thorough as f64
            * match self.id.as_str() {
                "C17" => 0.35,
                "C16" => 0.45,
                "C05" | "C18" => 0.5,
                "C01" | "C04" | "C11" | "C13" => 0.65,
                _ => 1.0,
            };
        ((if self.thorough() { thorough } else { quick as f64 }) * scale).ceil() as u32
    }

    fn shard_seed(&self, name: &str, shard: u64) -> u64 {
        hash64((self.seed, &self.id, name, shard))
    }

    /// Random search with shrinking.
    pub fn prop<V, S>(
        &mut self,
        name: &str,
        cases: u32,
        rule: &str,
        strategy: impl Fn() -> S + Sync,
        test: impl Fn(&V, &mut Obs) -> R + Sync,
    ) where
        S: Strategy<Value = V>,
        V: Debug + Clone + Serialize + DeserializeOwned + Send,
    {
        self.prop_on(SHARDS, 6000, name, cases, rule, strategy, test)
    }

    #[allow(clippy::too_many_arguments)]
    pub fn prop_on<V, S>(
        &mut self,
        shards: u64,
        shrink: u32,
        name: &str,
        cases: u32,
        rule: &str,
        strategy: impl Fn() -> S + Sync,
        test: impl Fn(&V, &mut Obs) -> R + Sync,
    ) where
        S: Strategy<Value = V>,
        V: Debug + Clone + Serialize + DeserializeOwned + Send,
    {
        if let Mode::Replay(sub, value) = &self.mode {
            if sub == name {
                let v: V = serde_json::from_value(value.clone()).expect("replay value");
                self.replay_one(name, |o| test(&v, o));
            }
            return;
        }
        if let Mode::Fuzz(sub, driver) = &self.mode {
            if sub == name {
                crate::fuzz::drive(self, name, *driver, shrink, &strategy(), &test);
            }
            return;
        }
        if self.stopped() || skipped(name) {
            return;
        }
        let t0 = Instant::now();
        let mut tally = Tally::default();
        // saved inputs of repaired or once-planted defects come first
        for (p, rep) in self.regressions(name) {
            let v: V = serde_json::from_value(rep.value.clone())
                .unwrap_or_else(|e| panic!("{}: {e}", p.display()));
            let mut o = Obs::default();
            match self.guarded(&mut o, |o| test(&v, o)) {
                Ok(()) => note(&mut tally, &o, &v),
                Err(f) => {
                    self.violation(name, &f, serde_json::to_value(&v).unwrap());
                    if self.stopped() {
                        self.finish(name, rule, tally, t0, false, cases);
                        return;
                    }
                }
            }
        }
        let found: Mutex<BTreeMap<u64, (Fail, Value)>> = Mutex::new(BTreeMap::new());
        let total = Mutex::new(tally);
        let done = AtomicBool::new(false);
        let watches: Vec<Arc<Mutex<Option<Arc<Watch>>>>> =
            (0..shards).map(|_| Arc::new(Mutex::new(None))).collect();
        let me = &*self;
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for shard in 0..shards {
                let (found, total, strategy, test) = (&found, &total, &strategy, &test);
                let reg = watches[shard as usize].clone();
                hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let w = Arc::new(Watch { stat: own_stat(), slot: Mutex::new(None) });
                    *reg.lock().unwrap() = Some(w.clone());
                    let n = cases as u64 / shards + u64::from((cases as u64 % shards) > shard);
                    if n > 0 {
                        me.shard(name, shard, n as u32, shrink, strategy, test, found, total, &w);
                    }
                }).expect("spawn shard"));
            }
            let done = &done;
            let watches = &watches;
            sc.spawn(move || me.watchdog(name, watches, done));
            let mut err = false;
            for h in hs {
                err |= h.join().is_err();
            }
            done.store(true, Ordering::SeqCst);
            if err {
                harness_error("a shard died");
            }
        });
        let tally = total.into_inner().unwrap();
        let found = found.into_inner().unwrap();
        if let Some((_, (f, v))) = found.into_iter().next() {
            self.violation(name, &f, v);
        }
        self.finish(name, rule, tally, t0, false, cases);
        // large random searches are repeated with coverage feedback in the thorough tier
        if self.thorough() && shards == SHARDS && cases >= 10_000 && !self.stopped() {
            if let Some(bin) = std::env::var_os("VH_FUZZ_BIN") {
                self.fuzz(&PathBuf::from(bin), name, rule, cases / 16, None);
            }
        }
    }

    /// Coverage-guided search over raw bytes that are the input themselves. Runs where the fuzzer was built.
    pub fn bytes<V>(
        &mut self,
        name: &str,
        runs: u32,
        rule: &str,
        seeds: impl Fn() -> Vec<Vec<u8>>,
        decode: impl Fn(&[u8]) -> V,
        test: impl Fn(&V, &mut Obs) -> R,
    ) where
        V: Debug + Clone + Serialize + DeserializeOwned,
    {
        if let Mode::Replay(sub, value) = &self.mode {
            if sub == name {
                let v: V = serde_json::from_value(value.clone()).expect("replay value");
                self.replay_one(name, |o| test(&v, o));
            }
            return;
        }
        if let Mode::Fuzz(sub, driver) = &self.mode {
            if sub == name {
                let make = |b: &[u8]| Some(crate::fuzz::Raw::new(b, &decode));
                crate::fuzz::drive_with(self, name, *driver, 4000, &make, &test);
            }
            return;
        }
        if self.stopped() || skipped(name) {
            return;
        }
        if let Some(bin) = std::env::var_os("VH_FUZZ_BIN") {
            self.fuzz(&PathBuf::from(bin), name, rule, runs, Some(seeds()));
        }
    }

    /// `n` values of a generator, the same for the same seed.
    pub fn samples<S: Strategy>(&self, name: &str, n: usize, s: S) -> Vec<S::Value> {
        let b: Vec<u8> = (0..4).flat_map(|i| hash64((self.seed, name, i)).to_le_bytes()).collect();
        let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &b));
        (0..n).filter_map(|_| Some(s.new_tree(&mut r).ok()?.current())).collect()
    }

    /// Coverage-guided search over the bytes that the sub-check's generator draws its choices from.
    fn fuzz(&mut self, bin: &Path, name: &str, rule: &str, runs: u32, seeds: Option<Vec<Vec<u8>>>) {
        let t0 = Instant::now();
        let left = ENOUGH_S - self.start.elapsed().as_secs_f64();
        if left < 10.0 {
            return;
        }
        let c = crate::fuzz::campaign(self, bin, name, runs, left.min(if self.thorough() { 150.0 } else { 60.0 }), seeds);
        let label = format!("{name} (coverage-guided)");
        if let Some((f, v)) = c.found {
            self.violation(name, &f, v);
        }
        self.finish(&label, rule, c.tally, t0, false, runs * SHARDS as u32);
        if let Some(s) = self.subs.last_mut() {
            s["labels"] = c.labels;
            s["fuzzer"] = c.about;
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn shard<V, S>(
        &self,
        name: &str,
        shard: u64,
        cases: u32,
        shrink: u32,
        strategy: &(impl Fn() -> S + Sync),
        test: &(impl Fn(&V, &mut Obs) -> R + Sync),
        found: &Mutex<BTreeMap<u64, (Fail, Value)>>,
        total: &Mutex<Tally>,
        watch: &Watch,
    ) where
        S: Strategy<Value = V>,
        V: Debug + Clone + Serialize + DeserializeOwned + Send,
    {
        let seed = self.shard_seed(name, shard);
        let cfg = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: u32::MAX - 1, // u32::MAX stands for a small number
            max_shrink_time: 0,
            max_global_rejects: 0,
            rng_seed: RngSeed::Fixed(seed),
            ..Config::default()
        };
        let mut b = [0u8; 32];
        for (i, x) in b.iter_mut().enumerate() {
            *x = (hash64((seed, i)) & 0xFF) as u8;
        }
        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &b));
        let tally = RefCell::new(Tally::default());
        let last: RefCell<Option<(Fail, Value)>> = RefCell::new(None);
        let failing = Cell::new(false);
        let late = Cell::new(false);
        let r = runner.run(&Bounded(strategy(), shrink), |v| {
            if !failing.get() && self.start.elapsed().as_secs_f64() > ENOUGH_S {
                late.set(true);
                return Err(TestCaseError::reject("out of time"));
            }
            let js = serde_json::to_string(&v).expect("case to json");
            if let Some(j) = &self.journal {
                let rep = Replay {
                    property: self.id.clone(),
                    sub: name.to_string(),
                    message: "the process died while running this case".into(),
                    value: serde_json::from_str(&js).unwrap(),
                };
                std::fs::write(j.join(format!("{shard}.json")), serde_json::to_string(&rep).unwrap()).expect("journal");
            }
            *watch.slot.lock().unwrap() = Some((-1.0, Instant::now(), js.clone()));
            let mut o = Obs::default();
            let out = self.guarded(&mut o, |o| test(&v, o));
            *watch.slot.lock().unwrap() = None;
            if !failing.get() {
                let mut t = tally.borrow_mut();
                t.evaluations += o.weight.max(1);
                if o.nontrivial && t.distinct.insert(hash64(&js)) && t.samples.len() < 3 && t.distinct.len() % 7 == 1 {
                    t.samples.push(clip(&serde_json::from_str(&js).unwrap()));
                }
                for l in &o.labels {
                    *t.labels.entry(l).or_default() += 1;
                }
            }
            match out {
                Ok(()) => Ok(()),
                Err(f) => {
                    if let Some((s, what)) = f.sig.as_ref().and_then(|s| self.known_sigs.get_key_value(s)) {
                        tally.borrow_mut().known.insert(s.clone(), what.clone());
                        return Ok(());
                    }
                    failing.set(true);
                    *last.borrow_mut() = Some((f.clone(), serde_json::from_str(&js).unwrap()));
                    Err(TestCaseError::fail(f.msg))
                }
            }
        });
        match r {
            Ok(()) => {}
            Err(TestError::Fail(..)) => {
                // the last failing call of the search is the smallest failing value
                let l = last.into_inner().expect("failing case");
                found.lock().unwrap().insert(shard, l);
            }
            Err(TestError::Abort(_)) if late.get() => {
                total.lock().unwrap().cut_short = true;
            }
            Err(TestError::Abort(why)) => harness_error(&format!("{name}: generator gave up: {why}")),
        }
        let t = tally.into_inner();
        let mut g = total.lock().unwrap();
        g.evaluations += t.evaluations;
        g.distinct.extend(t.distinct);
        for (k, v) in t.labels {
            *g.labels.entry(k).or_default() += v;
        }
        if g.samples.len() < 6 {
            g.samples.extend(t.samples.into_iter().take(2));
        }
        g.known.extend(t.known);
    }

    fn watchdog(&self, name: &str, watches: &[Arc<Mutex<Option<Arc<Watch>>>>], done: &AtomicBool) {
        loop {
            for _ in 0..20 {
                if done.load(Ordering::SeqCst) {
                    return;
                }
                std::thread::sleep(std::time::Duration::from_millis(50));
            }
            for w in watches {
                let Some(w) = w.lock().unwrap().clone() else { continue };
                let Some(cpu) = thread_cpu(&w.stat) else { continue };
                let mut s = w.slot.lock().unwrap();
                if let Some((start, since, js)) = s.as_mut() {
                    let wall = since.elapsed().as_secs_f64();
                    if *start < 0.0 {
                        *start = cpu;
                    } else if cpu - *start > HANG_CPU_S || wall > STUCK_S && cpu - *start < 2.0 {
                        let msg = format!("no result after {:.0} s of CPU time and {wall:.0} s of wall time", cpu - *start);
                        let f = Fail { msg, sig: None, single: None };
                        let p = self.save(name, &f, serde_json::from_str(js).unwrap());
                        println!("  {name}: {}", f.msg);
                        println!("VIOLATION property={} replay={}", self.id, p.display());
                        let _ = std::fs::remove_dir_all(&self.dir);
                        std::process::exit(1);
                    }
                }
            }
        }
    }

    /// Exhaustive enumeration of a finite list, in parallel. Items are batches or single cases.
    pub fn enumerate<V>(
        &mut self,
        name: &str,
        rule: &str,
        items: Vec<V>,
        exhaustive: bool,
        test: impl Fn(&V, &mut Obs) -> R + Sync,
    ) where
        V: Debug + Clone + Serialize + DeserializeOwned + Send + Sync,
    {
        if let Mode::Replay(sub, value) = &self.mode {
            if sub == name {
                let v: V = serde_json::from_value(value.clone()).expect("replay value");
                self.replay_one(name, |o| test(&v, o));
            }
            return;
        }
        if self.stopped() || skipped(name) || matches!(self.mode, Mode::Fuzz(..)) {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let best: Mutex<Option<(u64, Fail)>> = Mutex::new(None);
        let total = Mutex::new(Tally::default());
        let me = &*self;
        let every = (items.len() / 5).max(1);
        let done = AtomicBool::new(false);
        let watches: Vec<Arc<Mutex<Option<Arc<Watch>>>>> =
            (0..SHARDS).map(|_| Arc::new(Mutex::new(None))).collect();
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for shard in 0..SHARDS {
                let (next, best, total, items, test) = (&next, &best, &total, &items, &test);
                let reg = watches[shard as usize].clone();
                hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let w = Arc::new(Watch { stat: own_stat(), slot: Mutex::new(None) });
                    *reg.lock().unwrap() = Some(w.clone());
                    let mut t = Tally::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        let Some(v) = items.get(i as usize) else { break };
                        if me.start.elapsed().as_secs_f64() > ENOUGH_S {
                            t.cut_short = true;
                            break;
                        }
                        if best.lock().unwrap().as_ref().is_some_and(|(b, _)| *b < i) {
                            break;
                        }
                        if let Some(j) = &me.journal {
                            let rep = Replay {
                                property: me.id.clone(),
                                sub: name.to_string(),
                                message: "the process died while running this case".into(),
                                value: serde_json::to_value(v).unwrap(),
                            };
                            std::fs::write(j.join(format!("{shard}.json")), serde_json::to_string(&rep).unwrap())
                                .expect("journal");
                        }
                        *w.slot.lock().unwrap() = Some((-1.0, Instant::now(), serde_json::to_string(v).unwrap()));
                        let mut o = Obs::default();
                        let out = me.guarded(&mut o, |o| test(v, o));
                        *w.slot.lock().unwrap() = None;
                        t.evaluations += o.weight.max(1);
                        if o.nontrivial {
                            t.distinct.insert(i);
                            if i as usize % every == 0 && t.samples.len() < 2 {
                                t.samples.push(clip(&serde_json::to_value(v).unwrap()));
                            }
                        }
                        for l in &o.labels {
                            *t.labels.entry(l).or_default() += 1;
                        }
                        if let Err(f) = out {
                            if let Some((s, what)) = f.sig.as_ref().and_then(|s| me.known_sigs.get_key_value(s)) {
                                t.known.insert(s.clone(), what.clone());
                                continue;
                            }
                            let mut b = best.lock().unwrap();
                            if b.as_ref().is_none_or(|(j, _)| i < *j) {
                                *b = Some((i, f));
                            }
                            break;
                        }
                    }
                    let mut g = total.lock().unwrap();
                    g.evaluations += t.evaluations;
                    g.cut_short |= t.cut_short;
                    g.distinct.extend(t.distinct);
                    for (k, v) in t.labels {
                        *g.labels.entry(k).or_default() += v;
                    }
                    if g.samples.len() < 6 {
                        g.samples.extend(t.samples);
                    }
                    g.known.extend(t.known);
                }).expect("spawn shard"));
            }
            let done = &done;
            let watches = &watches;
            sc.spawn(move || me.watchdog(name, watches, done));
            let mut err = false;
            for h in hs {
                err |= h.join().is_err();
            }
            done.store(true, Ordering::SeqCst);
            if err {
                harness_error("a shard died");
            }
        });
        if let Some((i, f)) = best.into_inner().unwrap() {
            match f.single.clone() {
                Some((sub, v)) => self.violation(&sub, &f, v),
                None => self.violation(name, &f, serde_json::to_value(&items[i as usize]).unwrap()),
            }
        }
        let n = items.len() as u32;
        self.exhaustive_any |= exhaustive;
        self.finish(name, rule, total.into_inner().unwrap(), t0, exhaustive, n);
    }

    pub fn guarded(&self, o: &mut Obs, f: impl FnOnce(&mut Obs) -> R) -> R {
        match catch_unwind(AssertUnwindSafe(|| f(o))) {
            Ok(r) => r,
            Err(_) => harness_error("panic in the harness"),
        }
    }

    fn replay_one(&mut self, name: &str, test: impl Fn(&mut Obs) -> R) {
        self.replay_found = true;
        for _ in 0..20 {
            let mut o = Obs::default();
            if let Err(f) = self.guarded(&mut o, &test) {
                println!("  {name}: {}", f.msg);
                self.replay_failed = true;
                return;
            }
        }
    }

    fn regressions(&self, name: &str) -> Vec<(PathBuf, Replay)> {
        let d = self.root.join("regress").join(&self.id);
        let mut ps: Vec<PathBuf> =
            std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        ps.sort();
        ps.into_iter()
            .filter(|p| p.extension().is_some_and(|e| e == "json"))
            .map(|p| {
                let r: Replay = serde_json::from_str(&std::fs::read_to_string(&p).unwrap())
                    .unwrap_or_else(|e| panic!("{}: {e}", p.display()));
                (p, r)
            })
            .filter(|(_, r)| r.sub == name)
            .collect()
    }

    /// After a violation the remaining sub-checks are skipped.
    fn stopped(&self) -> bool {
        !self.violations.is_empty()
    }

    pub fn save(&self, name: &str, f: &Fail, value: Value) -> PathBuf {
        let d = self.root.join("replay");
        std::fs::create_dir_all(&d).expect("replay directory");
        let p = d.join(format!("{}-{}.json", self.id, name));
        let rep =
            Replay { property: self.id.clone(), sub: name.to_string(), message: f.msg.clone(), value };
        std::fs::write(&p, serde_json::to_string_pretty(&rep).unwrap() + "\n").expect("write replay");
        p
    }

    fn violation(&mut self, name: &str, f: &Fail, value: Value) {
        if let Some((s, what)) = f.sig.as_ref().and_then(|s| self.known_sigs.get_key_value(s)) {
            self.known_hit.insert(s.clone(), what.clone());
            return;
        }
        let p = self.save(name, f, value);
        println!("  {name}: {}", f.msg.chars().take(2000).collect::<String>());
        self.violations.push(p);
    }

    fn finish(&mut self, name: &str, rule: &str, t: Tally, t0: Instant, exhaustive: bool, cases: u32) {
        self.known_hit.extend(t.known);
        self.evaluations += t.evaluations;
        self.distinct += t.distinct.len() as u64;
        let labels: serde_json::Map<String, Value> =
            t.labels.iter().map(|(k, v)| (k.to_string(), json!(v))).collect();
        println!(
            "  {name}: {} evaluations, {} distinct non-trivial, {:.1} s",
            t.evaluations,
            t.distinct.len(),
            t0.elapsed().as_secs_f64()
        );
        for s in t.samples.iter().take(2) {
            self.samples.push(json!({"sub": name, "case": s}));
        }
        self.subs.push(json!({
            "name": name,
            "rule": rule,
            "cases_requested": cases,
            "evaluations": t.evaluations,
            "distinct_nontrivial": t.distinct.len(),
            "labels": labels,
            "exhaustive": exhaustive && !t.cut_short,
            "cut_short": t.cut_short,
            "wall_s": t0.elapsed().as_secs_f64(),
        }));
    }

    /// Writes the evidence file and returns the exit code.
    pub fn conclude(mut self) -> i32 {
        let _ = std::fs::remove_dir_all(&self.dir);
        if let Mode::Replay(..) = self.mode {
            if !self.replay_found {
                eprintln!("no sub-check with that name");
                return 2;
            }
            return i32::from(self.replay_failed);
        }
        if self.samples.len() > 24 {
            self.samples.truncate(24);
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough() { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.distinct,
                "rule": "A case counts as non-trivial by the rule of the sub-check that generated it (coverage.subchecks[].rule); distinct cases are counted per sub-check by their serialized form (batches of an enumeration count once).",
                "samples": self.samples,
                "subchecks": self.subs,
                "known_findings_seen": self.known_hit.keys().collect::<Vec<_>>(),
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
        });
        let d = self.root.join("evidence");
        std::fs::create_dir_all(&d).expect("evidence directory");
        std::fs::write(
            d.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("write evidence");
        for (s, w) in &self.known_hit {
            println!("KNOWN-FINDING: property={} {} [{}]", self.id, w, s);
        }
        for p in &self.violations {
            println!("VIOLATION property={} replay={}", self.id, p.display());
        }
        if self.violations.is_empty() {
            println!("{}: held on {} evaluations", self.id, self.evaluations);
        }
        i32::from(!self.violations.is_empty())
    }
}

fn note<V: Serialize>(t: &mut Tally, o: &Obs, v: &V) {
    t.evaluations += 1;
    if o.nontrivial {
        t.distinct.insert(hash64(serde_json::to_string(v).unwrap()));
    }
}

pub fn harness_error(why: &str) -> ! {
    eprintln!("HARNESS ERROR: {why}");
    std::process::exit(2);
}

/// Shrinking that ends. The runner has limits of its own, but having reached one it goes back to the last failing
/// value step by step, which takes minutes where strategies depend on values; nothing here needs that.
#[derive(Debug)]
struct Bounded<S>(S, u32);

struct BoundedTree<T> {
    inner: T,
    steps: u32,
    since: Option<Instant>,
}

impl<S: Strategy> Strategy for Bounded<S> {
    type Tree = BoundedTree<S::Tree>;
    type Value = S::Value;

    fn new_tree(&self, runner: &mut TestRunner) -> proptest::strategy::NewTree<Self> {
        Ok(BoundedTree { inner: self.0.new_tree(runner)?, steps: self.1, since: None })
    }
}

impl<T> BoundedTree<T> {
    fn another(&mut self) -> bool {
        self.steps = self.steps.saturating_sub(1);
        self.steps > 0 && self.since.get_or_insert_with(Instant::now).elapsed().as_secs() < 15
    }
}

impl<T: ValueTree> ValueTree for BoundedTree<T> {
    type Value = T::Value;

    fn current(&self) -> T::Value {
        self.inner.current()
    }

    fn simplify(&mut self) -> bool {
        self.another() && self.inner.simplify()
    }

    fn complicate(&mut self) -> bool {
        self.another() && self.inner.complicate()
    }
}

/// While working on the harness: VH_ONLY=NAME runs one sub-check. run.sh unsets it.
fn skipped(name: &str) -> bool {
    std::env::var("VH_ONLY").is_ok_and(|v| v != name)
}
