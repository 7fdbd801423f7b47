//! Coverage-guided search: libFuzzer supplies the bytes that proptest's generators draw their choices from.
//! Used by the thorough tier; the fuzzer itself is linked in by /verif/fuzz.

use crate::run::{clip, hash64, harness_error, install_panic_hook, Ctx, Fail, Mode, Obs, Replay, Tally, Tier, R, SHARDS};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::fmt::Debug;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Calls back once per input; returns whether the input was of use.
pub type Driver = fn(&mut dyn FnMut(&[u8]) -> bool);

extern "C" {
    fn _exit(code: i32) -> !;
    fn atexit(f: extern "C" fn()) -> i32;
}

// locked by one thread only; thread-local storage is gone when atexit functions run
static TALLY: Mutex<Option<Tally>> = Mutex::new(None);

fn out_dir() -> PathBuf {
    PathBuf::from(std::env::var_os("VH_FUZZ_OUT").unwrap_or_else(|| harness_error("VH_FUZZ_OUT is not set")))
}

extern "C" fn write_stats() {
    if let Some(t) = TALLY.lock().unwrap().as_ref() {
        let d = out_dir();
        let v = json!({"evaluations": t.evaluations, "labels": t.labels, "samples": t.samples});
        let h: Vec<u8> = t.distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
        let _ = std::fs::write(d.join("stats.json"), v.to_string());
        let _ = std::fs::write(d.join("hashes.bin"), h);
    }
}

fn tree_of<S: Strategy>(s: &S, bytes: &[u8]) -> Option<S::Tree> {
    let cfg = Config { failure_persistence: None, max_local_rejects: 200, ..Config::default() };
    let mut r = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::PassThrough, bytes));
    s.new_tree(&mut r).ok()
}

/// A case read straight from the fuzzer's bytes, made smaller by leaving bytes out.
pub struct Raw<'a, V> {
    bytes: Vec<u8>,
    before: Vec<u8>,
    at: usize,
    size: usize,
    decode: &'a dyn Fn(&[u8]) -> V,
}

impl<'a, V: Debug> Raw<'a, V> {
    pub fn new(bytes: &[u8], decode: &'a dyn Fn(&[u8]) -> V) -> Self {
        Self { bytes: bytes.to_vec(), before: vec![], at: 0, size: bytes.len(), decode }
    }
    fn cut(&mut self) -> bool {
        while self.size > 0 && self.at >= self.bytes.len() {
            self.at = 0;
            self.size = if self.size > 1 { self.size.div_ceil(2) } else { 0 };
        }
        if self.size == 0 {
            return false;
        }
        self.before = self.bytes.clone();
        let end = (self.at + self.size).min(self.bytes.len());
        self.bytes.drain(self.at..end);
        true
    }
}

impl<V: Debug> ValueTree for Raw<'_, V> {
    type Value = V;
    fn current(&self) -> V {
        (self.decode)(&self.bytes)
    }
    fn simplify(&mut self) -> bool {
        self.cut()
    }
    fn complicate(&mut self) -> bool {
        self.bytes = std::mem::take(&mut self.before);
        self.at += self.size;
        self.cut()
    }
}

/// Runs in the fuzzer's process: the bytes are what the generator draws from.
pub fn drive<V, S>(ctx: &Ctx, name: &str, driver: Driver, shrink: u32, strategy: &S, test: &impl Fn(&V, &mut Obs) -> R)
where
    S: Strategy<Value = V>,
    V: Serialize + Debug,
{
    drive_with(ctx, name, driver, shrink, &|b| tree_of(strategy, b), test)
}

/// Runs in the fuzzer's process: every input becomes a case.
pub fn drive_with<V, T>(
    ctx: &Ctx,
    name: &str,
    driver: Driver,
    shrink: u32,
    tree_of: &dyn Fn(&[u8]) -> Option<T>,
    test: &impl Fn(&V, &mut Obs) -> R,
) where
    T: ValueTree<Value = V>,
    V: Serialize + Debug,
{
    if let Some(p) = std::env::var_os("VH_FUZZ_VALUE") {
        // only says which case the bytes stand for
        let bytes = std::fs::read(&p).expect("fuzzer input");
        let Some(t) = tree_of(&bytes) else { return };
        let rep = Replay {
            property: ctx.id.clone(),
            sub: name.to_string(),
            message: "the process died or hung while running this case".into(),
            value: serde_json::to_value(t.current()).expect("case to json"),
        };
        std::fs::write(out_dir().join("value.json"), serde_json::to_string(&rep).unwrap()).expect("value");
        return;
    }
    let unknown = |r: R| match r {
        Err(f) if !f.sig.as_ref().is_some_and(|s| ctx.known_sigs.contains_key(s)) => Some(f),
        _ => None,
    };
    let mut first = true;
    driver(&mut |bytes| {
        if first {
            // libFuzzer's own hook would end the process at a panic the checks expect and catch
            let _ = std::panic::take_hook();
            install_panic_hook();
            unsafe { atexit(write_stats) };
            first = false;
        }
        let Some(mut tree) = tree_of(bytes) else { return false };
        let v = tree.current();
        let mut o = Obs::default();
        let out = unknown(ctx.guarded(&mut o, |o| test(&v, o)));
        {
            let mut g = TALLY.lock().unwrap();
            let t = g.get_or_insert_with(Tally::default);
            t.evaluations += o.weight.max(1);
            let js = serde_json::to_string(&v).expect("case to json");
            if o.nontrivial && t.distinct.insert(hash64(&js)) && t.samples.len() < 2 && t.distinct.len() % 1000 == 999 {
                t.samples.push(clip(&serde_json::from_str(&js).unwrap()));
            }
            for l in &o.labels {
                *t.labels.entry(l).or_default() += 1;
            }
        }
        let Some(mut worst) = out else { return true };
        let mut smallest = v;
        let t0 = Instant::now();
        let mut go = tree.simplify();
        for _ in 0..shrink {
            if !go || t0.elapsed() > Duration::from_secs(20) {
                break;
            }
            let v = tree.current();
            go = match unknown(ctx.guarded(&mut Obs::default(), |o| test(&v, o))) {
                Some(f) => {
                    (worst, smallest) = (f, v);
                    tree.simplify()
                }
                None => tree.complicate(),
            };
        }
        let rep = json!({"message": worst.msg, "sig": worst.sig, "value": smallest});
        std::fs::write(out_dir().join("found.json"), rep.to_string()).expect("found");
        write_stats();
        unsafe { _exit(1) }
    });
}

/// The fuzzer binary: `vh-fuzz ID SUB`, the rest in the environment.
pub fn main(driver: Driver) {
    let a: Vec<String> = std::env::args().collect();
    let (Some(id), Some(sub)) = (a.get(1), a.get(2)) else { harness_error("vh-fuzz ID SUB") };
    install_panic_hook();
    let mut ctx = Ctx::new(id, Tier::Thorough, crate::root(), None);
    ctx.mode = Mode::Fuzz(sub.clone(), driver);
    crate::dispatch(&mut ctx);
    let _ = std::fs::remove_dir_all(&ctx.dir);
}

pub struct Campaign {
    pub tally: Tally,
    pub found: Option<(Fail, Value)>,
    pub about: Value,
    pub labels: Value,
}

/// Runs the fuzzer in several processes and collects what they report.
pub fn campaign(ctx: &Ctx, bin: &Path, name: &str, runs: u32, seconds: f64, seeds: Option<Vec<Vec<u8>>>) -> Campaign {
    let base = ctx.dir.join("fuzz");
    let mut c = Campaign { tally: Tally::default(), found: None, about: json!({}), labels: json!({}) };
    let mut kids = vec![];
    for k in 0..SHARDS {
        let d = base.join(format!("{name}-{k}"));
        let corpus = d.join("corpus");
        std::fs::create_dir_all(&corpus).expect("corpus");
        for (i, b) in seeds.iter().flatten().enumerate() {
            std::fs::write(corpus.join(format!("s{i}")), b).expect("corpus");
        }
        // starting inputs: random bytes of several lengths, the same for the same seed
        for i in 0..if seeds.is_some() { 0 } else { 24u64 } {
            let n = [64u64, 256, 1024, 4096][(i % 4) as usize];
            let b: Vec<u8> = (0..n / 8).flat_map(|j| hash64((ctx.seed, name, k, i, j)).to_le_bytes()).collect();
            std::fs::write(corpus.join(format!("s{i}")), b).expect("corpus");
        }
        let log = std::fs::File::create(d.join("log")).expect("log");
        let args = [
            format!("-seed={}", (hash64((ctx.seed, name, k)) as u32).max(1)),
            format!("-runs={runs}"),
            format!("-max_total_time={}", seconds as u64),
            format!("-max_len={}", if seeds.is_some() { 1024 } else { 8192 }),
            "-len_control=0".into(),
            "-timeout=120".into(),
            "-rss_limit_mb=3000".into(),
            "-print_final_stats=1".into(),
            format!("-artifact_prefix={}/", d.display()),
            corpus.display().to_string(),
        ];
        let p = Command::new(bin)
            .args([&ctx.id, name])
            .env("VH_FUZZ_OUT", &d)
            .env("VH_FUZZ_ARGS", args.join("\n"))
            .stdin(Stdio::null())
            .stdout(log.try_clone().expect("log"))
            .stderr(log)
            .spawn()
            .unwrap_or_else(|e| harness_error(&format!("{}: {e}", bin.display())));
        kids.push((p, d));
    }
    let (mut cov, mut corp, mut unclear) = (0u64, 0u64, vec![]);
    let mut labels: std::collections::BTreeMap<String, u64> = Default::default();
    for (mut p, d) in kids {
        let st = p.wait().expect("fuzzer");
        let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("vh-{}-{}", ctx.id, p.id())));
        let log = String::from_utf8_lossy(&std::fs::read(d.join("log")).unwrap_or_default()).into_owned();
        let last = |key: &str| {
            log.lines().rev().find_map(|l| l.split(key).nth(1)?.split_whitespace().next()?.split('/').next()?.parse::<u64>().ok())
        };
        cov = cov.max(last(" cov: ").unwrap_or(0));
        corp += last(" corp: ").unwrap_or(0);
        if let Ok(s) = std::fs::read(d.join("stats.json")) {
            let v: Value = serde_json::from_slice(&s).unwrap_or_default();
            c.tally.evaluations += v["evaluations"].as_u64().unwrap_or(0);
            c.tally.samples.extend(v["samples"].as_array().cloned().unwrap_or_default());
            for (k, n) in v["labels"].as_object().into_iter().flatten() {
                *labels.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
            }
            let h = std::fs::read(d.join("hashes.bin")).unwrap_or_default();
            let h: HashSet<u64> = h.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect();
            c.tally.distinct.extend(h);
        }
        if st.success() || c.found.is_some() {
            continue;
        }
        if let Ok(s) = std::fs::read(d.join("found.json")) {
            let v: Value = serde_json::from_slice(&s).expect("found.json");
            let f = Fail {
                msg: v["message"].as_str().unwrap_or("").to_string(),
                sig: v["sig"].as_str().map(|s| s.to_string()),
                single: None,
            };
            c.found = Some((f, v["value"].clone()));
            continue;
        }
        // the process died, hung or ran out of memory: the case decides, run on its own
        let artifact = std::fs::read_dir(&d)
            .into_iter()
            .flatten()
            .flatten()
            .map(|e| e.path())
            .find(|p| ["crash-", "timeout-", "oom-"].iter().any(|x| p.file_name().is_some_and(|f| f.to_string_lossy().starts_with(x))));
        let Some(artifact) = artifact else {
            harness_error(&format!("the fuzzer ended with {st}: {}", log.lines().rev().take(12).collect::<Vec<_>>().join(" | ")))
        };
        let ok = Command::new(bin)
            .args([&ctx.id, name])
            .env("VH_FUZZ_OUT", &d)
            .env("VH_FUZZ_VALUE", &artifact)
            .stdin(Stdio::null())
            .status()
            .expect("fuzzer");
        let value = d.join("value.json");
        if !ok.success() || !value.exists() {
            unclear.push(format!("{}: no case", artifact.display()));
            continue;
        }
        match replay_alone(&value) {
            Some(how) => {
                let rep = crate::read_replay(&value);
                let f = Fail { msg: format!("the process running the case {how}"), sig: None, single: None };
                c.found = Some((f, rep.value));
            }
            None => unclear.push(artifact.file_name().unwrap_or_default().to_string_lossy().into_owned()),
        }
    }
    let _ = std::fs::remove_dir_all(&base);
    c.labels = json!(labels);
    c.about = json!({"engine": "libFuzzer", "processes": SHARDS, "runs_each": runs, "cov": cov, "corpus": corp, "ended_early_but_not_reproduced": unclear});
    c
}

fn replay_alone(p: &Path) -> Option<String> {
    let mut k = Command::new(std::env::current_exe().expect("own path")).arg("work-replay").arg(p).spawn().expect("start worker");
    let t0 = Instant::now();
    loop {
        if let Some(st) = k.try_wait().expect("worker") {
            return match st.signal() {
                Some(s) => Some(format!("was ended by signal {s}")),
                None if st.code() == Some(1) => Some("failed".into()),
                None if st.code() == Some(2) => harness_error(&format!("the fuzzer stopped at {}", p.display())),
                None => None,
            };
        }
        if t0.elapsed() > Duration::from_secs(200) {
            let _ = k.kill();
            let _ = k.wait();
            return Some("had no result after 200 s".into());
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}
