//! Generation, execution, shrinking, crash isolation and evidence.
//!
//! Every case is a pure function of (code, seed, property, suite, index): the
//! generator of case `i` is seeded from exactly those, so the set of cases does
//! not depend on the number of threads or on scheduling.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Silences the default panic output and remembers where the panic was.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let _ = LAST_PANIC.try_with(|c| *c.borrow_mut() = Some((loc, msg)));
    }));
}

fn payload(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

/// Calls library code; a panic becomes `Err(message)`.
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| payload(&*e).chars().take(300).collect())
}

// ------------------------------------------------------------------ cases

#[derive(Default)]
pub struct Obs {
    classes: BTreeMap<&'static str, u64>,
    nontrivial: bool,
    /// Extra evaluations done inside the case (sweeps).
    pub extra: u64,
}

impl Obs {
    /// Marks the case non-trivial by the suite's stated rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, b: bool) {
        if b {
            self.nontrivial = true
        }
    }
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_insert(0) += 1;
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.class(c)
        }
    }
}

pub type Check<C> = fn(&C, &mut Obs) -> Result<(), String>;

pub enum Source<C: 'static> {
    Random(fn(bool) -> BoxedStrategy<C>),
    Enum(fn(u64) -> C),
}

pub struct Suite<C: 'static> {
    pub name: &'static str,
    pub source: Source<C>,
    pub check: Check<C>,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

pub enum Outcome {
    Ok,
    Fail(String),
    /// The harness itself panicked: an error of the check.
    Broken(String),
}

/// Messages name whole documents; big ones are cut.
fn clip(m: String) -> String {
    if m.len() <= 8000 {
        return m;
    }
    let head: String = m.chars().take(6000).collect();
    format!("{} ... ({} characters)", head, m.chars().count())
}

fn run_check<C>(check: Check<C>, c: &C, obs: &mut Obs) -> Outcome {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| check(c, obs))) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(m)) => Outcome::Fail(clip(m)),
        Err(e) => {
            let (loc, _) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            let m = format!("unexpected panic at {}: {}", loc, payload(&*e));
            if loc.starts_with("src/") {
                Outcome::Broken(m)
            } else {
                Outcome::Fail(m)
            }
        }
    }
}

pub struct Failure {
    pub suite: &'static str,
    pub idx: u64,
    pub case: Value,
    pub original: Value,
    pub message: String,
    pub shrinks: u64,
}

pub struct SuiteResult {
    pub name: &'static str,
    pub rule: &'static str,
    pub evals: u64,
    pub distinct: u64,
    pub nontrivial: u64,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
    pub wall_s: f64,
}

pub struct Ctx {
    pub id: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub scale: f64,
    /// Directory in which each thread notes the case it is about to run.
    pub trace: Option<PathBuf>,
}

pub trait DynSuite: Sync {
    fn name(&self) -> &'static str;
    fn run(&self, ctx: &Ctx) -> Result<SuiteResult, String>;
    fn replay(&self, case: &Value) -> Result<Outcome, String>;
    /// Shrinks case `idx` using an outside oracle ("does this case crash?").
    fn shrink_external(
        &self,
        ctx: &Ctx,
        idx: u64,
        fails: &mut dyn FnMut(&Value) -> bool,
    ) -> Option<Value>;
}

fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 29;
    h.wrapping_mul(0xbf58476d1ce4e5b9)
}

fn case_seed(seed: u64, id: &str, suite: &str, idx: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut h = 0xcbf29ce484222325u64;
    h = fnv(h, &seed.to_le_bytes());
    h = fnv(h, id.as_bytes());
    h = fnv(h, suite.as_bytes());
    h = fnv(h, &idx.to_le_bytes());
    for i in 0..4u64 {
        h = fnv(h, &i.to_le_bytes());
        out[(i as usize) * 8..(i as usize) * 8 + 8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

/// Case number `i` of a strategy, outside any suite.
pub fn sample<T: std::fmt::Debug>(s: &BoxedStrategy<T>, seed: u64, i: u64) -> T {
    let mut r = runner_for(case_seed(seed, "emit", "", i));
    s.new_tree(&mut r).expect("generates").current()
}

fn runner_for(seed: [u8; 32]) -> TestRunner {
    let cfg = Config {
        failure_persistence: None,
        ..Config::default()
    };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed))
}

/// Per-thread heartbeat: the ticks the present case has lasted so far, and the
/// case itself. A tick is a second this process was actually running.
static BEATS: [(AtomicU64, Mutex<Option<(&'static str, u64, Vec<u8>)>>); 64] =
    [const { (AtomicU64::new(0), Mutex::new(None)) }; 64];
/// No case of these sizes takes more than a second or two.
const HANG_TICKS: u64 = 90;
/// The exit code of a worker that met a case that does not end.
pub const HUNG: i32 = 97;

fn begin(t: usize, suite: &'static str, idx: u64, text: &[u8]) {
    let mut b = BEATS[t].1.lock().unwrap();
    BEATS[t].0.store(0, Ordering::SeqCst);
    match &mut *b {
        Some(c) => {
            c.0 = suite;
            c.1 = idx;
            c.2.clear();
            c.2.extend_from_slice(text);
        }
        None => *b = Some((suite, idx, text.to_vec())),
    }
}
fn end(t: usize) {
    BEATS[t].1.lock().unwrap().take();
}

/// Ends this process when a case does not end, leaving the case in the file.
pub fn start_watchdog(note: Option<PathBuf>) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(1000));
        for b in BEATS.iter() {
            let c = b.1.lock().unwrap();
            let Some((suite, idx, text)) = &*c else { continue };
            if b.0.fetch_add(1, Ordering::SeqCst) < HANG_TICKS {
                continue;
            }
            eprintln!("case {} of {} has not ended for over {} s", idx, suite, HANG_TICKS);
            let case: Value = serde_json::from_slice(text).unwrap_or(Value::Null);
            if let Some(f) = &note {
                let _ = std::fs::write(f, json!({"suite": suite, "idx": idx, "case": case}).to_string());
            }
            std::process::exit(HUNG);
        }
    });
}

impl<C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static> DynSuite for Suite<C> {
    fn name(&self) -> &'static str {
        self.name
    }

    fn run(&self, ctx: &Ctx) -> Result<SuiteResult, String> {
        let t0 = Instant::now();
        let base = if ctx.thorough { self.thorough } else { self.quick };
        let total = match self.source {
            Source::Enum(_) => base,
            Source::Random(_) => ((base as f64 * ctx.scale) as u64).max(1),
        };
        let next = AtomicU64::new(0);
        let stop_at = AtomicU64::new(u64::MAX);
        let broken = AtomicBool::new(false);
        let seen: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        struct Part {
            evals: u64,
            distinct: u64,
            nontrivial: u64,
            classes: BTreeMap<&'static str, u64>,
            samples: Vec<(u64, Value)>,
            fail: Option<(u64, String)>,
            broken: Option<String>,
        }
        const CHUNK: u64 = 32;
        let parts: Vec<Part> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..ctx.threads)
                .map(|t| {
                    let (next, stop_at, broken, seen) = (&next, &stop_at, &broken, &seen);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || {
                            let mut p = Part {
                                evals: 0,
                                distinct: 0,
                                nontrivial: 0,
                                classes: BTreeMap::new(),
                                samples: vec![],
                                fail: None,
                                broken: None,
                            };
                            let strat = match self.source {
                                Source::Random(f) => Some(f(ctx.thorough)),
                                _ => None,
                            };
                            let chunk = if let Source::Enum(_) = self.source { 1 } else { CHUNK.min(total / (ctx.threads as u64 * 8)).max(1) };
                            'outer: loop {
                                let lo = next.fetch_add(chunk, Ordering::SeqCst);
                                if lo >= total || broken.load(Ordering::SeqCst) {
                                    break;
                                }
                                for idx in lo..(lo + chunk).min(total) {
                                    if idx > stop_at.load(Ordering::SeqCst) {
                                        break 'outer;
                                    }
                                    let case = match self.source {
                                        Source::Random(_) => {
                                            let mut r = runner_for(case_seed(
                                                ctx.seed, ctx.id, self.name, idx,
                                            ));
                                            match strat.as_ref().unwrap().new_tree(&mut r) {
                                                Ok(t) => t.current(),
                                                Err(e) => {
                                                    p.broken = Some(format!("generator: {}", e));
                                                    broken.store(true, Ordering::SeqCst);
                                                    break 'outer;
                                                }
                                            }
                                        }
                                        Source::Enum(f) => f(idx),
                                    };
                                    let text = serde_json::to_vec(&case).unwrap_or_default();
                                    if let Some(dir) = &ctx.trace {
                                        let _ = std::fs::write(
                                            dir.join(format!("t{}", t)),
                                            serde_json::to_vec(&json!({
                                                "suite": self.name, "idx": idx,
                                                "case": serde_json::to_value(&case).unwrap_or(Value::Null)
                                            }))
                                            .unwrap_or_default(),
                                        );
                                    }
                                    begin(t, self.name, idx, &text);
                                    let mut obs = Obs::default();
                                    let out = run_check(self.check, &case, &mut obs);
                                    end(t);
                                    p.evals += 1 + obs.extra;
                                    let h = fnv(0x9e3779b97f4a7c15, &text);
                                    let fresh = seen[(h >> 58) as usize].lock().unwrap().insert(h);
                                    if fresh {
                                        p.distinct += 1 + obs.extra;
                                        if obs.nontrivial {
                                            p.nontrivial += 1 + obs.extra;
                                        }
                                    }
                                    for (k, v) in obs.classes {
                                        *p.classes.entry(k).or_insert(0) += v;
                                    }
                                    if obs.nontrivial && p.samples.len() < 2 && text.len() < 3000 {
                                        p.samples.push((
                                            idx,
                                            serde_json::from_slice(&text).unwrap_or(Value::Null),
                                        ));
                                    }
                                    match out {
                                        Outcome::Ok => {}
                                        Outcome::Fail(m) => {
                                            p.fail = Some((idx, m));
                                            stop_at.fetch_min(idx, Ordering::SeqCst);
                                            break 'outer;
                                        }
                                        Outcome::Broken(m) => {
                                            p.broken = Some(format!(
                                                "{} (suite {}, case {}: {})",
                                                m,
                                                self.name,
                                                idx,
                                                String::from_utf8_lossy(&text)
                                            ));
                                            broken.store(true, Ordering::SeqCst);
                                            break 'outer;
                                        }
                                    }
                                }
                            }
                            p
                        })
                        .expect("thread")
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("worker thread")).collect()
        });

        let mut res = SuiteResult {
            name: self.name,
            rule: self.rule,
            evals: 0,
            distinct: 0,
            nontrivial: 0,
            classes: BTreeMap::new(),
            samples: vec![],
            failure: None,
            wall_s: 0.0,
        };
        let mut samples = vec![];
        let mut fail: Option<(u64, String)> = None;
        for p in parts {
            if let Some(b) = p.broken {
                return Err(b);
            }
            res.evals += p.evals;
            res.distinct += p.distinct;
            res.nontrivial += p.nontrivial;
            for (k, v) in p.classes {
                *res.classes.entry(k).or_insert(0) += v;
            }
            samples.extend(p.samples);
            if let Some(f) = p.fail {
                if fail.as_ref().map_or(true, |g| f.0 < g.0) {
                    fail = Some(f);
                }
            }
        }
        samples.sort_by_key(|s| s.0);
        res.samples = samples.into_iter().take(2).map(|s| s.1).collect();
        if let Some((idx, msg)) = fail {
            res.failure = Some(self.shrink(ctx, idx, msg));
        }
        res.wall_s = t0.elapsed().as_secs_f64();
        Ok(res)
    }

    fn replay(&self, case: &Value) -> Result<Outcome, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        // Several attempts: some properties quantify over thread schedules.
        for _ in 0..3 {
            let mut obs = Obs::default();
            match run_check(self.check, &c, &mut obs) {
                Outcome::Ok => {}
                o => return Ok(o),
            }
        }
        Ok(Outcome::Ok)
    }

    fn shrink_external(
        &self,
        ctx: &Ctx,
        idx: u64,
        fails: &mut dyn FnMut(&Value) -> bool,
    ) -> Option<Value> {
        let f = match self.source {
            Source::Random(f) => f,
            Source::Enum(f) => return serde_json::to_value(f(idx)).ok(),
        };
        let mut r = runner_for(case_seed(ctx.seed, ctx.id, self.name, idx));
        let mut tree = f(ctx.thorough).new_tree(&mut r).ok()?;
        let mut best = serde_json::to_value(tree.current()).ok()?;
        let mut steps = 0;
        if !tree.simplify() {
            return Some(best);
        }
        while steps < 300 {
            steps += 1;
            let v = serde_json::to_value(tree.current()).ok()?;
            let more = if fails(&v) {
                best = v;
                tree.simplify()
            } else {
                tree.complicate()
            };
            if !more {
                break;
            }
        }
        Some(best)
    }
}

impl<C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static> Suite<C> {
    fn shrink(&self, ctx: &Ctx, idx: u64, msg: String) -> Failure {
        let val = |c: &C| serde_json::to_value(c).unwrap_or(Value::Null);
        let f = match self.source {
            Source::Enum(f) => {
                let c = f(idx);
                return Failure {
                    suite: self.name,
                    idx,
                    case: val(&c),
                    original: val(&c),
                    message: msg,
                    shrinks: 0,
                };
            }
            Source::Random(f) => f,
        };
        let mut r = runner_for(case_seed(ctx.seed, ctx.id, self.name, idx));
        let mut tree = f(ctx.thorough).new_tree(&mut r).expect("regenerates");
        let original = tree.current();
        let mut best = (original.clone(), msg);
        let t0 = Instant::now();
        let mut steps = 0u64;
        if tree.simplify() {
            loop {
                if steps >= 20_000 || t0.elapsed() > Duration::from_secs(40) {
                    break;
                }
                steps += 1;
                let c = tree.current();
                if let Some(dir) = &ctx.trace {
                    let _ = std::fs::write(
                        dir.join("shrink"),
                        serde_json::to_vec(
                            &json!({"suite": self.name, "idx": idx, "case": val(&c)}),
                        )
                        .unwrap_or_default(),
                    );
                }
                let mut obs = Obs::default();
                begin(0, self.name, idx, &serde_json::to_vec(&c).unwrap_or_default());
                let out = run_check(self.check, &c, &mut obs);
                end(0);
                let more = match out {
                    Outcome::Fail(m) => {
                        best = (c, m);
                        tree.simplify()
                    }
                    _ => tree.complicate(),
                };
                if !more {
                    break;
                }
            }
        }
        Failure {
            suite: self.name,
            idx,
            case: val(&best.0),
            original: val(&original),
            message: best.1,
            shrinks: steps,
        }
    }
}

static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
pub fn t0() -> Instant {
    *T0.get_or_init(Instant::now)
}

// ------------------------------------------------------------------ property runs

pub struct Property {
    pub id: &'static str,
    pub suites: Vec<Box<dyn DynSuite>>,
    pub assumptions: &'static [&'static str],
}

pub fn verif_dir() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR"))
        .parent()
        .map(|p| p.to_path_buf())
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn write_replay(id: &str, f: &Failure, seed: u64) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let v = json!({
        "property": id, "suite": f.suite, "seed": seed, "index": f.idx,
        "message": f.message, "case": f.case, "unshrunk": f.original,
        "shrink_steps": f.shrinks,
        "how": "harness/target/release/harness replay <this file>",
    });
    let text = serde_json::to_string_pretty(&v).unwrap_or_default();
    let h = fnv(1, text.as_bytes());
    let path = dir.join(format!("{}-{}-{:08x}.json", id, f.suite, (h >> 32) as u32));
    if let Ok(mut o) = std::fs::File::create(&path) {
        let _ = o.write_all(text.as_bytes());
    }
    path
}

/// The regression corpus: shrunk cases of defects that were fixed, and
/// hand-picked boundary cases. Replayed before the search.
pub fn corpus(id: &str) -> Vec<(String, String, Value)> {
    let mut out = vec![];
    let dir = verif_dir().join("corpus").join(id);
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir)
        .map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect())
        .unwrap_or_default();
    files.sort();
    for f in files {
        if f.extension().map_or(false, |e| e == "json") {
            if let Ok(v) = std::fs::read(&f)
                .map_err(|_| ())
                .and_then(|b| serde_json::from_slice::<Value>(&b).map_err(|_| ()))
            {
                out.push((
                    f.display().to_string(),
                    v["suite"].as_str().unwrap_or("").to_string(),
                    v["case"].clone(),
                ));
            }
        }
    }
    out
}

/// Runs all suites of a property; returns the exit code.
pub fn run_property(p: &Property, ctx: &Ctx) -> i32 {
    let start = Instant::now();
    let mut code = 0;
    let mut results = vec![];
    let mut failure: Option<Failure> = None;
    let mut corpus_n = 0u64;

    for (file, suite, case) in corpus(p.id) {
        let Some(s) = p.suites.iter().find(|s| s.name() == suite) else {
            eprintln!("ERROR: corpus file {} names unknown suite {}", file, suite);
            return 2;
        };
        if let Some(dir) = &ctx.trace {
            let _ = std::fs::write(
                dir.join("t0"),
                serde_json::to_vec(&json!({"suite": suite, "idx": Value::Null, "case": case}))
                    .unwrap_or_default(),
            );
        }
        begin(0, s.name(), u64::MAX, &serde_json::to_vec(&case).unwrap_or_default());
        let r = s.replay(&case);
        end(0);
        match r {
            Ok(Outcome::Ok) => corpus_n += 1,
            Ok(Outcome::Fail(m)) => {
                failure = Some(Failure {
                    suite: s.name(),
                    idx: u64::MAX,
                    case: case.clone(),
                    original: case,
                    message: format!("regression case {}: {}", file, m),
                    shrinks: 0,
                });
                break;
            }
            Ok(Outcome::Broken(m)) | Err(m) => {
                eprintln!("ERROR: corpus file {}: {}", file, m);
                return 2;
            }
        }
    }

    if failure.is_none() {
        for s in &p.suites {
            match s.run(ctx) {
                Ok(mut r) => {
                    eprintln!(
                        "{} {}: {} cases, {} distinct, {} non-trivial, {:.1} s {:?}",
                        p.id, r.name, r.evals, r.distinct, r.nontrivial, r.wall_s, r.classes
                    );
                    let f = r.failure.take();
                    results.push(r);
                    if let Some(f) = f {
                        failure = Some(f);
                        break;
                    }
                }
                Err(e) => {
                    eprintln!("ERROR: the check itself failed: {}", e);
                    return 2;
                }
            }
        }
    }

    if let Some(f) = &failure {
        let path = write_replay(p.id, f, ctx.seed);
        println!("{}: {} [{}]", p.id, f.message, f.suite);
        println!("  case: {}", f.case);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
    }

    write_evidence(p, ctx, &results, corpus_n, start.elapsed().as_secs_f64(), failure.is_some() as i64);
    code
}

pub fn write_evidence(
    p: &Property,
    ctx: &Ctx,
    results: &[SuiteResult],
    corpus_n: u64,
    wall: f64,
    violations: i64,
) {
    let evals: u64 = results.iter().map(|r| r.evals).sum::<u64>() + corpus_n;
    let nontriv: u64 = results.iter().map(|r| r.nontrivial).sum();
    let rule = results
        .iter()
        .map(|r| format!("{}: {}", r.name, r.rule))
        .collect::<Vec<_>>()
        .join(" | ");
    let samples: Vec<Value> = results
        .iter()
        .flat_map(|r| r.samples.iter().map(move |s| json!({"suite": r.name, "case": s})))
        .collect();
    let suites: Vec<Value> = results
        .iter()
        .map(|r| {
            json!({"suite": r.name, "evaluations": r.evals, "distinct": r.distinct,
                   "distinct_nontrivial": r.nontrivial, "classes": r.classes, "wall_s": r.wall_s})
        })
        .collect();
    let v = json!({
        "property": p.id,
        "tier": if ctx.thorough { "thorough" } else { "quick" },
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nontriv,
            "rule": rule,
            "samples": samples,
            "suites": suites,
            "regression_cases_replayed": corpus_n,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(
        dir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&v).unwrap_or_default() + "\n",
    );
}

pub fn suite<C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static>(
    name: &'static str,
    rule: &'static str,
    quick: u64,
    thorough: u64,
    strategy: fn(bool) -> BoxedStrategy<C>,
    check: Check<C>,
) -> Box<dyn DynSuite> {
    Box::new(Suite {
        name,
        source: Source::Random(strategy),
        check,
        quick,
        thorough,
        rule,
    })
}

pub fn sweep<C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static>(
    name: &'static str,
    rule: &'static str,
    quick: u64,
    thorough: u64,
    gen: fn(u64) -> C,
    check: Check<C>,
) -> Box<dyn DynSuite> {
    Box::new(Suite {
        name,
        source: Source::Enum(gen),
        check,
        quick,
        thorough,
        rule,
    })
}

/// Fails the case with a formatted message unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
