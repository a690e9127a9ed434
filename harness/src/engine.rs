//! Runs sub-checks: proptest generation and shrinking, fixed work split over
//! workers with derived seeds, statistics, journal and replay.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const WORKERS: u32 = 8;

/// What one passing case was.
pub struct Class {
    /// Non-trivial by the sub-check's stated rule.
    pub nontrivial: bool,
    /// Labels counted in the evidence.
    pub labels: Vec<&'static str>,
}

impl Class {
    pub fn new(nontrivial: bool) -> Class {
        Class { nontrivial, labels: Vec::new() }
    }
    pub fn label(mut self, on: bool, l: &'static str) -> Class {
        if on {
            self.labels.push(l);
        }
        self
    }
}

pub type Verdict = Result<Class, String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub seed: u64,
    pub tier: Tier,
    /// "dev" or "release": part of the derived seeds.
    pub profile: &'static str,
    /// Directory for progress, journal and case hashes.
    pub work: PathBuf,
    pub journal: bool,
    /// Percentage of the tier's cases to run.
    pub percent: u64,
}

#[derive(Serialize)]
pub struct SubResult {
    pub name: &'static str,
    pub rule: &'static str,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub exhaustive: bool,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    #[serde(skip)]
    pub hashes: HashSet<u64>,
}

#[derive(Serialize, Clone)]
pub struct Failure {
    pub sub: String,
    pub reason: String,
    pub case: serde_json::Value,
    pub worker: u32,
    /// What the worker ran before, should that matter.
    pub before: Vec<serde_json::Value>,
}

/// How many cases before a failure are remembered.
const REMEMBERED: usize = 64;

/// The last cases a worker ran.
struct Past<C>(VecDeque<Rc<C>>);

impl<C: Serialize> Past<C> {
    fn new() -> Past<C> {
        Past(VecDeque::new())
    }
    fn add(&mut self, case: C) {
        if self.0.len() == REMEMBERED {
            self.0.pop_front();
        }
        self.0.push_back(Rc::new(case));
    }
    fn so_far(&self) -> Past<C> {
        Past(self.0.clone())
    }
    fn values(&self) -> Vec<serde_json::Value> {
        let value = |c: &Rc<C>| serde_json::to_value(&**c).unwrap();
        self.0.iter().map(value).collect()
    }
}

pub struct Sub {
    pub name: &'static str,
    /// Of the quick tier.
    pub cases: u64,
    pub run: Box<dyn Fn(&Ctx) -> SubResult + Send + Sync>,
    pub replay: Box<dyn Fn(&serde_json::Value) -> Verdict + Send + Sync>,
    /// For coverage-guided search; a finite domain has none.
    pub guided: Option<Box<dyn Fn() -> Box<dyn Guided> + Send + Sync>>,
}

/// A sub-check driven by bytes in place of random numbers.
#[allow(dead_code)]
pub trait Guided {
    /// The bytes that stand for some random cases.
    fn seeds(&self, seed: u64, n: usize) -> Vec<Vec<u8>>;
    /// The case that bytes stand for.
    fn case(&self, bytes: &[u8]) -> Option<serde_json::Value>;
    /// Runs that case; the failure is shrunk.
    fn run(&self, bytes: &[u8]) -> Option<Ran>;
}

#[allow(dead_code)]
pub struct Ran {
    /// Of the case, if it is non-trivial.
    pub hash: Option<u64>,
    pub failure: Option<Failure>,
}

struct ByBytes<C: Debug> {
    name: &'static str,
    strategy: BoxedStrategy<C>,
    check: fn(&C) -> Verdict,
    past: RefCell<Past<C>>,
}

fn config(cases: u32) -> Config {
    Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 20_000,
        max_shrink_time: 60_000,
        max_global_rejects: 1 << 20,
        source_file: None,
        ..Config::default()
    }
}

impl<C> ByBytes<C>
where
    C: Debug + Clone + Serialize + Hash,
{
    fn runner(bytes: &[u8]) -> TestRunner {
        let rng = TestRng::from_seed(RngAlgorithm::PassThrough, bytes);
        TestRunner::new_with_rng(config(1), rng)
    }
}

impl<C> Guided for ByBytes<C>
where
    C: Debug + Clone + Serialize + Hash,
{
    fn seeds(&self, seed: u64, n: usize) -> Vec<Vec<u8>> {
        (0..n)
            .map(|i| {
                let mut key = [0u8; 32];
                key[..8].copy_from_slice(&fnv(&(self.name, seed, i)).to_le_bytes());
                let rng = TestRng::from_seed(RngAlgorithm::Recorder, &key);
                let mut runner = TestRunner::new_with_rng(config(1), rng);
                let _ = self.strategy.new_tree(&mut runner);
                runner.bytes_used()
            })
            .collect()
    }
    fn case(&self, bytes: &[u8]) -> Option<serde_json::Value> {
        let tree = self.strategy.new_tree(&mut Self::runner(bytes)).ok()?;
        Some(serde_json::to_value(tree.current()).unwrap())
    }
    fn run(&self, bytes: &[u8]) -> Option<Ran> {
        let mut runner = Self::runner(bytes);
        let tree = self.strategy.new_tree(&mut runner).ok()?;
        let case = tree.current();
        match guard(|| (self.check)(&case)).unwrap_or_else(Err) {
            Ok(class) => {
                let hash = class.nontrivial.then(|| fnv(&case));
                self.past.borrow_mut().add(case);
                Some(Ran { hash, failure: None })
            }
            Err(first) => {
                let mut before = self.past.borrow().so_far();
                self.past.borrow_mut().add(case.clone());
                let (last, unshrunk) = (RefCell::new(Past::new()), case);
                let res = runner.run_one(tree, |case| {
                    let r = guard(|| (self.check)(&case))
                        .unwrap_or_else(Err)
                        .map(|_| ())
                        .map_err(TestCaseError::fail);
                    if r.is_err() {
                        *last.borrow_mut() = self.past.borrow().so_far();
                    }
                    self.past.borrow_mut().add(case);
                    r
                });
                let (case, reason) = match res {
                    Err(TestError::Fail(why, case)) => {
                        before = last.into_inner();
                        (case, why.message().to_string())
                    }
                    // it failed, but not again
                    _ => (unshrunk, first),
                };
                Some(Ran {
                    hash: None,
                    failure: Some(Failure {
                        sub: self.name.to_string(),
                        reason,
                        case: serde_json::to_value(&case).unwrap(),
                        worker: 0,
                        before: before.values(),
                    }),
                })
            }
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Panics are outcomes here: remember the message, print nothing.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_string()
        };
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC
            .try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, at));
    }));
}

/// What threads get by default, tokio's workers too.
pub const STACK: usize = 2 << 20;

/// Runs code under test; a panic becomes `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC.with(|p| format!("panic: {}", p.borrow()))
    })
}

fn fnv<C: Hash>(c: &C) -> u64 {
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for &x in b {
                self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = F(0xcbf29ce484222325);
    c.hash(&mut h);
    // final avalanche, so that truncation of the hash set stays harmless
    let mut z = h.finish();
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn derive_seed(ctx: &Ctx, sub: &str, worker: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (i, chunk) in out.chunks_mut(8).enumerate() {
        let h = fnv(&(ctx.seed, sub, ctx.profile, worker, i as u32, 0x5eedu32));
        chunk.copy_from_slice(&h.to_le_bytes());
    }
    out
}

pub fn short(s: String, max: usize) -> String {
    if s.len() <= max {
        return s;
    }
    let mut end = max;
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    format!("{}... ({} chars)", &s[..end], s.len())
}

pub struct Spec<C: Debug> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub check: fn(&C) -> Verdict,
}

/// How long one case may take before it counts as a hang. Cases take
/// milliseconds.
const CASE_LIMIT: Duration = Duration::from_secs(60);

/// The case a worker is at and since when.
type Slot<C> = Mutex<Option<(Instant, C)>>;

/// Watches the workers; a case over the limit is written out and ends the
/// process with status 4. The supervisor replays it before believing it.
fn watch<C: Serialize>(
    ctx: &Ctx,
    name: &str,
    slots: &[Slot<C>],
    limit: Duration,
    done: &AtomicBool,
) {
    while !done.load(Ordering::Relaxed) {
        std::thread::park_timeout(Duration::from_millis(500));
        for s in slots {
            if let Some((since, case)) = &*s.lock().unwrap() {
                if since.elapsed() > limit {
                    let j = serde_json::json!({"sub": name, "case": case});
                    let p = ctx.work.join(format!("hang-{}", ctx.profile));
                    std::fs::write(p, j.to_string()).unwrap();
                    std::process::exit(4);
                }
            }
        }
    }
}

/// A panic outside of the code under test.
fn worker_died() -> ! {
    eprintln!("harness: a worker panicked");
    std::process::exit(2)
}

struct WorkerOut {
    evaluations: u64,
    hashes: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    failure: Option<Failure>,
}

fn run_worker<C>(
    ctx: &Ctx,
    spec: &Spec<C>,
    worker: u32,
    cases: u64,
    slot: &Slot<C>,
) -> WorkerOut
where
    C: Debug + Clone + Serialize + Hash,
{
    let rng = TestRng::from_seed(
        RngAlgorithm::ChaCha,
        &derive_seed(ctx, spec.name, worker),
    );
    let mut runner = TestRunner::new_with_rng(config(cases as u32), rng);
    let strategy = (spec.strategy)();
    let evaluations = Cell::new(0u64);
    let failed = Cell::new(false);
    let hashes = RefCell::new(HashSet::new());
    let labels = RefCell::new(BTreeMap::<&'static str, u64>::new());
    let samples = RefCell::new(Vec::new());
    let reason = RefCell::new(String::new());
    let journal = ctx.work.join(format!("journal-{}", ctx.profile));
    let past = RefCell::new(Past::new());
    let before = RefCell::new(Past::new());
    let res = runner.run(&strategy, |case| {
        if ctx.journal {
            let j = serde_json::json!({"sub": spec.name, "case": &case});
            std::fs::write(&journal, j.to_string()).unwrap();
        }
        if !failed.get() {
            evaluations.set(evaluations.get() + 1);
        }
        *slot.lock().unwrap() = Some((Instant::now(), case.clone()));
        let verdict = guard(|| (spec.check)(&case)).unwrap_or_else(Err);
        let done = slot.lock().unwrap().take().unwrap().1;
        if verdict.is_err() {
            *before.borrow_mut() = past.borrow().so_far();
        }
        past.borrow_mut().add(done);
        match verdict {
            Ok(class) => {
                if !failed.get() {
                    let mut l = labels.borrow_mut();
                    for x in class.labels {
                        *l.entry(x).or_insert(0) += 1;
                    }
                    if class.nontrivial {
                        let mut hs = hashes.borrow_mut();
                        // beyond that the count is a lower bound
                        if hs.len() < 2_000_000 && hs.insert(fnv(&case)) {
                            let n = hs.len();
                            let mut s = samples.borrow_mut();
                            // spread over the run: 1st, 10th, 100th, ...
                            if worker == 0
                                && s.len() < 4
                                && n == 10usize.pow(s.len() as u32)
                            {
                                s.push(short(
                                    serde_json::to_string(&case).unwrap(),
                                    600,
                                ));
                            }
                        }
                    }
                }
                Ok(())
            }
            Err(why) => {
                failed.set(true);
                *reason.borrow_mut() = why.clone();
                Err(TestCaseError::fail(why))
            }
        }
    });
    let failure = match res {
        Ok(()) => None,
        Err(TestError::Fail(why, case)) => Some(Failure {
            sub: spec.name.to_string(),
            reason: why.message().to_string(),
            case: serde_json::to_value(&case).unwrap(),
            worker,
            before: before.into_inner().values(),
        }),
        Err(TestError::Abort(why)) => {
            eprintln!("generator aborted: {}", why);
            std::process::exit(2);
        }
    };
    WorkerOut {
        evaluations: evaluations.get(),
        hashes: hashes.into_inner(),
        labels: labels
            .into_inner()
            .into_iter()
            .map(|(k, v)| (k.to_string(), v))
            .collect(),
        samples: samples.into_inner(),
        failure,
    }
}

impl Ctx {
    pub fn progress(&self, sub: &str) {
        let p = self.work.join(format!("progress-{}", self.profile));
        let mut f = std::fs::File::create(p).unwrap();
        f.write_all(sub.as_bytes()).unwrap();
    }
}

pub fn sub<C>(spec: Spec<C>) -> Sub
where
    C: Debug + Clone + Serialize + DeserializeOwned + Hash + 'static,
    C: Send,
{
    let name = spec.name;
    let check = spec.check;
    let strategy = spec.strategy;
    let cases = spec.quick;
    Sub {
        name,
        cases,
        run: Box::new(move |ctx: &Ctx| {
            ctx.progress(spec.name);
            let total = match ctx.tier {
                Tier::Quick => spec.quick,
                Tier::Thorough => spec.thorough,
            } * ctx.percent
                / 100;
            let per = (total / WORKERS as u64).max(1);
            let mut outs = Vec::new();
            let slots: Vec<Slot<C>> =
                (0..WORKERS).map(|_| Mutex::new(None)).collect();
            let done = AtomicBool::new(false);
            let (spec, slots, done) = (&spec, &slots[..], &done);
            std::thread::scope(|s| {
                let dog = s.spawn(move || {
                    watch(ctx, spec.name, slots, CASE_LIMIT, done)
                });
                let start = |w: u32| {
                    std::thread::Builder::new()
                        .stack_size(STACK)
                        .spawn_scoped(s, move || {
                            run_worker(ctx, spec, w, per, &slots[w as usize])
                        })
                        .unwrap()
                };
                if ctx.journal {
                    for w in 0..WORKERS {
                        outs.push(start(w).join().unwrap_or_else(|_| worker_died()));
                    }
                } else {
                    let hs: Vec<_> = (0..WORKERS).map(start).collect();
                    for h in hs {
                        outs.push(h.join().unwrap_or_else(|_| worker_died()));
                    }
                }
                done.store(true, Ordering::Relaxed);
                dog.thread().unpark();
            });
            let mut r = SubResult {
                name: spec.name,
                rule: spec.rule,
                evaluations: 0,
                nontrivial: 0,
                exhaustive: false,
                labels: BTreeMap::new(),
                samples: Vec::new(),
                failure: None,
                hashes: HashSet::new(),
            };
            for o in outs {
                r.evaluations += o.evaluations;
                r.hashes.extend(o.hashes);
                for (k, v) in o.labels {
                    *r.labels.entry(k).or_insert(0) += v;
                }
                r.samples.extend(o.samples);
                if r.failure.is_none() {
                    r.failure = o.failure;
                }
            }
            r.nontrivial = r.hashes.len() as u64;
            r
        }),
        replay: Box::new(move |v| {
            let case: C = serde_json::from_value(v.clone())
                .map_err(|e| format!("replay file does not parse: {}", e))?;
            guard(|| check(&case)).unwrap_or_else(Err)
        }),
        guided: Some(Box::new(move || {
            let past = RefCell::new(Past::new());
            Box::new(ByBytes { name, strategy: strategy(), check, past })
        })),
    }
}

/// A finite domain, gone through completely.
pub fn exhaustive<C>(
    name: &'static str,
    rule: &'static str,
    domain: fn() -> Box<dyn Iterator<Item = C>>,
    check: fn(&C) -> Verdict,
) -> Sub
where
    C: Debug + Clone + Serialize + DeserializeOwned + Hash + Send + 'static,
{
    exhaustive_within(name, rule, domain, check, CASE_LIMIT)
}

pub fn exhaustive_within<C>(
    name: &'static str,
    rule: &'static str,
    domain: fn() -> Box<dyn Iterator<Item = C>>,
    check: fn(&C) -> Verdict,
    limit: Duration,
) -> Sub
where
    C: Debug + Clone + Serialize + DeserializeOwned + Hash + Send + 'static,
{
    Sub {
        name,
        cases: 0,
        run: Box::new(move |ctx: &Ctx| {
            ctx.progress(name);
            let journal = ctx.work.join(format!("journal-{}", ctx.profile));
            let mut r = SubResult {
                name,
                rule,
                evaluations: 0,
                nontrivial: 0,
                exhaustive: true,
                labels: BTreeMap::new(),
                samples: Vec::new(),
                failure: None,
                hashes: HashSet::new(),
            };
            // one at a time when the journal has to say which it was
            let threads = if ctx.journal { 1 } else { WORKERS as usize };
            let slots: Vec<Slot<C>> =
                (0..threads).map(|_| Mutex::new(None)).collect();
            let slots = &slots[..];
            let done = AtomicBool::new(false);
            let done = &done;
            // the first failing case, by its place in the domain
            let worst = AtomicU64::new(u64::MAX);
            let worst = &worst;
            let part = |w: usize| {
                let mut labels = BTreeMap::new();
                let (mut hashes, mut samples) = (HashSet::new(), Vec::new());
                let (mut evaluations, mut failure) = (0u64, None);
                for (i, case) in domain().enumerate() {
                    let i = i as u64;
                    if i % threads as u64 != w as u64 {
                        continue;
                    }
                    if i > worst.load(Ordering::Relaxed) {
                        break;
                    }
                    if ctx.journal {
                        let j = serde_json::json!({"sub": name, "case": &case});
                        std::fs::write(&journal, j.to_string()).unwrap();
                    }
                    evaluations += 1;
                    *slots[w].lock().unwrap() =
                        Some((Instant::now(), case.clone()));
                    let verdict = guard(|| check(&case)).unwrap_or_else(Err);
                    *slots[w].lock().unwrap() = None;
                    match verdict {
                        Ok(class) => {
                            for x in class.labels {
                                *labels.entry(x.to_string()).or_insert(0) += 1;
                            }
                            if class.nontrivial {
                                hashes.insert(fnv(&(name, &case)));
                                if w == 0
                                    && samples.len() < 4
                                    && hashes.len()
                                        == 10usize.pow(samples.len() as u32)
                                {
                                    samples.push(short(
                                        serde_json::to_string(&case).unwrap(),
                                        600,
                                    ));
                                }
                            }
                        }
                        Err(why) => {
                            worst.fetch_min(i, Ordering::Relaxed);
                            failure = Some((
                                i,
                                Failure {
                                    sub: name.to_string(),
                                    reason: why,
                                    case: serde_json::to_value(&case).unwrap(),
                                    worker: 0,
                                    before: vec![],
                                },
                            ));
                            break;
                        }
                    }
                }
                (labels, hashes, samples, evaluations, failure)
            };
            let part = &part;
            let parts: Vec<_> = std::thread::scope(|s| {
                let dog =
                    s.spawn(move || watch(ctx, name, slots, limit, done));
                let all: Vec<_> =
                    (0..threads).map(|w| s.spawn(move || part(w))).collect();
                let all = all.into_iter().map(|t| t.join().unwrap()).collect();
                done.store(true, Ordering::Relaxed);
                dog.thread().unpark();
                all
            });
            let mut first = None;
            for (labels, hashes, samples, evaluations, failure) in parts {
                for (k, n) in labels {
                    *r.labels.entry(k).or_insert(0) += n;
                }
                r.hashes.extend(hashes);
                r.samples.extend(samples);
                r.evaluations += evaluations;
                if let Some((i, f)) = failure {
                    if first.map_or(true, |n| i < n) {
                        first = Some(i);
                        r.failure = Some(f);
                    }
                }
            }
            r.nontrivial = r.hashes.len() as u64;
            r
        }),
        replay: Box::new(move |v| {
            let case: C = serde_json::from_value(v.clone())
                .map_err(|e| format!("replay file does not parse: {}", e))?;
            guard(|| check(&case)).unwrap_or_else(Err)
        }),
        guided: None,
    }
}

pub fn dump_hashes(path: &Path, hashes: &HashSet<u64>) {
    let mut out = Vec::with_capacity(hashes.len() * 8);
    for h in hashes {
        out.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(path, out).unwrap();
}

#[derive(Deserialize)]
pub struct Replay {
    pub sub: String,
    pub case: serde_json::Value,
    /// Cases to run first.
    #[serde(default)]
    pub before: Vec<serde_json::Value>,
}

/// `Err(format!(..))` unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($fmt:tt)+) => {
        if !$cond {
            return Err(format!($($fmt)+));
        }
    };
}

