//! Shared property-based testing harness.
//!
//! A check binary calls [`Check::main`] with a closure that registers one or
//! more *sub-checks*: a strategy generating serialisable cases and a function
//! judging one case.  The harness
//!
//! * runs every sub-check on several shards (threads), each with its own
//!   deterministic generator derived from `VERIF_SEED`;
//! * shrinks the first failure and writes it as JSON to `/verif/replays`, from
//!   where `--replay FILE` re-judges exactly that case, without generation;
//! * runs the whole thing in a worker process, so that an abort, a stack
//!   overflow or a hang of the code under test is reported as the violation it
//!   is, with the case that was being judged;
//! * writes the evidence file with the measured counts.
//!
//! Exit codes: 0 held, 1 violation, 2 usage or build trouble, 3 no answer.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub use proptest;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
pub use serde;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
pub use serde_json;
use serde_json::{json, Value};

pub mod gen;
pub mod scratch;

/// What one judged case says.
pub struct Fail {
    /// Identifies a specific known finding; `None` for anything else.
    pub key: Option<String>,
    pub msg: String,
}

impl Fail {
    /// Says where it happened.
    pub fn at(mut self, place: &str) -> Self {
        self.msg = format!("{place}: {}", self.msg);
        self
    }
}

impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { key: None, msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { key: None, msg: msg.to_owned() }
    }
}

/// `Ok(true)`: held and the case was non-trivial by the check's rule.
pub type Verdict = Result<bool, Fail>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond { return Err($crate::Fail::from(format!($($arg)+))); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Fail::from(format!("{}: got {:?}, expected {:?}", format!($($arg)+), a, b)));
        }
    }};
}

/// A known finding makes the check print a line instead of failing.
pub fn known(key: &str, msg: impl Into<String>) -> Fail {
    Fail { key: Some(key.to_owned()), msg: msg.into() }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var_os("VERIF_DIR").unwrap_or_else(|| "/verif".into()))
}

struct Slot {
    base: *mut u8,
    len: usize,
}
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}

const SLOT: usize = 1 << 20;
const SLOTS: usize = 128;

/// The cases being judged right now, in a file mapping that survives a crash.
struct InFlight(Slot);

impl InFlight {
    fn open(path: &Path) -> Self {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len((SLOT * SLOTS) as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), SLOT * SLOTS, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        InFlight(Slot { base: p as *mut u8, len: SLOT })
    }
    fn put(&self, slot: usize, text: &[u8]) {
        let n = text.len().min(self.0.len - 16);
        unsafe {
            let p = self.0.base.add(slot * SLOT);
            (p as *mut u64).write_volatile(0);
            std::ptr::copy_nonoverlapping(text.as_ptr(), p.add(8), n);
            (p as *mut u64).write_volatile(if n == text.len() { n as u64 } else { 0 });
        }
    }
    fn clear(&self, slot: usize) {
        unsafe { (self.0.base.add(slot * SLOT) as *mut u64).write_volatile(0) }
    }
    fn get(&self, slot: usize) -> Option<Vec<u8>> {
        unsafe {
            let p = self.0.base.add(slot * SLOT);
            let n = (p as *mut u64).read_volatile() as usize;
            if n == 0 || n > self.0.len - 16 {
                return None;
            }
            Some(std::slice::from_raw_parts(p.add(8), n).to_vec())
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
struct Counts {
    evals: u64,
    shrink_evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    max_case_ms: u64,
}

pub struct Check {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    rule: String,
    assumptions: Vec<String>,
    replay: Option<(String, Value)>,
    replayed: bool,
    only: Option<String>,
    per: BTreeMap<String, Counts>,
    order: Vec<String>,
    violation: Option<(String, Value, String)>,
    known_listed: BTreeMap<String, String>,
    known_seen: HashSet<String>,
    extra: serde_json::Map<String, Value>,
    start: Instant,
    inflight: Option<Arc<InFlight>>,
    case_limit: Duration,
    budget: Duration,
}

#[derive(Clone)]
pub struct Opts {
    pub cases: u64,
    pub shards: usize,
    /// Factor by which the thorough tier multiplies `cases`.
    pub thorough: u64,
    pub shrink_iters: u32,
    /// Judge a failing case this often again while shrinking (schedules).
    pub retries: u32,
    /// A failing case must fail again when it is judged this often once more;
    /// unless as many of them as this fail without.
    pub confirm: u32,
}

impl Opts {
    pub fn new(cases: u64) -> Self {
        Opts { cases, shards: 6, thorough: 40, shrink_iters: 4000, retries: 1, confirm: 0 }
    }
    pub fn shards(mut self, n: usize) -> Self {
        self.shards = n;
        self
    }
    pub fn thorough(mut self, n: u64) -> Self {
        self.thorough = n;
        self
    }
    pub fn shrink(mut self, n: u32) -> Self {
        self.shrink_iters = n;
        self
    }
    pub fn retries(mut self, n: u32) -> Self {
        self.retries = n;
        self
    }
    pub fn confirm(mut self, n: u32) -> Self {
        self.confirm = n;
        self
    }
}

fn hash_of(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_owned()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".to_owned()
    }
}

thread_local! {
    static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Runs `f`, turning a panic into its text, without printing it.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(panic_text);
    QUIET.with(|q| q.set(q.get() - 1));
    r
}

impl Check {
    /// Entry point of a check binary.
    pub fn main(id: &'static str, rule: &str, body: impl FnOnce(&mut Check)) -> ! {
        let args: Vec<String> = std::env::args().collect();
        if std::env::var_os("VERIF_WORKER").is_none() {
            supervise(id, &args);
        }
        gen::load_dict(id);
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if std::env::var_os("VERIF_LOUD").is_some() {
                default(info);
            } else if QUIET.with(|q| q.get()) == 0 {
                let name = std::thread::current().name().map(str::to_owned).unwrap_or_default();
                if name == "main" {
                    default(info);
                }
            }
        }));
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut replay = None;
        let mut only = None;
        let mut it = args.iter().skip(1);
        while let Some(a) = it.next() {
            match a.as_str() {
                "--replay" => {
                    let p = it.next().expect("--replay FILE");
                    let v: Value = serde_json::from_slice(&std::fs::read(p).expect("read replay file")).expect("replay file is JSON");
                    replay = Some((v["check"].as_str().unwrap().to_owned(), v["case"].clone()));
                }
                "--only" => only = it.next().cloned(),
                _ => {}
            }
        }
        let inflight = std::env::var_os("VERIF_INFLIGHT").map(|p| Arc::new(InFlight::open(Path::new(&p))));
        let budget = Duration::from_secs(
            std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
                Tier::Quick => 150,
                Tier::Thorough => 1800,
            }),
        );
        let mut c = Check {
            id,
            tier,
            seed,
            rule: rule.to_owned(),
            assumptions: vec![],
            replay,
            replayed: false,
            only,
            per: BTreeMap::new(),
            order: vec![],
            violation: None,
            known_listed: read_known(id),
            known_seen: HashSet::new(),
            extra: serde_json::Map::new(),
            start: Instant::now(),
            inflight,
            case_limit: Duration::from_secs(90),
            budget,
        };
        body(&mut c);
        c.finish()
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_owned());
    }

    pub fn note(&mut self, key: &str, v: impl Into<Value>) {
        self.extra.insert(key.to_owned(), v.into());
    }

    /// The longest a single case may take before it counts as a hang.
    pub fn case_limit(&mut self, d: Duration) {
        self.case_limit = d;
    }

    pub fn is_replay(&self) -> bool {
        self.replay.is_some()
    }

    /// Judges `opts.cases` generated cases.
    pub fn prop<T, F>(&mut self, name: &str, opts: Opts, strategy: impl Fn() -> BoxedStrategy<T> + Sync, judge: F)
    where
        T: Serialize + DeserializeOwned + Debug + Clone + Send,
        F: Fn(&T) -> Verdict + Sync,
    {
        if self.violation.is_some() || self.only.as_deref().is_some_and(|o| o != name) {
            return;
        }
        if self.replay.is_some() {
            self.run_replay(name, &judge);
            return;
        }
        let total = match self.tier {
            Tier::Quick => opts.cases,
            Tier::Thorough => opts.cases.saturating_mul(opts.thorough),
        };
        let stop = AtomicBool::new(false);
        let done = AtomicU64::new(0);
        let deadline = self.start + self.budget;
        let merged: Mutex<Counts> = Mutex::new(Counts::default());
        let failure: Mutex<Option<(T, Fail)>> = Mutex::new(None);
        let known_hit: Mutex<HashSet<String>> = Mutex::new(HashSet::new());
        let unconfirmed = AtomicU64::new(0);
        let known_listed = &self.known_listed;
        let seed = self.seed;
        let inflight = self.inflight.clone();
        let case_limit = self.case_limit;
        let beats: Vec<AtomicU64> = (0..opts.shards).map(|_| AtomicU64::new(0)).collect();
        let epoch = Instant::now();
        std::thread::scope(|sc| {
            // Watchdog: a case that never ends is left to the supervisor.
            let (beats, stop_w, done_w) = (&beats, &stop, &done);
            let shards = opts.shards as u64;
            sc.spawn(move || loop {
                std::thread::sleep(Duration::from_millis(200));
                if done_w.load(Ordering::SeqCst) >= shards {
                    return;
                }
                let now = epoch.elapsed().as_millis() as u64;
                for b in beats.iter() {
                    let t = b.load(Ordering::SeqCst);
                    if t != 0 && now.saturating_sub(t) > case_limit.as_millis() as u64 {
                        let _ = stop_w;
                        eprintln!("watchdog: a case ran for more than {case_limit:?}");
                        std::process::exit(86);
                    }
                }
            });
            for shard in 0..opts.shards {
                let (strategy, judge, merged, failure, known_hit, stop, done, unconfirmed) =
                    (&strategy, &judge, &merged, &failure, &known_hit, &stop, &done, &unconfirmed);
                let inflight = inflight.clone();
                let opts = opts.clone();
                let beat = &beats[shard];
                let quota = total / opts.shards as u64 + u64::from((shard as u64) < total % opts.shards as u64);
                std::thread::Builder::new()
                    .name(format!("shard-{shard}"))
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, move || {
                        // A panic outside the judged code is this harness's fault.
                        struct Ended<'a>(&'a AtomicU64);
                        impl Drop for Ended<'_> {
                            fn drop(&mut self) {
                                self.0.fetch_add(1, Ordering::SeqCst);
                                if std::thread::panicking() {
                                    eprintln!("a generator panicked");
                                    std::process::exit(3);
                                }
                            }
                        }
                        let _ended = Ended(done);
                        let mut rng_seed = [0u8; 32];
                        rng_seed[..8].copy_from_slice(&seed.to_le_bytes());
                        rng_seed[8..16].copy_from_slice(&hash_of(name).to_le_bytes());
                        rng_seed[16..24].copy_from_slice(&(shard as u64).to_le_bytes());
                        let cfg = Config { failure_persistence: None, ..Config::default() };
                        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &rng_seed));
                        let strat = strategy();
                        let mut counts = Counts::default();
                        let judge_one = |case: &T, text: &str| -> Verdict {
                            if let Some(i) = &inflight {
                                i.put(shard, format!("{{\"check\":{},\"case\":{text}}}", json!(name)).as_bytes());
                            }
                            beat.store(epoch.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                            let r = no_panic(|| judge(case)).unwrap_or_else(|p| Err(Fail::from(format!("panicked: {p}"))));
                            beat.store(0, Ordering::SeqCst);
                            if let Some(i) = &inflight {
                                i.clear(shard);
                            }
                            match r {
                                Err(Fail { key: Some(k), msg }) if known_listed.contains_key(&k) => {
                                    let _ = msg;
                                    known_hit.lock().unwrap().insert(k);
                                    Ok(true)
                                }
                                r => r,
                            }
                        };
                        for n in 0..quota {
                            if stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                                break;
                            }
                            let mut tree = match strat.new_tree(&mut runner) {
                                Ok(t) => t,
                                Err(e) => {
                                    eprintln!("generator gave up: {e}");
                                    std::process::exit(3);
                                }
                            };
                            let case = tree.current();
                            let text = serde_json::to_string(&case).unwrap();
                            let t0 = Instant::now();
                            let r = judge_one(&case, &text);
                            counts.max_case_ms = counts.max_case_ms.max(t0.elapsed().as_millis() as u64);
                            counts.evals += 1;
                            match r {
                                Ok(nontrivial) => {
                                    if nontrivial && counts.distinct.insert(hash_of(&text)) && counts.samples.len() < 2 && (n > 3 || quota < 8) {
                                        let v: Value = serde_json::from_str(&text).unwrap();
                                        counts.samples.push(if text.len() < 2000 { v } else { json!(format!("{}…", text.chars().take(2000).collect::<String>())) });
                                    }
                                }
                                Err(first) => {
                                    let again = |_| judge_one(&case, &text).is_err();
                                    if opts.confirm > 0 && !(0..opts.confirm).any(again) {
                                        eprintln!("{name}: failed once only: {}\ncase: {text}", first.msg);
                                        if unconfirmed.fetch_add(1, Ordering::SeqCst) + 1 < opts.confirm as u64 {
                                            continue;
                                        }
                                    }
                                    eprintln!("{name}: first seen as: {}\ncase: {text}", first.msg);
                                    if stop.swap(true, Ordering::SeqCst) {
                                        break;
                                    }
                                    // Shrink.
                                    let mut best = case;
                                    let mut why = first;
                                    let mut iters = 0;
                                    let until = Instant::now() + Duration::from_secs(60);
                                    let mut moved = tree.simplify();
                                    while moved && iters < opts.shrink_iters && Instant::now() < until {
                                        iters += 1;
                                        let cand = tree.current();
                                        let text = serde_json::to_string(&cand).unwrap();
                                        let mut failed = None;
                                        for _ in 0..opts.retries.max(1) {
                                            counts.shrink_evals += 1;
                                            if let Err(e) = judge_one(&cand, &text) {
                                                failed = Some(e);
                                                break;
                                            }
                                        }
                                        match failed {
                                            Some(e) => {
                                                best = cand;
                                                why = e;
                                                moved = tree.simplify();
                                            }
                                            None => moved = tree.complicate(),
                                        }
                                    }
                                    *failure.lock().unwrap() = Some((best, why));
                                    break;
                                }
                            }
                        }
                        let mut m = merged.lock().unwrap();
                        m.evals += counts.evals;
                        m.shrink_evals += counts.shrink_evals;
                        m.distinct.extend(counts.distinct);
                        m.samples.extend(counts.samples);
                        m.max_case_ms = m.max_case_ms.max(counts.max_case_ms);
                    })
                    .unwrap();
            }
        });
        self.known_seen.extend(known_hit.into_inner().unwrap());
        self.absorb(name, merged.into_inner().unwrap());
        if let Some((case, fail)) = failure.into_inner().unwrap() {
            self.violation = Some((name.to_owned(), serde_json::to_value(&case).unwrap(), fail.msg));
        }
    }

    fn absorb(&mut self, name: &str, m: Counts) {
        if !self.per.contains_key(name) {
            self.order.push(name.to_owned());
        }
        let e = self.per.entry(name.to_owned()).or_default();
        e.evals += m.evals;
        e.shrink_evals += m.shrink_evals;
        e.distinct.extend(m.distinct);
        e.max_case_ms = e.max_case_ms.max(m.max_case_ms);
        for s in m.samples {
            if e.samples.len() < 3 {
                e.samples.push(s);
            }
        }
    }

    fn run_replay<T: DeserializeOwned + Debug>(&mut self, name: &str, judge: &impl Fn(&T) -> Verdict) {
        let Some((check, case)) = self.replay.clone() else { return };
        if check != name {
            return;
        }
        self.replayed = true;
        let decoded: T = serde_json::from_value(case.clone()).expect("replay case has the check's shape");
        let tries = 1;
        for _ in 0..tries {
            let r = no_panic(|| judge(&decoded)).unwrap_or_else(|p| Err(Fail::from(format!("panicked: {p}"))));
            if let Err(f) = r {
                if f.key.as_ref().is_some_and(|k| self.known_listed.contains_key(k)) {
                    continue;
                }
                self.violation = Some((name.to_owned(), case.clone(), f.msg));
                return;
            }
        }
        println!("replay of {name}: held");
    }

    /// Judges every case of an explicitly enumerated finite family.
    pub fn each<T, F>(&mut self, name: &str, cases: impl IntoIterator<Item = T>, judge: F)
    where
        T: Serialize + DeserializeOwned + Debug + Clone,
        F: Fn(&T) -> Verdict,
    {
        if self.violation.is_some() || self.only.as_deref().is_some_and(|o| o != name) {
            return;
        }
        if self.replay.is_some() {
            self.run_replay(name, &judge);
            return;
        }
        let mut counts = Counts::default();
        for case in cases {
            let text = serde_json::to_string(&case).unwrap();
            if let Some(i) = &self.inflight {
                i.put(SLOTS - 1, format!("{{\"check\":{},\"case\":{text}}}", json!(name)).as_bytes());
            }
            let r = no_panic(|| judge(&case)).unwrap_or_else(|p| Err(Fail::from(format!("panicked: {p}"))));
            if let Some(i) = &self.inflight {
                i.clear(SLOTS - 1);
            }
            counts.evals += 1;
            match r {
                Ok(nt) => {
                    if nt && counts.distinct.insert(hash_of(&text)) && counts.samples.len() < 3 {
                        counts.samples.push(if text.len() < 2000 { serde_json::from_str(&text).unwrap() } else { json!(format!("{}…", text.chars().take(2000).collect::<String>())) });
                    }
                }
                Err(f) => {
                    if let Some(k) = f.key.as_ref().filter(|k| self.known_listed.contains_key(*k)) {
                        self.known_seen.insert(k.clone());
                        continue;
                    }
                    self.violation = Some((name.to_owned(), serde_json::to_value(&case).unwrap(), f.msg));
                    break;
                }
            }
        }
        self.absorb(name, counts);
    }

    fn finish(mut self) -> ! {
        if let Some((check, _)) = &self.replay {
            if !self.replayed {
                eprintln!("no sub-check named {check}");
                std::process::exit(2);
            }
        }
        let mut code = 0;
        if let Some((name, case, why)) = self.violation.take() {
            code = 1;
            let path = if self.replay.is_some() {
                std::env::args().skip_while(|a| a != "--replay").nth(1).unwrap().into()
            } else {
                write_replay(self.id, &name, &case, &why)
            };
            println!("{}: {why}", name);
            let t = case.to_string();
            println!("case: {}", t.chars().take(4000).collect::<String>());
            println!("VIOLATION property={} replay={}", self.id, path.display());
        }
        if self.replay.is_none() && self.only.is_none() {
            let mut per = serde_json::Map::new();
            let (mut evals, mut distinct) = (0, 0);
            let mut samples = vec![];
            for n in &self.order {
                let c = &self.per[n];
                evals += c.evals;
                distinct += c.distinct.len() as u64;
                per.insert(
                    n.clone(),
                    json!({"evaluations": c.evals, "distinct_nontrivial": c.distinct.len(), "slowest_case_ms": c.max_case_ms, "shrink_evaluations": c.shrink_evals}),
                );
                for s in &c.samples {
                    samples.push(json!({"check": n, "case": s}));
                }
            }
            let mut cov = json!({
                "evaluations": evals,
                "distinct_nontrivial": distinct,
                "rule": self.rule,
                "samples": samples,
                "per_check": per,
            });
            for (k, v) in std::mem::take(&mut self.extra) {
                cov[k] = v;
            }
            let ev = json!({
                "property": self.id,
                "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
                "seed": self.seed,
                "level": "exploration",
                "coverage": cov,
                "assumptions": self.assumptions,
                "wall_s": self.start.elapsed().as_secs_f64(),
                "violations": code,
            });
            write_evidence(self.id, &ev);
            if code == 0 {
                for (k, d) in &self.known_listed {
                    if self.known_seen.contains(k) {
                        println!("KNOWN-FINDING: property={} {d}", self.id);
                    }
                }
                println!("{}: held on {evals} cases ({distinct} distinct non-trivial) in {:.1}s", self.id, self.start.elapsed().as_secs_f64());
            }
        }
        let _ = std::io::stdout().flush();
        // Threads of the code under test may still be blocked: do not wait.
        unsafe { libc::_exit(code) }
    }
}

fn write_evidence(id: &str, ev: &Value) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let tmp = dir.join(format!(".{id}.tmp"));
    std::fs::write(&tmp, serde_json::to_string_pretty(ev).unwrap() + "\n").unwrap();
    std::fs::rename(tmp, dir.join(format!("{id}.json"))).unwrap();
}

fn write_replay(id: &str, check: &str, case: &Value, why: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let v = json!({"property": id, "check": check, "why": why, "case": case});
    let text = serde_json::to_string_pretty(&v).unwrap();
    let p = dir.join(format!("{id}-{:016x}.json", hash_of(&text)));
    std::fs::write(&p, text + "\n").unwrap();
    p
}

/// `finding: property=C13 key=<key> <what fails>` lines of the known-findings file.
fn read_known(id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("finding: ") else { continue };
        let Some(rest) = rest.strip_prefix(&format!("property={id} key=")) else { continue };
        let Some((key, what)) = rest.split_once(' ') else { continue };
        m.insert(key.to_owned(), what.to_owned());
    }
    m
}

/// Runs the worker; reports its death as a violation of the case in flight.
fn supervise(id: &'static str, args: &[String]) -> ! {
    let start = Instant::now();
    let path = std::env::temp_dir().join(format!("verif-inflight-{}-{}", id, std::process::id()));
    let is_replay = args.iter().any(|a| a == "--replay");
    let run = |extra: &[String], hard: Duration| -> (Option<i32>, bool) {
        let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
        cmd.args(extra).env("VERIF_WORKER", "1").env("RUST_BACKTRACE", "0").env("VERIF_INFLIGHT", &path);
        let mut child = cmd.spawn().expect("spawn worker");
        let end = Instant::now() + hard;
        loop {
            if let Some(st) = child.try_wait().unwrap() {
                return (st.code(), false);
            }
            if Instant::now() > end {
                let _ = child.kill();
                let _ = child.wait();
                return (None, true);
            }
            std::thread::sleep(Duration::from_millis(20));
        }
    };
    let hard = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Duration::from_secs(6 * 3600),
        _ => Duration::from_secs(700),
    };
    let (code, timed_out) = run(&args[1..], hard);
    let finish = |c: i32| -> ! {
        let _ = std::fs::remove_file(&path);
        std::process::exit(c)
    };
    match code {
        Some(c @ (0 | 1 | 2 | 3)) => finish(c),
        _ => {}
    }
    let hang = timed_out || code == Some(86);
    eprintln!("worker ended abnormally (exit {code:?}, hang {hang})");
    let inflight = InFlight::open(&path);
    let cases: Vec<Value> =
        (0..SLOTS).filter_map(|i| inflight.get(i)).filter_map(|b| serde_json::from_slice::<Value>(&b).ok()).collect();
    if is_replay {
        // The replayed case itself ended the process.
        let p = args.iter().skip_while(|a| *a != "--replay").nth(1).unwrap();
        println!("the case ended the process or never ended");
        println!("VIOLATION property={id} replay={p}");
        finish(1)
    }
    let left = |limit: u64| Duration::from_secs(limit.min(860u64.saturating_sub(start.elapsed().as_secs()).max(20)));
    for c in &cases {
        let case = &c["case"];
        let name = c["check"].as_str().unwrap_or("");
        let why = if hang { "the case never ended" } else { "the case ended the process" };
        let p = write_replay(id, name, case, why);
        let (rc, to) = run(&["--replay".into(), p.display().to_string()], left(60));
        if to || !matches!(rc, Some(0 | 2 | 3)) {
            println!("{name}: {why}");
            println!("VIOLATION property={id} replay={}", p.display());
            let ev = json!({
                "property": id,
                "tier": std::env::var("VERIF_TIER").unwrap_or("quick".into()),
                "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
                "level": "exploration",
                "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the case that ended the worker process", "samples": [c]},
                "wall_s": start.elapsed().as_secs_f64(),
                "violations": 1,
            });
            write_evidence(id, &ev);
            finish(1)
        }
        let _ = std::fs::remove_file(&p);
    }
    eprintln!("the abnormal end could not be reproduced from the {} cases in flight", cases.len());
    finish(3)
}

/// Helper for strategies: box it.
pub fn bx<T: Debug + Clone + 'static>(s: impl Strategy<Value = T> + 'static) -> BoxedStrategy<T> {
    s.boxed()
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Hash)]
pub struct Hex(#[serde(with = "hexser")] pub Vec<u8>);

impl Hex {
    fn text(v: &[u8]) -> String {
        let long = v.len() > 64 && v.iter().all(|b| *b == v[0]);
        let mut t = String::with_capacity(v.len() * 2);
        for b in if long { &v[..1] } else { v } {
            t.push_str(&format!("{b:02x}"));
        }
        if long {
            t.push_str(&format!("*{}", v.len()));
        }
        t
    }
}

impl std::fmt::Debug for Hex {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "x{}", Hex::text(&self.0))
    }
}

mod hexser {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&super::Hex::text(v))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let t = String::deserialize(d)?;
        let (t, times) = match t.split_once('*') {
            Some((t, n)) => (t, n.parse::<usize>().map_err(serde::de::Error::custom)?),
            None => (&t[..], 1),
        };
        let v: Vec<u8> = (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom)).collect::<Result<_, _>>()?;
        Ok(v.repeat(times))
    }
}
