//! C17: a query runs at most once and everybody sees its one result.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};
use tinymist_std::QueryRef;
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Fail, Opts, Verdict};

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
enum Act {
    Compute,
    WithContext,
    Look,
    Debug,
    Yield,
    Spin(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    /// 0 with a value, 1 with a context, 2 the default.
    made: u8,
    fails: bool,
    /// What the computation does before it returns.
    slow: u16,
    threads: Vec<Vec<Act>>,
    /// Computes once more, looks once more, afterwards.
    after: Vec<Act>,
}

/// Counts how often it was made, cloned and dropped.
struct Counted {
    id: u32,
    clones: Arc<AtomicU32>,
    drops: Arc<AtomicU32>,
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        self.clones.fetch_add(1, Ordering::SeqCst);
        Counted { id: self.id, clones: self.clones.clone(), drops: self.drops.clone() }
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        self.drops.fetch_add(1, Ordering::SeqCst);
    }
}
impl std::fmt::Debug for Counted {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "#{}", self.id)
    }
}

struct Ctx(Counted);
impl std::fmt::Debug for Ctx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "context")
    }
}

enum Q {
    Plain(QueryRef<Counted, Counted>),
    Full(QueryRef<Counted, Counted, Ctx>),
}

const LIMIT: Duration = Duration::from_secs(10);

struct World {
    q: Q,
    runs: AtomicU32,
    next: AtomicU32,
    started: AtomicBool,
    finished: AtomicBool,
    looks_while_running: AtomicU32,
    clones: Arc<AtomicU32>,
    drops: Arc<AtomicU32>,
    /// The id and address of every value seen, or the id of every error.
    seen: Mutex<Vec<(bool, u32, usize)>>,
    bad: Mutex<Option<String>>,
    fails: bool,
    slow: u16,
    idle: AtomicUsize,
}

impl World {
    fn value(&self) -> Counted {
        Counted { id: self.next.fetch_add(1, Ordering::SeqCst), clones: self.clones.clone(), drops: self.drops.clone() }
    }
    fn body(&self) -> Result<Counted, Counted> {
        self.runs.fetch_add(1, Ordering::SeqCst);
        self.started.store(true, Ordering::SeqCst);
        for _ in 0..self.slow {
            std::thread::yield_now();
        }
        let v = self.value();
        self.finished.store(true, Ordering::SeqCst);
        if self.fails {
            Err(v)
        } else {
            Ok(v)
        }
    }
    fn complain(&self, s: String) {
        self.bad.lock().unwrap().get_or_insert(s);
    }
    fn saw(&self, r: Result<&Counted, Counted>) {
        if !self.finished.load(Ordering::SeqCst) && self.idle.load(Ordering::SeqCst) != 0 {
            self.complain("a call returned before the computation had finished".into());
        }
        let s = match r {
            Ok(v) => (true, v.id, v as *const _ as usize),
            Err(e) => (false, e.id, 0),
        };
        self.seen.lock().unwrap().push(s);
    }
    fn act(&self, a: Act) {
        match a {
            Act::Compute => match &self.q {
                Q::Plain(q) => self.saw(q.compute(|| self.body())),
                Q::Full(q) => self.saw(q.compute(|| self.body())),
            },
            Act::WithContext => match &self.q {
                Q::Plain(q) => self.saw(q.compute_with_context(|()| self.body())),
                Q::Full(q) => self.saw(q.compute_with_context(|c| {
                    if c.0.id != 7_000 {
                        self.complain(format!("the context is {:?}", c.0));
                    }
                    self.body()
                })),
            },
            Act::Look => {
                let before = self.finished.load(Ordering::SeqCst);
                let started = self.started.load(Ordering::SeqCst);
                let t = Instant::now();
                let got = match &self.q {
                    Q::Plain(q) => q.get_uninitialized(),
                    Q::Full(q) => q.get_uninitialized(),
                };
                let took = t.elapsed();
                if took > LIMIT {
                    self.complain(format!("looking without computing took {took:?}"));
                }
                let after = self.finished.load(Ordering::SeqCst);
                if started && !after {
                    self.looks_while_running.fetch_add(1, Ordering::SeqCst);
                }
                match got {
                    Some(_) if !after => self.complain("looking shows a result before the computation has finished".into()),
                    Some(r) => self.seen.lock().unwrap().push(match r {
                        Ok(v) => (true, v.id, v as *const _ as usize),
                        Err(e) => (false, e.id, 0),
                    }),
                    None => {
                        let _ = before;
                    }
                }
            }
            Act::Debug => {
                // Printing must not disturb anything either.
                let _ = match &self.q {
                    Q::Plain(q) => format!("{q:?}"),
                    Q::Full(q) => format!("{q:?}"),
                };
            }
            Act::Yield => std::thread::yield_now(),
            Act::Spin(n) => {
                for _ in 0..n as u32 * 4 {
                    std::hint::spin_loop();
                }
            }
        }
    }
}

fn judge(c: &Case) -> Verdict {
    let (clones, drops): (Arc<AtomicU32>, Arc<AtomicU32>) = Default::default();
    let counted = |id| Counted { id, clones: clones.clone(), drops: drops.clone() };
    let made = c.made % 4;
    let preset = made == 0 || made == 3;
    let q = match made {
        0 => Q::Full(QueryRef::with_value(counted(9_000))),
        3 => Q::Plain(QueryRef::with_value(counted(9_000))),
        1 => Q::Full(QueryRef::with_context(Ctx(counted(7_000)))),
        _ => Q::Plain(QueryRef::default()),
    };
    let w = World {
        q,
        runs: AtomicU32::new(0),
        next: AtomicU32::new(0),
        started: AtomicBool::new(preset),
        finished: AtomicBool::new(preset),
        looks_while_running: AtomicU32::new(0),
        clones: clones.clone(),
        drops: drops.clone(),
        seen: Mutex::new(vec![]),
        bad: Mutex::new(None),
        fails: c.fails,
        slow: c.slow,
        idle: AtomicUsize::new(1),
    };
    let computes = |a: &Act| matches!(a, Act::Compute | Act::WithContext);
    // Looking before anything was computed.
    let early = match &w.q {
        Q::Plain(q) => q.get_uninitialized().is_some(),
        Q::Full(q) => q.get_uninitialized().is_some(),
    };
    ensure_eq!(early, preset, "whether a new query has a result");
    let barrier = Barrier::new(c.threads.len());
    std::thread::scope(|s| {
        for acts in &c.threads {
            let (w, barrier) = (&w, &barrier);
            s.spawn(move || {
                barrier.wait();
                for a in acts {
                    if let Err(p) = no_panic(|| w.act(*a)) {
                        w.complain(format!("{a:?} panicked: {p}"));
                    }
                }
            });
        }
    });
    for a in &c.after {
        no_panic(|| w.act(*a)).map_err(|p| Fail::from(format!("{a:?} afterwards panicked: {p}")))?;
    }
    if let Some(b) = w.bad.lock().unwrap().take() {
        return Err(b.into());
    }
    let calls = c.threads.iter().flatten().chain(&c.after).filter(|a| computes(a)).count();
    let runs = w.runs.load(Ordering::SeqCst);
    ensure_eq!(runs, u32::from(calls > 0 && !preset), "how often the computation ran for {calls} calls");
    let seen = w.seen.lock().unwrap().clone();
    let ok = preset || !c.fails;
    for (good, id, addr) in &seen {
        ensure_eq!((*good, *id), (ok, if preset { 9_000 } else { 0 }), "what a caller saw");
        ensure_eq!(*addr, seen[0].2, "where the value lies");
    }
    // A result is there afterwards exactly if there was a call.
    let late = match &w.q {
        Q::Plain(q) => q.get_uninitialized().map(|r| r.is_ok()),
        Q::Full(q) => q.get_uninitialized().map(|r| r.is_ok()),
    };
    ensure_eq!(late, if preset || calls > 0 { Some(ok) } else { None }, "the result left behind");
    // A value is never cloned, an error once per call.
    if ok {
        ensure_eq!(clones.load(Ordering::SeqCst), 0, "clones of the value");
    }
    if made == 1 {
        // The context is dropped by the computation, once.
        let dropped = drops.load(Ordering::SeqCst) - clones.load(Ordering::SeqCst);
        ensure_eq!(dropped, u32::from(calls > 0), "contexts consumed");
    }
    Ok(c.threads.iter().filter(|t| t.iter().any(computes)).count() > 1 && !preset)
}

fn act() -> BoxedStrategy<Act> {
    prop_oneof![
        4 => Just(Act::Compute),
        4 => Just(Act::WithContext),
        3 => Just(Act::Look),
        1 => Just(Act::Debug),
        1 => Just(Act::Yield),
        2 => any::<u8>().prop_map(Act::Spin),
    ]
    .boxed()
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Held {
    lookers: u8,
    waiters: u8,
    fails: bool,
    context: bool,
}

/// A computation that waits for others to look meanwhile, and to line up.
fn judge_held(c: &Held) -> Verdict {
    let q: QueryRef<u32, u32, u32> = if c.context { QueryRef::with_context(40) } else { QueryRef::with_context(1) };
    let (looked, lined, inside) = (AtomicU32::new(0), AtomicU32::new(0), AtomicBool::new(false));
    let (lookers, waiters) = (c.lookers as u32 % 5 + 1, c.waiters as u32 % 4);
    let runs = AtomicU32::new(0);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let say = |s: String| {
        bad.lock().unwrap().get_or_insert(s);
    };
    let results: Vec<Result<u32, u32>> = std::thread::scope(|s| {
        let first = s.spawn(|| {
            q.compute_with_context(|ctx| {
                runs.fetch_add(1, Ordering::SeqCst);
                inside.store(true, Ordering::SeqCst);
                let end = Instant::now() + LIMIT;
                while looked.load(Ordering::SeqCst) < lookers || lined.load(Ordering::SeqCst) < waiters {
                    if Instant::now() > end {
                        say(format!("looking while the computation runs blocked: {} of {lookers} came back", looked.load(Ordering::SeqCst)));
                        break;
                    }
                    std::thread::yield_now();
                }
                if c.fails {
                    Err(ctx + 2)
                } else {
                    Ok(ctx + 2)
                }
            })
            .copied()
        });
        for _ in 0..lookers {
            s.spawn(|| {
                while !inside.load(Ordering::SeqCst) {
                    std::thread::yield_now();
                }
                if q.get_uninitialized().is_some() {
                    say("looking shows a result while the computation runs".into());
                }
                looked.fetch_add(1, Ordering::SeqCst);
            });
        }
        let hs: Vec<_> = (0..waiters)
            .map(|_| {
                s.spawn(|| {
                    while !inside.load(Ordering::SeqCst) {
                        std::thread::yield_now();
                    }
                    lined.fetch_add(1, Ordering::SeqCst);
                    q.compute_with_context(|c| {
                        runs.fetch_add(1, Ordering::SeqCst);
                        Ok(c + 1000)
                    })
                    .copied()
                })
            })
            .collect();
        std::iter::once(first).chain(hs).map(|h| h.join().unwrap_or(Err(u32::MAX))).collect()
    });
    if let Some(b) = bad.into_inner().unwrap() {
        return Err(b.into());
    }
    ensure_eq!(runs.load(Ordering::SeqCst), 1, "how often a computation ran");
    let v = if c.context { 42 } else { 3 };
    let want = if c.fails { Err(v) } else { Ok(v) };
    for r in &results {
        ensure_eq!(*r, want, "the result of a caller");
    }
    Ok(true)
}

fn main() {
    Check::main("C17", "a case is a query and what several threads do with it at the same time (non-trivial: at least two ask for a computation that has to run), or threads looking and lining up while the computation is held (always non-trivial)", |c| {
        c.assume("computations do not ask for their own query and do not panic");
        c.prop("threads", Opts::new(30_000).shards(4).retries(20), || bx((any::<u8>(), any::<bool>(), prop_oneof![2 => Just(0u16), 1 => 0u16..60], prop::collection::vec(prop::collection::vec(act(), 0..5), 1..6), prop::collection::vec(act(), 0..4)).prop_map(|(made, fails, slow, threads, after)| Case { made, fails, slow, threads, after })), judge);
        c.prop("held", Opts::new(2_000).shards(4).retries(5), || bx((any::<u8>(), any::<u8>(), any::<bool>(), any::<bool>()).prop_map(|(lookers, waiters, fails, context)| Held { lookers, waiters, fails, context })), judge_held);
    });
}
