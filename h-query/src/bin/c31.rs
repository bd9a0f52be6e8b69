//! C31: cached analysis revisions.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::num::NonZeroUsize;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, Weak};
use tinymist_query::adt::revision::{RevisionLock, RevisionManager, RevisionManagerLike, RevisionSlot};
use tinymist_query::analysis::{Analysis, AnalysisRevLock, AnalysisRevSlot, Info};
use tinymist_query::CompilerQueryRequest;
use typst::syntax::{FileId, VirtualPath};
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Fail, Opts, Verdict};

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    Lock,
    /// With a revision that is known already.
    LockFor(u8),
    Find(u8),
    /// The next revision.
    Next,
    Unlock(u8),
    Clear,
}

/// What is known of a slot: the object, and what it was made from.
struct Slot {
    it: Weak<RevisionSlot<(usize, Option<usize>)>>,
    serial: usize,
}

fn manager(ops: &Vec<Op>) -> Verdict {
    let mut m: RevisionManager<(usize, Option<usize>)> = RevisionManager::default();
    // Slots that exist for the model, by revision.
    let mut slots: BTreeMap<usize, Slot> = BTreeMap::new();
    // Held locks and the latest revision there was when they were taken.
    let mut locks: Vec<(RevisionLock, usize)> = vec![];
    let (mut serial, mut newest, mut kept) = (0, 0, 0);
    for op in ops {
        match op {
            Op::Lock => locks.push((m.lock_estimated(), newest)),
            Op::LockFor(r) => locks.push((m.lock(NonZeroUsize::new(*r as usize + 1).unwrap()), newest)),
            Op::Find(_) | Op::Next => {
                let rev = match op {
                    Op::Find(r) => *r as usize + 1,
                    _ => newest + 1,
                };
                serial += 1;
                let base_want = slots.range(..=rev).next_back().map(|(r, s)| (*r, s.serial));
                let mut called = None;
                let got = m.find_revision(NonZeroUsize::new(rev).unwrap(), |base| {
                    called = Some(base.map(|b| (b.revision, b.data.0)));
                    (serial, base.map(|b| b.data.0))
                });
                ensure_eq!(got.revision, rev, "the revision of the slot found");
                match slots.get(&rev) {
                    Some(s) => {
                        ensure!(called.is_none(), "revision {rev} is computed again although its slot must still be there");
                        ensure_eq!(got.data.0, s.serial, "the slot of revision {rev}");
                    }
                    None => {
                        ensure_eq!(called, Some(base_want), "what revision {rev} is computed from");
                        ensure_eq!(got.data, (serial, base_want.map(|b| b.1)), "the new slot");
                        slots.insert(rev, Slot { it: Arc::downgrade(&got), serial });
                    }
                }
                newest = newest.max(rev);
            }
            Op::Unlock(k) if !locks.is_empty() => {
                let (mut l, _) = locks.remove(*k as usize % locks.len());
                let min = no_panic(|| m.unlock(&mut l)).map_err(|e| Fail::from(format!("unlocking panics: {e}")))?;
                if let Some(min) = min {
                    m.gc(min);
                }
                // Whoever holds a lock may go on from what was the latest then.
                let need = locks.iter().map(|l| l.1).min().unwrap_or(usize::MAX);
                let latest = slots.keys().next_back().copied();
                for (r, s) in &slots {
                    if *r >= need || (locks.is_empty() && Some(*r) == latest) {
                        ensure!(s.it.strong_count() > 0, "the slot of revision {r} is gone (needed from {need}, latest {latest:?})");
                    }
                }
                if locks.is_empty() {
                    let alive = slots.values().filter(|s| s.it.strong_count() > 0).count();
                    ensure!(alive <= 1, "{alive} slots are kept although nothing is locked");
                }
                let before = slots.len();
                slots.retain(|_, s| s.it.strong_count() > 0);
                kept += (before > slots.len() && slots.len() > 1) as u32;
            }
            Op::Unlock(_) => {}
            Op::Clear => {
                m.clear();
                ensure!(slots.values().all(|s| s.it.strong_count() == 0), "a slot survives clearing");
                slots.clear();
            }
        }
    }
    Ok(kept > 0)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Use {
    Lock,
    /// A request comes to a revision (of the world), some behind the newest.
    Enter(u8, u8),
    /// A file (in a version) is analysed: which request, file, version, kind.
    Compute(u8, u8, u8, u8),
    Finish(u8),
    Clear,
}

struct Entered {
    lock: AnalysisRevLock,
    slot: Option<Arc<RevisionSlot<AnalysisRevSlot>>>,
}

fn fid(n: u8) -> FileId {
    FileId::new(None, VirtualPath::new(format!("/f{n}.typ")))
}

fn truth(f: u8, version: u8, kind: u8) -> Info {
    Info { fid: fid(f), revision: version as usize, value: (f as u64) << 16 | (version as u64) << 8 | kind as u64 }
}

fn compute(slot: &AnalysisRevSlot, f: u8, version: u8, kind: u8, with: impl FnOnce(Option<Info>) -> Info) -> Info {
    let key = (f as u128) << 8 | version as u128;
    match kind % 3 {
        0 => slot.expr_stage.compute(key, with),
        1 => (*slot.type_check.compute(key, |p| Arc::new(with(p.map(|p| (*p).clone()))))).clone(),
        _ => slot.lint.compute(key, with),
    }
}

fn caches(ops: &Vec<Use>) -> Verdict {
    let an = Analysis::default();
    let mut at: Vec<Entered> = vec![];
    let mut newest = 1usize;
    // What was computed for a slot (by its address).
    let mut done: HashMap<usize, HashSet<(u8, u8, u8)>> = HashMap::new();
    // Keeps addresses from being used again.
    let mut yard = vec![];
    let mut reused = 0;
    for op in ops {
        match op {
            Use::Lock => at.push(Entered { lock: an.lock_revision(Some(&CompilerQueryRequest::Other)), slot: None }),
            Use::Enter(k, back) if !at.is_empty() => {
                let n = at.len();
                let e = &mut at[*k as usize % n];
                if e.slot.is_some() {
                    continue;
                }
                if *back == 0 {
                    newest += 1;
                }
                let rev = newest.saturating_sub(*back as usize).max(1);
                let slot = no_panic(|| an.analysis_rev_cache.lock().find_revision(NonZeroUsize::new(rev).unwrap(), &e.lock)).map_err(|m| Fail::from(format!("entering panics: {m}")))?;
                ensure_eq!(slot.revision, rev, "the revision entered");
                done.entry(Arc::as_ptr(&slot.data.expr_stage.next) as *const u8 as usize).or_default();
                yard.push(slot.data.expr_stage.next.clone());
                e.slot = Some(slot);
            }
            Use::Compute(k, f, version, kind) if !at.is_empty() => {
                let Some(slot) = &at[*k as usize % at.len()].slot else { continue };
                let id = Arc::as_ptr(&slot.data.expr_stage.next) as *const u8 as usize;
                let known = done.entry(id).or_default();
                let thing = (*f, *version, *kind % 3);
                let mut asked = None;
                let want = truth(*f, *version, *kind % 3);
                let got = compute(&slot.data, *f, *version, *kind, |prev| {
                    asked = Some(prev);
                    want.clone()
                });
                ensure_eq!(got, want, "the result for file {f} in version {version}");
                match asked {
                    None => {
                        ensure!(known.contains(&thing), "a result that was never computed for this revision");
                        reused += 1;
                    }
                    Some(prev) => {
                        ensure!(!known.contains(&thing), "computed twice for one revision");
                        if let Some(prev) = prev {
                            ensure_eq!(prev, want, "the earlier result given as a hint");
                            reused += 1;
                        }
                    }
                }
                known.insert(thing);
            }
            Use::Finish(k) if !at.is_empty() => {
                let n = at.len();
                let e = at.remove(*k as usize % n);
                no_panic(move || drop(e)).map_err(|m| Fail::from(format!("finishing panics: {m}")))?;
            }
            Use::Clear => an.clear_cache(),
            _ => {}
        }
    }
    no_panic(move || drop(at)).map_err(|m| Fail::from(format!("finishing panics: {m}")))?;
    Ok(reused > 0)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Race {
    threads: u8,
    keys: Vec<(u8, u8)>,
}

/// Many handlers at one revision: everything is computed once, and everyone has it.
fn race(r: &Race) -> Verdict {
    let an = Analysis::default();
    let counts: Arc<Mutex<HashMap<(u8, u8), usize>>> = Default::default();
    let rounds = AtomicUsize::new(0);
    for rev in 1..=2usize {
        let entered: Vec<_> = (0..r.threads.clamp(2, 6))
            .map(|_| {
                let lock = an.lock_revision(Some(&CompilerQueryRequest::Other));
                let slot = an.analysis_rev_cache.lock().find_revision(NonZeroUsize::new(rev).unwrap(), &lock);
                (lock, slot)
            })
            .collect();
        counts.lock().unwrap().clear();
        let bad: Mutex<Option<String>> = Mutex::new(None);
        std::thread::scope(|s| {
            for (i, (lock, slot)) in entered.into_iter().enumerate() {
                let (counts, bad, rounds) = (&counts, &bad, &rounds);
                let mut keys = r.keys.clone();
                let n = keys.len().max(1);
                keys.rotate_left(i % n);
                s.spawn(move || {
                    for (f, v) in keys {
                        let got = compute(&slot.data, f, v, 0, |_| {
                            *counts.lock().unwrap().entry((f, v)).or_default() += 1;
                            truth(f, v, 0)
                        });
                        rounds.fetch_add(1, Ordering::Relaxed);
                        if got != truth(f, v, 0) {
                            *bad.lock().unwrap() = Some(format!("the result for ({f}, {v}) is {got:?}"));
                        }
                    }
                    drop(slot);
                    drop(lock);
                });
            }
        });
        if let Some(b) = bad.into_inner().unwrap() {
            return Err(b.into());
        }
        for (k, n) in counts.lock().unwrap().iter() {
            ensure!(*n == 1, "{k:?} is computed {n} times at one revision");
        }
    }
    Ok(r.keys.len() > 1)
}

fn main() {
    Check::main("C31", "a history when a collection dropped some and kept several slots; one of the caches when a result was reused; a race over at least two files", |c| {
        c.assume("analysis results are stand-ins; what they depend on is their key");
        let op = || {
            prop_oneof![
                3 => Just(Op::Lock),
                1 => (0u8..12).prop_map(Op::LockFor),
                2 => (0u8..12).prop_map(Op::Find),
                4 => Just(Op::Next),
                4 => (0u8..6).prop_map(Op::Unlock),
            ]
        };
        let all = move || prop_oneof![40 => op(), 1 => Just(Op::Clear)];
        c.prop("revisions", Opts::new(60_000).thorough(20).shards(8), move || bx(prop::collection::vec(all(), 1..60)), manager);
        let usage = || {
            prop_oneof![
                4 => Just(Use::Lock),
                4 => (0u8..5, prop_oneof![3 => Just(0u8), 2 => Just(1u8), 1 => 1u8..5]).prop_map(|(k, b)| Use::Enter(k, b)),
                8 => (0u8..5, 0u8..3, 0u8..3, 0u8..3).prop_map(|(a, b, c, d)| Use::Compute(a, b, c, d)),
                3 => (0u8..5).prop_map(Use::Finish),
            ]
        };
        let usage = move || prop_oneof![60 => usage(), 1 => Just(Use::Clear)];
        c.prop("caches", Opts::new(30_000).thorough(20).shards(8), move || bx(prop::collection::vec(usage(), 1..60)), caches);
        c.prop("races", Opts::new(3_000).thorough(20).shards(4), || bx((2u8..6, prop::collection::vec((0u8..4, 0u8..4), 1..12)).prop_map(|(threads, keys)| Race { threads, keys })), race);
    })
}
