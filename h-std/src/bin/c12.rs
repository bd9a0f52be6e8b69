//! C12: the sharded fingerprint map is a map.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::num::NonZeroU32;
use tinymist_std::adt::FingerprintMap;
use tinymist_std::hash::Fingerprint;
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Fail, Opts, Verdict};

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    Insert(u8, u32),
    Remove(u8),
    Get(u8),
    Contains(u8),
    Update(u8, u32),
    /// Visits every shard mutably and adds to each value.
    BumpAll(u32),
    /// Counts through the mutable shards.
    Count,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    /// None for the default map.
    shards: Option<u32>,
    keys: Vec<(u64, u64)>,
    ops: Vec<Op>,
}

fn shards() -> BoxedStrategy<Option<u32>> {
    prop_oneof![
        1 => Just(None),
        4 => (1u32..20).prop_map(Some),
        3 => (0u32..32, -1i64..=1).prop_map(|(s, d)| Some(((1i64 << s) + d).clamp(1, u32::MAX as i64) as u32)),
        2 => (1u32..1100).prop_map(Some),
        1 => prop::sample::select(vec![511u32, 512, 513, 1023, 1024, u32::MAX, 1 << 31, (1 << 31) + 1, u32::MAX - 1]).prop_map(Some),
        1 => (1u32..=u32::MAX).prop_map(Some),
    ]
    .boxed()
}

fn keys() -> BoxedStrategy<Vec<(u64, u64)>> {
    let half = || prop_oneof![2 => 0u64..6, 2 => any::<u64>(), 2 => (0u64..4, 0u32..11).prop_map(|(a, s)| a << (6 * s)), 1 => (0u32..64).prop_map(|s| u64::MAX >> s)];
    prop_oneof![
        3 => prop::collection::vec((half(), half()), 1..24),
        // Many keys that share their low bits.
        1 => (half(), 1u64..24).prop_map(|(lo, n)| (0..n).map(|i| (lo, i)).collect()),
        1 => (half(), 1u64..24).prop_map(|(lo, n)| (0..n).map(|i| ((lo & 0xffff_ffff) | i << 32, 0)).collect()),
        1 => (1u64..24).prop_map(|n| (0..n).map(|i| (i << 9, i)).collect()),
    ]
    .boxed()
}

fn ops() -> BoxedStrategy<Vec<Op>> {
    let op = prop_oneof![
        6 => (any::<u8>(), any::<u32>()).prop_map(|(k, v)| Op::Insert(k, v)),
        2 => any::<u8>().prop_map(Op::Remove),
        4 => any::<u8>().prop_map(Op::Get),
        3 => any::<u8>().prop_map(Op::Contains),
        2 => (any::<u8>(), any::<u32>()).prop_map(|(k, v)| Op::Update(k, v)),
        1 => any::<u32>().prop_map(Op::BumpAll),
        1 => Just(Op::Count),
    ];
    prop::collection::vec(op, 0..60).boxed()
}

fn make<V>(shards: Option<u32>) -> Result<FingerprintMap<V>, Fail> {
    no_panic(|| match shards {
        None => FingerprintMap::default(),
        Some(n) => FingerprintMap::new(NonZeroU32::new(n.max(1)).unwrap()),
    })
    .map_err(|p| format!("making a map with {shards:?} shards panicked: {p}").into())
}

fn judge(c: &Case) -> Verdict {
    let mut map = make::<u32>(c.shards)?;
    let mut model: BTreeMap<u128, u32> = BTreeMap::new();
    let fp = |k: u8| {
        let (lo, hi) = c.keys[k as usize % c.keys.len()];
        Fingerprint::from_pair(lo, hi)
    };
    let home: Vec<usize> = c.keys.iter().map(|&(lo, hi)| map.shard(Fingerprint::from_pair(lo, hi)) as *const _ as usize).collect();
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            Op::Insert(k, v) => {
                let got = map.shard(fp(*k)).write().insert(fp(*k), *v);
                ensure_eq!(got, model.insert(fp(*k).to_u128(), *v), "step {i}: the value replaced by inserting");
            }
            Op::Remove(k) => ensure_eq!(map.shard(fp(*k)).write().remove(&fp(*k)), model.remove(&fp(*k).to_u128()), "step {i}: removing"),
            Op::Get(k) => ensure_eq!(map.shard(fp(*k)).read().get(&fp(*k)).copied(), model.get(&fp(*k).to_u128()).copied(), "step {i}: looking up"),
            Op::Contains(k) => ensure_eq!(map.contains_key(&fp(*k)), model.contains_key(&fp(*k).to_u128()), "step {i}: contains"),
            Op::Update(k, v) => {
                let e = map.shard(fp(*k)).write();
                let mut e = e;
                let slot = e.entry(fp(*k)).or_insert(0);
                *slot = slot.wrapping_add(*v);
                let m = model.entry(fp(*k).to_u128()).or_insert(0);
                *m = m.wrapping_add(*v);
                ensure_eq!(*slot, *m, "step {i}: updating");
            }
            Op::BumpAll(v) => {
                for s in map.as_mut_slice() {
                    for x in s.get_mut().values_mut() {
                        *x = x.wrapping_add(*v);
                    }
                }
                for x in model.values_mut() {
                    *x = x.wrapping_add(*v);
                }
            }
            Op::Count => {
                let mut seen = vec![];
                for s in map.as_mut_slice() {
                    seen.extend(s.get_mut().iter().map(|(k, v)| (k.to_u128(), *v)));
                }
                seen.sort();
                ensure_eq!(seen, model.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "step {i}: the entries over all shards");
            }
        }
    }
    for (i, &(lo, hi)) in c.keys.iter().enumerate() {
        let fg = Fingerprint::from_pair(lo, hi);
        ensure_eq!(map.shard(fg) as *const _ as usize, home[i], "the shard of {:#x}", fg.to_u128());
        ensure_eq!(map.contains_key(&fg), model.contains_key(&fg.to_u128()), "contains {:#x} at the end", fg.to_u128());
    }
    let used: HashSet<usize> = home.iter().copied().collect();
    let slice: HashSet<usize> = map.as_mut_slice().iter().map(|s| s as *const _ as usize).collect();
    ensure!(used.is_subset(&slice), "a fingerprint's shard is not among the map's shards");
    let n = model.len();
    let mut got: Vec<(u128, u32)> = map.into_items().map(|(k, v)| (k.to_u128(), v)).collect();
    got.sort();
    ensure_eq!(got, model.into_iter().collect::<Vec<_>>(), "draining");
    Ok(n > 1 && used.len() > 1)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Race {
    shards: Option<u32>,
    keys: Vec<(u64, u64)>,
    threads: Vec<Vec<u8>>,
}

/// Threads count under shared keys and insert keys of their own.
fn judge_race(c: &Race) -> Verdict {
    let map = make::<u64>(c.shards)?;
    let key = |k: u8| {
        let (lo, hi) = c.keys[k as usize % c.keys.len()];
        Fingerprint::from_pair(lo, hi & !(0xff << 56))
    };
    let barrier = std::sync::Barrier::new(c.threads.len());
    let bad: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = c
            .threads
            .iter()
            .enumerate()
            .map(|(t, ks)| {
                let (map, barrier) = (&map, &barrier);
                s.spawn(move || {
                    barrier.wait();
                    let mut bad = None;
                    for round in 0..8u64 {
                        for &k in ks {
                            let shared = key(k);
                            *map.shard(shared).write().entry(shared).or_insert(0) += 1;
                            let (lo, hi) = c.keys[k as usize % c.keys.len()];
                            let own = Fingerprint::from_pair(lo, (hi & !(0xff << 56)) | (t as u64 + 1) << 56);
                            let fresh = round == 0;
                            let had = map.contains_key(&own);
                            if !fresh && !had {
                                bad = Some(format!("thread {t} lost its own key {:#x}", own.to_u128()));
                            }
                            map.shard(own).write().insert(own, own.to_u128() as u64);
                            let got = map.shard(own).read().get(&own).copied();
                            if got != Some(own.to_u128() as u64) {
                                bad = Some(format!("thread {t} reads {got:?} under its own key {:#x}", own.to_u128()));
                            }
                        }
                    }
                    bad
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Some("a thread panicked".into()))).collect()
    });
    ensure!(bad.is_empty(), "{}", bad[0]);
    let mut want: BTreeMap<u128, u64> = BTreeMap::new();
    for (t, ks) in c.threads.iter().enumerate() {
        for &k in ks {
            *want.entry(key(k).to_u128()).or_insert(0) += 8;
            let (lo, hi) = c.keys[k as usize % c.keys.len()];
            let own = Fingerprint::from_pair(lo, (hi & !(0xff << 56)) | (t as u64 + 1) << 56);
            want.insert(own.to_u128(), own.to_u128() as u64);
        }
    }
    let mut got: Vec<(u128, u64)> = map.into_items().map(|(k, v)| (k.to_u128(), v)).collect();
    got.sort();
    ensure_eq!(got, want.into_iter().collect::<Vec<_>>(), "draining after {} threads", c.threads.len());
    Ok(c.threads.iter().filter(|t| !t.is_empty()).count() > 1)
}

fn main() {
    Check::main("C12", "a case is a shard count, keys and operations (non-trivial: at least two entries remain and the keys live in at least two shards), or operations of several threads (non-trivial: at least two do something)", |c| {
        c.prop("histories", Opts::new(400_000), || bx((shards(), keys(), ops()).prop_map(|(shards, keys, ops)| Case { shards, keys, ops })), judge);
        c.prop("threads", Opts::new(30_000), || bx((shards(), keys(), prop::collection::vec(prop::collection::vec(any::<u8>(), 0..12), 2..6)).prop_map(|(shards, keys, threads)| Race { shards, keys, threads })), judge_race);
    });
}
