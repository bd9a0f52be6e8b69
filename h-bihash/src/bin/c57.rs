//! C57: fingerprints of the two-level builder (`bi-hash`).
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::{Barrier, Mutex, OnceLock};
use tinymist_std::hash::{Fingerprint, FingerprintBuilder, FingerprintHasher, FingerprintSipHasher};
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Hex, Opts, Verdict};

#[derive(Clone)]
struct Raw<'a>(&'a [u8]);
impl Hash for Raw<'_> {
    fn hash<H: Hasher>(&self, s: &mut H) {
        s.write(self.0);
    }
}
#[derive(Clone)]
struct First(Vec<u8>);
#[derive(Clone)]
struct Second(Vec<u8>);
impl Hash for First {
    fn hash<H: Hasher>(&self, s: &mut H) {
        s.write(&self.0);
    }
}
impl Hash for Second {
    fn hash<H: Hasher>(&self, s: &mut H) {
        s.write(&self.0);
    }
}

fn hasher<T: Hash + 'static>(t: &T, typed: bool) -> FingerprintSipHasher {
    let mut s = FingerprintSipHasher::default();
    if typed {
        std::any::Any::type_id(t).hash(&mut s);
    }
    t.hash(&mut s);
    s
}
fn short<T: Hash + 'static>(t: &T, typed: bool) -> u32 {
    hasher(t, typed).fast_hash().0
}

const POOL: u64 = 1 << 20;
/// How much contents have in common before and after what differs, and how many are tried.
const SHAPES: &[(usize, usize, u64)] = &[(0, 0, POOL), (64, 0, POOL / 4), (300, 0, POOL / 4), (0, 64, POOL / 4), (0, 300, POOL / 4), (1, 9, POOL / 4)];
fn content(shape: (usize, usize, u64), v: u64) -> Vec<u8> {
    let mut b = vec![b'p'; shape.0];
    b.extend(v.to_le_bytes());
    b.extend(std::iter::repeat_n(b's', shape.1));
    b
}
/// Groups of contents whose short hashes are the same, found by trying many:
/// for the unchecked form, and for two types in the checked form.
fn groups() -> &'static [Vec<Vec<Vec<u8>>>; 3] {
    static G: OnceLock<[Vec<Vec<Vec<u8>>>; 3]> = OnceLock::new();
    G.get_or_init(|| {
        let mut out = [vec![], vec![], vec![]];
        for (kind, out) in out.iter_mut().enumerate() {
            let mut shaped = vec![];
            for shape in SHAPES {
                let mut all: Vec<(u32, u64)> = (0..shape.2)
                    .map(|i| {
                        let v = i.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (i >> 7);
                        let b = content(*shape, v);
                        let h = match kind {
                            0 => short(&First(b), false),
                            1 => short(&First(b), true),
                            _ => short(&Second(b), true),
                        };
                        (h, v)
                    })
                    .collect();
                all.sort();
                let mut of_shape = vec![];
                for g in all.chunk_by(|a, b| a.0 == b.0).filter(|g| g.len() > 1) {
                    let mut g: Vec<Vec<u8>> = g.iter().map(|x| content(*shape, x.1)).collect();
                    g.dedup();
                    if g.len() > 1 {
                        of_shape.push(g);
                    }
                }
                shaped.push(of_shape);
            }
            // Each shape is as likely as the others.
            let most = shaped.iter().map(|s| s.len()).max().unwrap_or(0);
            for i in 0..most {
                out.extend(shaped.iter().filter(|s| !s.is_empty()).map(|s| s[i % s.len()].clone()));
            }
        }
        out
    })
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
enum What {
    /// The j-th of the i-th group of contents with the same short hash.
    Clash(u16, u8),
    Plain(Hex),
}
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum How {
    Unchecked,
    First,
    Second,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    asks: Vec<(How, What)>,
}

fn bytes(how: How, w: &What) -> Vec<u8> {
    match w {
        What::Plain(h) => h.0.clone(),
        What::Clash(i, j) => {
            let g = &groups()[how as usize];
            if g.is_empty() {
                return vec![*i as u8, *j];
            }
            let g = &g[*i as usize % g.len()];
            g[*j as usize % g.len()].clone()
        }
    }
}
fn ask(b: &FingerprintBuilder, how: How, v: &[u8]) -> Fingerprint {
    match how {
        How::Unchecked => b.resolve_unchecked(&First(v.to_vec())),
        How::First => b.resolve(&First(v.to_vec())),
        How::Second => b.resolve(&Second(v.to_vec())),
    }
}
/// What the builder sees of an item.
fn seen(how: How, v: &[u8]) -> Vec<u8> {
    let s = match how {
        How::Unchecked => hasher(&First(v.to_vec()), false),
        How::First => hasher(&First(v.to_vec()), true),
        How::Second => hasher(&Second(v.to_vec()), true),
    };
    s.finish_fingerprint().1
}

fn judge(c: &Case) -> Verdict {
    let b = FingerprintBuilder::default();
    let mut of: HashMap<Vec<u8>, Fingerprint> = HashMap::new();
    let mut back: HashMap<Fingerprint, (How, Vec<u8>)> = HashMap::new();
    let mut shorts: HashMap<u32, Vec<u8>> = HashMap::new();
    let mut clash = false;
    for round in 0..2 {
        for (how, what) in &c.asks {
            let v = bytes(*how, what);
            let data = seen(*how, &v);
            let f = no_panic(|| ask(&b, *how, &v)).map_err(|p| format!("resolving {how:?} {v:02x?} panicked: {p}"))?;
            if let Some(prev) = of.insert(data.clone(), f) {
                ensure_eq!(f, prev, "{how:?} {v:02x?} is given another fingerprint when asked again (round {round})");
            }
            let s = Raw(&data);
            let mut h = FingerprintSipHasher::default();
            s.hash(&mut h);
            clash |= *shorts.entry(h.fast_hash().0).or_insert_with(|| data.clone()) != data;
            if let Some((h2, v2)) = back.insert(f, (*how, v.clone())) {
                ensure!(seen(h2, &v2) == data, "{how:?} {v:02x?} and {h2:?} {v2:02x?} share the fingerprint {f:?}");
            }
        }
    }
    Ok(clash)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Race {
    how: How,
    whats: Vec<What>,
    /// Where each thread begins in the list, and how it goes on.
    threads: Vec<(u8, bool)>,
    times: u16,
}

/// Threads that ask one new builder for items at the same time.
fn judge_race(c: &Race) -> Verdict {
    let items: Vec<Vec<u8>> = c.whats.iter().map(|w| bytes(c.how, w)).collect();
    let barrier = Barrier::new(c.threads.len());
    let builders: Vec<FingerprintBuilder> = (0..c.times).map(|_| Default::default()).collect();
    let got: Mutex<Vec<(usize, usize, Fingerprint)>> = Mutex::new(vec![]);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| {
        for (t, (start, forward)) in c.threads.iter().enumerate() {
            let (items, barrier, builders, got, bad) = (&items, &barrier, &builders, &got, &bad);
            s.spawn(move || {
                let mut mine = vec![];
                for (k, b) in builders.iter().enumerate() {
                    barrier.wait();
                    let r = no_panic(|| {
                        for x in 0..items.len() {
                            let x = if *forward { x } else { items.len() - 1 - x };
                            let i = (x + *start as usize) % items.len();
                            mine.push((k, i, ask(b, c.how, &items[i])));
                        }
                    });
                    if let Err(p) = r {
                        *bad.lock().unwrap() = Some(format!("thread {t} panicked: {p}"));
                    }
                }
                got.lock().unwrap().extend(mine);
            });
        }
    });
    if let Some(b) = bad.into_inner().unwrap() {
        return Err(b.into());
    }
    let mut of: HashMap<(usize, &[u8]), Fingerprint> = HashMap::new();
    let mut back: HashMap<(usize, Fingerprint), &[u8]> = HashMap::new();
    for (k, i, f) in got.into_inner().unwrap() {
        let v = items[i].as_slice();
        if let Some(prev) = of.insert((k, v), f) {
            ensure_eq!(f, prev, "{v:02x?} has two fingerprints in one builder");
        }
        if let Some(w) = back.insert((k, f), v) {
            ensure!(v == w, "threads that ask at once for {v:02x?} and {w:02x?} are given the same fingerprint {f:?}");
        }
    }
    for ((k, v), f) in of {
        ensure_eq!(ask(&builders[k], c.how, v), f, "{v:02x?} is given another fingerprint when asked again later");
    }
    let distinct = items.iter().collect::<std::collections::HashSet<_>>().len();
    Ok(c.threads.len() > 1 && distinct > 1)
}

fn what() -> BoxedStrategy<What> {
    prop_oneof![
        4 => (0u16..6, 0u8..3).prop_map(|(i, j)| What::Clash(i, j)),
        2 => (any::<u16>(), 0u8..3).prop_map(|(i, j)| What::Clash(i, j)),
        1 => proptest::collection::vec(any::<u8>(), 0..12).prop_map(|v| What::Plain(Hex(v))),
        1 => proptest::collection::vec(0u8..2, 0..5).prop_map(|v| What::Plain(Hex(v))),
    ]
    .boxed()
}
fn how() -> BoxedStrategy<How> {
    prop_oneof![Just(How::Unchecked), Just(How::First), Just(How::Second)].boxed()
}

fn main() {
    Check::main(
        "C57",
        "a sequential case is non-trivial when two of its items have the same 32-bit hash; a race when two threads ask for two different items",
        |c| {
            c.assume("A 128-bit SipHash collision among the generated items does not occur.");
            c.assume("Items with the same 32-bit hash are found by trying a million contents with the crate's own hasher.");
            c.prop(
                "sequence",
                Opts::new(60_000).thorough(10).shards(16),
                || bx(proptest::collection::vec((how(), what()), 1..24).prop_map(|asks| Case { asks })),
                judge,
            );
            c.prop(
                "race",
                Opts::new(1_500).thorough(10).shards(8).shrink(200).retries(20),
                || {
                    bx(
                        (how(), proptest::collection::vec(what(), 2..7), proptest::collection::vec((any::<u8>(), any::<bool>()), 2..5), 4u16..64).prop_map(|(how, whats, threads, times)| Race {
                            how,
                            whats,
                            threads,
                            times,
                        }),
                    )
                },
                judge_race,
            );
        },
    )
}
