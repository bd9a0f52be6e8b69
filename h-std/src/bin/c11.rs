//! C11: fingerprints and hashes are a function of the value alone.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::{Barrier, Mutex};
use tinymist_std::hash::{hash128, hash64, item_hash128, Fingerprint, FingerprintBuilder, FingerprintHasher, FingerprintSipHasher, HashedTrait, StaticHash128};
use vcommon::{bx, ensure, ensure_eq, gen, no_panic, Check, Fail, Hex, Opts, Verdict};

/// A value whose derived hash distinguishes any two of them.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum V {
    Unit,
    Bool(bool),
    Int(i64),
    Small(u8),
    Char(char),
    Text(String),
    Bytes(Vec<u8>),
    List(Vec<V>),
    Pair(Box<(V, V)>),
    Opt(Option<Box<V>>),
    Map(BTreeMap<String, V>),
    Struct { a: u32, b: String },
}

fn value() -> BoxedStrategy<V> {
    let leaf = prop_oneof![
        1 => Just(V::Unit),
        1 => any::<bool>().prop_map(V::Bool),
        2 => prop_oneof![-3i64..4, any::<i64>()].prop_map(V::Int),
        2 => any::<u8>().prop_map(V::Small),
        1 => gen::odd_char().prop_map(V::Char),
        3 => gen::text(5).prop_map(V::Text),
        2 => prop::collection::vec(prop_oneof![Just(0u8), Just(0xff), any::<u8>()], 0..6).prop_map(V::Bytes),
        1 => (prop_oneof![0u32..3, any::<u32>()], gen::text(3)).prop_map(|(a, b)| V::Struct { a, b }),
    ];
    leaf.prop_recursive(3, 12, 4, |v| {
        prop_oneof![
            prop::collection::vec(v.clone(), 0..4).prop_map(V::List),
            (v.clone(), v.clone()).prop_map(|p| V::Pair(Box::new(p))),
            prop::option::of(v.clone().prop_map(Box::new)).prop_map(V::Opt),
            prop::collection::btree_map(gen::text(3), v, 0..3).prop_map(V::Map),
        ]
    })
    .boxed()
}

/// Another type with the same contents and the same derived hash.
#[derive(PartialEq, Eq, Hash, Clone)]
struct Twin(V);
#[derive(PartialEq, Eq, Hash, Clone)]
struct Other(V);

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Hashes {
    unchecked: u128s,
    checked: u128s,
    item: u128s,
    plain: u128s,
    short: u64,
}

/// 128 bits as text.
#[allow(non_camel_case_types)]
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct u128s(String);

fn hashes(b: &FingerprintBuilder, v: &V) -> Hashes {
    let t = |x: u128| u128s(format!("{x:032x}"));
    Hashes {
        unchecked: t(b.resolve_unchecked(v).to_u128()),
        checked: t(b.resolve(v).to_u128()),
        item: t(item_hash128(v)),
        plain: t(hash128(v)),
        short: hash64(v),
    }
}

fn server() -> ! {
    let b = FingerprintBuilder::default();
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let vs: Vec<V> = serde_json::from_str(&line).unwrap();
        let hs: Vec<Hashes> = vs.iter().map(|v| hashes(&b, v)).collect();
        let mut o = out.lock();
        writeln!(o, "{}", serde_json::to_string(&hs).unwrap()).unwrap();
        o.flush().unwrap();
    }
    std::process::exit(0)
}

struct Peer(Child, ChildStdin, BufReader<ChildStdout>);
impl Peer {
    fn new() -> Self {
        let mut c = Command::new(std::env::current_exe().unwrap()).arg("--server").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
        let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
        Peer(c, i, o)
    }
    fn ask(&mut self, vs: &[V]) -> Option<Vec<Hashes>> {
        writeln!(self.1, "{}", serde_json::to_string(vs).unwrap()).ok()?;
        self.1.flush().ok()?;
        let mut line = String::new();
        self.2.read_line(&mut line).ok()?;
        serde_json::from_str(&line).ok()
    }
}
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Values(Vec<V>);

thread_local!(static PEER: std::cell::RefCell<Option<Peer>> = const { std::cell::RefCell::new(None) });

fn judge(c: &Values) -> Verdict {
    no_panic(|| judge_inner(c)).map_err(|p| format!("panicked: {p}"))?
}

fn judge_inner(c: &Values) -> Verdict {
    let (b1, b2) = (FingerprintBuilder::default(), FingerprintBuilder::default());
    let hs: Vec<Hashes> = c.0.iter().map(|v| hashes(&b1, v)).collect();
    // Another builder, in another order, with equal values built anew.
    for (v, h) in c.0.iter().zip(&hs).rev() {
        let again: V = serde_json::from_str(&serde_json::to_string(v).unwrap()).unwrap();
        ensure_eq!(hashes(&b2, &again), *h, "hashing an equal value of {v:?} again");
        ensure_eq!(hashes(&b1, &again), *h, "hashing an equal value of {v:?} in the same builder");
        // Prehashed values hash as their hash says.
        let p = HashedTrait::new(hash128(v), Box::new(again.clone()));
        let q = HashedTrait::new(hash128(v), Box::new(v.clone()));
        ensure_eq!(p.get_hash(), hash128(v), "the prehash of {v:?}");
        ensure_eq!(hash128(&p), hash128(&q), "hashing a prehashed {v:?}");
        let (dp, pair): (&dyn StaticHash128, _) = (&q, ());
        let _ = pair;
        let mut one = FingerprintSipHasher::default();
        dp.hash(&mut one);
        let mut two = FingerprintSipHasher::default();
        p.hash(&mut two);
        ensure!(one.finish_fingerprint() == two.finish_fingerprint(), "hashing a prehashed {v:?} through the trait object");
        ensure!(*p == again, "the prehashed value is not the value");
    }
    // Different values differ, each in its own column.
    let mut sets: [HashMap<String, usize>; 4] = Default::default();
    for (i, (v, h)) in c.0.iter().zip(&hs).enumerate() {
        for (set, x) in sets.iter_mut().zip([&h.unchecked, &h.checked, &h.item, &h.plain]) {
            if let Some(j) = set.insert(x.0.clone(), i) {
                ensure!(c.0[j] == *v, "{:?} and {v:?} are both {}", c.0[j], x.0);
            }
        }
    }
    // The same contents under other types.
    for (v, h) in c.0.iter().zip(&hs) {
        let (t, o) = (Twin(v.clone()), Other(v.clone()));
        let f: Vec<u128> = vec![b1.resolve(v).to_u128(), b1.resolve(&t).to_u128(), b1.resolve(&o).to_u128()];
        ensure!(f[0] != f[1] && f[1] != f[2] && f[0] != f[2], "{v:?} and its newtypes share a checked fingerprint: {f:x?}");
        ensure_eq!(b2.resolve(&t).to_u128(), f[1], "the newtype in another builder");
        let g = [item_hash128(v), item_hash128(&t), item_hash128(&o)];
        ensure!(g[0] != g[1] && g[1] != g[2] && g[0] != g[2], "{v:?} and its newtypes share an item hash: {g:x?}");
        ensure_eq!(hashes(&b1, v), *h, "hashing {v:?} after its newtypes");
    }
    Ok(c.0.iter().any(|v| *v != c.0[0]))
}

fn judge_process(c: &Values) -> Verdict {
    let b = FingerprintBuilder::default();
    let mine: Vec<Hashes> = c.0.iter().map(|v| hashes(&b, v)).collect();
    let theirs = PEER.with(|p| {
        let mut p = p.borrow_mut();
        let r = p.get_or_insert_with(Peer::new).ask(&c.0);
        if r.is_none() {
            *p = None;
        }
        r
    });
    let theirs = theirs.ok_or_else(|| Fail::from("hashing the values ended another process"))?;
    for ((v, m), t) in c.0.iter().zip(&mine).zip(&theirs) {
        ensure_eq!(*t, *m, "the hashes of {v:?} in another process");
    }
    Ok(true)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Pieces {
    data: Hex,
    cuts: Vec<u16>,
    typed: Vec<(u8, u64)>,
}

/// Hashing bytes in one piece or in many.
fn judge_pieces(c: &Pieces) -> Verdict {
    let data = &c.data.0;
    let mut cuts: Vec<usize> = c.cuts.iter().map(|x| *x as usize % (data.len() + 1)).collect();
    cuts.extend([0, data.len()]);
    cuts.sort();
    let (mut one, mut many) = (FingerprintSipHasher::default(), FingerprintSipHasher::default());
    one.write(data);
    for w in cuts.windows(2) {
        many.write(&data[w[0]..w[1]]);
        // Looking at the hash on the way changes nothing.
        if w[0] % 3 == 0 {
            let _ = (many.finish(), many.fast_hash().0);
        }
    }
    for (k, v) in &c.typed {
        for h in [&mut one, &mut many] {
            match k % 4 {
                0 => h.write_u8(*v as u8),
                1 => h.write_u32(*v as u32),
                2 => h.write_u64(*v),
                _ => h.write_u128(*v as u128 * 3),
            }
        }
    }
    ensure_eq!(one.finish(), many.finish(), "the 64-bit hash of {} bytes in pieces {cuts:?}", data.len());
    ensure_eq!(one.fast_hash(), many.fast_hash(), "the fast hash of {} bytes in pieces {cuts:?}", data.len());
    let (f, d) = one.finish_fingerprint();
    let (g, e) = many.finish_fingerprint();
    ensure!(f == g, "the fingerprint of {} bytes in pieces {cuts:?} is {:x}, not {:x}", data.len(), g.to_u128(), f.to_u128());
    ensure!(d == e, "the underlying data of pieces {cuts:?} differs");
    if c.typed.is_empty() {
        ensure!(d == *data, "the underlying data is not the data hashed");
    }
    // One byte more or less, or changed, is another fingerprint.
    for how in 0..3 {
        let mut other = d.clone();
        match how {
            0 => other.push(0),
            1 if !other.is_empty() => {
                other.pop();
            }
            2 if !other.is_empty() => {
                let i = c.cuts.first().copied().unwrap_or(0) as usize % other.len();
                other[i] ^= 1 << (i % 8);
            }
            _ => continue,
        }
        let mut h = FingerprintSipHasher::default();
        h.write(&other);
        ensure!(h.finish_fingerprint().0 != f, "{} bytes and a variation of them share a fingerprint", d.len());
    }
    Ok(cuts.len() > 3 && !data.is_empty())
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Race {
    values: Vec<V>,
    threads: Vec<u64>,
}

/// A long value and values that differ from it in one place.
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Long {
    len: usize,
    fill: u8,
    at: Vec<u32>,
    nested: bool,
}

fn judge_long(c: &Long) -> Verdict {
    let base: Vec<u8> = (0..c.len).map(|i| c.fill.wrapping_add((i / 7) as u8)).collect();
    let mut all = vec![base.clone()];
    for at in &c.at {
        let mut other = base.clone();
        other[*at as usize % c.len] ^= 1 << (at % 8);
        all.push(other);
    }
    all.push(base[1..].to_vec());
    all.push(base[..c.len - 1].to_vec());
    let values = all.into_iter().map(|b| match c.nested {
        true => V::List(b.chunks(16).map(|b| V::Bytes(b.to_vec())).collect()),
        false => V::Bytes(b),
    });
    let b = FingerprintBuilder::default();
    let mut sets: [HashMap<String, V>; 4] = Default::default();
    for v in values {
        let h = hashes(&b, &v);
        ensure_eq!(hashes(&b, &v.clone()), h, "hashing a long value again");
        for (i, (set, x)) in sets.iter_mut().zip([&h.unchecked, &h.checked, &h.item, &h.plain]).enumerate() {
            if let Some(u) = set.insert(x.0.clone(), v.clone()) {
                ensure!(u == v, "two values of {} bytes that differ in one place share hash {i}", c.len);
            }
        }
    }
    Ok(c.len > 256)
}

/// Many threads resolve the same values through one builder, in their own orders.
fn judge_race(c: &Race) -> Verdict {
    let shared = FingerprintBuilder::default();
    let barrier = Barrier::new(c.threads.len());
    let got: Mutex<Vec<(usize, bool, Fingerprint)>> = Mutex::new(vec![]);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| {
        for (t, seed) in c.threads.iter().enumerate() {
            let (shared, barrier, got, bad, c) = (&shared, &barrier, &got, &bad, c);
            s.spawn(move || {
                barrier.wait();
                let r = no_panic(|| {
                    let mut mine = vec![];
                    let mut x = *seed | 1;
                    for _ in 0..c.values.len() * 3 {
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        let i = (x >> 33) as usize % c.values.len();
                        let twin = (x >> 20) & 1 == 1;
                        mine.push((i, twin, if twin { shared.resolve(&Twin(c.values[i].clone())) } else { shared.resolve(&c.values[i]) }));
                    }
                    mine
                });
                match r {
                    Ok(m) => got.lock().unwrap().extend(m),
                    Err(p) => *bad.lock().unwrap() = Some(format!("thread {t} panicked: {p}")),
                }
            });
        }
    });
    if let Some(b) = bad.into_inner().unwrap() {
        return Err(b.into());
    }
    let own = FingerprintBuilder::default();
    let mut seen: HashMap<u128, (usize, bool)> = HashMap::new();
    for (i, twin, f) in got.into_inner().unwrap() {
        let want = if twin { own.resolve(&Twin(c.values[i].clone())) } else { own.resolve(&c.values[i]) };
        ensure!(f == want, "{:?} is {:x} in the shared builder and {:x} alone", c.values[i], f.to_u128(), want.to_u128());
        if let Some((j, u)) = seen.insert(f.to_u128(), (i, twin)) {
            ensure!(c.values[i] == c.values[j] && u == twin, "{:?} and {:?} share a fingerprint", c.values[i], c.values[j]);
        }
    }
    Ok(c.threads.len() > 1 && c.values.len() > 1)
}

/// Hashed as its bytes alone, without their number.
#[derive(PartialEq, Clone)]
struct Raw(Vec<u8>);
impl Hash for Raw {
    fn hash<H: Hasher>(&self, state: &mut H) {
        state.write(&self.0);
    }
}
#[derive(Hash, PartialEq, Clone)]
struct Nothing;
#[derive(Hash, PartialEq, Clone)]
struct Naught;
#[derive(Hash, PartialEq, Clone)]
struct Of<T>(std::marker::PhantomData<T>);
#[derive(Hash, PartialEq, Clone)]
struct Wrapped<T>(T);

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Types {
    raw: Vec<Hex>,
    n: u8,
    order: Vec<u8>,
}

/// Values of many types, some without contents, asked for in some order.
fn judge_types(c: &Types) -> Verdict {
    let n = c.n;
    let b = FingerprintBuilder::default();
    type Ask<'a> = Box<dyn Fn() -> (Fingerprint, u128) + 'a>;
    fn ask<'a, T: Hash + PartialEq + 'static>(b: &'a FingerprintBuilder, t: T) -> Ask<'a> {
        Box::new(move || (b.resolve(&t), item_hash128(&t)))
    }
    let all: Vec<(&str, Ask)> = vec![
        ("()", ask(&b, ())),
        ("Nothing", ask(&b, Nothing)),
        ("Naught", ask(&b, Naught)),
        ("Of<u8>", ask(&b, Of::<u8>(Default::default()))),
        ("Of<u16>", ask(&b, Of::<u16>(Default::default()))),
        ("[u8; 0]", ask(&b, [0u8; 0])),
        ("[u16; 0]", ask(&b, [0u16; 0])),
        ("Wrapped<()>", ask(&b, Wrapped(()))),
        ("((),)", ask(&b, ((),))),
        ("u8", ask(&b, n)),
        ("i8", ask(&b, n as i8)),
        ("Wrapped<u8>", ask(&b, Wrapped(n))),
        ("(u8,)", ask(&b, (n,))),
        ("[u8; 1]", ask(&b, [n])),
        ("Box<u8>", ask(&b, Box::new(n))),
        ("Box<()>", ask(&b, Box::new(()))),
        ("Option<()>", ask(&b, None::<()>)),
        ("Option<Nothing>", ask(&b, None::<Nothing>)),
        ("Option<u8>", ask(&b, None::<u8>)),
        ("Vec<()>", ask(&b, Vec::<()>::new())),
        ("Vec<u8>", ask(&b, Vec::<u8>::new())),
        ("String", ask(&b, String::new())),
        ("&str", ask(&b, "")),
        ("Raw", ask(&b, Raw(vec![]))),
        ("one Local", {
            #[derive(Hash, PartialEq)]
            struct Local(u8);
            ask(&b, Local(n))
        }),
        ("another Local", {
            #[derive(Hash, PartialEq)]
            struct Local(u8);
            ask(&b, Local(n))
        }),
        ("Wrapped<Raw>", ask(&b, Wrapped(Raw(vec![])))),
    ];
    let mut got: HashMap<usize, (Fingerprint, u128)> = HashMap::new();
    for i in c.order.iter().map(|i| *i as usize % all.len()).chain(0..all.len()).chain(0..all.len()) {
        let (f, h) = all[i].1();
        let (g, k) = *got.entry(i).or_insert((f, h));
        ensure!(f == g && h == k, "the value of type {} is hashed again as something else", all[i].0);
    }
    for (i, a) in &got {
        for (j, b) in &got {
            ensure!(i == j || a.0 != b.0, "equal contents of type {} and {} share a checked fingerprint", all[*i].0, all[*j].0);
            ensure!(i == j || a.1 != b.1, "equal contents of type {} and {} share an item hash", all[*i].0, all[*j].0);
        }
    }
    // Bytes that differ in a few places at their ends.
    let mut raw: Vec<Vec<u8>> = vec![];
    for r in &c.raw {
        for k in [0usize, 1, 2, 4, 7, 8, 9, 16] {
            for fill in [0u8, 0xff, k as u8] {
                raw.push([&r.0[..], &vec![fill; k]].concat());
                raw.push([&vec![fill; k], &r.0[..]].concat());
            }
        }
        raw.extend(r.0.len().checked_sub(8).map(|k| r.0[..k].to_vec()));
    }
    raw.sort();
    raw.dedup();
    let mut sets: [HashMap<u128, usize>; 5] = Default::default();
    for (i, r) in raw.iter().enumerate() {
        let v = Raw(r.clone());
        let fast = {
            let mut h = FingerprintSipHasher::default();
            v.hash(&mut h);
            h.finish_fingerprint().0.to_u128()
        };
        let all = [b.resolve_unchecked(&v).to_u128(), b.resolve(&v).to_u128(), item_hash128(&v), hash128(&v), fast];
        ensure!(b.resolve(&Raw(r.clone())).to_u128() == all[1], "the checked fingerprint of {:?} changes", Hex(r.clone()));
        for (k, (set, x)) in sets.iter_mut().zip(all).enumerate() {
            if let Some(j) = set.insert(x, i) {
                return Err(format!("{:?} and {:?} share hash {k}", Hex(raw[j].clone()), Hex(r.clone())).into());
            }
        }
    }
    Ok(!c.raw.is_empty())
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--server") {
        server();
    }
    Check::main("C11", "a case is some values hashed in every way, twice, in another process or in several threads (non-trivial: two of them differ, or the case involves another process or several threads), or contents that values of many types share and bytes alike at one end (non-trivial: there are such bytes), or bytes hashed in pieces (non-trivial: there are several)", |c| {
        c.assume("two different values have the same 128-bit hash with negligible probability; 64-bit hashes are only compared for equal values");
        c.prop("values", Opts::new(100_000), || bx(prop::collection::vec(value(), 1..8).prop_map(Values)), judge);
        c.prop("near values", Opts::new(20_000), || bx((value(), value(), gen::text(4), any::<i64>()).prop_map(|(a, b, t, n)| {
            let l = |v: &[&V]| V::List(v.iter().map(|v| (*v).clone()).collect());
            Values(vec![
                a.clone(), b.clone(),
                l(&[&a, &b]), l(&[&b, &a]), l(&[&l(&[&a]), &b]), l(&[&l(&[&a, &b])]), l(&[]), l(&[&l(&[])]),
                V::Pair(Box::new((a.clone(), b.clone()))), V::Pair(Box::new((b.clone(), a.clone()))),
                V::Opt(None), V::Opt(Some(Box::new(a.clone()))), V::Opt(Some(Box::new(V::Opt(None)))),
                V::Text(t.clone()), V::Bytes(t.clone().into_bytes()), V::Text(format!("{t}\0")), V::Text(format!("{t}\u{ff}")),
                V::Text(format!("\0{t}")), V::List(vec![V::Text(t.clone()), V::Text(String::new())]), V::List(vec![V::Text(String::new()), V::Text(t)]),
                V::Int(n), V::Int(!n), V::Int(n ^ 1), V::Int(n ^ (1 << 63)), V::Small(n as u8), V::Small(0), V::Bool(false), V::Unit,
            ])
        })), judge);
        c.prop("types", Opts::new(3_000), || bx((prop::collection::vec(prop::collection::vec(prop_oneof![2 => Just(0u8), 1 => any::<u8>()], 0..20).prop_map(Hex), 0..4), any::<u8>(), prop::collection::vec(any::<u8>(), 0..30)).prop_map(|(raw, n, order)| Types { raw, n, order })), judge_types);
        c.prop("processes", Opts::new(10_000), || bx(prop::collection::vec(value(), 1..10).prop_map(Values)), judge_process);
        c.prop("pieces", Opts::new(300_000), || bx((prop_oneof![3 => prop::collection::vec(any::<u8>(), 0..40), 1 => prop::collection::vec(any::<u8>(), 0..300), 1 => (any::<u8>(), 0usize..2000).prop_map(|(b, n)| vec![b; n])], prop::collection::vec(any::<u16>(), 0..8), prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec((any::<u8>(), any::<u64>()), 0..4)]).prop_map(|(d, cuts, typed)| Pieces { data: Hex(d), cuts, typed })), judge_pieces);
        c.prop("long values", Opts::new(3_000), || bx((prop_oneof![3 => 2usize..9000, 1 => 2usize..70_000, 1 => (1u32..17, -2i64..3).prop_map(|(k, d)| ((1i64 << k) + d).max(2) as usize)], any::<u8>(), prop::collection::vec(any::<u32>(), 1..4), any::<bool>()).prop_map(|(len, fill, at, nested)| Long { len, fill, at, nested })), judge_long);
        c.prop("very long values", Opts::new(8).shards(4).shrink(20), || bx(((1usize << 22)..(9 << 20), any::<u8>(), prop::collection::vec(any::<u32>(), 1..3), any::<bool>()).prop_map(|(len, fill, at, nested)| Long { len, fill, at, nested })), judge_long);
        c.prop("threads", Opts::new(6_000), || bx((prop::collection::vec(value(), 1..12), prop::collection::vec(any::<u64>(), 2..7)).prop_map(|(values, threads)| Race { values, threads })), judge_race);
    });
}
