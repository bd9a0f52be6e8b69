//! C18: shared-ownership and byte helpers.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use serde_with::{DeserializeAs, SerializeAs};
use std::borrow::Cow;
use std::cell::Cell;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Weak};
use tinymist_std::cow_mut::CowMut;
use tinymist_std::{ArcInto, AsCowBytes, FromArc, ImmutBytes, ImmutPath, ImmutStr, TakeAs};
use vcommon::{bx, ensure_eq, gen, no_panic, Check, Hex, Opts, Verdict};

thread_local!(static CLONES: Cell<u32> = const { Cell::new(0) });

#[derive(Debug, PartialEq, Eq, Default)]
struct Data(Vec<u16>);
impl Clone for Data {
    fn clone(&self) -> Self {
        CLONES.with(|c| c.set(c.get() + 1));
        Data(self.0.clone())
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    /// Another holder of the i-th value.
    Share(u8),
    Weak(u8),
    Drop(u8),
    /// Takes the value out of the i-th holder and changes it.
    Take(u8, u16),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Shared {
    start: Vec<Vec<u16>>,
    ops: Vec<Op>,
}

fn judge_shared(c: &Shared) -> Verdict {
    let mut holders: Vec<(usize, Arc<Data>)> = c.start.iter().enumerate().map(|(i, v)| (i, Arc::new(Data(v.clone())))).collect();
    let mut weaks: Vec<(usize, Weak<Data>)> = vec![];
    let mut taken: Vec<(Data, Vec<u16>)> = vec![];
    let mut nontrivial = false;
    for (n, op) in c.ops.iter().enumerate() {
        if holders.is_empty() {
            break;
        }
        let at = |i: &u8| *i as usize % holders.len();
        match op {
            Op::Share(i) => {
                let h = holders[at(i)].clone();
                holders.push(h);
            }
            Op::Weak(i) => {
                let (id, a) = &holders[at(i)];
                weaks.push((*id, Arc::downgrade(a)));
            }
            Op::Drop(i) => {
                let i = at(i);
                holders.remove(i);
            }
            Op::Take(i, x) => {
                let i = at(i);
                let (id, a) = holders.remove(i);
                let others = holders.iter().filter(|(j, _)| *j == id).count();
                CLONES.with(|c| c.set(0));
                let mut v: Data = a.take();
                let clones = CLONES.with(|c| c.get());
                ensure_eq!(v.0, c.start[id], "step {n}: the value taken");
                if others == 0 {
                    ensure_eq!(clones, 0, "step {n}: copies made with no other holder");
                } else {
                    ensure_eq!(clones, 1, "step {n}: copies made with {others} other holders");
                    nontrivial = true;
                }
                v.0.push(*x);
                v.0[0] = *x;
                let mut want = c.start[id].clone();
                want.push(*x);
                want[0] = *x;
                taken.push((v, want));
            }
        }
        for (id, a) in &holders {
            ensure_eq!(a.0, c.start[*id], "step {n}: what another holder of value {id} sees");
        }
        for (v, want) in &taken {
            ensure_eq!(v.0, *want, "step {n}: a value taken earlier");
        }
        for (id, w) in &weaks {
            if let Some(a) = w.upgrade() {
                ensure_eq!(a.0, c.start[*id], "step {n}: what a weak holder of value {id} sees");
            }
        }
    }
    Ok(nontrivial)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Cows {
    base: Vec<u16>,
    /// Borrowed or owned, then what is pushed through it.
    steps: Vec<(bool, Vec<u16>, Option<u16>)>,
}

fn judge_cow(c: &Cows) -> Verdict {
    let mut base = Data(c.base.clone());
    let mut want = c.base.clone();
    let mut both = (false, false);
    for (i, (borrow, push, set)) in c.steps.iter().enumerate() {
        let mut here = want.clone();
        CLONES.with(|c| c.set(0));
        {
            let mut h = if *borrow { CowMut::Borrowed(&mut base) } else { CowMut::Owned(Data(want.clone())) };
            ensure_eq!(h.0, here, "step {i}: what the handle shows first");
            for p in push {
                h.0.push(*p);
                here.push(*p);
                ensure_eq!(h.0, here, "step {i}: what the handle shows");
            }
            if let Some(s) = set {
                *h = Data(vec![*s]);
                here = vec![*s];
            }
            ensure_eq!(h.0, here, "step {i}: what the handle shows last");
        }
        ensure_eq!(CLONES.with(|c| c.get()), 0, "step {i}: copies made through the handle");
        if *borrow {
            want = here;
            both.0 = true;
        } else {
            both.1 = true;
        }
        ensure_eq!(base.0, want, "step {i}: the base value after a {} handle", if *borrow { "borrowed" } else { "owned" });
    }
    ensure_eq!(CowMut::<Data>::default().0, Vec::<u16>::new(), "the default handle");
    Ok(both == (true, true))
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Bytes(Hex, bool);

const ALPHABET: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

fn encode(bytes: &[u8]) -> String {
    let mut out = String::new();
    for c in bytes.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            out.push(if i <= c.len() { ALPHABET[(v >> (18 - 6 * i) & 63) as usize] as char } else { '=' });
        }
    }
    out
}

/// The bytes whose encoding is `s`, padded or not, if there are any.
fn decode(s: &str) -> Option<Vec<u8>> {
    let bare = s.trim_end_matches('=');
    let mut out = vec![];
    for c in bare.as_bytes().chunks(4) {
        let mut v = 0u32;
        for i in 0..4 {
            v = v << 6 | c.get(i).and_then(|x| ALPHABET.iter().position(|a| a == x)).unwrap_or(0) as u32;
        }
        out.extend_from_slice(&v.to_be_bytes()[1..c.len().max(1)]);
    }
    (encode(&out).trim_end_matches('=') == bare).then_some(out)
}

fn read(v: &Value) -> Result<Option<Vec<u8>>, String> {
    no_panic(|| <AsCowBytes as DeserializeAs<Cow<[u8]>>>::deserialize_as(v.clone()).ok().map(|b| b.into_owned()))
}

fn judge_bytes(c: &Bytes) -> Verdict {
    let bytes = &c.0 .0;
    let cow: Cow<[u8]> = if c.1 { Cow::Borrowed(bytes) } else { Cow::Owned(bytes.clone()) };
    let v = AsCowBytes::serialize_as(&cow, serde_json::value::Serializer).map_err(|e| format!("serialising {bytes:?}: {e}"))?;
    ensure_eq!(v, Value::String(encode(bytes)), "the text of {} bytes", bytes.len());
    ensure_eq!(read(&v)?, Some(bytes.clone()), "reading {v} back");
    let text = v.to_string();
    let mut d = serde_json::Deserializer::from_str(&text);
    let back: Cow<[u8]> = <AsCowBytes as DeserializeAs<Cow<[u8]>>>::deserialize_as(&mut d).map_err(|e| format!("reading {text}: {e}"))?;
    ensure_eq!(back.to_vec(), *bytes, "reading {text} back");
    let a: ImmutBytes = bytes.clone().into();
    ensure_eq!(a[..], bytes[..], "the shared bytes");
    Ok(bytes.len() % 3 != 0)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Text(String);

fn judge_text(c: &Text) -> Verdict {
    let want = decode(&c.0);
    let got = read(&Value::String(c.0.clone())).map_err(|p| format!("reading {:?} panicked: {p}", c.0))?;
    // Missing padding may be tolerated; the padded form must be read.
    match &got {
        Some(_) => ensure_eq!(got, want, "reading {:?}", c.0),
        None => ensure_eq!(want.filter(|w| encode(w) == c.0), None, "reading {:?}, which is rejected", c.0),
    }
    for v in [Value::Null, Value::from(7), Value::Array(vec![1.into(), 2.into()])] {
        ensure_eq!(read(&v)?, None, "reading {v}");
    }
    Ok(!c.0.is_empty())
}

fn text() -> BoxedStrategy<String> {
    let bytes = || prop::collection::vec(any::<u8>(), 0..14);
    prop_oneof![
        3 => (bytes(), any::<u16>(), 0u8..8, prop_oneof![3 => prop::sample::select(vec!['=', 'A', '/', '+', '-', '_', ' ', '\n', 'b']), 1 => gen::odd_char()]).prop_map(|(b, at, how, ch)| {
            let mut t: Vec<char> = encode(&b).chars().collect();
            let at = if t.is_empty() { 0 } else { at as usize % t.len() };
            match how {
                0 if !t.is_empty() => { t.remove(at); }
                1 => t.insert(at, ch),
                2 if !t.is_empty() => t[at] = ch,
                3 => t.retain(|c| *c != '='),
                4 => t.push('='),
                5 => t.iter_mut().for_each(|c| match c { '+' => *c = '-', '/' => *c = '_', _ => {} }),
                6 => if let Some(i) = t.iter().rposition(|c| *c != '=') { t[i] = ch },
                _ => t.truncate(at),
            }
            t.into_iter().collect()
        }),
        2 => prop::collection::vec(prop::sample::select(ALPHABET.iter().map(|b| *b as char).chain(['=']).collect::<Vec<_>>()), 0..10).prop_map(|v| v.into_iter().collect::<String>()),
        1 => gen::text(8),
    ]
    .boxed()
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Strs(String, u8);

/// Conversions out of shared strings and paths keep the text and the holders.
fn judge_strs(c: &Strs) -> Verdict {
    struct Own(Arc<String>);
    impl From<Arc<String>> for Own {
        fn from(a: Arc<String>) -> Self {
            Own(a)
        }
    }
    let s: ImmutStr = c.0.as_str().into();
    let p: ImmutPath = Path::new(&c.0).into();
    ensure_eq!(&*s, c.0.as_str(), "the shared string");
    ensure_eq!(p.to_path_buf(), PathBuf::from(&c.0), "the shared path");
    let a = Arc::new(c.0.clone());
    let holders: Vec<_> = (0..c.1 % 3).map(|_| a.clone()).collect();
    let x: Own = FromArc::from_arc(a.clone());
    let y: Own = a.clone().arc_into();
    ensure_eq!((&*x.0, &*y.0), (&c.0, &c.0), "the converted string");
    ensure_eq!(Arc::ptr_eq(&x.0, &a) && Arc::ptr_eq(&y.0, &a), true, "whether a conversion shares the value");
    drop((a, x, y));
    for a in holders {
        ensure_eq!(*a, c.0, "another holder's string");
    }
    Ok(c.1 % 3 > 0)
}

fn main() {
    Check::main("C18", "a case is a history of sharing and taking (non-trivial: a value was taken while it had another holder), handles over a value (non-trivial: both kinds), bytes (non-trivial: they need padding), a text read as base64 (non-trivial: not empty) or a conversion (non-trivial: with other holders)", |c| {
        let data = || prop::collection::vec(any::<u16>(), 1..4);
        c.prop("sharing", Opts::new(100_000), || bx((prop::collection::vec(data(), 1..4), prop::collection::vec(prop_oneof![
            3 => any::<u8>().prop_map(Op::Share), 1 => any::<u8>().prop_map(Op::Weak), 1 => any::<u8>().prop_map(Op::Drop), 4 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| Op::Take(a, b))], 0..16)).prop_map(|(start, ops)| Shared { start, ops })), judge_shared);
        c.prop("handles", Opts::new(100_000), || bx((data(), prop::collection::vec((any::<bool>(), prop::collection::vec(any::<u16>(), 0..3), any::<Option<u16>>()), 1..6)).prop_map(|(base, steps)| Cows { base, steps })), judge_cow);
        c.prop("bytes", Opts::new(100_000), || bx((prop_oneof![3 => prop::collection::vec(any::<u8>(), 0..20), 1 => prop::collection::vec(any::<u8>(), 0..400)], any::<bool>()).prop_map(|(b, o)| Bytes(Hex(b), o))), judge_bytes);
        c.prop("texts", Opts::new(200_000), || bx(text().prop_map(Text)), judge_text);
        c.prop("conversions", Opts::new(20_000), || bx((gen::text(8), any::<u8>()).prop_map(|(s, n)| Strs(s, n))), judge_strs);
    });
}
