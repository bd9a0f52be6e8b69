//! C10: fingerprints and their text, JSON, archived and integer forms.
use proptest::prelude::*;
use rkyv::Deserialize as _;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use tinymist_std::hash::Fingerprint;
use vcommon::{bx, ensure, ensure_eq, gen, no_panic, Check, Fail, Opts, Verdict};

/// 128 bits as text, so that replay files need no big integers.
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Fps(Vec<(u64, u64)>);

/// Keeps the memo table of text ids small.
fn evict() {
    static N: AtomicU64 = AtomicU64::new(0);
    if N.fetch_add(1, Ordering::Relaxed) % 2000 == 0 {
        comemo::evict(0);
    }
}

fn half() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => any::<u64>(),
        2 => 0u64..4,
        2 => Just(0u64),
        3 => (any::<u64>(), 0u32..64).prop_map(|(v, s)| v >> s),
        2 => (any::<u64>(), 0u32..64).prop_map(|(v, s)| v << s),
        2 => (any::<u8>(), 0u32..8).prop_map(|(v, s)| (v as u64) << (8 * s)),
        1 => (0u32..64).prop_map(|s| 1u64 << s),
        1 => Just(u64::MAX),
        // Bytes whose base64 is all punctuation or repeats.
        1 => prop::sample::select(vec![0xfbefbefbefbefbef, 0xffffffffff, 0x6969696969696969, 0x00ff00ff00ff00ff]),
    ]
    .boxed()
}

fn judge(c: &Fps) -> Verdict {
    evict();
    let mut ids: HashMap<String, (u64, u64)> = HashMap::new();
    let mut nontrivial = false;
    for &(lo, hi) in &c.0 {
        let fp = Fingerprint::from_pair(lo, hi);
        let wide = (hi as u128) << 64 | lo as u128;
        ensure_eq!(fp.to_u128(), wide, "the integer of ({lo:#x}, {hi:#x})");
        ensure!(Fingerprint::from_u128(wide) == fp, "the fingerprint of {wide:#x} is not that of ({lo:#x}, {hi:#x})");
        ensure_eq!(fp.lower32(), wide as u32, "the lower 32 bits of {wide:#x}");
        let id = fp.as_svg_id("");
        let back = no_panic(|| Fingerprint::try_from_str(&id)).map_err(|p| format!("reading the id {id:?} of {wide:#x} panicked: {p}"))?;
        match back {
            Ok(b) => ensure_eq!(b.to_u128(), wide, "reading the id {id:?}"),
            Err(e) => return Err(format!("the id {id:?} of {wide:#x} is rejected: {e}").into()),
        }
        ensure_eq!(fp.as_svg_id("gl"), format!("gl{id}"), "the prefixed id");
        let json = serde_json::to_string(&fp).map_err(|e| Fail::from(e.to_string()))?;
        ensure_eq!(serde_json::from_str::<Fingerprint>(&json).ok().map(|f| f.to_u128()), Some(wide), "reading the JSON {json}");
        let value = serde_json::to_value(fp).unwrap();
        ensure_eq!(serde_json::from_value::<Fingerprint>(value).ok().map(|f| f.to_u128()), Some(wide), "reading the JSON value {json}");
        let bytes = rkyv::to_bytes::<_, 64>(&fp).map_err(|e| Fail::from(format!("archiving failed: {e}")))?;
        let archived = unsafe { rkyv::archived_root::<Fingerprint>(&bytes) };
        let back: Fingerprint = archived.deserialize(&mut rkyv::Infallible).unwrap();
        ensure_eq!(back.to_u128(), wide, "reading the archive");
        if let Some(other) = ids.insert(id.clone(), (lo, hi)) {
            ensure_eq!(other, (lo, hi), "another fingerprint with the id {id:?}");
        }
        nontrivial |= hi != 0;
    }
    Ok(nontrivial)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Text(String);

const ALPHABET: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

fn id_like() -> BoxedStrategy<String> {
    let ch = prop_oneof![12 => prop::sample::select(ALPHABET.chars().collect::<Vec<_>>()), 1 => prop::sample::select(vec!['=', '-', '_', ' ', 'é', '😀', '\n'])];
    let exact = |n: std::ops::RangeInclusive<usize>| prop::collection::vec(prop::sample::select(ALPHABET.chars().collect::<Vec<_>>()), n).prop_map(|v| v.into_iter().collect::<String>());
    prop_oneof![
        3 => prop::collection::vec(ch, 0..28).prop_map(|v| v.into_iter().collect::<String>()),
        3 => exact(0..=26),
        2 => exact(11..=11),
        2 => exact(22..=22),
        // Texts that decode: the last character of each part has its spare bits clear.
        4 => (half(), half(), 0usize..12).prop_map(|(lo, hi, n)| {
            let hi = hi.to_le_bytes();
            let mut bytes: Vec<u8> = hi.to_vec();
            bytes.extend([0, 1, 2, 0]);
            bytes.truncate(n);
            format!("{}{}", b64(&lo.to_le_bytes()), b64(&bytes))
        }),
        // A real id with one edit.
        4 => (half(), half(), any::<u16>(), 0u8..6, gen::odd_char()).prop_map(|(lo, hi, at, how, ch)| {
            let mut id: Vec<char> = Fingerprint::from_pair(lo, hi).as_svg_id("").chars().collect();
            let at = at as usize % id.len();
            match how {
                0 => { id.remove(at); }
                1 => id.insert(at, ch),
                2 => id[at] = ch,
                3 => id.push('A'),
                4 => id.extend(['A', 'A']),
                _ => id.truncate(at),
            }
            id.into_iter().collect()
        }),
        1 => gen::text(20),
        1 => Just(String::new()),
    ]
    .boxed()
}

fn b64(bytes: &[u8]) -> String {
    let mut out = String::new();
    for c in bytes.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            out.push(ALPHABET.as_bytes()[(v >> (18 - 6 * i) & 63) as usize] as char);
        }
    }
    out
}

fn judge_text(c: &Text) -> Verdict {
    evict();
    let s = &c.0;
    let r = no_panic(|| Fingerprint::try_from_str(s)).map_err(|p| format!("reading {s:?} panicked: {p}"))?;
    let ok = match r {
        Ok(fp) => {
            let id = fp.as_svg_id("");
            ensure!(id == *s, "{s:?} is accepted as the fingerprint {:#x}, whose id is {id:?}", fp.to_u128());
            true
        }
        Err(_) => false,
    };
    let j = no_panic(|| serde_json::from_value::<Fingerprint>(s.as_str().into())).map_err(|p| format!("reading {s:?} from JSON panicked: {p}"))?;
    ensure_eq!(j.is_ok(), ok, "whether {s:?} is accepted in JSON");
    Ok(s.len() >= 11)
}

fn main() {
    Check::main("C10", "a case is a few fingerprints converted to every form and back (non-trivial: one has a high half), or a text read as an id (non-trivial: it has at least 11 bytes)", |c| {
        c.prop("round trips", Opts::new(150_000), || bx(prop_oneof![
            3 => prop::collection::vec((half(), half()), 1..6),
            // Neighbours: the same halves swapped, shifted or truncated.
            1 => (half(), half()).prop_map(|(a, b)| vec![(a, b), (b, a), (a, b << 8), (a, b >> 8), (a << 8, b), (a, 0), (0, b), (a, a)]),
        ].prop_map(Fps)), judge);
        c.prop("texts", Opts::new(400_000), || bx(id_like().prop_map(Text)), judge_text);
        // Every short high half with every length, exhaustively for one byte.
        c.each("high halves with one byte set", (0..8u32).flat_map(|i| (1..=255u64).map(move |b| b << (8 * i))).collect::<Vec<_>>().chunks(64).map(|v| Fps(v.iter().map(|h| (7, *h)).collect())).collect::<Vec<_>>(), judge);
    });
}
