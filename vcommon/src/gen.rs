//! Generators shared by several checks.
use proptest::prelude::*;
use serde_json::{Map, Number, Value};
use std::sync::OnceLock;

/// The words and numbers the code under test mentions, as a fuzzer's
/// dictionary: string and integer literals of the crate a check is about.
pub struct Dict {
    pub words: Vec<String>,
    pub numbers: Vec<i64>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub(crate) fn load_dict(id: &str) {
    let crates: &[&str] = match id[1..].parse::<u32>() {
        Ok(1..=9) => &["sync-lsp"],
        Ok(10..=20) => &["tinymist-std"],
        Ok(21..=25) => &["tinymist-l10n"],
        Ok(29 | 31 | 39) => &["tinymist-query"],
        Ok(27 | 28) => &["tinymist-vfs"],
        Ok(46 | 49 | 50) => &["typst-preview"],
        Ok(33 | 34 | 41 | 42 | 51 | 56) => &["tinymist-task", "tinymist-project"],
        Ok(32 | 36 | 40 | 43..=45 | 47 | 48 | 59) => &["tinymist"],
        Ok(35 | 58) => &["tinymist-package"],
        _ => &[],
    };
    let _ = DICT.set(read_dict(crates));
}

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| read_dict(&[]))
}

fn read_dict(crates: &[&str]) -> Dict {
    let mut files = vec![];
    let mut dirs: Vec<std::path::PathBuf> = crates.iter().map(|c| format!("/repo/crates/{c}/src").into()).collect();
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                dirs.push(p);
            } else if p.extension().is_some_and(|x| x == "rs") {
                files.push(p);
            }
        }
    }
    files.sort();
    let (mut words, mut numbers) = (vec!["a".to_owned()], vec![0]);
    for f in files {
        for line in std::fs::read_to_string(f).unwrap_or_default().lines() {
            for w in line.split('"').skip(1).step_by(2) {
                if (1..=24).contains(&w.len()) && !w.contains('\\') {
                    words.push(w.to_owned());
                }
            }
            for n in line.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
                let n = n.replace('_', "");
                let n = match n.strip_prefix("0x") {
                    Some(h) => i64::from_str_radix(h, 16).ok(),
                    None => n.trim_end_matches(|c: char| !c.is_ascii_digit()).parse().ok().filter(|_| n.starts_with(|c: char| c.is_ascii_digit())),
                };
                numbers.extend(n);
            }
        }
    }
    words.sort();
    words.dedup();
    numbers.sort();
    numbers.dedup();
    Dict { words, numbers }
}

/// A word of the dictionary.
pub fn word() -> BoxedStrategy<String> {
    prop::sample::select(dict().words.clone()).boxed()
}

/// A number of the dictionary, or one beside it.
pub fn near_number() -> BoxedStrategy<i64> {
    (prop::sample::select(dict().numbers.clone()), prop_oneof![4 => Just(0i64), 1 => -1i64..=1]).prop_map(|(n, d)| n.saturating_add(d)).boxed()
}

/// Additional members of an object: short values under words of the code.
pub fn members(max: usize) -> BoxedStrategy<Vec<(String, Value)>> {
    let leaf = prop_oneof![2 => any::<bool>().prop_map(Value::Bool), 1 => number(), 1 => Just(Value::Null), 1 => word().prop_map(Value::String), 1 => json(2, 4)];
    prop::collection::vec((prop_oneof![3 => word(), 1 => key()], leaf), 0..=max).boxed()
}

/// Text weighted towards what breaks parsers: quotes, escapes, line ends,
/// multi-byte and astral characters, braces.
pub fn text(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-z]{0,6}".prop_map(|s| s),
        4 => prop::collection::vec(odd_char(), 0..=max).prop_map(|v| v.into_iter().collect::<String>()),
        1 => prop::collection::vec(any::<char>(), 0..=max).prop_map(|v| v.into_iter().collect::<String>()),
        1 => word(),
    ]
    .boxed()
}

pub fn odd_char() -> BoxedStrategy<char> {
    prop_oneof![
        8 => prop::char::range('a', 'f'),
        2 => prop::sample::select(vec![' ', '\t', '\r', '\n', '\0', '\u{7f}', '\u{1b}']),
        3 => prop::sample::select(vec!['"', '\\', '\'', '{', '}', '[', ']', '(', ')', ':', ';', ',', '=', '#', '/', '.', '-', '_', '%']),
        2 => prop::sample::select(vec!['é', 'ß', '中', '\u{2028}', '\u{200d}', '\u{feff}', 'İ', 'ı', 'ﬀ']),
        1 => prop::sample::select(vec!['😀', '𝕏', '\u{10ffff}']),
    ]
    .boxed()
}

/// Any JSON value; numbers are integers or dyadic fractions, so that printing
/// and parsing them is exact.
pub fn json(depth: u32, size: u32) -> BoxedStrategy<Value> {
    let leaf = prop_oneof![
        1 => Just(Value::Null),
        1 => any::<bool>().prop_map(Value::Bool),
        2 => number(),
        4 => text(6).prop_map(Value::String),
    ];
    leaf.prop_recursive(depth, size, 4, |inner| {
        prop_oneof![
            prop::collection::vec(inner.clone(), 0..4).prop_map(Value::Array),
            prop::collection::vec((key(), inner), 0..4).prop_map(|kv| Value::Object(kv.into_iter().collect::<Map<_, _>>())),
        ]
    })
    .boxed()
}

pub fn key() -> BoxedStrategy<String> {
    prop_oneof![
        3 => prop::sample::select(vec!["id", "method", "params", "result", "error", "jsonrpc", "type", "seq", "code", "message", "data", "command", "event", "body", "success", "request_seq", "arguments"]).prop_map(str::to_owned),
        3 => "[a-z]{1,3}",
        1 => text(4),
        2 => word(),
    ]
    .boxed()
}

pub fn number() -> BoxedStrategy<Value> {
    prop_oneof![
        3 => (-3i64..100).prop_map(|n| Value::Number(n.into())),
        1 => any::<i64>().prop_map(|n| Value::Number(n.into())),
        1 => any::<u64>().prop_map(|n| Value::Number(n.into())),
        1 => near_number().prop_map(|n| Value::Number(n.into())),
        1 => (any::<i16>(), 1u32..6).prop_map(|(a, k)| Value::Number(Number::from_f64(a as f64 / (1u64 << k) as f64 + 0.5f64.powi(k as i32 + 1)).unwrap())),
        1 => prop::sample::select(vec![i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 + 1, i32::MIN as i64 - 1, i64::MAX, i64::MIN, 0]).prop_map(|n| Value::Number(n.into())),
    ]
    .boxed()
}
