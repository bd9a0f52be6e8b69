//! C23: translation catalogues survive being written and read.
use h_l10n::{key, lang, message, quote};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use tinymist_l10n::{deserialize, load_translations, serialize_translations, TranslationMapSet};
use vcommon::{bx, ensure, ensure_eq, gen, no_panic, Check, Fail, Opts, Verdict};

/// Messages by key and locale.
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    messages: BTreeMap<String, BTreeMap<String, (String, u8)>>,
    order: u64,
    noise: Vec<(u8, String)>,
}

type Plain = BTreeMap<String, BTreeMap<String, String>>;

fn plain(t: TranslationMapSet) -> Plain {
    t.into_iter().map(|(k, v)| (k, v.into_iter().collect())).collect()
}

fn transpose(p: &Plain) -> Plain {
    let mut out = Plain::new();
    for (a, m) in p {
        for (b, v) in m {
            out.entry(b.clone()).or_default().insert(a.clone(), v.clone());
        }
    }
    out
}

fn shuffled<T: Clone>(v: &[T], mut seed: u64) -> Vec<T> {
    let mut v = v.to_vec();
    for i in (1..v.len()).rev() {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.swap(i, (seed >> 33) as usize % (i + 1));
    }
    v
}

fn map(p: &Plain, order: u64) -> TranslationMapSet {
    let all: Vec<_> = p.iter().collect();
    shuffled(&all, order).into_iter().map(|(k, m)| (k.clone(), shuffled(&m.iter().collect::<Vec<_>>(), order + 1).into_iter().map(|(l, v)| (l.clone(), v.clone())).collect())).collect()
}

fn judge(c: &Case) -> Verdict {
    let raw: Plain = c.messages.iter().map(|(k, m)| (k.clone(), m.iter().map(|(l, (t, how))| (l.clone(), quote(t, *how))).collect())).collect();
    let text = no_panic(|| serialize_translations(map(&raw, c.order)))?;
    let again = no_panic(|| serialize_translations(map(&raw, c.order.rotate_left(17) ^ 5)))?;
    ensure_eq!(again, text, "writing the same catalogue twice");
    // Sorted, each key once.
    let heads: Vec<&str> = text.lines().filter(|l| l.starts_with('[')).map(|l| &l[1..l.len() - 1]).collect();
    ensure_eq!(heads, raw.keys().map(|k| k.as_str()).collect::<Vec<_>>(), "the order of the keys in {text:?}");
    let read = |t: &str, first: bool| -> Result<Plain, Fail> { Ok(plain(no_panic(|| deserialize(t, first))?.map_err(|e| Fail::from(format!("reading {t:?}: {e:#}")))?)) };
    let load = |t: &str| -> Result<Plain, Fail> { Ok(plain(no_panic(|| load_translations(t))?.map_err(|e| Fail::from(format!("loading {t:?}: {e:#}")))?)) };
    ensure_eq!(read(&text, true)?, raw, "what was written as {text:?}, by key");
    ensure_eq!(read(&text, false)?, transpose(&raw), "what was written as {text:?}, by locale");
    let messages: Plain = c.messages.iter().map(|(k, m)| (k.clone(), m.iter().map(|(l, (t, _))| (l.clone(), t.clone())).collect())).collect();
    ensure_eq!(load(&text)?, transpose(&messages), "the messages written as {text:?}");
    // With comments, blank lines and spaces put in.
    let mut lines: Vec<String> = text.split('\n').map(|l| l.to_owned()).collect();
    for (at, what) in &c.noise {
        let i = *at as usize * lines.len() / 256;
        match what.as_str() {
            "indent" => lines[i] = format!("  {}\t", lines[i]),
            w => lines.insert(i, w.to_owned()),
        }
    }
    let noisy = lines.join("\n");
    ensure_eq!(read(&noisy, true)?, raw, "with comments and blank lines: {noisy:?}");
    ensure_eq!(load(&noisy)?, transpose(&messages), "with comments and blank lines: {noisy:?}");
    ensure_eq!(no_panic(|| serialize_translations(deserialize(&noisy, true).unwrap()))?, text, "reading and writing again");
    Ok(messages.values().map(|m| m.len()).sum::<usize>() > 2)
}

fn case() -> BoxedStrategy<Case> {
    let noise = prop_oneof![
        prop::sample::select(vec!["", " ", "\t ", "# comment", "  # en = \"x\"", "#[section]", "#", "\r", "indent", "# \""]).prop_map(str::to_owned),
    ];
    let one = prop::collection::btree_map(lang(), (message(), 0u8..4), 0..4);
    (prop::collection::btree_map(key(), (one, message(), 0u8..4), 0..6), any::<u64>(), prop::collection::vec((any::<u8>(), noise), 0..6))
        .prop_map(|(m, order, noise)| {
            let messages = m
                .into_iter()
                .map(|(k, (mut one, en, how))| {
                    one.insert("en".into(), (en, how));
                    (k, one)
                })
                .collect();
            Case { messages, order, noise }
        })
        .boxed()
}

/// What the format says a text holds; nothing if the text is no catalogue,
/// or if that is not clear.
fn reading(text: &str) -> Option<Plain> {
    let (mut out, mut key) = (Plain::new(), String::new());
    for line in text.split('\n') {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        if let Some(rest) = line.strip_prefix('[') {
            let k = rest.strip_suffix(']')?;
            if k.trim() != k {
                return None;
            }
            key = k.to_owned();
            continue;
        }
        let (lang, value) = line.split_once('=')?;
        out.entry(key.clone()).or_default().insert(lang.trim().to_owned(), value.trim().to_owned());
    }
    Some(out)
}

fn judge_text(text: &String) -> Verdict {
    let by_key = no_panic(|| deserialize(text, true))?;
    let by_lang = no_panic(|| deserialize(text, false))?;
    let loaded = no_panic(|| load_translations(text))?;
    ensure!(by_key.is_ok() == by_lang.is_ok(), "read by key: {}, by locale: {}", by_key.is_ok(), by_lang.is_ok());
    if let (Ok(a), Ok(b)) = (by_key, by_lang) {
        let (a, b) = (plain(a), plain(b));
        ensure_eq!(transpose(&a), b, "by key and by locale");
        let model = reading(text);
        if let Some(m) = &model {
            ensure_eq!(&a, m, "the catalogue");
        }
        if let Ok(l) = loaded {
            let mut want = b.clone();
            let mut clear = true;
            for m in want.values_mut() {
                for v in m.values_mut() {
                    if v.starts_with('"') {
                        match serde_json::from_str(v) {
                            Ok(t) => *v = t,
                            Err(_) => clear = false,
                        }
                    }
                }
            }
            ensure!(clear, "a message that is not properly quoted is accepted");
            ensure_eq!(plain(l), want, "the loaded messages");
        }
        return Ok(model.is_some_and(|m| !m.is_empty()));
    }
    ensure!(loaded.is_err(), "an unreadable text is loaded");
    ensure!(reading(text).is_none(), "a well-formed catalogue is rejected");
    Ok(text.len() > 3)
}

fn hostile() -> BoxedStrategy<String> {
    let line = prop_oneof![
        3 => key().prop_map(|k| format!("[{k}]")),
        5 => (lang(), message(), 0u8..4).prop_map(|(l, m, how)| format!("{l} = {}", quote(&m, how))),
        1 => (lang(), message()).prop_map(|(l, m)| format!("{l} = {m}")),
        1 => (lang(), message()).prop_map(|(l, m)| format!("{l} = \"{m}\"")),
        2 => prop::sample::select(vec!["[", "]", "[]", "[é", "[[", "[a", "[a] # c", "=", "= x", "x =", "x", "\"", "en = \"", "en = \"\\\"", "en = \"\\u12\"", "en = \"\\ud800\"", "en = \"a\" # b", "#", "[ a ]", "\u{feff}[a]", "en = 'x'", "\u{0}", "[👩‍💻", "\u{3000}[a]\u{3000}", "en=\"a\"=\"b\""]).prop_map(str::to_owned),
        1 => gen::text(8),
    ];
    (prop::collection::vec(line, 0..10), prop::sample::select(vec!["\n", "\n", "\r\n", "\n\n", "\r"])).prop_map(|(l, sep)| l.join(sep)).boxed()
}

fn main() {
    Check::main("C23", "a case is a catalogue, written and read back (non-trivial: over two messages), or a text for the reader (non-trivial: it holds a message, or is longer than three bytes and rejected)", |c| {
        c.assume("keys and locales are without line breaks and outer blanks, and every message has an English text, as the extraction writes them");
        c.prop("round trip", Opts::new(30_000).shards(8).shrink(2000), || bx(case()), judge);
        c.prop("any text", Opts::new(60_000).shards(8).shrink(2000), || bx(hostile()), judge_text);
    });
}
