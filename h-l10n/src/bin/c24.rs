//! C24: updating a catalogue keeps translators' work and follows the sources.
use h_l10n::{key, lang, message, quote};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use tinymist_l10n::{deserialize, update_disk_translations, update_translations, TranslationMapSet};
use vcommon::scratch::Scratch;
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Hex, Opts, Verdict};

type Plain = BTreeMap<String, BTreeMap<String, String>>;

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Old {
    Missing,
    Catalogue(Plain, Vec<(u8, String)>),
    /// No catalogue at all.
    Broken(Hex),
    Directory,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    old: Old,
    /// One update after the other: what is found in the sources.
    updates: Vec<Vec<(String, String)>>,
    shuffle: u64,
}

fn write(p: &Plain, noise: &[(u8, String)]) -> String {
    let mut lines = vec!["# by hand".to_owned()];
    for (k, m) in p {
        lines.push(format!("[{k}]"));
        // In any order of locales.
        for (l, v) in m.iter().rev() {
            lines.push(format!("{l} = {v}"));
        }
    }
    for (at, n) in noise {
        let i = *at as usize * (lines.len() + 1) / 256;
        lines.insert(i, n.clone());
    }
    lines.join("\n")
}

fn plain(t: &TranslationMapSet) -> Plain {
    t.iter().map(|(k, v)| (k.clone(), v.iter().map(|(l, m)| (l.clone(), m.clone())).collect())).collect()
}

/// A catalogue as it is on disk: sections in order with their locales.
fn read(text: &str) -> Result<Plain, String> {
    let (mut out, mut key, mut last) = (Plain::new(), String::new(), None);
    for line in text.lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        if let Some(k) = line.strip_prefix('[') {
            key = k.strip_suffix(']').ok_or(format!("the line {line:?}"))?.to_owned();
            if last.as_ref().is_some_and(|l| *l >= key) {
                return Err(format!("the key {key:?} after {last:?}"));
            }
            last = Some(key.clone());
            out.entry(key.clone()).or_default();
            continue;
        }
        let (l, v) = line.split_once('=').ok_or(format!("the line {line:?}"))?;
        if out.get_mut(&key).ok_or("a message before any key")?.insert(l.trim().to_owned(), v.trim().to_owned()).is_some() {
            return Err(format!("{l} twice for {key:?}"));
        }
    }
    Ok(out)
}

fn shuffled<T: Clone>(v: &[T], mut seed: u64) -> Vec<T> {
    let mut v = v.to_vec();
    for i in (1..v.len()).rev() {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        v.swap(i, (seed >> 33) as usize % (i + 1));
    }
    v
}

/// Whether `new` is what an update of `old` with `found` is to give.
fn updated(old: &Plain, found: &[(String, String)], new: &Plain) -> Result<(), String> {
    let mut texts: BTreeMap<&String, BTreeSet<&String>> = BTreeMap::new();
    for (k, v) in found {
        texts.entry(k).or_default().insert(v);
    }
    for (k, m) in new {
        let Some(t) = texts.get(k) else { return Err(format!("{k:?} is kept although it is not used")) };
        match m.get("en") {
            Some(en) if t.contains(en) => {}
            en => return Err(format!("the English text of {k:?} is {en:?}, in the sources {t:?}")),
        }
        let others = |m: Option<&BTreeMap<String, String>>| -> BTreeMap<String, String> { m.into_iter().flatten().filter(|(l, _)| *l != "en").map(|(l, v)| (l.clone(), v.clone())).collect() };
        if others(Some(m)) != others(old.get(k)) {
            return Err(format!("the translations of {k:?} are {:?}, before {:?}", others(Some(m)), others(old.get(k))));
        }
    }
    match texts.keys().find(|k| !new.contains_key(**k)) {
        Some(k) => Err(format!("{k:?} is used, but missing")),
        None => Ok(()),
    }
}

fn judge(c: &Case) -> Verdict {
    let s = Scratch::new();
    let path = s.path().join("catalogue.toml");
    let other = s.path().join("other.toml");
    let mut old = Plain::new();
    let before: Option<Vec<u8>> = match &c.old {
        Old::Missing => None,
        Old::Catalogue(p, noise) => {
            old = p.clone();
            Some(write(p, noise).into_bytes())
        }
        Old::Broken(b) => Some(b.0.clone()),
        Old::Directory => {
            std::fs::create_dir(&path).unwrap();
            let r = no_panic(|| update_disk_translations(c.updates.concat(), &path))?;
            ensure!(r.is_err() && path.is_dir(), "a directory is updated");
            return Ok(false);
        }
    };
    for p in [&path, &other] {
        if let Some(b) = &before {
            std::fs::write(p, b).unwrap();
        }
    }
    if let Old::Broken(b) = &c.old {
        let text = String::from_utf8(b.0.clone());
        if text.is_err() || text.is_ok_and(|t| deserialize(&t, true).is_err()) {
            let r = no_panic(|| update_disk_translations(c.updates.concat(), &path))?;
            ensure!(r.is_err(), "an unreadable catalogue is replaced");
            ensure_eq!(std::fs::read(&path).unwrap(), b.0, "the unreadable catalogue");
            return Ok(false);
        }
        // It can be read after all.
        old = plain(&deserialize(std::str::from_utf8(&b.0).unwrap(), true).unwrap());
    }
    let (mut kept, mut dropped) = (0, 0);
    for (i, found) in c.updates.iter().enumerate() {
        let what = format!("update {i} with {found:?}");
        // In memory.
        let mut map: TranslationMapSet = old.iter().map(|(k, m)| (k.clone(), m.iter().map(|(l, v)| (l.clone(), v.clone())).collect())).collect();
        no_panic(|| update_translations(found.clone(), &mut map))?;
        updated(&old, found, &plain(&map)).map_err(|e| format!("{what} in memory: {e}"))?;
        // On disk, also with the messages found in another order.
        no_panic(|| update_disk_translations(found.clone(), &path))?.map_err(|e| format!("{what} fails: {e:#}"))?;
        no_panic(|| update_disk_translations(shuffled(found, c.shuffle.wrapping_add(i as u64)), &other))?.map_err(|e| format!("{what} in another order fails: {e:#}"))?;
        let text = std::fs::read_to_string(&path).unwrap();
        ensure_eq!(std::fs::read_to_string(&other).unwrap(), text, "{what}: with the messages in another order");
        let new = read(&text).map_err(|e| format!("{what} writes {e}"))?;
        updated(&old, found, &new).map_err(|e| format!("{what}: {e}"))?;
        // Again: nothing changes.
        no_panic(|| update_disk_translations(found.clone(), &path))?.map_err(|e| format!("{what} again fails: {e:#}"))?;
        ensure_eq!(std::fs::read_to_string(&path).unwrap(), text, "{what} again");
        kept += new.values().filter(|m| m.len() > 1).count();
        dropped += old.keys().filter(|k| !new.contains_key(*k)).count();
        old = new;
    }
    let names: Vec<_> = std::fs::read_dir(s.path()).unwrap().map(|e| e.unwrap().file_name()).collect();
    ensure!(names.len() <= 2, "the directory now holds {names:?}");
    Ok(kept > 0 && dropped > 0)
}

fn case() -> BoxedStrategy<Case> {
    let raw = || (message(), 0u8..4).prop_map(|(m, how)| quote(&m, how));
    // As keys are taken from the sources.
    let k = || prop_oneof![6 => prop::sample::select(vec!["a", "A", "a.b", "A.b", "a.b.c", "b", "c.d-e", "c.d_e", "tinymist.x", "tinymist.X", "x", "z"]).prop_map(str::to_owned), 1 => key()];
    let messages = prop::collection::btree_map(prop_oneof![4 => lang(), 1 => Just("en".to_owned())], raw(), 1..4);
    let cat = prop::collection::btree_map(k(), messages, 0..6);
    let noise = prop::collection::vec((any::<u8>(), prop::sample::select(vec!["", "# note", "   ", "#x = \"y\""]).prop_map(str::to_owned)), 0..4);
    let old = prop_oneof![
        1 => Just(Old::Missing),
        10 => (cat, noise).prop_map(|(c, n)| Old::Catalogue(c, n)),
        1 => prop::sample::select(vec![&b"[a]\nen"[..], b"\xff", b"<<<<<<< ours\n[a]\nen = \"x\"\n", b"[a\nen = \"b\"", b"[", b"[a]\nen = \"x\"\n\nword\n"]).prop_map(|b| Old::Broken(Hex(b.to_vec()))),
        1 => Just(Old::Directory),
    ];
    let found = prop::collection::vec((k(), raw()), 0..8).prop_flat_map(|v| (Just(v.clone()), prop::collection::vec(any::<prop::sample::Index>(), 0..3)).prop_map(|(mut v, again)| {
        // Many messages are found more than once.
        if !v.is_empty() {
            for i in again {
                let e = v[i.index(v.len())].clone();
                v.push(e);
            }
        }
        v
    }));
    (old, prop::collection::vec(found, 1..4), any::<u64>()).prop_map(|(old, updates, shuffle)| Case { old, updates, shuffle }).boxed()
}

fn main() {
    Check::main("C24", "a case is a catalogue on disk and updates of it with messages found in sources, in two orders (non-trivial: some translation was kept and some entry dropped)", |c| {
        c.assume("which of several texts found for one key is taken is open, as long as it does not depend on their order");
        c.prop("updates", Opts::new(40_000).shards(8).shrink(1000), || bx(case()), judge);
        c.prop(
            "large",
            Opts::new(40).shards(8).shrink(60),
            || {
                // From next to none to nearly all of the messages are still used.
                let share = || prop_oneof![1 => 0u32..8, 2 => 8u32..100];
                bx((100u32..2500, 1u32..9, share(), share(), any::<u64>()).prop_map(|(n, every, a, b, shuffle)| {
                    let key = |i: u32| format!("k{}.m{i}", i % 7);
                    let old = (0..n).filter(|i| i % every != 1).map(|i| (key(i), [("en".to_owned(), format!("\"message {i}\"")), ("fr".to_owned(), format!("\"le message {i}\""))].into_iter().collect())).collect();
                    let found = |share: u32| (0..n + 9).filter(|i| i * 37 % 101 <= share).map(|i| (key(i), format!("\"message {i}\""))).collect();
                    Case { old: Old::Catalogue(old, vec![]), updates: vec![found(a), found(b)], shuffle }
                }))
            },
            judge,
        );
    });
}
