//! C22: the locale selects the best available catalogue.
use h_l10n::{apart, helper, keep, key, lang, message, quote};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Barrier;
use tinymist_l10n::{load_translations, set_locale, set_translations, t_with_args, t_without_args, Arg};
use vcommon::{bx, ensure, ensure_eq, Check, Fail, Opts, Verdict};

/// Messages by locale and key, with how each is written: 0 plain where that
/// is possible, otherwise quoted with more or fewer escapes.
type Catalogue = BTreeMap<String, BTreeMap<String, (String, u8)>>;

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    catalogue: Catalogue,
    /// Comments and blank lines between the entries, by a hash of the place.
    noise: u8,
    locales: Vec<String>,
    threads: u8,
}

#[derive(Serialize, Deserialize)]
struct Ask {
    text: String,
    locales: Vec<String>,
    keys: Vec<String>,
    threads: u8,
}

/// Per locale set: whether it was accepted, and what each thread looks up; and
/// whatever is looked up while they are set again and again.
type Answer = Result<(Vec<(bool, Vec<Vec<String>>)>, Vec<BTreeSet<String>>), String>;

const DEFAULT: &str = "the default {x}";

fn run(a: Ask) -> Answer {
    let all = match load_translations(&a.text) {
        Ok(t) => t,
        Err(e) => return Err(format!("{e:#}")),
    };
    let keys: Vec<&'static str> = a.keys.iter().map(|k| keep(k)).collect();
    let look_at = |in_a_race: bool| -> Vec<String> {
        keys.iter()
            .map(|k| {
                let plain = t_without_args(k, DEFAULT).into_owned();
                if in_a_race {
                    return plain;
                }
                let filled = t_with_args(k, DEFAULT, &[("no such placeholder", Arg::Int(1))]).into_owned();
                if plain == filled {
                    plain
                } else {
                    format!("{plain:?} but {filled:?} with arguments")
                }
            })
            .collect()
    };
    let look = || look_at(false);
    let mut out = vec![(true, vec![look()])];
    set_translations(all);
    // The translations are set once.
    set_translations(Default::default());
    for l in &a.locales {
        let n = a.threads as usize % 4 + 1;
        let gate = Barrier::new(n);
        let ok = set_locale(l).is_some();
        let seen = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|_| {
                    s.spawn(|| {
                        gate.wait();
                        look()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("a lookup panics")).collect()
        });
        out.push((ok, seen));
    }
    let mut raced = vec![BTreeSet::new(); keys.len()];
    if a.threads >= 128 {
        let stop = AtomicBool::new(false);
        let gate = Barrier::new(3);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..2)
                .map(|_| {
                    s.spawn(|| {
                        let mut seen = vec![BTreeSet::new(); keys.len()];
                        gate.wait();
                        while !stop.load(Ordering::Relaxed) {
                            for (to, m) in seen.iter_mut().zip(look_at(true)) {
                                to.insert(m);
                            }
                        }
                        seen
                    })
                })
                .collect();
            gate.wait();
            let t = std::time::Instant::now();
            while t.elapsed() < std::time::Duration::from_micros(1500) {
                for l in &a.locales {
                    let _ = set_locale(l);
                }
            }
            stop.store(true, Ordering::Relaxed);
            for h in hs {
                for (to, m) in raced.iter_mut().zip(h.join().expect("a lookup panics")) {
                    to.extend(m);
                }
            }
        });
    }
    Ok((out, raced))
}

/// The catalogue as a file.
fn file(c: &Case) -> String {
    let mut by_key: BTreeMap<&String, Vec<(&String, &(String, u8))>> = BTreeMap::new();
    for (l, ms) in &c.catalogue {
        for (k, m) in ms {
            by_key.entry(k).or_default().push((l, m));
        }
    }
    let mut t = String::new();
    let noise = |t: &mut String| match (t.len() as u32 * 7 + c.noise as u32) % (c.noise as u32 % 5 + 2) {
        0 => *t += "\n",
        1 => *t += "# a comment = \"x\"\n  \n",
        _ => {}
    };
    for (k, ms) in by_key {
        noise(&mut t);
        t += &format!("[{k}]\n");
        for (l, (m, how)) in ms {
            noise(&mut t);
            let sep = ["=", " = ", "  =\t"][(*how as usize + k.len()) % 3];
            t += &format!("{l}{sep}{}{}\n", quote(m, *how), if c.noise % 3 == 2 { "  \r" } else { "" });
        }
    }
    t
}

/// The catalogue for a locale: its own, or that of its closest parent.
fn choose<'a>(all: &'a Catalogue, locale: &str) -> Option<&'a String> {
    let mut tag = locale.to_lowercase();
    loop {
        if let Some(l) = all.keys().find(|l| l.to_lowercase() == tag) {
            return Some(l);
        }
        tag.truncate(tag.rfind('-')?);
    }
}

fn judge(c: &Case) -> Verdict {
    let mut keys: Vec<String> = c.catalogue.values().flat_map(|m| m.keys().cloned()).collect();
    keys.sort();
    keys.dedup();
    keys.push("no.such.key".into());
    let text = file(c);
    let got: Answer = apart(&Ask { text: text.clone(), locales: c.locales.clone(), keys: keys.clone(), threads: c.threads })?;
    let (got, raced) = got.map_err(|e| Fail::from(format!("the catalogue {text:?} is rejected: {e}")))?;
    let defaults = vec![DEFAULT.to_owned(); keys.len()];
    ensure_eq!(got[0].1[0], defaults, "lookups before any translations");
    let mut before = defaults.clone();
    let mut chosen = 0;
    for (l, (ok, seen)) in c.locales.iter().zip(&got[1..]) {
        let pick = choose(&c.catalogue, l);
        ensure_eq!(*ok, pick.is_some(), "whether {l:?} is accepted with {:?}", c.catalogue.keys());
        match pick {
            Some(p) => {
                chosen += (p != l) as u32;
                let m = &c.catalogue[p];
                let want: Vec<String> = keys.iter().map(|k| m.get(k).map_or(DEFAULT.to_owned(), |m| m.0.clone())).collect();
                for s in seen {
                    ensure_eq!(s, &want, "with the locale {l:?} of {:?}: the messages of {keys:?}", c.catalogue.keys());
                }
                before = want;
            }
            None => {
                for s in seen {
                    ensure!(*s == before || *s == defaults, "with the unknown locale {l:?}, the messages of {keys:?} are {s:?}");
                    ensure_eq!(s, &seen[0], "what threads see");
                }
                before = seen[0].clone();
            }
        }
    }
    // While it is set, it is the old or the new one.
    let last = got.last().into_iter().flat_map(|(_, seen)| seen.first());
    let old: Vec<&Vec<String>> = got[1..].iter().filter(|g| g.0).flat_map(|g| &g.1).chain(last).collect();
    for (i, seen) in raced.iter().enumerate() {
        for m in seen {
            ensure!(old.iter().any(|o| o[i] == *m), "{m:?} for {:?} while {:?} are set, which have {:?}", keys[i], c.locales, old.iter().map(|o| &o[i]).collect::<Vec<_>>());
        }
    }
    Ok(chosen > 0)
}

fn locale() -> BoxedStrategy<String> {
    let tail = prop::sample::select(vec!["", "", "-CN", "-hant-HK", "-x-y", "CN", "-", "_CN", "é", "-é", ".UTF-8", "-CN.UTF-8", "@euro"]);
    prop_oneof![
        8 => (lang(), tail, 0u8..4).prop_map(|(l, t, case)| {
            let s = format!("{l}{t}");
            match case {
                0 => s.to_uppercase(),
                1 => s.to_lowercase(),
                _ => s,
            }
        }),
        1 => prop::sample::select(vec!["", "-", "z", "en", "EN-us", "zh-", "-zh", "日本-JP", "日本", "日本x-y"]).prop_map(str::to_owned),
        1 => vcommon::gen::text(5),
    ]
    .boxed()
}

fn case() -> BoxedStrategy<Case> {
    let langs = prop_oneof![10 => lang(), 1 => Just("日本".to_owned()), 1 => Just("en".to_owned())];
    let cat = prop::collection::btree_map(langs, prop::collection::btree_map(key(), (message(), 0u8..4), 1..4), 0..6);
    (cat, any::<u8>(), prop::collection::vec(locale(), 1..5), any::<u8>())
        .prop_map(|(mut catalogue, noise, locales, threads)| {
            let mut seen = std::collections::HashSet::new();
            catalogue.retain(|l, _| seen.insert(l.to_lowercase()));
            Case { catalogue, noise, locales, threads }
        })
        .boxed()
}

/// Catalogues of very different sizes.
fn bulky() -> BoxedStrategy<Case> {
    let size = prop_oneof![3 => 0u16..3, 2 => 3u16..40, 2 => 40u16..400, 1 => 400u16..1500];
    (case(), prop::collection::vec((lang(), 0u8..3, size, 0u16..3), 1..5))
        .prop_map(|(mut c, more)| {
            for (l, tail, n, from) in more {
                // A language and what is more specific, so that one locale may take several.
                let l = format!("{l}{}", ["", "-a", "-a-b"][tail as usize]);
                let taken = c.catalogue.keys().find(|k| k.to_lowercase() == l.to_lowercase()).cloned();
                let to = c.catalogue.entry(taken.unwrap_or(l.clone())).or_default();
                for i in from..from + n {
                    to.insert(format!("bulk.{i}"), (format!("{i} in {l}"), 0));
                }
                c.locales.push(format!("{l}-a-b-c"));
            }
            c.catalogue.retain(|_, m| !m.is_empty());
            c
        })
        .boxed()
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--helper") {
        helper(run);
    }
    Check::main("C22", "a case is a catalogue file, locales set one after another in one process and lookups of every key from several threads, in half of the cases also while the locales are being set (non-trivial: some locale is served by a catalogue of another name)", |c| {
        c.assume("locale names that differ only by case are not in one catalogue; what an unknown locale leaves in force is the defaults or what was there");
        c.prop("locales", Opts::new(10_000).shards(8).shrink(600).confirm(5), || bx(case()), judge);
        c.prop("large", Opts::new(600).shards(8).shrink(400).confirm(5), || bx(bulky()), judge);
    });
}
