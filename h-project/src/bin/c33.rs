//! C33: page selections and resource paths parse back to what they print.
use clap::Parser;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::num::NonZeroUsize;
use std::path::{Path, PathBuf};
use std::str::FromStr;
use tinymist_project::{Id, Pages, ResourcePath, TaskCompileArgs};
use typst::syntax::package::{PackageSpec, PackageVersion};
use typst::syntax::{FileId, VirtualPath};
use vcommon::{bx, ensure, ensure_eq, gen, no_panic, Check, Fail, Opts, Verdict};

fn clean(p: &str) -> String {
    let abs = p.starts_with('/');
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => match out.last() {
                Some(&"..") => out.push(".."),
                Some(_) => {
                    out.pop();
                }
                None if abs => {}
                None => out.push(".."),
            },
            c => out.push(c),
        }
    }
    match (abs, out.is_empty()) {
        (true, _) => format!("/{}", out.join("/")),
        (false, true) => ".".into(),
        (false, false) => out.join("/"),
    }
}

// ---- Pages -----------------------------------------------------------------

type Range = (Option<usize>, Option<usize>);

fn of(r: Range) -> Pages {
    let n = |v: Option<usize>| v.and_then(NonZeroUsize::new);
    Pages(n(r.0)..=n(r.1))
}

fn ranges(rs: &Vec<Range>) -> Verdict {
    for r in rs {
        let p = of(*r);
        let text = p.to_string();
        let back = Pages::from_str(&text).map_err(|e| Fail::from(format!("{p:?} prints {text:?}, which is rejected: {e}")))?;
        ensure_eq!(back, p, "{text:?} read back");
        // White space around the numbers is of no matter.
        let loose = format!(" {} ", text.replace('-', " - "));
        ensure_eq!(Pages::from_str(&loose), Ok(p.clone()), "{loose:?}");
        if let (Some(a), Some(b)) = r {
            if a == b {
                ensure_eq!(Pages::from_str(&a.to_string()), Ok(p.clone()), "a single page");
            }
        }
        let json = serde_json::to_value(&p).map_err(|e| Fail::from(e.to_string()))?;
        ensure_eq!(json, serde_json::Value::from(text.clone()), "as a JSON value");
        let back: Pages = serde_json::from_value(json).map_err(|e| Fail::from(format!("{text:?} as JSON is rejected: {e}")))?;
        ensure_eq!(back, p, "{text:?} read back from JSON");
    }
    // The command line takes them all at once.
    let list = rs.iter().map(|r| of(*r).to_string()).collect::<Vec<_>>().join(",");
    let args = TaskCompileArgs::try_parse_from(["tinymist".to_owned(), "main.typ".to_owned(), format!("--pages={list}")])
        .map_err(|e| Fail::from(format!("--pages={list} is rejected: {e}")))?;
    ensure_eq!(args.pages, Some(rs.iter().map(|r| of(*r)).collect()), "--pages={list}");
    Ok(rs.len() > 1)
}

/// What a text selects, by the documentation: `4`, `1-3`, `5-`, `-2`.
fn parse(s: &str) -> Option<Range> {
    let num = |t: &str| -> Option<usize> {
        let ok = !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
        if ok { t.parse().ok().filter(|n| *n > 0) } else { None }
    };
    let parts: Vec<&str> = s.split('-').map(str::trim).collect();
    match parts[..] {
        [one] => num(one).map(|n| (Some(n), Some(n))),
        ["", ""] => None,
        [a, ""] => num(a).map(|a| (Some(a), None)),
        ["", b] => num(b).map(|b| (None, Some(b))),
        [a, b] => match (num(a)?, num(b)?) {
            (a, b) if a <= b => Some((Some(a), Some(b))),
            _ => None,
        },
        _ => None,
    }
}

fn texts(s: &String) -> Verdict {
    let got = no_panic(|| Pages::from_str(s)).map_err(|m| Fail::from(format!("{s:?} panics: {m}")))?;
    // A leading plus sign may or may not be a number.
    if s.contains('+') {
        return Ok(false);
    }
    match (got, parse(s)) {
        (Ok(p), Some(r)) => {
            ensure_eq!(p, of(r), "{s:?}");
            Ok(true)
        }
        (Err(e), None) => {
            ensure!(!e.is_empty(), "{s:?} is rejected without a word");
            Ok(s.contains('-'))
        }
        (got, want) => Err(format!("{s:?} reads as {got:?}, expected {want:?}").into()),
    }
}

// ---- Resource paths ----------------------------------------------------------

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Res {
    User(String),
    File(Option<(String, String)>, String),
    Text(String, String),
}

fn back(r: &ResourcePath) -> Result<(), Fail> {
    let text = r.to_string();
    let again = ResourcePath::from_str(&text).map_err(|e| Fail::from(format!("{r:?} prints {text:?}, which is rejected: {e}")))?;
    ensure_eq!(again, *r, "{text:?} read back");
    let json = serde_json::to_value(r).map_err(|e| Fail::from(e.to_string()))?;
    ensure_eq!(json, serde_json::Value::from(text.clone()), "as a JSON value");
    let again: ResourcePath = serde_json::from_value(json).map_err(|e| Fail::from(format!("{text:?} as JSON is rejected: {e}")))?;
    ensure_eq!(again, *r, "{text:?} read back from JSON");
    ensure_eq!(Id::from(r).to_string(), text, "the id made of the path");
    Ok(())
}

fn at(p: Option<PathBuf>) -> Result<String, Fail> {
    let p = p.ok_or("a file that is nowhere")?;
    Ok(p.to_str().ok_or("not text")?.to_owned())
}

fn resources(c: &(Res, String, String)) -> Verdict {
    let (res, base, base2) = c;
    let cwd = std::env::current_dir().unwrap().to_str().unwrap().to_owned();
    match res {
        Res::User(p) => {
            let r = no_panic(|| ResourcePath::from_user_sys(Path::new(p))).map_err(|m| Fail::from(format!("{p:?} panics: {m}")))?;
            back(&r)?;
            for r in [r.clone(), ResourcePath::from_str(&r.to_string()).unwrap()] {
                if p.starts_with('/') {
                    ensure_eq!(clean(&at(r.to_abs_path(Path::new(&cwd)))?), clean(p), "{p:?} below the current directory");
                } else {
                    for base in [base, base2] {
                        ensure_eq!(clean(&at(r.to_abs_path(Path::new(base)))?), clean(&format!("{base}/{p}")), "{p:?} below {base:?}");
                        let rel = at(r.to_rel_path(Path::new(base)))?;
                        ensure_eq!(clean(&rel), clean(p), "{p:?} seen from {base:?}");
                    }
                }
            }
            Ok(p.contains("..") || p.contains(':'))
        }
        Res::File(pkg, v) => {
            let spec = pkg.as_ref().map(|(ns, n)| PackageSpec { namespace: ns.as_str().into(), name: n.as_str().into(), version: PackageVersion { major: 0, minor: 1, patch: 2 } });
            // Not interned for good: ids are never given back.
            let id = FileId::new(spec.clone(), VirtualPath::new(v));
            let r = ResourcePath::from_file_id(id);
            back(&r)?;
            ensure!(r.to_abs_path(Path::new(base)).is_none() && r.to_rel_path(Path::new(base)).is_none(), "a file id is no path on disk: {r:?}");
            let text = r.to_string();
            let head = match &spec {
                Some(s) => format!("file_id:{s}"),
                None => "file_id:$root".into(),
            };
            let rest = text.strip_prefix(&head).ok_or_else(|| Fail::from(format!("{text:?} does not begin with {head:?}")))?;
            ensure_eq!(clean(rest), clean(&id.vpath().as_rooted_path().display().to_string()), "the path in {text:?}");
            Ok(spec.is_some())
        }
        Res::Text(scheme, path) => {
            let text = format!("{scheme}:{path}");
            let r = ResourcePath::from_str(&text).map_err(|e| Fail::from(format!("{text:?} is rejected: {e}")))?;
            back(&r)?;
            ensure_eq!(r.to_string(), text, "{text:?} printed again");
            if scheme != "file" {
                ensure!(r.to_abs_path(Path::new(base)).is_none() && r.to_rel_path(Path::new(base)).is_none(), "{text:?} is no path on disk");
                return Ok(false);
            }
            for base in [base, base2] {
                let want = if path.starts_with('/') { clean(path) } else { clean(&format!("{base}/{path}")) };
                ensure_eq!(clean(&at(r.to_abs_path(Path::new(base)))?), want, "{path:?} below {base:?}");
                let rel = at(r.to_rel_path(Path::new(base)))?;
                let joined = if rel.starts_with('/') { rel.clone() } else { format!("{base}/{rel}") };
                ensure_eq!(clean(&joined), want, "{path:?} seen from {base:?} is {rel:?}");
            }
            Ok(path.starts_with('/'))
        }
    }
}

fn no_scheme(s: &String) -> Verdict {
    let got = no_panic(|| ResourcePath::from_str(s)).map_err(|m| Fail::from(format!("{s:?} panics: {m}")))?;
    match got {
        Ok(r) => {
            ensure!(s.contains(':'), "{s:?} has no scheme and reads as {r:?}");
            back(&r)?;
            ensure_eq!(r.to_string(), *s, "{s:?} printed again");
            Ok(true)
        }
        Err(e) => {
            ensure!(!s.contains(':'), "{s:?} is rejected: {e}");
            Ok(false)
        }
    }
}

// ---- Generators --------------------------------------------------------------

fn page() -> impl Strategy<Value = usize> {
    prop_oneof![4 => 1usize..30, 1 => 1usize..=usize::MAX, 1 => Just(usize::MAX), 1 => Just(u32::MAX as usize + 1)]
}

fn range() -> BoxedStrategy<Range> {
    bx(prop_oneof![
        3 => (page(), page()).prop_map(|(a, b)| (Some(a.min(b)), Some(a.max(b)))),
        1 => page().prop_map(|a| (Some(a), Some(a))),
        1 => page().prop_map(|a| (Some(a), None)),
        1 => page().prop_map(|a| (None, Some(a))),
    ])
}

fn selection() -> BoxedStrategy<String> {
    let piece = prop_oneof![
        4 => (0usize..40).prop_map(|n| n.to_string()),
        1 => page().prop_map(|n| n.to_string()),
        3 => Just("-".to_owned()),
        1 => prop_oneof![Just(" "), Just("\t"), Just("\u{a0}"), Just("")].prop_map(str::to_owned),
        1 => prop_oneof![Just("0"), Just("00"), Just("01"), Just("+"), Just("−"), Just("–"), Just(","), Just("٣"), Just("1e3"), Just("0x1"), Just("99999999999999999999"), Just("all")].prop_map(str::to_owned),
    ];
    bx(prop_oneof![6 => prop::collection::vec(piece, 0..6).prop_map(|v| v.concat()), 1 => gen::text(8)])
}

fn name() -> BoxedStrategy<String> {
    bx(prop_oneof![
        5 => prop_oneof![Just("a"), Just("b"), Just("main.typ"), Just(".."), Just("."), Just("")].prop_map(str::to_owned),
        1 => prop_oneof![Just("a:b"), Just(":"), Just("x\\y"), Just("file"), Just("é🦀"), Just(" "), Just("$root"), Just("...") , Just("c:")].prop_map(str::to_owned),
        1 => gen::word().prop_map(|w| w.replace(['/', '\0'], "_")),
    ])
}

fn path(abs: bool) -> BoxedStrategy<String> {
    bx((prop::collection::vec(name(), 1..5), any::<bool>()).prop_map(move |(v, a)| {
        let s = v.join("/");
        match (abs || a, s.starts_with('/')) {
            (true, false) => format!("/{s}"),
            (_, true) if !abs && !a => s.trim_start_matches('/').to_owned(),
            _ => s,
        }
    }))
}

fn resource() -> BoxedStrategy<Res> {
    let small = prop_oneof![Just("preview"), Just("local"), Just("ws")].prop_map(str::to_owned);
    let pkg = prop_oneof![Just("cetz"), Just("p0"), Just("a-b")].prop_map(str::to_owned);
    let file = prop::collection::vec(prop_oneof![Just("a"), Just("b:c"), Just("x.typ"), Just("é")], 1..3).prop_map(|v| v.join("/"));
    bx(prop_oneof![
        4 => path(false).prop_map(Res::User),
        2 => (prop::option::of((small, pkg)), file).prop_map(|(p, v)| Res::File(p, v)),
        3 => (prop_oneof![5 => Just("file"), 1 => Just("http"), 1 => Just(""), 1 => Just("File")], path(false)).prop_map(|(s, p)| Res::Text(s.into(), p)),
    ])
}

fn main() {
    Check::main("C33", "a list of ranges when it has several; a text when it is a selection or has a hyphen; a path when it goes up, is absolute or has a colon, or is of a package", |c| {
        c.prop("ranges", Opts::new(20_000).thorough(20).shards(4), || bx(prop::collection::vec(range(), 1..5)), ranges);
        c.prop("texts", Opts::new(60_000).thorough(20).shards(4), selection, texts);
        c.prop("resources", Opts::new(60_000).thorough(20).shards(8), || bx((resource(), path(true), path(true))), resources);
        c.prop("resource-texts", Opts::new(20_000).thorough(20).shards(4), || bx(prop_oneof![3 => path(false), 1 => gen::text(12)]), no_scheme);
    })
}
