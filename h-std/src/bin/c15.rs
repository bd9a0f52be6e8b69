//! C15: lexical path operations.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use tinymist_std::fs::paths;
use tinymist_std::path::{clean, diff, unix_slash, PathClean};
use vcommon::scratch::Scratch;
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Fail, Hex, Opts, Verdict};

fn path(h: &Hex) -> PathBuf {
    PathBuf::from(OsString::from_vec(h.0.clone()))
}

/// A path read by hand: whether it is absolute, and its parts without '.'.
#[derive(Debug, Clone, PartialEq)]
struct Parts {
    abs: bool,
    parts: Vec<Vec<u8>>,
}

fn parts(bytes: &[u8]) -> Parts {
    Parts {
        abs: bytes.first() == Some(&b'/'),
        parts: bytes.split(|b| *b == b'/').filter(|p| !p.is_empty() && *p != b".").map(|p| p.to_vec()).collect(),
    }
}

/// Cancels every '..' that has something to cancel.
fn cancel(p: &Parts) -> Parts {
    let mut out: Vec<Vec<u8>> = vec![];
    for c in &p.parts {
        if c == b".." {
            match out.last() {
                Some(l) if l != b".." => {
                    out.pop();
                }
                None if p.abs => {}
                _ => out.push(c.clone()),
            }
        } else {
            out.push(c.clone());
        }
    }
    Parts { abs: p.abs, parts: out }
}

fn of(p: &Path) -> Parts {
    parts(p.as_os_str().as_bytes())
}

/// Whether the text has no '.', doubled or trailing slash left.
fn tidy(p: &Path) -> bool {
    let b = p.as_os_str().as_bytes();
    let s = b.strip_prefix(b"/").unwrap_or(b);
    s.is_empty() || b == b"." || s.split(|c| *c == b'/').all(|c| !c.is_empty() && c != b".")
}

fn safe<T>(what: &str, p: &Path, f: impl FnOnce() -> T) -> Result<T, Fail> {
    no_panic(f).map_err(|e| format!("{what} of {p:?} panicked: {e}").into())
}

fn judge(c: &Hex) -> Verdict {
    let p = path(c);
    let (raw, want) = (parts(&c.0), cancel(&parts(&c.0)));
    for (what, got, again) in [
        ("cleaning", safe("cleaning", &p, || clean(&p))?, clean(clean(&p))),
        ("the method cleaning", safe("cleaning", &p, || p.clean())?, p.clean().clean()),
        ("normalising", safe("normalising", &p, || paths::normalize_path(&p))?, paths::normalize_path(&paths::normalize_path(&p))),
    ] {
        ensure_eq!(of(&got), want, "{what} {p:?} (as {got:?})");
        ensure!(tidy(&got), "{what} {p:?} leaves {got:?}");
        ensure_eq!(again.as_os_str(), got.as_os_str(), "{what} {p:?} twice");
    }
    let slash = safe("the slash form", &p, || unix_slash(&p))?;
    let lossy: Vec<String> = raw.parts.iter().map(|p| String::from_utf8_lossy(p).into_owned()).collect();
    let expected = match (raw.abs, lossy.is_empty()) {
        (false, true) => ".".to_owned(),
        (abs, _) => format!("{}{}", if abs { "/" } else { "" }, lossy.join("/")),
    };
    ensure_eq!(slash, expected, "the slash form of {p:?}");
    ensure_eq!(unix_slash(Path::new(&slash)), slash, "the slash form of the slash form of {p:?}");
    ensure!(slash.matches('\\').count() == lossy.iter().map(|p| p.matches('\\').count()).sum::<usize>(), "backslashes in the slash form {slash:?} of {p:?}");
    let b = paths::path2bytes(&p).map_err(|e| Fail::from(e.to_string()))?;
    ensure_eq!(b, &c.0[..], "the bytes of {p:?}");
    let back = paths::bytes2path(b).map_err(|e| Fail::from(e.to_string()))?;
    ensure_eq!(back.as_os_str(), p.as_os_str(), "the path of its bytes");
    Ok(raw != want)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Pair(Hex, Hex);

fn judge_diff(c: &Pair) -> Verdict {
    let (base, to) = (path(&c.0), path(&c.1));
    let (b, t) = (cancel(&parts(&c.0 .0)), cancel(&parts(&c.1 .0)));
    let got = no_panic(|| diff(&to, &base)).map_err(|e| format!("the difference from {base:?} to {to:?} panicked: {e}"))?;
    let ups = |p: &Parts| p.parts.iter().take_while(|c| *c == b"..").count();
    match got {
        Some(d) => {
            let joined = cancel(&of(&base.join(&d)));
            ensure_eq!(joined, t, "joining the difference {d:?} from {base:?} to {to:?}, cleaned");
            ensure!(b.abs != t.abs || d.is_relative(), "the difference from {base:?} to {to:?} is {d:?}, which is not relative");
        }
        None => {
            // Nothing can be said about what lies below an unknown parent.
            let possible = b.abs == t.abs && ups(&b) <= ups(&t) || (!b.abs && t.abs);
            ensure!(!possible, "no difference from {base:?} to {to:?}");
        }
    }
    Ok(b != t && !b.parts.is_empty() && !t.parts.is_empty())
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Walk {
    path: Hex,
    /// 0 no stop, 1 the n-th prefix, 2 another path.
    stop: u8,
    nth: u8,
    other: Hex,
}

fn judge_walk(c: &Walk) -> Verdict {
    let p = path(&c.path);
    // Every prefix: '..' stays, a '.' only counts at the very start.
    let lead_dot = c.path.0 == b"." || c.path.0.starts_with(b"./");
    let mut ps = parts(&c.path.0).parts;
    if lead_dot {
        ps.insert(0, b".".to_vec());
    }
    let abs = c.path.0.first() == Some(&b'/');
    let prefixes: Vec<PathBuf> = (0..=ps.len())
        .rev()
        .map(|n| {
            let mut b = if abs { b"/".to_vec() } else { vec![] };
            b.extend(ps[..n].join(&b'/'));
            PathBuf::from(OsString::from_vec(b))
        })
        .collect();
    let stop = match c.stop % 3 {
        0 => None,
        1 => Some(prefixes[c.nth as usize % prefixes.len()].clone()),
        _ => Some(path(&c.other)),
    };
    let end = stop.as_ref().and_then(|s| prefixes.iter().position(|p| p == s)).map_or(prefixes.len(), |i| i + 1);
    let got: Vec<PathBuf> = no_panic(|| paths::ancestors(&p, stop.as_deref()).take(2000).map(|p| p.to_path_buf()).collect()).map_err(|e| format!("walking up from {p:?} panicked: {e}"))?;
    ensure_eq!(got, prefixes[..end].to_vec(), "the walk from {p:?} up to {stop:?}");
    Ok(end > 1 && stop.is_some())
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct List(Vec<Hex>);

/// Joining into a search path and splitting again.
fn judge_list(c: &List) -> Verdict {
    let ps: Vec<PathBuf> = c.0.iter().map(path).collect();
    let colon = c.0.iter().any(|p| p.0.contains(&b':'));
    match no_panic(|| paths::join_paths(&ps, "VAR")).map_err(|e| format!("joining {ps:?} panicked: {e}"))? {
        Ok(s) => {
            ensure!(!colon, "joining {ps:?}, which has a separator inside, gives {s:?}");
            if !ps.is_empty() {
                ensure_eq!(std::env::split_paths(&s).collect::<Vec<_>>(), ps, "splitting {s:?}");
            }
        }
        Err(e) => ensure!(colon, "joining {ps:?} fails: {e}"),
    }
    Ok(ps.len() > 1)
}

fn component() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => prop::sample::select(vec!["a", "b", "c"]).prop_map(|s| s.as_bytes().to_vec()),
        5 => Just(b"..".to_vec()),
        3 => Just(b".".to_vec()),
        2 => Just(vec![]),
        1 => prop::sample::select(vec!["...", "..a", ".a", "a.", "a..", " ", "\\", "a\\b", "C:", "\\\\x", "~", "中", "é", "😀", "a b", "\n", "..\\"]).prop_map(|s| s.as_bytes().to_vec()),
        1 => prop::collection::vec(prop_oneof![3 => 0x21u8..0x7f, 1 => 1u8..=255], 1..5).prop_map(|v| v.into_iter().map(|b| if b == b'/' { b'x' } else { b }).collect()),
    ]
    .boxed()
}

fn any_path() -> BoxedStrategy<Hex> {
    let cs = prop_oneof![60 => prop::collection::vec(component(), 0..9), 1 => prop::collection::vec(component(), 9..400)];
    (0u8..4, cs, any::<bool>())
        .prop_map(|(lead, cs, tail)| {
            let mut out: Vec<u8> = match lead {
                0 => b"/".to_vec(),
                1 if cs.len() % 3 == 0 => b"//".to_vec(),
                _ => vec![],
            };
            out.extend(cs.join(&b'/'));
            if tail {
                out.push(b'/');
            }
            Hex(out)
        })
        .boxed()
}

fn plain_path() -> BoxedStrategy<Hex> {
    let c = prop_oneof![5 => prop::sample::select(vec!["a", "b"]), 4 => Just(".."), 1 => Just("."), 1 => Just("")];
    (any::<bool>(), prop::collection::vec(c, 0..8)).prop_map(|(abs, cs)| Hex(format!("{}{}", if abs { "/" } else { "" }, cs.join("/")).into_bytes())).boxed()
}

fn main() {
    std::env::remove_var("__CARGO_TEST_ROOT");
    fn grow(at: &Path, depth: u32) {
        for n in ["a", "b"] {
            let p = at.join(n);
            std::fs::create_dir(&p).unwrap();
            if depth > 0 {
                grow(&p, depth - 1);
            }
        }
    }
    let body = move |c: &mut Check| {
        // A small tree without links, and a working directory inside it.
        let home = Scratch::new();
        let r = home.path().canonicalize().unwrap();
        grow(&r, 3);
        std::env::set_current_dir(r.join("a/b")).unwrap();
        c.assume("a path's parts are what lies between its slashes; what a path denotes is judged lexically, and on a tree without symbolic links on disk");
        c.prop("cleaning", Opts::new(400_000), || bx(any_path()), judge);
        c.prop("differences", Opts::new(300_000), || bx(prop_oneof![2 => (plain_path(), plain_path()), 1 => (any_path(), any_path()), 1 => (plain_path(), plain_path(), plain_path()).prop_map(|(p, a, b)| {
            let j = |x: &Hex| { let mut v = p.0.clone(); v.push(b'/'); v.extend(&x.0); Hex(v) };
            (j(&a), j(&b))
        })].prop_map(|(a, b)| Pair(a, b))), judge_diff);
        c.prop("walks", Opts::new(200_000), || bx((prop_oneof![any_path(), plain_path()], any::<u8>(), any::<u8>(), plain_path()).prop_map(|(path, stop, nth, other)| Walk { path, stop, nth, other })), judge_walk);
        c.prop("search paths", Opts::new(60_000), || bx(prop::collection::vec(any_path(), 0..5).prop_map(List)), judge_list);
        c.prop("on disk", Opts::new(20_000), || bx((any::<u8>(), plain_path()).prop_map(|(k, p)| {
            // Below the tree's root, or relative to the working directory.
            let rel = p.0.strip_prefix(b"/").map(|v| v.to_vec()).unwrap_or(p.0.clone());
            (k, Hex(rel))
        })), |(k, p): &(u8, Hex)| {
            let p = if k % 2 == 0 { let mut b = r.as_os_str().as_bytes().to_vec(); b.push(b'/'); b.extend(&p.0); path(&Hex(b)) } else { path(p) };
            let Ok(real) = p.canonicalize() else { return Ok(false) };
            for (what, q) in [("cleaned", clean(&p)), ("normalised", paths::normalize_path(&p)), ("in slash form", PathBuf::from(unix_slash(&p)))] {
                let q = if q.as_os_str().is_empty() { PathBuf::from(".") } else { q };
                ensure_eq!(q.canonicalize().ok(), Some(real.clone()), "{p:?} {what} is {q:?}, which denotes");
            }
            Ok(of(&p) != cancel(&of(&p)))
        });
        c.prop("executables", Opts::new(2_000), || bx(any_path()), |h: &Hex| {
            // A path with several components is taken as it is.
            let p = path(h);
            if p.components().count() != 1 {
                ensure_eq!(paths::resolve_executable(&p).ok().map(|p| p.into_os_string()), Some(p.clone().into_os_string()), "resolving {p:?}");
                return Ok(true);
            }
            if let Ok(q) = no_panic(|| paths::resolve_executable(&p)).map_err(|e| format!("resolving {p:?} panicked: {e}"))? {
                ensure!(q.is_file(), "{p:?} resolves to {q:?}, which is no file");
            }
            Ok(false)
        });
    };
    Check::main("C15", "a case is a path (non-trivial: cleaning changes it), a pair of paths (non-trivial: different ones with parts), a walk (non-trivial: more than one step, with a stop), a list (non-trivial: several) or a path on disk (non-trivial: cleaning changes it)", body);
}
