//! C39: document URLs and paths.
use lsp_types::Url;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use tinymist_query::{path_res_to_url, path_to_url, untitled_url, url_to_path};
use tinymist_vfs::PathResolution;
use typst::syntax::VirtualPath;
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Fail, Opts, Verdict};

/// A name of a directory or file: no slash, no NUL, neither `.` nor `..`.
fn name() -> BoxedStrategy<String> {
    let ch = prop_oneof![
        6 => prop::char::range('a', 'e'),
        5 => prop::sample::select(vec!['#', '?', '%', ' ', '+', '&', '=', ':', ';', '@', '\\', '|', '"', '<', '>', '[', ']', '{', '}', '^', '`', '~', '!', '*', '.', '-', '_', ',', '$', '\'']),
        2 => prop::sample::select(vec!['2', '3', '5', '0', 'F', 'E', 'A']),
        2 => prop::sample::select(vec!['é', '中', '😀', '\u{301}', '\u{ffff}', '\u{feff}', '\u{202e}', '\u{a0}']),
        1 => prop::sample::select(vec!['\t', '\n', '\r', '\u{1}', '\u{7f}', '\u{85}']),
    ];
    prop_oneof![
        6 => prop::collection::vec(ch, 1..7).prop_map(|v| v.into_iter().collect::<String>()),
        1 => prop::sample::select(vec!["Untitled-1", "untitled", "C:", "c%3A", "...", "%2e%2e", "%2F", "a%20b", "file:", "main.typ", "nEoViM-BuG", "%", "%%", "%zz", "~"]).prop_map(str::to_owned),
    ]
    .prop_filter("special", |s| s != "." && s != "..")
    .boxed()
}

/// What a client makes of a path: everything but the unreserved characters is
/// encoded, and some clients leave more of them as they are.
fn encode(s: &[u8], sparing: bool, lower: bool) -> String {
    let mut out = String::new();
    for &b in s {
        let plain = b.is_ascii_alphanumeric() || b"-._~".contains(&b) || (sparing && b"!$&'()*+,;=:@".contains(&b));
        if plain {
            out.push(b as char);
        } else if lower {
            out += &format!("%{b:02x}");
        } else {
            out += &format!("%{b:02X}");
        }
    }
    out
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Doc {
    names: Vec<String>,
    sparing: bool,
    lower: bool,
    /// Bytes that are no UTF-8 at the end of the last name.
    raw: Vec<u8>,
}

fn doc() -> BoxedStrategy<Doc> {
    let raw = prop_oneof![6 => Just(vec![]), 1 => prop::collection::vec(0x80u8..=0xff, 1..3)];
    (prop::collection::vec(name(), 1..5), any::<bool>(), any::<bool>(), raw).prop_map(|(names, sparing, lower, raw)| Doc { names, sparing, lower, raw }).boxed()
}

fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    no_panic(f).map_err(|e| Fail::from(format!("the conversion panics: {e}")))
}

fn tricky(d: &Doc) -> bool {
    d.names.iter().any(|n| n.chars().any(|c| !c.is_ascii_alphanumeric()))
}

fn files(d: &Doc) -> Verdict {
    let mut names: Vec<Vec<u8>> = d.names.iter().map(|n| n.as_bytes().to_vec()).collect();
    names.last_mut().unwrap().extend(&d.raw);
    let path: PathBuf = Path::new("/").join(OsStr::from_bytes(&names.join(&b'/')));
    if path.starts_with("/untitled") {
        return Ok(false);
    }
    let url = quiet(|| path_to_url(&path))?.map_err(|e| Fail::from(format!("{path:?} has no URL: {e}")))?;
    ensure_eq!(url.scheme(), "file", "the URL of {path:?}");
    ensure!(url.fragment().is_none() && url.query().is_none(), "the URL of {path:?} is {url}");
    // As another program reads it.
    let text = url.as_str().strip_prefix("file://").unwrap_or_default();
    ensure_eq!(decode(text), path.as_os_str().as_bytes(), "the URL {url} of {path:?}, decoded");
    ensure_eq!(quiet(|| url_to_path(url.clone()))?, path, "the URL {url} of {path:?} and back");
    ensure_eq!(quiet(|| path_res_to_url(PathResolution::Resolved(path.clone())))?.ok(), Some(url.clone()), "the URL of {path:?} resolved");
    // As a client writes it.
    let client = format!("file:///{}", names.iter().map(|n| encode(n, d.sparing, d.lower)).collect::<Vec<_>>().join("/"));
    let parsed = Url::parse(&client).map_err(|e| Fail::from(format!("the generator made {client:?}: {e}")))?;
    ensure_eq!(quiet(|| url_to_path(parsed.clone()))?, path, "the path of {client}");
    Ok(tricky(d))
}

fn decode(s: &str) -> Vec<u8> {
    let (b, mut out, mut i) = (s.as_bytes(), vec![], 0);
    while i < b.len() {
        let hex = (b[i] == b'%').then(|| b.get(i + 1..i + 3)).flatten().and_then(|h| u8::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok());
        match hex {
            Some(h) => {
                out.push(h);
                i += 3;
            }
            None => {
                out.push(b[i]);
                i += 1;
            }
        }
    }
    out
}

fn untitled(d: &Doc) -> Verdict {
    let names: Vec<&[u8]> = d.names.iter().map(|n| n.as_bytes()).collect();
    let name = d.names.join("/");
    let path = Path::new("/untitled").join(&name);
    // With or without a slash in front.
    for lead in ["", "/"] {
        let client = format!("untitled:{lead}{}", names.iter().map(|n| encode(n, d.sparing, d.lower)).collect::<Vec<_>>().join("/"));
        let parsed = Url::parse(&client).map_err(|e| Fail::from(format!("the generator made {client:?}: {e}")))?;
        let got = quiet(|| url_to_path(parsed))?;
        ensure_eq!(got, path, "the path of {client}");
    }
    if path == Path::new("/untitled/nEoViM-BuG") {
        return Ok(false);
    }
    let mut urls = vec![quiet(|| path_to_url(&path))?, quiet(|| untitled_url(Path::new(&name)))?];
    let vpath = VirtualPath::new(&name);
    if vpath.as_rootless_path() == Path::new(&name) {
        urls.push(quiet(|| path_res_to_url(PathResolution::Rootless(std::borrow::Cow::Owned(vpath))))?);
    }
    for url in urls {
        let url = url.map_err(|e| Fail::from(format!("{path:?} has no URL: {e}")))?;
        ensure_eq!(url.scheme(), "untitled", "the URL of {path:?}");
        // As another program reads it, and as it comes back.
        let text = url.as_str().strip_prefix("untitled:").unwrap_or_default();
        let read = String::from_utf8_lossy(&decode(text)).into_owned();
        ensure_eq!(read.trim_start_matches('/'), name.as_str(), "the URL {url} of {path:?}, decoded");
        let again = Url::parse(url.as_str()).map_err(|e| Fail::from(format!("{url}: {e}")))?;
        ensure_eq!(quiet(|| url_to_path(again))?, path, "the URL {url} of {path:?} and back");
    }
    Ok(tricky(d))
}

fn main() {
    Check::main("C39", "a name contains something else than ASCII letters and digits", |c| {
        c.prop("files", Opts::new(60_000).thorough(20).shards(4), || bx(doc()), files);
        c.prop("untitled documents", Opts::new(60_000).thorough(20).shards(4), || bx(doc()), untitled);
    });
}
