//! C35: packages cloned between containers.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Cursor, Read};
use std::path::{Path, PathBuf};
use tinymist_package::{CloneIntoPack, DirPack, MapPack, PackExt, PackFile, PackFs, TarballPack};
use vcommon::scratch::Scratch;
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Fail, Hex, Opts, Verdict};

type Files = BTreeMap<String, Vec<u8>>;

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Entry {
    path: String,
    data: Hex,
    /// How it is stored: in a tarball 0/1 as a plain header or by the builder, 2
    /// with its path in an extension; in a directory 3 is a link to the file.
    how: u8,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Extra {
    Dir(String),
    Link(String, String),
    Hard(String, String),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    files: Vec<Entry>,
    extra: Vec<Extra>,
    /// 0 directory, 1 tarball, 2 compressed tarball, 3 map.
    from: u8,
    /// The name of the directory it comes from.
    base: String,
    /// Into a map instead of a directory.
    to_map: bool,
    /// What is there already.
    before: Vec<(String, Hex)>,
    /// What is taken: all, by the ending, by a part, by the first letter.
    filter: u8,
    /// Reads of the source give at most this many bytes at a time.
    drip: u8,
}

fn takes(filter: u8, path: &str) -> bool {
    match filter % 5 {
        0 | 1 => true,
        2 => path.ends_with(".typ"),
        3 => !path.contains("sub/"),
        _ => false,
    }
}

/// Lexically, below the container. `None`: it is not below.
fn norm(p: &str) -> Option<String> {
    if p.starts_with('/') {
        return None;
    }
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop()?;
            }
            c => out.push(c),
        }
    }
    (!out.is_empty()).then(|| out.join("/"))
}

fn odd(p: &str) -> bool {
    p.starts_with('/') || p.split('/').any(|c| c == "..") || norm(p).is_none()
}

fn list(dir: &Path) -> Files {
    fn go(dir: &Path, at: &str, out: &mut Files) {
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            let name = format!("{at}{}", e.file_name().to_string_lossy());
            let p = e.path();
            if p.is_dir() {
                go(&p, &format!("{name}/"), out)
            } else {
                out.insert(name, std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    let mut out = Files::new();
    go(dir, "", &mut out);
    out
}

/// The files cannot all be there: one is where another needs a directory.
fn clash<'a>(names: impl Iterator<Item = &'a str>) -> bool {
    let all: BTreeSet<String> = names.map(str::to_owned).collect();
    all.iter().any(|n| n.match_indices('/').any(|(i, _)| all.contains(&n[..i])))
}

struct Drip<R>(R, usize);
impl<R: Read> Read for Drip<R> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.read(&mut b[..n])
    }
}

fn header(path: &str, len: usize, kind: tar::EntryType) -> tar::Header {
    let mut h = tar::Header::new_ustar();
    h.set_entry_type(kind);
    h.set_size(len as u64);
    h.set_mode(0o644);
    let n = path.len().min(100);
    h.as_old_mut().name[..n].copy_from_slice(&path.as_bytes()[..n]);
    h.set_cksum();
    h
}

fn tarball(c: &Case, abs: &Path) -> Vec<u8> {
    let mut b = tar::Builder::new(vec![]);
    for x in &c.extra {
        match x {
            Extra::Dir(p) => b.append(&header(&format!("{p}/"), 0, tar::EntryType::Directory), &[][..]).unwrap(),
            Extra::Link(p, t) | Extra::Hard(p, t) => {
                let kind = if matches!(x, Extra::Link(..)) { tar::EntryType::Symlink } else { tar::EntryType::Link };
                let mut h = header(p, 0, kind);
                let _ = h.set_link_name(t);
                h.set_cksum();
                b.append(&h, &[][..]).unwrap();
            }
        }
    }
    for e in &c.files {
        let path = absolute(&e.path, abs);
        let data = &e.data.0[..];
        match e.how % 3 {
            0 if path.len() <= 100 => b.append(&header(&path, data.len(), tar::EntryType::Regular), data).unwrap(),
            1 if !odd(&path) => {
                let mut h = header("", data.len(), tar::EntryType::Regular);
                b.append_data(&mut h, &path, data).unwrap();
            }
            _ => {
                b.append_pax_extensions([("path", path.as_bytes())]).unwrap();
                b.append(&header("pax-name-to-ignore", data.len(), tar::EntryType::Regular), data).unwrap();
            }
        }
    }
    b.into_inner().unwrap()
}

/// A leading `/` stands for a place inside the scratch directory: whatever
/// happens there is outside of the container and still ours.
fn absolute(p: &str, abs: &Path) -> String {
    match p.strip_prefix('/') {
        Some(rest) => format!("{}/{rest}", abs.display()),
        None => p.to_owned(),
    }
}

fn run(pack: &mut impl PackFs, to_map: bool, dest: &Path, before: &Files) -> (Result<(), String>, Files) {
    if to_map {
        let mut m = MapPack::default();
        for (k, v) in before {
            m.files.insert(k.as_str().into(), v.clone().into());
        }
        let r = m.clone_into_pack(pack).map_err(|e| e.to_string());
        let files = m.files.iter().map(|(k, v)| (norm(k).unwrap_or_else(|| k.to_string()), v.to_vec())).collect();
        (r, files)
    } else {
        let r = DirPack::new(dest).clone_into_pack(pack).map_err(|e| e.to_string());
        (r, list(dest))
    }
}

fn cloning(c: &Case) -> Verdict {
    let scratch = Scratch::reused();
    let top = scratch.path().join("d1/d2/d3/d4");
    let dest = top.join("dest");
    let abs = scratch.path().join("abs");
    let src = scratch.path().join("from").join(&c.base);
    std::fs::create_dir_all(&top).unwrap();
    std::fs::create_dir_all(src.components().collect::<PathBuf>()).unwrap();
    std::fs::write(top.join("beside.txt"), "mine").unwrap();

    let before: Files = c.before.iter().filter_map(|(p, d)| Some((norm(p)?, d.0.clone()))).collect();
    if clash(before.keys().map(String::as_str)) {
        return Ok(false);
    }
    std::fs::create_dir_all(&dest).unwrap();
    for (p, d) in &before {
        let p = dest.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, d).unwrap();
    }
    // The source, and what is to come out of it.
    let mut want: Files = before.clone();
    let mut taken: Vec<String> = vec![];
    let mut refused = false;
    if c.from % 4 == 0 {
        // Links point to files kept elsewhere.
        let store = scratch.path().join("store");
        std::fs::create_dir_all(&store).unwrap();
        let mut all = Files::new();
        for (i, e) in c.files.iter().enumerate() {
            let Some(p) = norm(&e.path).filter(|_| !odd(&e.path)) else { continue };
            if clash(all.keys().map(String::as_str).chain([p.as_str()])) || all.contains_key(&p) {
                continue;
            }
            let at = src.join(&p);
            std::fs::create_dir_all(at.parent().unwrap()).unwrap();
            if e.how == 3 {
                std::fs::write(store.join(i.to_string()), &e.data.0).unwrap();
                std::os::unix::fs::symlink(store.join(i.to_string()), &at).unwrap();
            } else {
                std::fs::write(&at, &e.data.0).unwrap();
            }
            all.insert(p, e.data.0.clone());
        }
        for x in &c.extra {
            if let Extra::Dir(p) = x {
                let _ = std::fs::create_dir_all(src.join(p));
            }
        }
        for (p, d) in all {
            // Hidden files are no part of a package.
            if !p.split('/').any(|s| s.starts_with('.')) && takes(c.filter, &p) {
                taken.push(p.clone());
                want.insert(p, d);
            }
        }
    } else {
        let mut last = BTreeMap::new();
        for e in &c.files {
            let p = absolute(&e.path, &abs);
            if c.from % 4 == 3 {
                last.insert(p, e.data.0.clone());
                continue;
            }
            if takes(c.filter, &p) {
                refused |= odd(&p);
                taken.push(norm(&p).unwrap_or_else(|| p.clone()));
                want.insert(norm(&p).unwrap_or(p), e.data.0.clone());
            }
        }
        for (p, d) in last {
            if takes(c.filter, &p) {
                refused |= odd(&p);
                taken.push(norm(&p).unwrap_or_else(|| p.clone()));
                want.insert(norm(&p).unwrap_or(p), d);
            }
        }
        if c.from % 4 == 3 || c.to_map {
            // Two names of one file come in any order.
            let names: Vec<_> = taken.iter().collect();
            let all = names.iter().copied().chain(before.keys()).collect::<BTreeSet<_>>();
            let same = c.files.iter().all(|e| norm(&e.path).as_ref().is_none_or(|n| *n == e.path));
            if !same && all.len() != names.len() + before.len() {
                return Ok(false);
            }
        }
    }

    let filter = c.filter % 5;
    let f = |p: &str| takes(c.filter, p);
    macro_rules! go {
        ($p:expr) => {{
            let mut p = $p;
            no_panic(|| match filter {
                0 => run(&mut p, c.to_map, &dest, &before),
                _ => run(&mut p.filter(f), c.to_map, &dest, &before),
            })
        }};
    }
    let drip = 1 + c.drip as usize * 7;
    let got = match c.from % 4 {
        0 => go!(DirPack::new(src.clone())),
        1 => go!(TarballPack::new(Drip(Cursor::new(tarball(c, &abs)), drip))),
        2 => {
            let mut z = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
            std::io::Write::write_all(&mut z, &tarball(c, &abs)).unwrap();
            go!(TarballPack::new(flate2::read::GzDecoder::new(Drip(Cursor::new(z.finish().unwrap()), drip))))
        }
        _ => go!(MapPack::new(c.files.iter().map(|e| (absolute(&e.path, &abs).as_str().into(), e.data.0.clone().into())).collect())),
    };
    let (r, got) = got.map_err(|m| Fail::from(format!("it panics: {m}")))?;

    // Nothing but the container was touched.
    let mut around = list(&top);
    around.retain(|p, _| !p.starts_with("dest/"));
    ensure_eq!(around, Files::from([("beside.txt".into(), b"mine".to_vec())]), "the files beside the container");
    for d in ["d1/d2/d3", "d1/d2", "d1", ""] {
        for e in std::fs::read_dir(scratch.path().join(d)).unwrap().flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            ensure!(["d1", "d2", "d3", "d4", "from", "store"].contains(&n.as_str()), "{n:?} was written above the container");
        }
    }

    let clashes = !c.to_map && clash(want.keys().map(String::as_str));
    match r {
        Ok(()) => {
            ensure!(!clashes, "files and directories of one name, and no error");
            if refused && !c.to_map {
                // Then they are left out.
                let inside: Files = want.iter().filter(|(p, _)| got.contains_key(*p) || !c.files.iter().any(|e| odd(&e.path) && norm(&e.path).as_ref() == Some(p))).filter(|(p, _)| !p.starts_with('/') && !odd(p)).map(|(a, b)| (a.clone(), b.clone())).collect();
                ensure_eq!(got.keys().collect::<Vec<_>>(), inside.keys().collect::<Vec<_>>(), "the files of the container");
            } else {
                ensure_eq!(got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), "the files of the container");
                for (p, d) in &want {
                    ensure!(got[p] == *d, "{p:?} has {:?}, expected {:?}", Hex(got[p].clone()), Hex(d.clone()));
                }
            }
        }
        Err(e) => ensure!(clashes || (refused && !c.to_map), "cloning fails: {e}"),
    }
    Ok(taken.len() > 1)
}

/// Broken archives are an error, or fewer files, never a panic or a stray file.
fn broken(c: &(Case, Vec<(u16, u8)>, u16)) -> Verdict {
    let (case, bytes, cut) = c;
    let scratch = Scratch::reused();
    let dest = scratch.path().join("d1/d2/d3/dest");
    let abs = scratch.path().join("abs");
    std::fs::create_dir_all(&dest).unwrap();
    let mut data = tarball(case, &abs);
    for (at, b) in bytes {
        let n = data.len();
        data[*at as usize % n] ^= *b;
    }
    data.truncate(data.len().saturating_sub(*cut as usize));
    let mut pack = TarballPack::new(Cursor::new(data));
    let r = no_panic(|| {
        let mut seen = 0;
        pack.read_all(&mut |_, f| {
            seen += 1;
            match f {
                PackFile::Read(mut r) => std::io::copy(&mut r, &mut std::io::sink()).map(|_| ()).map_err(|e| tinymist_package::PackageError::Other(Some(e.to_string().into()))),
                PackFile::Data(_) => Ok(()),
            }
        })
        .map(|_| seen)
    })
    .map_err(|m| Fail::from(format!("a broken archive panics: {m}")))?;
    Ok(r.is_err())
}

// ---- Generators ----------------------------------------------------------------

fn path(wild: bool) -> BoxedStrategy<String> {
    let seg = prop_oneof![
        8 => prop_oneof![Just("a"), Just("b.typ"), Just("sub"), Just("lib.typ"), Just("é.png"), Just("a b")].prop_map(str::to_owned),
        1 => prop_oneof![Just(".hidden"), Just("."), Just("..."), Just("a..b"), Just("x\\y")].prop_map(str::to_owned),
        1 => (60usize..130).prop_map(|n| format!("{}.typ", "n".repeat(n))),
    ];
    let plain = bx(prop::collection::vec(seg, 1..5).prop_map(|v| v.join("/")).prop_filter("a file", |p| !p.ends_with("/.") && p != "."));
    if !wild {
        return bx(plain.prop_filter("a file", |p| norm(p).is_some()));
    }
    bx(prop_oneof![
        12 => plain.clone(),
        1 => (1usize..5, plain.clone()).prop_map(|(n, p)| format!("{}{p}", "../".repeat(n))),
        1 => (plain.clone(), 1usize..6, plain.clone()).prop_map(|(a, n, p)| format!("{a}/{}{p}", "../".repeat(n))),
        1 => plain.prop_map(|p| format!("/{p}")),
    ]
    // Not above what the scratch directory holds.
    .prop_filter("few steps up", |p| {
        let mut depth = 0i32;
        norm(p).is_some() || p.starts_with('/') || p.split('/').all(|c| {
            depth += match c { ".." => -1, "" | "." => 0, _ => 1 };
            depth >= -4
        }) && !p.split('/').all(|c| matches!(c, "" | "." | ".."))
    })
    .prop_filter("a file", |p| !p.is_empty() && p.split('/').any(|c| !matches!(c, "" | "." | ".."))))
}

fn data() -> BoxedStrategy<Hex> {
    bx(prop_oneof![
        6 => prop::collection::vec(any::<u8>(), 0..40).prop_map(Hex),
        1 => (any::<u8>(), prop_oneof![Just(511usize), Just(512), Just(513), Just(8192), Just(20_000)]).prop_map(|(b, n)| Hex(vec![b; n])),
    ])
}

fn case(wild: bool) -> BoxedStrategy<Case> {
    let entry = (path(wild), data(), 0u8..4).prop_map(|(path, data, how)| Entry { path, data, how });
    let extra = prop_oneof![
        path(false).prop_map(Extra::Dir),
        (path(false), path(false)).prop_map(|(a, b)| Extra::Link(a, b)),
        (path(false), path(false)).prop_map(|(a, b)| Extra::Hard(a, b)),
    ]
    .prop_filter("short names", |x| match x {
        Extra::Dir(p) | Extra::Link(p, _) | Extra::Hard(p, _) => p.len() < 99,
    });
    let base = prop_oneof![4 => Just("pkg"), 1 => Just(".pkg"), 1 => Just("p.q/0.1.0"), 1 => Just(".cache/x"), 1 => Just("x/."), 1 => Just("a b")].prop_map(str::to_owned);
    bx((
        prop::collection::vec(entry, 0..7),
        prop::collection::vec(extra, 0..3),
        0u8..4,
        base,
        prop::bool::weighted(0.3),
        prop::collection::vec((path(false), data()), 0..3),
        0u8..5,
        any::<u8>(),
    )
        .prop_map(|(files, extra, from, base, to_map, before, filter, drip)| Case { files, extra, from, base, to_map, before, filter, drip }))
}

fn main() {
    Check::main("C35", "a clone when it takes at least two files; a broken archive when it is an error", |c| {
        c.assume("names are UTF-8; files and directories whose name begins with a dot are not part of a package kept in a directory");
        c.prop("plain", Opts::new(15_000).thorough(20).shards(8), || case(false), cloning);
        c.prop("escaping", Opts::new(15_000).thorough(20).shards(8), || case(true), cloning);
        c.prop("broken", Opts::new(15_000).thorough(20).shards(8), || bx((case(false), prop::collection::vec((any::<u16>(), any::<u8>()), 0..4), prop_oneof![Just(0u16), 0u16..3000])), broken);
    })
}
