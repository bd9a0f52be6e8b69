//! C58: where packages come from.
use ecow::EcoString;
use parking_lot::Mutex;
use proptest::prelude::*;
use reqwest::{Reply, Request};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::io::{Cursor, Read};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, LazyLock};
use tinymist_package::registry::{HttpRegistry, Notifier, PackageStorage};
use tinymist_package::{HttpPack, PackFs, PackageError, PackageRegistry, PackageSpec, UniversePack};
use vcommon::scratch::Scratch;
use vcommon::{bx, ensure, ensure_eq, Check, Fail, Opts, Verdict};

type Files = BTreeMap<String, Vec<u8>>;

/// The files of a package: path, size, and what fills them.
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Pkg(Vec<(String, u32, u8)>);

impl Pkg {
    fn files(&self) -> Files {
        let mut out = Files::new();
        for (p, n, s) in &self.0 {
            // A name that is a directory elsewhere gives way.
            let clash = out
                .keys()
                .any(|k| k == p || k.starts_with(&format!("{p}/")) || p.starts_with(&format!("{k}/")));
            if !clash {
                let mut x = (*s as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(p.len() as u64 + 1);
                let data = (0..*n).map(|_| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    x as u8
                });
                out.insert(p.clone(), data.collect());
            }
        }
        out
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Body {
    Good,
    /// Ends early, at so many thousandths.
    Cut(u16),
    /// Breaks with an error there.
    Broken(u16),
    Junk(Vec<u8>),
    /// An archive that also has entries that lead out of the package.
    Evil(Vec<u8>),
}

/// What the server has for a package.
#[derive(Serialize, Deserialize, Debug, Clone)]
enum Offer {
    Http(u16, Pkg, Body),
    Down,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Index {
    Good(Vec<(u8, u8, Option<String>)>),
    Cut(Vec<(u8, u8, Option<String>)>, u16),
    Status(u16),
    Junk(String),
    Down,
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct Spec {
    ns: u8,
    name: u8,
    ver: u8,
}
const NS: [&str; 4] = ["preview", "local", "previe", "preview2"];
const NAMES: [&str; 5] = ["cetz", "cetz-plot", "c", "Cetz", "cet"];
const VERS: [(u32, u32, u32); 8] = [
    (0, 1, 0),
    (0, 9, 0),
    (0, 10, 0),
    (1, 0, 0),
    (1, 0, 10),
    (10, 0, 0),
    (1, 10, 0),
    (0, 1, 10),
];
const JUNK: [&str; 7] = ["tmp", "1.0", "v99.0.0", "99.0.0-beta", "99", ".99.0.0", "99.0.0.0"];

impl Spec {
    fn ns(&self) -> &'static str {
        NS[self.ns as usize % NS.len()]
    }
    fn name(&self) -> &'static str {
        NAMES[self.name as usize % NAMES.len()]
    }
    fn ver(&self) -> (u32, u32, u32) {
        VERS[self.ver as usize % VERS.len()]
    }
    fn v(&self) -> String {
        let (a, b, c) = self.ver();
        format!("{a}.{b}.{c}")
    }
    fn real(&self) -> PackageSpec {
        format!("@{}/{}:{}", self.ns(), self.name(), self.v()).parse().unwrap()
    }
    fn dir(&self) -> String {
        format!("{}/{}/{}", self.ns(), self.name(), self.v())
    }
    fn url(&self) -> String {
        format!("https://packages.typst.org/preview/{}-{}.tar.gz", self.name(), self.v())
    }
    fn norm(&self) -> Spec {
        Spec {
            ns: self.ns % 4,
            name: self.name % 5,
            ver: self.ver % 8,
        }
    }
}

const INDEX: &str = "https://packages.typst.org/preview/index.json";

fn tarball(files: &Files, evil: &[u8], out: &Path) -> Vec<u8> {
    let mut b = tar::Builder::new(vec![]);
    let mut raw = |path: &str, kind: tar::EntryType, link: &str, data: &[u8]| {
        let mut h = tar::Header::new_gnu();
        h.set_entry_type(kind);
        h.set_mode(0o755);
        h.set_size(data.len() as u64);
        h.as_gnu_mut().unwrap().name[..path.len()].copy_from_slice(path.as_bytes());
        h.as_gnu_mut().unwrap().linkname[..link.len()].copy_from_slice(link.as_bytes());
        h.set_cksum();
        b.append(&h, data).unwrap();
    };
    let out = out.to_str().unwrap();
    for e in evil.iter().filter(|e| *e % 2 == 0) {
        match e / 2 % 5 {
            0 => raw("../evil", tar::EntryType::Regular, "", b"evil"),
            1 => raw("sub/../../../evil", tar::EntryType::Regular, "", b"evil"),
            2 => raw(&format!("{out}/evil"), tar::EntryType::Regular, "", b"evil"),
            3 => {
                raw("way", tar::EntryType::Symlink, "../..", b"");
                raw("way/evil", tar::EntryType::Regular, "", b"evil");
            }
            _ => {
                raw("way", tar::EntryType::Symlink, out, b"");
                raw("way/evil", tar::EntryType::Regular, "", b"evil");
            }
        }
    }
    for (i, (p, data)) in files.iter().enumerate() {
        if let Some((d, _)) = p.rsplit_once('/').filter(|_| i % 2 == 0) {
            let mut h = tar::Header::new_gnu();
            h.set_entry_type(tar::EntryType::Directory);
            h.set_mode(0o755);
            h.set_size(0);
            b.append_data(&mut h, format!("{d}/"), &b""[..]).unwrap();
        }
        let mut h = tar::Header::new_gnu();
        h.set_mode(0o644);
        h.set_size(data.len() as u64);
        b.append_data(&mut h, p, &data[..]).unwrap();
    }
    for e in evil.iter().filter(|e| *e % 2 == 1) {
        let mut h = tar::Header::new_gnu();
        h.set_entry_type(if e / 2 % 2 == 0 { tar::EntryType::Symlink } else { tar::EntryType::Link });
        h.set_mode(0o755);
        h.set_size(0);
        let _ = b.append_link(
            &mut h,
            "last-link",
            if e / 4 % 2 == 0 { format!("{out}/x") } else { "../../other".into() },
        );
    }
    let tar = b.into_inner().unwrap();
    let mut gz = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(1));
    std::io::Write::write_all(&mut gz, &tar).unwrap();
    gz.finish().unwrap()
}

/// Gives a few bytes at a time.
struct Drip {
    data: Cursor<Vec<u8>>,
    step: usize,
    broken: bool,
    n: usize,
    each: Arc<dyn Fn(usize) + Send + Sync>,
}
impl Read for Drip {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step.max(1));
        (self.each)(self.n);
        self.n += 1;
        let k = self.data.read(&mut b[..n])?;
        if k == 0 && self.broken {
            return Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "connection reset"));
        }
        Ok(k)
    }
}

struct Server {
    offers: BTreeMap<String, Offer>,
    index: Index,
    log: Vec<String>,
    /// A byte count, 0: everything at once.
    drip: u32,
    out: PathBuf,
    each: Arc<dyn Fn(usize) + Send + Sync>,
}
impl Server {
    fn new(out: &Path, drip: u32) -> Self {
        Server {
            offers: BTreeMap::new(),
            index: Index::Good(vec![]),
            log: vec![],
            drip,
            out: out.to_owned(),
            each: Arc::new(|_| ()),
        }
    }
    fn body(&self, mut data: Vec<u8>, cut: Option<(u16, bool)>) -> Box<dyn Read + Send> {
        if let Some((k, _)) = cut {
            data.truncate((data.len() as u64 * k as u64 / 1000) as usize);
        }
        let step = if self.drip == 0 { usize::MAX } else { self.drip as usize };
        Box::new(Drip {
            data: Cursor::new(data),
            step,
            broken: cut.is_some_and(|c| c.1),
            n: 0,
            each: self.each.clone(),
        })
    }
    fn reply(&mut self, url: &str) -> Reply {
        self.log.push(url.to_owned());
        if url == INDEX {
            return match &self.index {
                Index::Good(v) => Reply::Http(200, self.body(index_json(v), None)),
                Index::Cut(v, k) => Reply::Http(200, self.body(index_json(v), Some((*k % 1000, false)))),
                // What comes with a failure is not the index.
                Index::Status(s) => Reply::Http(*s, self.body(index_json(&[(0, 0, None), (1, 5, None)]), None)),
                Index::Junk(s) => Reply::Http(200, self.body(s.clone().into_bytes(), None)),
                Index::Down => Reply::Down,
            };
        }
        match self.offers.get(url) {
            None => Reply::Http(404, self.body(b"not found".to_vec(), None)),
            Some(Offer::Down) => Reply::Down,
            Some(Offer::Http(s, p, b)) => {
                let files = p.files();
                let body = match b {
                    Body::Good => self.body(tarball(&files, &[], &self.out), None),
                    Body::Cut(k) => self.body(tarball(&files, &[], &self.out), Some((*k % 1000, false))),
                    Body::Broken(k) => self.body(tarball(&files, &[], &self.out), Some((*k % 1000, true))),
                    Body::Junk(v) => self.body(v.clone(), None),
                    Body::Evil(e) => self.body(tarball(&files, e, &self.out), None),
                };
                Reply::Http(*s, body)
            }
        }
    }
}
fn index_json(v: &[(u8, u8, Option<String>)]) -> Vec<u8> {
    let v: Vec<_> = v
        .iter()
        .map(|(n, v, d)| {
            let s = Spec { ns: 0, name: *n, ver: *v };
            let mut o = serde_json::json!({"name": s.name(), "version": s.v(), "entrypoint": "lib.typ", "authors": ["A"]});
            if let Some(d) = d {
                o["description"] = d.clone().into();
            }
            o
        })
        .collect();
    serde_json::to_vec(&v).unwrap()
}

type Shared = Arc<Mutex<Server>>;
static SERVERS: LazyLock<Mutex<HashMap<Vec<u8>, Shared>>> = LazyLock::new(Default::default);
static ALONE: Mutex<()> = Mutex::new(());
static NEXT: AtomicU64 = AtomicU64::new(0);

/// How the certificate is given: which server one gets to depends on it.
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
enum Cert {
    Good,
    None,
    Missing,
    Bad,
}

/// A server of the case's own. Those without a certificate share one.
struct Site {
    server: Shared,
    key: Vec<u8>,
    cert: Option<Arc<Path>>,
    _alone: Option<parking_lot::MutexGuard<'static, ()>>,
}
impl Site {
    fn new(root: &Path, cert: Cert, drip: u32) -> Self {
        let alone = (cert != Cert::Good).then(|| ALONE.lock());
        let file = root.join("cert.pem");
        let key = if cert == Cert::Good {
            format!("-----BEGIN CERTIFICATE-----\n{}\n", NEXT.fetch_add(1, Ordering::SeqCst)).into_bytes()
        } else {
            vec![]
        };
        match cert {
            Cert::Good => std::fs::write(&file, &key).unwrap(),
            Cert::Bad => std::fs::write(&file, "no certificate").unwrap(),
            _ => {}
        }
        let server = Arc::new(Mutex::new(Server::new(&root.join("outside"), drip)));
        SERVERS.lock().insert(key.clone(), server.clone());
        Site {
            server,
            key,
            cert: (cert != Cert::None).then(|| file.into()),
            _alone: alone,
        }
    }
}
impl Drop for Site {
    fn drop(&mut self) {
        SERVERS.lock().remove(&self.key);
    }
}
fn network(r: Request) -> Reply {
    assert!(r.certs.len() <= 1);
    let key = r.certs.into_iter().next().unwrap_or_default();
    let server = SERVERS.lock().get(&key).cloned();
    match server {
        Some(s) => s.lock().reply(&r.url),
        None => Reply::Down,
    }
}

#[derive(Default)]
struct Bell(Mutex<Vec<PackageSpec>>);
struct Rings(Arc<Bell>);
impl Notifier for Rings {
    fn downloading(&self, spec: &PackageSpec) {
        self.0 .0.lock().push(spec.clone());
    }
}

enum Reg {
    Plain(Box<PackageStorage>),
    Whole(Box<HttpRegistry>),
}
impl Reg {
    fn storage(&self) -> &PackageStorage {
        match self {
            Reg::Plain(p) => p,
            Reg::Whole(h) => h.storage(),
        }
    }
    fn resolve(&self, s: &PackageSpec) -> Result<Arc<Path>, PackageError> {
        match self {
            Reg::Plain(p) => p.prepare_package(s),
            Reg::Whole(h) => h.resolve(s),
        }
    }
    fn packages(&self) -> Vec<(String, Option<String>)> {
        let v: &[(PackageSpec, Option<EcoString>)] = match self {
            Reg::Plain(p) => p.download_index(),
            Reg::Whole(h) => h.packages(),
        };
        let mut v: Vec<_> = v.iter().map(|(s, d)| (s.to_string(), d.as_ref().map(|d| d.to_string()))).collect();
        v.sort();
        v
    }
}

fn put(dir: &Path, files: &Files) {
    for (p, d) in files {
        let p = dir.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, d).unwrap();
    }
}
/// All files below, by path; links by what they say.
fn tree(dir: &Path) -> Files {
    fn walk(root: &Path, dir: &Path, out: &mut Files) {
        for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
            let p = e.path();
            let m = std::fs::symlink_metadata(&p);
            let key = p.strip_prefix(root).unwrap().to_string_lossy().into_owned();
            match m {
                Ok(m) if m.is_dir() => walk(root, &p, out),
                Ok(m) if m.is_symlink() => {
                    out.insert(key, format!("-> {}", std::fs::read_link(&p).unwrap().display()).into_bytes());
                }
                Ok(_) => {
                    out.insert(key, std::fs::read(&p).unwrap_or_default());
                }
                // Gone in the meantime.
                Err(_) => {}
            }
        }
    }
    let mut out = Files::new();
    walk(dir, dir, &mut out);
    out
}
fn brief(f: &Files) -> Vec<String> {
    f.iter().map(|(k, v)| format!("{k} ({} bytes)", v.len())).collect()
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    Resolve(Spec),
    Offer(Spec, Offer),
    Index(Index),
    /// In the data directory, or in the cache.
    Place(bool, Spec, Pkg),
    Remove(bool, Spec),
    Junk(Spec, u8),
    Latest(Spec),
    Packages,
    Reopen,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    data: bool,
    cache: bool,
    cert: Cert,
    drip: u32,
    ops: Vec<Op>,
}

struct World {
    _dir: Scratch,
    data: PathBuf,
    cache: PathBuf,
    outside: PathBuf,
}
impl World {
    fn new() -> Self {
        let d = Scratch::new();
        let root = d.path().join("a/b/c/d");
        let w = World {
            data: root.join("data/typst/packages"),
            cache: root.join("cache/typst/packages"),
            outside: root.join("outside"),
            _dir: d,
        };
        for d in [&w.data, &w.cache, &w.outside] {
            std::fs::create_dir_all(d).unwrap();
        }
        std::fs::write(w.outside.join("x"), "outside").unwrap();
        w
    }
    fn root(&self) -> &Path {
        self.outside.parent().unwrap()
    }
}

fn run(c: &Case) -> Verdict {
    let w = World::new();
    let site = Site::new(w.root(), c.cert, c.drip);
    let bell = Arc::new(Bell::default());
    let open = || {
        let (data, cache) = (c.data.then(|| w.data.clone().into()), c.cache.then(|| w.cache.clone().into()));
        if c.data && c.cache && c.drip % 2 == 0 {
            Reg::Whole(Box::new(HttpRegistry::new(site.cert.clone(), data, cache)))
        } else {
            Reg::Plain(Box::new(PackageStorage::new(
                cache,
                data,
                site.cert.clone(),
                Arc::new(Mutex::new(Rings(bell.clone()))),
            )))
        }
    };
    let mut reg = open();
    let mut rings = matches!(reg, Reg::Plain(_));
    // The model: what is where, and what the registry knows of the index.
    let mut here: [BTreeMap<Spec, Files>; 2] = Default::default();
    let mut junk: Vec<String> = vec![];
    let mut index: Option<Vec<(u8, u8, Option<String>)>> = None;
    let (mut hits, mut downloads) = (0, 0);
    for (at, op) in c.ops.iter().enumerate() {
        site.server.lock().log.clear();
        bell.0.lock().clear();
        // The requests that must have been made.
        let mut asked: Vec<String> = vec![];
        let know_index = |reg: &Reg, index: &mut Option<Vec<(u8, u8, Option<String>)>>| -> Result<(), Fail> {
            let s = site.server.lock();
            let n = s.log.iter().filter(|u| *u == INDEX).count();
            match index {
                Some(_) => ensure!(n == 0, "step {at}: the index was asked for again though it was there"),
                None => {
                    ensure!(n <= 1, "step {at}: the index was asked for {n} times");
                    if n == 1 {
                        if let Index::Good(v) = &s.index {
                            *index = Some(v.clone());
                        }
                    }
                }
            }
            drop(s);
            if let Some(i) = index {
                let cached = reg.storage().cached_index().map(|i| i.len());
                ensure_eq!(cached, Some(i.len()), "step {at}: entries of the index that is kept");
            }
            Ok(())
        };
        match op {
            Op::Offer(s, o) => {
                site.server.lock().offers.insert(s.url(), o.clone());
            }
            Op::Index(i) => site.server.lock().index = i.clone(),
            Op::Place(in_data, s, p) => {
                let (root, map) = if *in_data { (&w.data, &mut here[0]) } else { (&w.cache, &mut here[1]) };
                let files = p.files();
                if let std::collections::btree_map::Entry::Vacant(v) = map.entry(s.norm()) {
                    if !files.is_empty() {
                        put(&root.join(s.dir()), &files);
                        v.insert(files);
                    }
                }
            }
            Op::Remove(in_data, s) => {
                let (root, map) = if *in_data { (&w.data, &mut here[0]) } else { (&w.cache, &mut here[1]) };
                if map.remove(&s.norm()).is_some() {
                    std::fs::remove_dir_all(root.join(s.dir())).unwrap();
                }
            }
            Op::Junk(s, k) => {
                let p = format!("{}/{}/{}", s.ns(), s.name(), JUNK[*k as usize % JUNK.len()]);
                if !junk.contains(&p) {
                    std::fs::create_dir_all(w.data.join(&p)).unwrap();
                    junk.push(p);
                }
            }
            Op::Reopen => {
                reg = open();
                rings = matches!(reg, Reg::Plain(_));
                index = None;
            }
            Op::Packages => {
                let got = reg.packages();
                know_index(&reg, &mut index)?;
                let mut want: Vec<_> = index
                    .iter()
                    .flatten()
                    .map(|(n, v, d)| (Spec { ns: 0, name: *n, ver: *v }.real().to_string(), d.clone()))
                    .collect();
                want.sort();
                ensure_eq!(got, want, "step {at}: packages to choose from");
                asked = site.server.lock().log.clone();
                asked.retain(|u| u == INDEX);
            }
            Op::Latest(s) => {
                let got = reg
                    .storage()
                    .determine_latest_version(&s.real().versionless())
                    .map(|v| v.to_string())
                    .map_err(drop);
                let want = if s.ns() == "preview" {
                    know_index(&reg, &mut index)?;
                    asked = site.server.lock().log.clone();
                    asked.retain(|u| u == INDEX);
                    index
                        .iter()
                        .flatten()
                        .map(|(n, v, _)| Spec { ns: 0, name: *n, ver: *v })
                        .filter(|p| p.name() == s.name())
                        .max_by_key(|p| p.ver())
                } else {
                    here[0]
                        .keys()
                        .filter(|_| c.data)
                        .filter(|p| p.ns() == s.ns() && p.name() == s.name())
                        .max_by_key(|p| p.ver())
                        .copied()
                };
                ensure_eq!(
                    got,
                    want.map(|p| p.v()).ok_or(()),
                    "step {at}: latest version of {}",
                    s.real().versionless()
                );
            }
            Op::Resolve(s) => {
                let spec = s.real();
                let got = reg.resolve(&spec);
                let n = s.norm();
                let found = [(c.data, &w.data), (c.cache, &w.cache)]
                    .iter()
                    .zip(&here)
                    .find(|((on, _), map)| *on && map.contains_key(&n))
                    .map(|((_, root), _)| root.join(s.dir()));
                let dir = w.cache.join(s.dir());
                let nothing = |got: Result<Arc<Path>, PackageError>, ok: fn(&PackageError) -> bool| -> Result<(), Fail> {
                    match got {
                        Ok(p) => Err(format!("step {at}: {spec} resolves to {}, which cannot be", p.display()).into()),
                        Err(e) => {
                            ensure!(ok(&e), "step {at}: {spec} fails with {e:?}");
                            ensure!(!c.cache || !dir.exists(), "step {at}: {spec} failed with {e:?}, but its directory stays");
                            Ok(())
                        }
                    }
                };
                if let Some(want) = found {
                    hits += 1;
                    ensure_eq!(got.map(|p| p.to_path_buf()), Ok(want), "step {at}: place of {spec}");
                } else if c.cache && s.ns() == "preview" {
                    asked.push(s.url());
                    downloads += 1;
                    let offer = site.server.lock().offers.get(&s.url()).cloned();
                    match offer {
                        None => nothing(got, |e| matches!(e, PackageError::NotFound(_)))?,
                        Some(Offer::Down) => nothing(got, |e| matches!(e, PackageError::NetworkFailed(_)))?,
                        Some(Offer::Http(404, ..)) => nothing(got, |e| matches!(e, PackageError::NotFound(_)))?,
                        Some(Offer::Http(400.., ..)) => nothing(got, |e| matches!(e, PackageError::NetworkFailed(_)))?,
                        Some(Offer::Http(_, _, Body::Junk(_))) => nothing(got, |e| matches!(e, PackageError::MalformedArchive(_)))?,
                        Some(Offer::Http(_, p, b)) => {
                            let files = p.files();
                            match (got, &b) {
                                (Ok(p), _) => {
                                    ensure_eq!(p.to_path_buf(), dir, "step {at}: place of {spec}");
                                    let mut is = tree(&dir);
                                    if let Body::Evil(_) = b {
                                        // Links may be there, the evil file may not.
                                        let all = is.clone();
                                        is.retain(|k, v| files.contains_key(k) || !(v.starts_with(b"-> ") || v == b"evil"));
                                        here[1].insert(n, all);
                                    } else {
                                        here[1].insert(n, files.clone());
                                    }
                                    ensure!(
                                        is == files,
                                        "step {at}: {spec} was downloaded as {:?} instead of {:?}",
                                        brief(&is),
                                        brief(&files)
                                    );
                                }
                                (Err(e), Body::Good) => return Err(format!("step {at}: {spec} could not be downloaded: {e:?}").into()),
                                (got, _) => nothing(got, |e| matches!(e, PackageError::MalformedArchive(_)))?,
                            }
                        }
                    }
                } else {
                    nothing(got, |e| matches!(e, PackageError::NotFound(_)))?;
                }
                if rings {
                    ensure_eq!(
                        bell.0.lock().iter().map(|s| s.to_string()).collect::<Vec<_>>(),
                        asked.iter().map(|_| spec.to_string()).collect::<Vec<_>>(),
                        "step {at}: announced downloads"
                    );
                }
            }
        }
        ensure_eq!(site.server.lock().log, asked, "step {at}: requests");
        // Nothing else has moved.
        for (root, map) in [(&w.data, &here[0]), (&w.cache, &here[1])] {
            let want: Files = map
                .iter()
                .flat_map(|(s, f)| f.iter().map(|(k, v)| (format!("{}/{k}", s.dir()), v.clone())))
                .collect();
            let is = tree(root);
            ensure!(
                is == want,
                "step {at}: {} has {:?} instead of {:?}",
                root.display(),
                brief(&is),
                brief(&want)
            );
        }
        ensure_eq!(brief(&tree(&w.outside)), vec!["x (7 bytes)".to_string()], "step {at}: outside");
        let mut names: Vec<_> = std::fs::read_dir(w.root())
            .unwrap()
            .map(|e| e.unwrap().file_name().into_string().unwrap())
            .filter(|n| n != "cert.pem")
            .collect();
        names.sort();
        ensure_eq!(names, vec!["cache", "data", "outside"], "step {at}: next to it");
    }
    Ok(hits > 0 && downloads > 0)
}

/// Copies what is there at a moment: what a crash would leave.
fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).into_iter().flatten().flatten() {
        let (p, t) = (e.path(), to.join(e.file_name()));
        if p.is_dir() {
            copy(&p, &t);
        } else {
            let _ = std::fs::copy(&p, &t);
        }
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Crash {
    spec: Spec,
    pkg: Pkg,
    drip: u32,
    /// At which reads of the download, in thousandths.
    at: Vec<u16>,
}

/// A download that never ended must not pass for the package.
fn crash(c: &Crash) -> Verdict {
    let w = World::new();
    let files = c.pkg.files();
    let spec = Spec { ns: 0, ..c.spec };
    let site = Site::new(w.root(), Cert::Good, c.drip.max(1));
    let reads = (tarball(&files, &[], &w.outside).len() as u64 / c.drip.max(1) as u64) as usize + 1;
    let snaps: Vec<usize> = c.at.iter().map(|a| reads * (*a as usize % 1000) / 1000).collect();
    {
        let mut s = site.server.lock();
        s.offers.insert(spec.url(), Offer::Http(200, c.pkg.clone(), Body::Good));
        let (cache, root, snaps) = (w.cache.clone(), w.root().to_owned(), snaps.clone());
        s.each = Arc::new(move |n| {
            if snaps.contains(&n) {
                copy(&cache, &root.join(format!("snap{n}")));
            }
        });
    }
    let bell = || Arc::new(Mutex::new(Rings(Arc::new(Bell::default()))));
    let reg = PackageStorage::new(Some(w.cache.clone().into()), None, site.cert.clone(), bell());
    reg.prepare_package(&spec.real()).map_err(|e| format!("could not download: {e:?}"))?;
    ensure!(tree(&w.cache.join(spec.dir())) == files, "the download is incomplete");
    site.server.lock().each = Arc::new(|_| ());
    let mut partial = 0;
    for n in snaps {
        let snap = w.root().join(format!("snap{n}"));
        if !snap.exists() {
            continue;
        }
        partial += !tree(&snap).is_empty() as usize;
        let reg = PackageStorage::new(Some(snap.into()), None, site.cert.clone(), bell());
        let got = reg.prepare_package(&spec.real());
        let p = got.map_err(|e| format!("after a crash at read {n} of {reads}, {} cannot be had: {e:?}", spec.real()))?;
        let is = tree(&p);
        ensure!(
            is == files,
            "after a crash at read {n} of {reads} of the download, {} is {:?} instead of {:?}",
            spec.real(),
            brief(&is),
            brief(&files)
        );
    }
    Ok(partial > 0)
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Race {
    pkgs: Vec<Pkg>,
    /// Which package, and whether with a registry of its own.
    threads: Vec<(u8, bool)>,
    drip: u32,
    /// Requests that fail, by their number.
    fail: Vec<u8>,
    pause: u8,
}

/// Several that need the same packages at the same time.
fn race(c: &Race) -> Verdict {
    let w = World::new();
    let site = Site::new(w.root(), Cert::Good, c.drip.max(1));
    let specs: Vec<Spec> = (0..c.pkgs.len())
        .map(|i| Spec {
            ns: 0,
            name: (i / 2) as u8,
            ver: i as u8,
        })
        .collect();
    let files: Vec<Files> = c.pkgs.iter().map(|p| p.files()).collect();
    {
        let mut s = site.server.lock();
        for (s1, p) in specs.iter().zip(&c.pkgs) {
            s.offers.insert(s1.url(), Offer::Http(200, p.clone(), Body::Good));
        }
        let pause = c.pause as u64;
        s.each = Arc::new(move |n| {
            if n < 12 {
                std::thread::sleep(std::time::Duration::from_micros(pause * 8));
            }
        });
    }
    // Some requests break off.
    let count = Arc::new(AtomicUsize::new(0));
    let fail: Vec<usize> = c.fail.iter().map(|f| *f as usize % c.threads.len().max(1)).collect();
    let key = site.key.clone();
    HOOKS.lock().insert(key.clone(), (count.clone(), fail.clone()));
    let open = || {
        Arc::new(PackageStorage::new(
            Some(w.cache.clone().into()),
            Some(w.data.clone().into()),
            site.cert.clone(),
            Arc::new(Mutex::new(Rings(Arc::new(Bell::default())))),
        ))
    };
    let shared = open();
    let barrier = Arc::new(Barrier::new(c.threads.len()));
    let results: Vec<_> = c
        .threads
        .iter()
        .map(|(k, own)| {
            let i = *k as usize % specs.len();
            let (reg, b, spec) = (if *own { open() } else { shared.clone() }, barrier.clone(), specs[i].real());
            std::thread::spawn(move || {
                b.wait();
                let r = reg.prepare_package(&spec);
                (i, r.map(|p| tree(&p)))
            })
        })
        .collect::<Vec<_>>()
        .into_iter()
        .map(|t| t.join().map_err(|_| "a thread panicked".to_string()))
        .collect::<Result<_, _>>()?;
    HOOKS.lock().remove(&key);
    let broke = !fail.is_empty() && count.load(Ordering::SeqCst) > 0;
    for (i, r) in results {
        match r {
            Ok(is) => ensure!(
                is == files[i],
                "{} was given as {:?} instead of {:?}",
                specs[i].real(),
                brief(&is),
                brief(&files[i])
            ),
            Err(e) => ensure!(
                broke && matches!(e, PackageError::MalformedArchive(_)),
                "{} fails with {e:?}",
                specs[i].real()
            ),
        }
    }
    // Later all is well.
    let mut want = Files::new();
    for (s, f) in specs.iter().zip(&files) {
        let p = open()
            .prepare_package(&s.real())
            .map_err(|e| format!("afterwards {} fails with {e:?}", s.real()))?;
        let is = tree(&p);
        ensure!(is == *f, "afterwards {} is {:?} instead of {:?}", s.real(), brief(&is), brief(f));
        want.extend(f.iter().map(|(k, v)| (format!("{}/{k}", s.dir()), v.clone())));
    }
    let is = tree(&w.cache);
    ensure!(is == want, "the cache has {:?} instead of {:?}", brief(&is), brief(&want));
    let mut ks: Vec<_> = c.threads.iter().map(|t| t.0 as usize % specs.len()).collect();
    ks.sort();
    Ok(ks.windows(2).any(|w| w[0] == w[1]))
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Apart {
    spec: Spec,
    pkg: Pkg,
    drip: u32,
    /// How long each process waits at the first reads.
    pauses: Vec<u8>,
}

/// Several processes that need the same package at the same time.
fn apart(c: &Apart) -> Verdict {
    use std::io::{BufRead, BufReader, Write};
    use std::process::{Command, Stdio};
    let w = World::new();
    let spec = Spec { ns: 0, ..c.spec };
    let files = c.pkg.files();
    let mut kids = vec![];
    for (i, pause) in c.pauses.iter().enumerate() {
        let home = w.root().join(format!("process{i}"));
        std::fs::create_dir_all(home.join("outside")).unwrap();
        let job = serde_json::to_string(&(&home, &w.cache, spec, &c.pkg, c.drip, pause)).unwrap();
        let mut kid = Command::new(std::env::current_exe().unwrap())
            .env("C58_JOB", job)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("cannot start a process: {e}"))?;
        let out = BufReader::new(kid.stdout.take().unwrap());
        kids.push((kid, out));
    }
    let mut line = String::new();
    for (_, out) in &mut kids {
        out.read_line(&mut line).map_err(|e| e.to_string())?;
    }
    for (kid, _) in &mut kids {
        kid.stdin.take().unwrap().write_all(b"go\n").map_err(|e| e.to_string())?;
    }
    let mut said = vec![];
    for (mut kid, mut out) in kids {
        let mut line = String::new();
        out.read_line(&mut line).map_err(|e| e.to_string())?;
        kid.wait().map_err(|e| e.to_string())?;
        said.push(line.trim().to_owned());
    }
    ensure!(said.iter().all(|s| s == "all"), "of several processes that need {} at once: {said:?}", spec.real());
    let want: Files = files.iter().map(|(k, v)| (format!("{}/{k}", spec.dir()), v.clone())).collect();
    let is = tree(&w.cache);
    ensure!(is == want, "the cache has {:?} instead of {:?}", brief(&is), brief(&want));
    Ok(files.len() > 1)
}
/// What each of them does.
fn job(job: &str) {
    let (home, cache, spec, pkg, drip, pause): (PathBuf, PathBuf, Spec, Pkg, u32, u8) = serde_json::from_str(job).unwrap();
    let site = Site::new(&home, Cert::Good, drip.max(1));
    {
        let mut s = site.server.lock();
        s.offers.insert(spec.url(), Offer::Http(200, pkg.clone(), Body::Good));
        s.each = Arc::new(move |n| {
            if n < 8 {
                std::thread::sleep(std::time::Duration::from_micros(pause as u64 * 8));
            }
        });
    }
    let reg = PackageStorage::new(Some(cache.into()), None, site.cert.clone(), Arc::new(Mutex::new(Rings(Arc::new(Bell::default())))));
    println!("ready");
    std::io::stdin().read_line(&mut String::new()).unwrap();
    match reg.prepare_package(&spec.real()).map(|p| tree(&p)) {
        Ok(is) if is == pkg.files() => println!("all"),
        Ok(is) => println!("{:?} instead of {:?}", brief(&is), brief(&pkg.files())),
        Err(e) => println!("fails with {e:?}"),
    }
}

/// Requests counted, and those that break off.
type Hook = (Arc<AtomicUsize>, Vec<usize>);
static HOOKS: LazyLock<Mutex<HashMap<Vec<u8>, Hook>>> = LazyLock::new(Default::default);
fn net(r: Request) -> Reply {
    let key = r.certs.first().cloned().unwrap_or_default();
    let hook = HOOKS.lock().get(&key).cloned();
    let broken = hook.is_some_and(|(n, fail)| fail.contains(&n.fetch_add(1, Ordering::SeqCst)));
    match network(r) {
        Reply::Http(s, mut b) if broken => {
            let mut head = vec![0; 1500];
            let n = b.read(&mut head).unwrap_or(0);
            head.truncate(n / 2);
            Reply::Http(s, Box::new(Cursor::new(head).chain(Cursor::new(vec![]))))
        }
        r => r,
    }
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Packs {
    name: u8,
    ver: u8,
    offer: Option<Offer>,
    drip: u32,
    by_url: bool,
}

/// The same packages as containers to copy from.
fn packs(c: &Packs) -> Verdict {
    let w = World::new();
    let site = Site::new(w.root(), Cert::None, c.drip);
    let spec = Spec {
        ns: 0,
        name: c.name,
        ver: c.ver,
    };
    let url = if c.by_url {
        "https://example.org/x.tar.gz".to_string()
    } else {
        spec.url()
    };
    if let Some(o) = &c.offer {
        site.server.lock().offers.insert(url.clone(), o.clone());
    }
    let mut got = Files::new();
    let mut take = |p: &str, mut f: tinymist_package::PackFile| -> Result<(), PackageError> {
        let mut v = vec![];
        f.read_to_end(&mut v).map_err(|e| PackageError::Other(Some(e.to_string().into())))?;
        got.insert(p.to_owned(), v);
        Ok(())
    };
    let r = if c.by_url {
        HttpPack::new(spec.real(), url.clone()).read_all(&mut take)
    } else {
        UniversePack::new(spec.real()).read_all(&mut take)
    };
    ensure_eq!(site.server.lock().log, vec![url], "requests");
    match (&c.offer, r) {
        (None | Some(Offer::Http(404, ..)), Err(PackageError::NotFound(s))) => ensure_eq!(s, spec.real(), "the package that was not found"),
        (Some(Offer::Down) | Some(Offer::Http(400.., ..)), Err(PackageError::NetworkFailed(_))) => {}
        (Some(Offer::Http(200, p, Body::Good)), Ok(())) => {
            ensure!(got == p.files(), "read {:?} instead of {:?}", brief(&got), brief(&p.files()));
            return Ok(!got.is_empty());
        }
        (Some(Offer::Http(200, p, b)), r) if !matches!(b, Body::Good) => {
            // Whatever was given is what the package has.
            let f = p.files();
            ensure!(!matches!((b, &r), (Body::Junk(_), Ok(()))), "junk was taken for a package");
            if r.is_ok() {
                ensure!(
                    f.iter().all(|(k, v)| got.get(k) == Some(v)),
                    "read {:?} instead of {:?}",
                    brief(&got),
                    brief(&f)
                );
            }
        }
        (o, r) => return Err(format!("{o:?} gives {r:?}").into()),
    }
    Ok(false)
}

/// Where packages are when no place is configured.
fn places(_: &u8) -> Verdict {
    let home = PathBuf::from(std::env::var("HOME").unwrap());
    let var = |k: &str, d: &str| {
        std::env::var_os(k)
            .map(PathBuf::from)
            .unwrap_or_else(|| home.join(d))
            .join("typst/packages")
    };
    let (data, cache) = (var("XDG_DATA_HOME", ".local/share"), var("XDG_CACHE_HOME", ".cache"));
    let mine: Arc<Path> = Path::new("/x/y").into();
    for (a, b) in [
        (None, None),
        (Some(mine.clone()), None),
        (None, Some(mine.clone())),
        (Some(mine.clone()), Some(Path::new("/z").into())),
    ] {
        let r = HttpRegistry::new(None, a.clone(), b.clone());
        let want = [
            a.map(|a| a.to_path_buf()).unwrap_or(data.clone()),
            b.map(|a| a.to_path_buf()).unwrap_or(cache.clone()),
        ];
        ensure_eq!(r.paths().iter().map(|p| p.to_path_buf()).collect::<Vec<_>>(), want.to_vec(), "places");
        ensure_eq!(r.local_path().map(|p| p.to_path_buf()), Some(want[0].clone()), "place of local packages");
    }
    Ok(true)
}

fn spec() -> BoxedStrategy<Spec> {
    bx((
        prop_oneof![6 => Just(0u8), 3 => Just(1u8), 1 => 2u8..4],
        prop_oneof![3 => Just(0u8), 2 => 0u8..5],
        prop_oneof![3 => 0u8..3, 2 => 0u8..8],
    )
        .prop_map(|(ns, name, ver)| Spec { ns, name, ver }))
}
fn pkg(big: bool) -> BoxedStrategy<Pkg> {
    let path = prop_oneof![
        4 => prop::sample::select(vec!["typst.toml", "lib.typ", "src/lib.typ", "src/a/b.typ", "evil", "LICENSE", "src", ".hidden", "a b/ü.typ"]).prop_map(str::to_owned),
        2 => "[a-z]{1,4}(/[a-z]{1,3}){0,2}\\.typ",
        1 => "[a-z]{90,120}/[a-z]{1,30}",
    ];
    let size = if big {
        bx(prop_oneof![2 => 0u32..3000, 2 => 3000u32..60_000])
    } else {
        bx(prop_oneof![4 => 0u32..600, 1 => 0u32..20_000])
    };
    bx((
        prop::bool::weighted(0.85),
        prop::collection::vec((path, size, any::<u8>()), 0..if big { 12 } else { 6 }),
    )
        .prop_map(|(manifest, mut v)| {
            if manifest {
                v.insert(0, ("typst.toml".to_string(), 40, 1u8));
            } else if v.is_empty() {
                v.push(("lib.typ".to_string(), 7, 2u8));
            }
            Pkg(v)
        }))
}
fn offer() -> BoxedStrategy<Offer> {
    let body = prop_oneof![
        12 => Just(Body::Good),
        2 => (0u16..1000).prop_map(Body::Cut),
        2 => (0u16..1000).prop_map(Body::Broken),
        1 => prop::collection::vec(any::<u8>(), 0..40).prop_map(Body::Junk),
        2 => prop::collection::vec(any::<u8>(), 1..4).prop_map(Body::Evil),
    ];
    let status = prop_oneof![16 => Just(200u16), 1 => Just(404u16), 1 => prop::sample::select(vec![400u16, 403, 410, 429, 500, 503])];
    bx(prop_oneof![12 => (status, pkg(false), body).prop_map(|(s, p, b)| Offer::Http(s, p, b)), 1 => Just(Offer::Down)])
}
fn index() -> BoxedStrategy<Index> {
    let entries = || prop::collection::vec((0u8..5, 0u8..8, prop::option::of("[ -~é]{0,12}")), 0..12);
    bx(prop_oneof![
        8 => entries().prop_map(Index::Good),
        1 => (entries(), 0u16..1000).prop_map(|(e, k)| Index::Cut(e, k)),
        1 => prop::sample::select(vec![404u16, 403, 500]).prop_map(Index::Status),
        1 => prop::sample::select(vec!["", "{}", "[1]", "[{\"name\": \"cetz\"}]", "<html>", "null"]).prop_map(|s| Index::Junk(s.into())),
        1 => Just(Index::Down),
    ])
}
fn case() -> BoxedStrategy<Case> {
    let op = prop_oneof![
        10 => spec().prop_map(Op::Resolve),
        6 => (spec(), offer()).prop_map(|(s, o)| Op::Offer(s, o)),
        2 => index().prop_map(Op::Index),
        3 => (any::<bool>(), spec(), pkg(false)).prop_map(|(d, s, p)| Op::Place(d, s, p)),
        2 => (any::<bool>(), spec()).prop_map(|(d, s)| Op::Remove(d, s)),
        1 => (spec(), any::<u8>()).prop_map(|(s, k)| Op::Junk(s, k)),
        4 => spec().prop_map(Op::Latest),
        2 => Just(Op::Packages),
        2 => Just(Op::Reopen),
    ];
    let cert = prop_oneof![12 => Just(Cert::Good), 1 => Just(Cert::None), 1 => Just(Cert::Missing), 1 => Just(Cert::Bad)];
    bx((
        prop::bool::weighted(0.85),
        prop::bool::weighted(0.9),
        cert,
        prop_oneof![2 => Just(0u32), 3 => 1u32..3000],
        prop::collection::vec(op, 1..24),
    )
        .prop_map(|(data, cache, cert, drip, ops)| Case {
            data,
            cache,
            cert,
            drip,
            ops,
        }))
}

fn main() {
    reqwest::network(net);
    if let Ok(j) = std::env::var("C58_JOB") {
        return job(&j);
    }
    Check::main(
        "C58",
        "histories of packages placed and removed in the data and cache directories, offered by a server that answers well, badly, partly or not at all, and resolved, listed and asked for their latest version; downloads cut off at any read; several threads or processes that download the same at once; non-trivial: something was found and something downloaded (histories), a file of the package was there at the crash (crash), two threads wanted the same package (race), it has several files (processes), files were read (packs)",
        |c| {
            c.assume("the network is a stand-in for reqwest's blocking client; archives are read by the real flate2 and tar crates");
            c.assume("whether an index that could not be had is asked for again is left open");
            c.prop("histories", Opts::new(12_000).thorough(40), case, run);
            c.prop(
                "crash",
                Opts::new(3000).thorough(40).shrink(300),
                || bx((spec(), pkg(true), prop_oneof![1 => 100u32..3000, 1 => 3000u32..40_000], prop::collection::vec(0u16..1000, 1..5)).prop_map(|(spec, pkg, drip, at)| Crash { spec, pkg, drip, at })),
                crash,
            );
            c.prop(
                "race",
                Opts::new(2000).thorough(40).shards(6).retries(10).shrink(200),
                || {
                    bx((
                        prop::collection::vec(pkg(true), 1..4),
                        prop::collection::vec((any::<u8>(), any::<bool>()), 2..7),
                        500u32..20_000,
                        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 1..3)],
                        any::<u8>(),
                    )
                        .prop_map(|(pkgs, threads, drip, fail, pause)| Race { pkgs, threads, drip, fail, pause }))
                },
                race,
            );
            c.prop(
                "processes",
                Opts::new(300).thorough(40).shards(4).retries(10).shrink(60),
                || bx((spec(), pkg(true), 500u32..20_000, prop::collection::vec(any::<u8>(), 2..4)).prop_map(|(spec, pkg, drip, pauses)| Apart { spec, pkg, drip, pauses })),
                apart,
            );
            c.prop(
                "packs",
                Opts::new(3000).thorough(20),
                || bx((any::<u8>(), any::<u8>(), prop::option::weighted(0.9, offer()), prop_oneof![1 => Just(0u32), 1 => 1u32..3000], any::<bool>()).prop_map(|(name, ver, offer, drip, by_url)| Packs { name, ver, offer, drip, by_url })),
                packs,
            );
            c.each("places", [0u8], places);
        },
    )
}
