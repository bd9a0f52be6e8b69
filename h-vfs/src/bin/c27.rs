//! C27: what a file reads as, per revision, through overlays, watcher and disk.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::Duration;
use tinymist_std::ImmutPath;
use tinymist_vfs::{FileChangeSet, FileId, FilesystemEvent, FileSnapshot, PathAccessModel, RootResolver, Vfs, WorkspaceResolver};
use typst::diag::{FileError, FileResult, PackageError};
use typst::foundations::Bytes;
use typst::syntax::package::{PackageSpec, PackageVersion};
use typst::syntax::VirtualPath;
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Hex, Opts, Verdict};

// ---- The universe of files -------------------------------------------------

const PATHS: [&str; 8] = ["/w0/a.typ", "/w0/b.typ", "/w0/sub/c.typ", "/w1/a.typ", "/w1/b.typ", "/pkg/lib.typ", "/nowhere/x.typ", "/w0/sub/d.typ"];

struct Ids {
    ids: Vec<FileId>,
    /// Where each id resolves to; `Err` when it has no path.
    paths: Vec<Option<PathBuf>>,
    errs: Vec<Option<FileError>>,
}

fn spec(ns: &str, name: &str) -> PackageSpec {
    PackageSpec { namespace: ns.into(), name: name.into(), version: PackageVersion { major: 1, minor: 2, patch: 3 } }
}

fn ids() -> &'static Ids {
    static IDS: OnceLock<Ids> = OnceLock::new();
    IDS.get_or_init(|| {
        let w = |r: &str, p: &str| WorkspaceResolver::workspace_file(Some(&ImmutPath::from(Path::new(r))), VirtualPath::new(p));
        let mut out = Ids { ids: vec![], paths: vec![], errs: vec![] };
        let mut add = |id, p: Option<&str>, e: Option<FileError>| {
            assert!(!out.ids.contains(&id), "harness: two files with one id");
            out.ids.push(id);
            out.paths.push(p.map(PathBuf::from));
            out.errs.push(e);
        };
        add(w("/w0", "a.typ"), Some("/w0/a.typ"), None);
        add(w("/w0", "b.typ"), Some("/w0/b.typ"), None);
        add(w("/w0", "sub/c.typ"), Some("/w0/sub/c.typ"), None);
        // The same file through a nested root.
        add(w("/w0/sub", "c.typ"), Some("/w0/sub/c.typ"), None);
        add(w("/w0/sub", "d.typ"), Some("/w0/sub/d.typ"), None);
        add(w("/w1", "a.typ"), Some("/w1/a.typ"), None);
        add(w("/w1", "x/../b.typ"), Some("/w1/b.typ"), None);
        add(FileId::new(Some(spec("preview", "pkg")), VirtualPath::new("lib.typ")), Some("/pkg/lib.typ"), None);
        add(FileId::new(Some(spec("preview", "gone")), VirtualPath::new("lib.typ")), None, Some(FileError::Package(PackageError::NotFound(spec("preview", "gone")))));
        add(w("/w0", "../w1/a.typ"), None, Some(FileError::AccessDenied));
        add(WorkspaceResolver::rootless_file(VirtualPath::new("a.typ")), None, Some(FileError::AccessDenied));
        add(WorkspaceResolver::rooted_untitled(Some(&ImmutPath::from(Path::new("/w0"))), VirtualPath::new("a.typ")), None, Some(FileError::AccessDenied));
        out
    })
}

struct Resolver;
impl RootResolver for Resolver {
    fn resolve_package_root(&self, p: &PackageSpec) -> FileResult<ImmutPath> {
        match p.name.as_str() {
            "pkg" => Ok(Path::new("/pkg").into()),
            _ => Err(FileError::Package(PackageError::NotFound(p.clone()))),
        }
    }
}

// ---- Contents --------------------------------------------------------------

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq)]
enum Val {
    Data(Hex),
    NotFound,
    Denied,
    IsDir,
    Other(String),
}

type Seen = Result<Vec<u8>, FileError>;

impl Val {
    fn seen(&self, p: &Path) -> Seen {
        match self {
            Val::Data(d) => Ok(d.0.clone()),
            Val::NotFound => Err(FileError::NotFound(p.into())),
            Val::Denied => Err(FileError::AccessDenied),
            Val::IsDir => Err(FileError::IsDirectory),
            Val::Other(s) => Err(FileError::Other(Some(s.as_str().into()))),
        }
    }
    fn snap(&self, p: &Path) -> FileSnapshot {
        FileSnapshot::from(self.seen(p).map(Bytes::new))
    }
}

fn val() -> BoxedStrategy<Val> {
    let piece = prop_oneof![
        Just("#let a = 1\n".to_string()), Just("é".into()), Just("".into()), Just("\r\n".into()), Just("\u{feff}".into()), Just("x".into()), Just("😀".into()),
        vcommon::gen::text(4)
    ];
    prop_oneof![
        8 => prop::collection::vec(piece, 0..4).prop_map(|v| Val::Data(Hex(v.concat().into_bytes()))),
        // A byte order mark, complete or not, and bytes that are no text.
        1 => prop::collection::vec(any::<u8>(), 0..4).prop_map(|v| Val::Data(Hex([b"\xef\xbb\xbf".as_slice(), &v].concat()))),
        1 => prop::collection::vec(any::<u8>(), 0..5).prop_map(|v| Val::Data(Hex(v))),
        1 => prop::sample::select(vec![Val::NotFound, Val::Denied, Val::IsDir, Val::Other("io".into())]),
    ]
    .boxed()
}

// ---- The disk --------------------------------------------------------------

#[derive(Default)]
struct Gate {
    path: Option<PathBuf>,
    /// Takes the content before waiting (else after).
    before: bool,
    arrived: bool,
    open: bool,
}

#[derive(Default)]
struct DiskInner {
    now: u64,
    /// Every content a path ever had, with the time it got it.
    hist: BTreeMap<PathBuf, Vec<(u64, Val)>>,
    reads: u64,
}

#[derive(Clone, Default)]
struct Disk {
    inner: Arc<Mutex<DiskInner>>,
    gate: Arc<(Mutex<Gate>, Condvar)>,
}

impl Disk {
    fn now(&self) -> u64 {
        self.inner.lock().unwrap().now
    }
    fn tick(&self) -> u64 {
        let mut d = self.inner.lock().unwrap();
        d.now += 1;
        d.now
    }
    fn write(&self, p: &Path, v: &Val) {
        let mut d = self.inner.lock().unwrap();
        d.now += 1;
        let t = d.now;
        d.hist.entry(p.into()).or_default().push((t, v.clone()));
    }
    fn get(&self, p: &Path) -> Seen {
        let mut d = self.inner.lock().unwrap();
        d.reads += 1;
        d.hist.get(p).and_then(|h| h.last()).map_or(Err(FileError::NotFound(p.into())), |(_, v)| v.seen(p))
    }
    /// What the path contained at some time in `since..`.
    fn window(&self, p: &Path, since: u64) -> Vec<Seen> {
        let d = self.inner.lock().unwrap();
        let h = d.hist.get(p).map(|h| h.as_slice()).unwrap_or(&[]);
        let first = h.iter().rposition(|(t, _)| *t <= since);
        let mut out: Vec<Seen> = h[first.unwrap_or(0)..].iter().map(|(_, v)| v.seen(p)).collect();
        if first.is_none() {
            out.push(Err(FileError::NotFound(p.into())));
        }
        out
    }
}

impl PathAccessModel for Disk {
    fn content(&self, src: &Path) -> FileResult<Bytes> {
        let (m, cv) = &*self.gate;
        let mut g = m.lock().unwrap();
        if g.path.as_deref() == Some(src) && !g.arrived {
            let early = g.before.then(|| self.get(src));
            g.arrived = true;
            cv.notify_all();
            let (g2, timeout) = cv.wait_timeout_while(g, Duration::from_secs(20), |g| !g.open).unwrap();
            drop(g2);
            assert!(!timeout.timed_out(), "harness: nobody opened the gate");
            return early.unwrap_or_else(|| self.get(src)).map(Bytes::new);
        }
        drop(g);
        self.get(src).map(Bytes::new)
    }
}

// ---- The model -------------------------------------------------------------

/// What one handle should see.
#[derive(Clone, Default)]
struct Layers {
    by_id: BTreeMap<usize, Val>,
    by_path: BTreeMap<PathBuf, Val>,
    watched: BTreeMap<PathBuf, Val>,
    /// Disk contents older than these times must not be seen.
    path_since: BTreeMap<PathBuf, u64>,
    id_since: BTreeMap<usize, u64>,
    base: u64,
}

enum Want {
    Exactly(Seen),
    /// From the disk: the path, and since when.
    Disk(PathBuf, u64),
}

impl Layers {
    fn want(&self, i: usize) -> Want {
        let u = ids();
        if let Some(v) = self.by_id.get(&i) {
            return Want::Exactly(v.seen(Path::new(SHADOWED)));
        }
        let Some(p) = &u.paths[i] else { return Want::Exactly(Err(u.errs[i].clone().unwrap())) };
        if let Some(v) = self.by_path.get(p).or_else(|| self.watched.get(p)) {
            return Want::Exactly(v.seen(p));
        }
        let since = self.base.max(self.path_since.get(p).copied().unwrap_or(0)).max(self.id_since.get(&i).copied().unwrap_or(0));
        Want::Disk(p.clone(), since)
    }
    fn fixed(&self, i: usize) -> Option<Seen> {
        match self.want(i) {
            Want::Exactly(s) => Some(s),
            Want::Disk(..) => None,
        }
    }
}
const SHADOWED: &str = "/shadow";

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Edit {
    Map(u8, Val),
    Unmap(u8),
    MapId(u8, Val),
    UnmapId(u8),
    Notify { removes: Vec<u8>, inserts: Vec<(u8, Val)>, event: bool },
    ResetShadow,
    ResetCache,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    Disk(u8, Val),
    Revise(u8, Vec<Edit>),
    Read(u8, u8),
    Source(u8, u8),
    ReadAll(u8),
    Snapshot(u8),
    Fork(u8),
    Drop(u8),
    Evict(u8, u8),
    EvictSources(u8, u8),
    TakeSources(u8),
    Clean(u8, u8, Vec<u8>),
    /// A thread reads a file and hangs inside the disk.
    Hang { h: u8, id: u8, source: bool, before: bool },
    Release,
    ResetAll(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    disk: Vec<(u8, Val)>,
    ops: Vec<Op>,
}

struct Handle {
    vfs: Vfs<Disk>,
    layers: Layers,
    /// The answers given so far in this revision.
    given: BTreeMap<usize, Seen>,
    /// The fixed contents at the end of each revision.
    history: BTreeMap<usize, Vec<Option<Seen>>>,
}

impl Handle {
    fn remember(&mut self) {
        let now = (0..ids().ids.len()).map(|i| self.layers.fixed(i)).collect();
        self.history.insert(self.vfs.revision().get(), now);
    }
}

fn strip(b: &[u8]) -> &[u8] {
    b.strip_prefix(b"\xef\xbb\xbf").unwrap_or(b)
}
fn as_source(s: &Seen) -> Result<String, FileError> {
    s.clone().and_then(|b| std::str::from_utf8(strip(&b)).map(str::to_owned).map_err(|_| FileError::InvalidUtf8))
}

fn show(s: &Seen) -> String {
    match s {
        Ok(b) => format!("{:?}", String::from_utf8_lossy(b)),
        Err(e) => format!("{e:?}"),
    }
}

fn allowed(disk: &Disk, l: &Layers, i: usize) -> Vec<Seen> {
    match l.want(i) {
        Want::Exactly(s) => vec![s],
        Want::Disk(p, since) => disk.window(&p, since),
    }
}

fn check_read(disk: &Disk, h: &mut Handle, n: usize, i: usize, source: bool, at: &str) -> Result<(), vcommon::Fail> {
    let id = ids().ids[i];
    let got: Seen = if source {
        let s = no_panic(|| h.vfs.source(id))?;
        if let Ok(s) = &s {
            ensure!(s.id() == id, "{at}: the source of {id:?} carries the id {:?}", s.id());
        }
        let text = s.map(|s| s.text().to_owned());
        let bytes = no_panic(|| h.vfs.read(id))?.map(|b| b.to_vec());
        ensure_eq!(text, as_source(&bytes), "{at}: source of {id:?} against its bytes {}", show(&bytes));
        bytes
    } else {
        no_panic(|| h.vfs.read(id))?.map(|b| b.to_vec())
    };
    let want = allowed(disk, &h.layers, i);
    ensure!(
        want.contains(&got),
        "{at}: handle {n} at revision {} reads {id:?} as {}; it should be {}",
        h.vfs.revision(),
        show(&got),
        want.iter().map(show).collect::<Vec<_>>().join(" or ")
    );
    if let Some(prev) = h.given.insert(i, got.clone()) {
        ensure!(prev == got, "{at}: handle {n} at revision {} reads {id:?} as {}, and read it as {} before", h.vfs.revision(), show(&got), show(&prev));
    }
    Ok(())
}

fn apply(disk: &Disk, h: &mut Handle, edits: &[Edit], at: &str) -> Result<(), vcommon::Fail> {
    let u = ids();
    let t = disk.tick();
    let before: Vec<Option<Seen>> = (0..u.ids.len()).map(|i| h.layers.fixed(i)).collect();
    let rev = h.vfs.revision();
    let mut must_bump = false;
    let l = &mut h.layers;
    let mut touched: BTreeSet<usize> = BTreeSet::new();
    let path = |k: u8| Path::new(PATHS[k as usize % PATHS.len()]);
    let idx = |k: u8| k as usize % u.ids.len();
    let hit = |touched: &mut BTreeSet<usize>, p: &Path| {
        touched.extend((0..u.ids.len()).filter(|&i| u.paths[i].as_deref() == Some(p)));
    };
    {
        let mut r = h.vfs.revise();
        for e in edits {
            match e {
                Edit::Map(k, v) => {
                    let res = no_panic(|| r.map_shadow(path(*k), v.snap(path(*k))))?;
                    ensure!(res.is_ok(), "{at}: mapping {:?} failed: {res:?}", path(*k));
                    l.by_path.insert(path(*k).into(), v.clone());
                    l.path_since.insert(path(*k).into(), t);
                    hit(&mut touched, path(*k));
                    must_bump = true;
                }
                Edit::Unmap(k) => {
                    let res = no_panic(|| r.unmap_shadow(path(*k)))?;
                    ensure!(res.is_ok(), "{at}: unmapping {:?} failed: {res:?}", path(*k));
                    l.by_path.remove(path(*k));
                    l.path_since.insert(path(*k).into(), t);
                    hit(&mut touched, path(*k));
                }
                Edit::MapId(k, v) => {
                    let res = no_panic(|| r.map_shadow_by_id(u.ids[idx(*k)], v.snap(Path::new(SHADOWED))))?;
                    ensure!(res.is_ok(), "{at}: mapping {:?} failed: {res:?}", u.ids[idx(*k)]);
                    l.by_id.insert(idx(*k), v.clone());
                    touched.insert(idx(*k));
                    must_bump = true;
                }
                Edit::UnmapId(k) => {
                    no_panic(|| r.remove_shadow_by_id(u.ids[idx(*k)]))?;
                    l.by_id.remove(&idx(*k));
                    l.id_since.insert(idx(*k), t);
                    touched.insert(idx(*k));
                }
                Edit::Notify { removes, inserts, event } => {
                    let mut set = FileChangeSet::new_removes(removes.iter().map(|&k| path(k).into()).collect());
                    for (k, v) in inserts {
                        set.may_insert(Some((path(*k).into(), v.snap(path(*k)))));
                    }
                    no_panic(|| if *event { r.notify_fs_event(FilesystemEvent::Update(set)) } else { r.notify_fs_changes(set) })?;
                    for &k in removes {
                        l.watched.remove(path(k));
                        l.path_since.insert(path(k).into(), t);
                        hit(&mut touched, path(k));
                    }
                    for (k, v) in inserts {
                        l.watched.insert(path(*k).into(), v.clone());
                        l.path_since.insert(path(*k).into(), t);
                        hit(&mut touched, path(*k));
                    }
                }
                Edit::ResetShadow => {
                    no_panic(|| r.reset_shadow())?;
                    for p in std::mem::take(&mut l.by_path).into_keys() {
                        hit(&mut touched, &p);
                        l.path_since.insert(p, t);
                    }
                    for i in std::mem::take(&mut l.by_id).into_keys() {
                        touched.insert(i);
                        l.id_since.insert(i, t);
                    }
                }
                Edit::ResetCache => {
                    no_panic(|| r.reset_cache())?;
                    l.base = t;
                    touched.extend(0..u.ids.len());
                }
            }
        }
    }
    let next = h.vfs.revision();
    ensure!(next >= rev, "{at}: the revision went from {rev} to {next}");
    if edits.is_empty() {
        ensure!(next == rev, "{at}: revising without an edit went from revision {rev} to {next}");
    }
    let changed = (0..u.ids.len()).find(|&i| h.given.contains_key(&i) && before[i].is_some() && h.layers.fixed(i) != before[i]);
    if let Some(i) = changed {
        ensure!(next > rev, "{at}: {:?} was read and is different now, in the same revision {rev}", u.ids[i]);
    }
    if must_bump {
        ensure!(next > rev, "{at}: an overlay was added and the revision is still {rev}");
    }
    // Files that are not touched may be read anew from the disk.
    let l = &h.layers;
    h.given.retain(|i, _| !touched.contains(i) && l.fixed(*i).is_some());
    // Dropping the slots forgets when they changed.
    if edits.iter().any(|e| matches!(e, Edit::ResetCache)) {
        h.history.clear();
    }
    h.remember();
    let mut want: Vec<PathBuf> = h.layers.by_path.keys().cloned().collect();
    let mut got: Vec<PathBuf> = h.vfs.shadow_paths().iter().map(|p| p.to_path_buf()).collect();
    want.sort();
    got.sort();
    ensure_eq!(got, want, "{at}: the paths with an overlay");
    let mut want: Vec<FileId> = h.layers.by_id.keys().map(|&i| u.ids[i]).collect();
    let mut got = h.vfs.shadow_ids();
    want.sort();
    got.sort();
    ensure_eq!(got, want, "{at}: the ids with an overlay");
    Ok(())
}

struct Hanging {
    thread: std::thread::JoinHandle<Seen>,
    layers: Layers,
    id: usize,
}

fn release(disk: &Disk, hanging: &mut Option<Hanging>, at: &str) -> Result<(), vcommon::Fail> {
    let Some(h) = hanging.take() else { return Ok(()) };
    {
        let (m, cv) = &*disk.gate;
        m.lock().unwrap().open = true;
        cv.notify_all();
    }
    let got = h.thread.join().map_err(|_| vcommon::Fail::from("a reading thread panicked".to_string()))?;
    *disk.gate.0.lock().unwrap() = Gate::default();
    let want = allowed(disk, &h.layers, h.id);
    ensure!(want.contains(&got), "{at}: a slow reader got {} for {:?}; it should be {}", show(&got), ids().ids[h.id], want.iter().map(show).collect::<Vec<_>>().join(" or "));
    Ok(())
}

fn judge(c: &Case) -> Verdict {
    let disk = Disk::default();
    let mut hanging = None;
    let r = run(c, &disk, &mut hanging);
    let r2 = release(&disk, &mut hanging, "at the end");
    let nontrivial = r?;
    r2?;
    Ok(nontrivial)
}

fn run(c: &Case, disk: &Disk, hanging: &mut Option<Hanging>) -> Verdict {
    let u = ids();
    for (k, v) in &c.disk {
        disk.write(Path::new(PATHS[*k as usize % PATHS.len()]), v);
    }
    let vfs = Vfs::new(Arc::new(Resolver), disk.clone());
    let mut hs = vec![Handle { vfs, layers: Layers::default(), given: BTreeMap::new(), history: BTreeMap::new() }];
    hs[0].remember();
    let (mut reads, mut edits) = (0, 0);
    for (n, op) in c.ops.iter().enumerate() {
        let at = format!("step {n}");
        let len = hs.len();
        let pick = |h: &u8| *h as usize % len;
        // A slot that is being read makes other readers of it wait.
        let busy = |i: usize, hanging: &Option<Hanging>| hanging.as_ref().is_some_and(|h| h.id == i);
        match op {
            Op::Disk(k, v) => disk.write(Path::new(PATHS[*k as usize % PATHS.len()]), v),
            Op::Revise(h, e) => {
                apply(disk, &mut hs[pick(h)], e, &at)?;
                edits += 1;
            }
            Op::Read(h, i) | Op::Source(h, i) => {
                let i = *i as usize % u.ids.len();
                if !busy(i, hanging) {
                    check_read(disk, &mut hs[pick(h)], pick(h), i, matches!(op, Op::Source(..)), &at)?;
                    reads += 1;
                }
            }
            Op::ReadAll(h) => {
                for i in 0..u.ids.len() {
                    if !busy(i, hanging) {
                        check_read(disk, &mut hs[pick(h)], pick(h), i, i % 2 == 0, &at)?;
                    }
                }
                reads += 1;
            }
            Op::Snapshot(h) if len < 6 => {
                let s = &hs[pick(h)];
                let vfs = no_panic(|| s.vfs.snapshot())?;
                ensure!(vfs.revision() == s.vfs.revision(), "{at}: a snapshot of revision {} has revision {}", s.vfs.revision(), vfs.revision());
                let new = Handle { vfs, layers: s.layers.clone(), given: s.given.clone(), history: s.history.clone() };
                hs.push(new);
            }
            Op::Fork(h) if len < 6 => {
                let s = &hs[pick(h)];
                let vfs = no_panic(|| s.vfs.fork())?;
                let mut layers = s.layers.clone();
                layers.base = disk.tick();
                let mut new = Handle { vfs, layers, given: BTreeMap::new(), history: BTreeMap::new() };
                new.remember();
                hs.push(new);
            }
            Op::Drop(h) if len > 1 => {
                hs.remove(pick(h));
            }
            Op::Snapshot(_) | Op::Fork(_) | Op::Drop(_) => {}
            Op::Evict(h, t) => {
                no_panic(|| hs[pick(h)].vfs.evict(*t as usize))?;
                // What is read from the disk may be read anew.
                for h in &mut hs {
                    h.given.clear();
                    h.history.clear();
                    h.remember();
                }
            }
            Op::EvictSources(h, t) => {
                let h = &hs[pick(h)];
                no_panic(|| h.vfs.clone_source_cache().evict(h.vfs.revision(), *t as usize))?;
            }
            Op::TakeSources(h) => {
                no_panic(|| hs[pick(h)].vfs.take_source_cache())?;
            }
            Op::Clean(h, r, ks) => {
                let h = &hs[pick(h)];
                let revs: Vec<&usize> = h.history.keys().collect();
                let rev = *revs[*r as usize % revs.len()];
                let is: Vec<usize> = ks.iter().map(|k| *k as usize % u.ids.len()).collect();
                let fids: Vec<FileId> = is.iter().map(|&i| u.ids[i]).collect();
                let clean = no_panic(|| h.vfs.is_clean_compile(rev, &fids))?;
                if clean {
                    for i in is {
                        let (then, now) = (&h.history[&rev][i], h.layers.fixed(i));
                        ensure!(*then == now, "{at}: {:?} is said not to have changed between revisions {rev} and {}; it was {:?} and is {:?}", u.ids[i], h.vfs.revision(), then.as_ref().map(show), now.as_ref().map(show));
                    }
                }
            }
            Op::Hang { h, id, source, before } => {
                let i = *id as usize % u.ids.len();
                if hanging.is_none() {
                    if let Some(p) = &u.paths[i] {
                        *disk.gate.0.lock().unwrap() = Gate { path: Some(p.clone()), before: *before, arrived: false, open: false };
                        let s = &hs[pick(h)];
                        let (vfs, fid, source) = (s.vfs.snapshot(), u.ids[i], *source);
                        let thread = std::thread::spawn(move || {
                            if source {
                                let _ = vfs.source(fid);
                            }
                            vfs.read(fid).map(|b| b.to_vec())
                        });
                        let (m, cv) = &*disk.gate;
                        let mut g = m.lock().unwrap();
                        while !g.arrived && !thread.is_finished() {
                            g = cv.wait_timeout(g, Duration::from_micros(200)).unwrap().0;
                        }
                        if !g.arrived {
                            // It did not need the disk.
                            *g = Gate::default();
                        }
                        drop(g);
                        *hanging = Some(Hanging { thread, layers: s.layers.clone(), id: i });
                    }
                }
            }
            Op::Release => release(disk, hanging, &at)?,
            Op::ResetAll(h) => {
                // Takes the lock of the disk.
                if hanging.is_none() {
                    let h = &mut hs[pick(h)];
                    no_panic(|| h.vfs.reset_all())?;
                    h.layers.base = disk.tick();
                    h.given.clear();
                    h.history.clear();
                    h.remember();
                }
            }
        }
    }
    release(disk, hanging, "at the end")?;
    let _ = disk.now();
    for (n, h) in hs.iter_mut().enumerate() {
        for i in 0..u.ids.len() {
            check_read(disk, h, n, i, i % 3 == 0, "at the end")?;
            let got = no_panic(|| h.vfs.file_path(u.ids[i]))?.and_then(|p| p.to_err());
            let want = u.paths[i].clone().ok_or_else(|| u.errs[i].clone().unwrap());
            ensure_eq!(got, want, "the path of {:?}", u.ids[i]);
        }
    }
    Ok(reads >= 2 && edits >= 2)
}

fn edit() -> BoxedStrategy<Edit> {
    // Few files, so that edits meet.
    let k = || prop_oneof![3 => 0u8..3, 1 => any::<u8>()];
    prop_oneof![
        5 => (k(), val()).prop_map(|(k, v)| Edit::Map(k, v)),
        4 => k().prop_map(Edit::Unmap),
        2 => (k(), val()).prop_map(|(k, v)| Edit::MapId(k, v)),
        2 => k().prop_map(Edit::UnmapId),
        5 => (prop::collection::vec(k(), 0..3), prop::collection::vec((k(), val()), 0..3), any::<bool>()).prop_map(|(removes, inserts, event)| Edit::Notify { removes, inserts, event }),
        1 => Just(Edit::ResetShadow),
        1 => Just(Edit::ResetCache),
    ]
    .boxed()
}

fn ops() -> BoxedStrategy<Vec<Op>> {
    let k = || prop_oneof![3 => 0u8..3, 1 => any::<u8>()];
    let h = || prop_oneof![2 => Just(0u8), 2 => any::<u8>()];
    let op = prop_oneof![
        4 => (k(), val()).prop_map(|(k, v)| Op::Disk(k, v)),
        8 => (h(), prop::collection::vec(edit(), 0..4)).prop_map(|(h, e)| Op::Revise(h, e)),
        6 => (h(), k()).prop_map(|(h, k)| Op::Read(h, k)),
        4 => (h(), k()).prop_map(|(h, k)| Op::Source(h, k)),
        2 => h().prop_map(Op::ReadAll),
        4 => h().prop_map(Op::Snapshot),
        1 => h().prop_map(Op::Fork),
        2 => h().prop_map(Op::Drop),
        1 => (h(), 0u8..8).prop_map(|(h, t)| Op::Evict(h, t)),
        1 => (h(), 0u8..8).prop_map(|(h, t)| Op::EvictSources(h, t)),
        1 => h().prop_map(Op::TakeSources),
        2 => (h(), any::<u8>(), prop::collection::vec(k(), 0..3)).prop_map(|(h, r, k)| Op::Clean(h, r, k)),
        2 => (h(), k(), any::<bool>(), any::<bool>()).prop_map(|(h, id, source, before)| Op::Hang { h, id, source, before }),
        2 => Just(Op::Release),
        1 => h().prop_map(Op::ResetAll),
    ];
    prop::collection::vec(op, 0..40).boxed()
}

fn files() -> BoxedStrategy<Vec<(u8, Val)>> {
    prop::collection::vec((prop_oneof![3 => 0u8..3, 1 => any::<u8>()], val()), 0..5).boxed()
}

// ---- Readers against a writer ----------------------------------------------

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Race {
    disk: Vec<(u8, Val)>,
    edits: Vec<Vec<Edit>>,
    readers: u8,
}

/// The main handle is edited while threads read snapshots of it.
fn judge_race(c: &Race) -> Verdict {
    let u = ids();
    let disk = Disk::default();
    for (k, v) in &c.disk {
        disk.write(Path::new(PATHS[*k as usize % PATHS.len()]), v);
    }
    let mut main = Handle { vfs: Vfs::new(Arc::new(Resolver), disk.clone()), layers: Layers::default(), given: BTreeMap::new(), history: BTreeMap::new() };
    main.remember();
    let current = Mutex::new((main.vfs.snapshot(), main.layers.clone(), false));
    let readers = c.readers as usize % 3 + 1;
    let out: Result<(), vcommon::Fail> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..readers)
            .map(|r| {
                let (current, disk) = (&current, &disk);
                s.spawn(move || -> Result<(), vcommon::Fail> {
                    loop {
                        let (vfs, layers, done) = {
                            let g = current.lock().unwrap();
                            (g.0.snapshot(), g.1.clone(), g.2)
                        };
                        let mut h = Handle { vfs, layers, given: BTreeMap::new(), history: BTreeMap::new() };
                        for i in (0..u.ids.len()).chain(0..u.ids.len()) {
                            check_read(disk, &mut h, r, (i * (r + 1) + r) % u.ids.len(), (i + r) % 2 == 0, "a concurrent reader")?;
                        }
                        if done {
                            return Ok(());
                        }
                    }
                })
            })
            .collect();
        let mut res = Ok(());
        for e in &c.edits {
            res = apply(&disk, &mut main, e, "the writer");
            let mut g = current.lock().unwrap();
            g.0 = main.vfs.snapshot();
            g.1 = main.layers.clone();
            g.2 |= res.is_err();
            drop(g);
            if res.is_err() {
                break;
            }
            for i in 0..3 {
                if res.is_ok() {
                    res = check_read(&disk, &mut main, 0, i, i == 0, "the writer");
                }
            }
        }
        current.lock().unwrap().2 = true;
        for h in hs {
            let r = h.join().unwrap_or_else(|_| Err(vcommon::Fail::from("a reading thread panicked".to_string())));
            if res.is_ok() {
                res = r;
            }
        }
        res
    });
    out?;
    for i in 0..u.ids.len() {
        check_read(&disk, &mut main, 0, i, i % 2 == 0, "after the race")?;
    }
    Ok(c.edits.len() > 1)
}

fn main() {
    Check::main("C27", "a case is a history of disk changes, revisions, snapshots, forks and reads, also with a reader stuck in the disk (non-trivial: two revisions and two reads), or a run of edits under concurrent readers (non-trivial: two revisions)", |c| {
        c.assume("typst (file ids, virtual paths, sources) and rpds are stand-ins from /verif/stubs; the file system code itself is /repo's");
        c.prop("histories", Opts::new(60_000).thorough(30), || bx((files(), ops()).prop_map(|(disk, ops)| Case { disk, ops })), judge);
        c.prop("races", Opts::new(2_000).thorough(20).retries(20), || bx((files(), prop::collection::vec(prop::collection::vec(edit(), 1..4), 1..12), any::<u8>()).prop_map(|(disk, edits, readers)| Race { disk, edits, readers })), judge_race);
    });
}
