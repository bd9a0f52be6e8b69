//! C28: file ids and paths, back and forth, inside the root.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use tinymist_std::ImmutPath;
use tinymist_vfs::{FileId, PathResolution, RootResolver, WorkspaceResolution, WorkspaceResolver};
use tinymist_world::{EntryOpts, EntryState};
use typst::diag::{FileError, FileResult, PackageError};
use typst::syntax::package::{PackageSpec, PackageVersion};
use typst::syntax::VirtualPath;
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Fail, Opts, Verdict};

// ---- Model -----------------------------------------------------------------

/// A path without `.`, `..` and doubled slashes, by the book.
fn clean(p: &str) -> String {
    let abs = p.starts_with('/');
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => match out.last() {
                Some(&"..") => out.push(".."),
                Some(_) => {
                    out.pop();
                }
                None if abs => {}
                None => out.push(".."),
            },
            c => out.push(c),
        }
    }
    match (abs, out.is_empty()) {
        (true, _) => format!("/{}", out.join("/")),
        (false, true) => ".".into(),
        (false, false) => out.join("/"),
    }
}

/// The names below the root a path stands for; `None` when it leaves the root.
fn below(v: &str) -> Option<Vec<String>> {
    let mut out = vec![];
    for c in v.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop()?;
            }
            c => out.push(c.to_owned()),
        }
    }
    Some(out)
}

/// What a file below a root is called on disk.
fn on_disk(root: &str, v: &str) -> Option<PathBuf> {
    let mut p = PathBuf::from(clean(root));
    // Nothing is above the top.
    match below(v) {
        Some(names) => p.extend(names),
        None if clean(root) == "/" => return Some(PathBuf::from(clean(&format!("/{v}")))),
        None => return None,
    }
    Some(p)
}

fn spec(name: u8) -> PackageSpec {
    let names = ["cetz", "p0", "p1", "gone"];
    let ns = ["preview", "local", "wsx", "preview"];
    let i = name as usize % 4;
    PackageSpec { namespace: ns[i].into(), name: names[i].into(), version: PackageVersion { major: 0, minor: 0, patch: (i % 2) as u32 } }
}

struct Packages;
impl RootResolver for Packages {
    fn resolve_package_root(&self, p: &PackageSpec) -> FileResult<ImmutPath> {
        match p.name.as_str() {
            "gone" => Err(FileError::Package(PackageError::NotFound(p.clone()))),
            n => Ok(Path::new("/pkgs").join(n).as_path().into()),
        }
    }
}

// ---- Histories -------------------------------------------------------------

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    File(String, String),
    Untitled(String, String),
    Rootless(String),
    NoRoot(String, bool),
    Package(u8, String),
    /// A document imports a package of the reserved namespace.
    Reserved(String, u32, String),
    ByParent(String),
    Entry(String, String),
    Select(String, String),
    TrySelect(String, Option<String>, String),
    Opts(String, Option<String>),
}

#[derive(PartialEq, Eq, Hash, Debug, Clone)]
enum Key {
    File(String, VirtualPath),
    Untitled(String, VirtualPath),
    Rootless(VirtualPath),
    Package(u8, VirtualPath),
}

fn im(p: &str) -> ImmutPath {
    ImmutPath::from(Path::new(p))
}

#[derive(Default)]
struct Seen(HashMap<Key, FileId>, HashMap<FileId, Key>);

impl Seen {
    fn add(&mut self, key: Key, id: FileId) -> Result<(), Fail> {
        if let Some(old) = self.0.get(&key) {
            ensure!(*old == id, "the same file got two ids, {old:?} and {id:?}: {key:?}");
        }
        if let Some(old) = self.1.get(&id) {
            ensure!(*old == key, "two files got one id {id:?}: {old:?} and {key:?}");
        }
        self.0.insert(key.clone(), id);
        self.1.insert(id, key);
        Ok(())
    }
}

fn is_workspace(id: FileId, root: &str) -> Result<(), Fail> {
    match WorkspaceResolver::resolve(id) {
        Ok(WorkspaceResolution::Workspace(w)) => ensure_eq!(w.path().to_path_buf(), PathBuf::from(clean(root)), "the root of {id:?}"),
        Ok(WorkspaceResolution::UntitledRooted(_)) => return Err("a file of a root counts as untitled".into()),
        Ok(WorkspaceResolution::Rootless) => return Err("a file of a root counts as rootless".into()),
        Ok(WorkspaceResolution::Package) => return Err("a file of a root counts as a package's".into()),
        Err(e) => return Err(format!("a file of a root does not resolve: {e}").into()),
    }
    ensure!(WorkspaceResolver::is_workspace_file(id), "{id:?} is of a workspace, and is said not to be");
    ensure!(!WorkspaceResolver::is_package_file(id), "{id:?} is of a workspace, and is said to be of a package");
    Ok(())
}

/// Where the file is, and that it is inside the root.
fn place(id: FileId, root: &str, v: &str) -> Result<bool, Fail> {
    let got = Packages.path_for_id(id);
    let want = on_disk(root, v);
    match (got, want) {
        (Ok(PathResolution::Resolved(p)), Some(w)) => {
            ensure!(p == w, "{v:?} under {root:?} is at {p:?}, expected {w:?}");
            let r = clean(root);
            ensure!(r == "." || p.starts_with(&r), "{p:?} is outside of {r:?}");
            ensure_eq!(Packages.path_for_id(id).and_then(|r| r.to_err()), Ok(w.clone()), "the same as a plain path");
            Ok(true)
        }
        (Err(FileError::AccessDenied), None) => Ok(true),
        (got, want) => Err(format!("{v:?} under {root:?} resolves to {got:?}, expected {want:?}").into()),
    }
}

fn rooted(id: FileId, root: &str, v: &str) -> Verdict {
    is_workspace(id, root)?;
    ensure_eq!(Packages.resolve_root(id), Ok(Some(im(&clean(root)))), "the root of a file of {root:?}");
    place(id, root, v)
}

fn no_root(id: FileId, v: &VirtualPath) -> Result<(), Fail> {
    ensure!(matches!(WorkspaceResolver::resolve(id), Ok(WorkspaceResolution::Rootless)), "a file without a root counts as something else: {id:?}");
    ensure!(!WorkspaceResolver::is_workspace_file(id) && !WorkspaceResolver::is_package_file(id), "a file without a root is said to have one");
    ensure_eq!(Packages.resolve_root(id), Ok(None), "the root of a rootless file");
    unreachable_on_disk(id, v)
}

fn unreachable_on_disk(id: FileId, v: &VirtualPath) -> Result<(), Fail> {
    match Packages.path_for_id(id) {
        Ok(PathResolution::Rootless(p)) => ensure_eq!(*p, *v, "the path of {id:?}"),
        r => return Err(format!("{id:?} must not be a path on disk, resolves to {r:?}").into()),
    }
    ensure_eq!(Packages.path_for_id(id).and_then(|r| r.to_err()), Err(FileError::AccessDenied), "as a path on disk");
    Ok(())
}

fn main_of(e: &EntryState) -> Result<FileId, Fail> {
    e.main().ok_or_else(|| Fail::from("an entry lost its main file"))
}

/// The file an entry state opens.
fn entry(e: &EntryState, root: &str, v: &str, seen: &mut Seen) -> Verdict {
    let id = main_of(e)?;
    seen.add(Key::File(clean(root), VirtualPath::new(v)), id)?;
    ensure_eq!(e.workspace_root().map(|p| p.to_path_buf()), Some(PathBuf::from(clean(root))), "the root of the workspace");
    ensure!(!e.is_detached() && !e.is_inactive() && !e.is_in_package(), "the state of an entry with a root and a main file");
    rooted(id, root, v)
}

fn judge(ops: &Vec<Op>) -> Verdict {
    let mut seen = Seen::default();
    let mut repeats = 0;
    for (i, op) in ops.iter().enumerate() {
        let n = seen.0.len();
        no_panic(|| one(op, &mut seen)).map_err(|m| Fail::from(format!("it panics: {m}"))).and_then(|r| r).map_err(|f| f.at(&format!("step {i} {op:?}")))?;
        repeats += usize::from(seen.0.len() == n);
    }
    // All of them once more, from the ids alone.
    for (id, key) in &seen.1 {
        match key {
            Key::File(r, _) => is_workspace(*id, r)?,
            Key::Untitled(r, v) => untitled(*id, r, v)?,
            Key::Rootless(v) => no_root(*id, v)?,
            Key::Package(..) => package(*id)?,
        }
    }
    Ok(repeats > 0 && seen.0.len() > 2)
}

fn untitled(id: FileId, root: &str, v: &VirtualPath) -> Result<(), Fail> {
    match WorkspaceResolver::resolve(id) {
        Ok(WorkspaceResolution::UntitledRooted(w)) => ensure_eq!(w.path().to_path_buf(), PathBuf::from(clean(root)), "the root of {id:?}"),
        _ => return Err(format!("an untitled file of a root counts as something else: {id:?}").into()),
    }
    ensure!(!WorkspaceResolver::is_package_file(id), "an untitled file is said to be of a package");
    ensure_eq!(Packages.resolve_root(id), Ok(Some(im(&clean(root)))), "the root of an untitled file");
    unreachable_on_disk(id, v)
}

fn package(id: FileId) -> Result<(), Fail> {
    ensure!(matches!(WorkspaceResolver::resolve(id), Ok(WorkspaceResolution::Package)), "a file of a package counts as something else: {id:?}");
    ensure!(WorkspaceResolver::is_package_file(id) && !WorkspaceResolver::is_workspace_file(id), "a file of a package is said not to be: {id:?}");
    Ok(())
}

fn one(op: &Op, seen: &mut Seen) -> Result<(), Fail> {
    match op {
        Op::File(root, v) => {
            let id = WorkspaceResolver::workspace_file(Some(&im(root)), VirtualPath::new(v));
            rooted(id, root, v)?;
            seen.add(Key::File(clean(root), VirtualPath::new(v)), id)?;
            let shown = format!("{:?}", WorkspaceResolver::display(Some(id)));
            if let Some(p) = on_disk(root, v) {
                ensure_eq!(shown, p.display().to_string(), "how the file is shown");
            }
        }
        Op::Untitled(root, v) => {
            let id = WorkspaceResolver::rooted_untitled(Some(&im(root)), VirtualPath::new(v));
            untitled(id, root, &VirtualPath::new(v))?;
            seen.add(Key::Untitled(clean(root), VirtualPath::new(v)), id)?;
        }
        Op::Rootless(v) => {
            let id = WorkspaceResolver::rootless_file(VirtualPath::new(v));
            no_root(id, &VirtualPath::new(v))?;
            seen.add(Key::Rootless(VirtualPath::new(v)), id)?;
        }
        Op::NoRoot(v, untitled) => {
            let v = VirtualPath::new(v);
            let id = match untitled {
                true => WorkspaceResolver::rooted_untitled(None, v.clone()),
                false => WorkspaceResolver::workspace_file(None, v.clone()),
            };
            no_root(id, &v)?;
            seen.add(Key::Rootless(v), id)?;
        }
        Op::Package(p, v) => {
            let s = spec(*p);
            let id = FileId::new(Some(s.clone()), VirtualPath::new(v));
            package(id)?;
            seen.add(Key::Package(p % 4, VirtualPath::new(v)), id)?;
            match s.name.as_str() {
                "gone" => {
                    let e = FileError::Package(PackageError::NotFound(s.clone()));
                    ensure_eq!(Packages.path_for_id(id).and_then(|r| r.to_err()), Err(e.clone()), "a file of a missing package");
                    ensure_eq!(Packages.resolve_root(id), Err(e), "the root of a missing package");
                }
                n => {
                    let root = format!("/pkgs/{n}");
                    ensure_eq!(Packages.resolve_root(id), Ok(Some(im(&root))), "the root of a package");
                    place(id, &root, v)?;
                }
            }
        }
        Op::Reserved(name, patch, v) => {
            let s = PackageSpec { namespace: WorkspaceResolver::WORKSPACE_NS, name: name.as_str().into(), version: PackageVersion { major: 0, minor: 0, patch: *patch } };
            let id = FileId::new(Some(s), VirtualPath::new(v));
            // It may not be anything but a file of a known workspace.
            match WorkspaceResolver::resolve(id) {
                Ok(WorkspaceResolution::Workspace(w) | WorkspaceResolution::UntitledRooted(w)) => {
                    let root = w.path();
                    if let Ok(PathResolution::Resolved(p)) = Packages.path_for_id(id) {
                        ensure!(p.starts_with(&root), "{p:?} is outside of {root:?}");
                    }
                }
                Ok(WorkspaceResolution::Rootless) => return Err("the reserved namespace counts as rootless".into()),
                Ok(WorkspaceResolution::Package) => return Err("the reserved namespace counts as a package".into()),
                Err(_) => {
                    let r = Packages.path_for_id(id);
                    ensure!(r.is_err(), "an id that does not resolve has a path: {r:?}");
                }
            }
            ensure!(!WorkspaceResolver::is_package_file(id), "the reserved namespace is said to be a package");
            let _ = format!("{:?}", WorkspaceResolver::display(Some(id)));
        }
        Op::ByParent(p) => {
            let path = Path::new(p);
            let got = WorkspaceResolver::file_with_parent_root(path);
            let names = path.is_absolute() && path.file_name().is_some();
            let Some(id) = got else {
                ensure!(!names, "{p:?} has no id");
                return Ok(());
            };
            ensure!(names, "{p:?} has an id {id:?}");
            let whole = clean(p);
            let (root, name) = whole.rsplit_once('/').unwrap();
            let root = if root.is_empty() { "/" } else { root };
            rooted(id, root, name)?;
            ensure_eq!(Packages.path_for_id(id).and_then(|r| r.to_err()), Ok(PathBuf::from(&whole)), "the path given");
            seen.add(Key::File(root.into(), VirtualPath::new(name)), id)?;

            let e = EntryState::new_rooted_by_parent(im(p)).ok_or_else(|| Fail::from("no entry for it"))?;
            entry(&e, root, name, seen)?;
            let e = EntryOpts::new_rootless(path.to_owned()).ok_or_else(|| Fail::from("no options for it"))?;
            let e = EntryState::try_from(e).map_err(|e| Fail::from(format!("no entry for it: {e}")))?;
            entry(&e, root, name, seen)?;
            ensure!(EntryOpts::new_rootless(PathBuf::from("a/b.typ")).is_none(), "a relative path gives options");
        }
        Op::Entry(root, v) => {
            let e = EntryState::new_rooted(im(root), Some(VirtualPath::new(v)));
            entry(&e, root, v, seen)?;
            ensure_eq!(e.root(), Some(im(root)), "the root given");
            let again = EntryState::new_rooted_by_id(im(root), main_of(&e)?);
            ensure_eq!(again, e, "the entry by its id");
            let w = EntryState::new_workspace(im(root));
            ensure!(w.is_inactive() && !w.is_detached() && w.main().is_none(), "a workspace without a main file");
            ensure_eq!(w.workspace_root(), Some(im(root)), "the root of a workspace without a main file");
            let d = EntryState::new_detached();
            ensure!(d.is_detached() && d.is_inactive() && d.root().is_none() && d.workspace_root().is_none(), "a detached entry");
            let r = EntryState::new_rootless(VirtualPath::new(v));
            no_root(main_of(&r)?, &VirtualPath::new(v))?;
            ensure!(r.workspace_root().is_none() && !r.is_inactive() && !r.is_in_package(), "a rootless entry");
        }
        Op::Select(root, v) => {
            let e = EntryState::new_workspace(im(root)).select_in_workspace(Path::new(v));
            entry(&e, root, v, seen)?;
            let r = EntryState::new_detached().select_in_workspace(Path::new(v));
            no_root(main_of(&r)?, &VirtualPath::new(v))?;
        }
        Op::TrySelect(root, main, p) => {
            let e = EntryState::new_rooted(im(root), main.as_deref().map(VirtualPath::new));
            // Before a file is chosen the root is the one given, later it is clean.
            let r = match main {
                Some(_) => PathBuf::from(clean(root)),
                None => PathBuf::from(root),
            };
            match (e.try_select_path_in_workspace(Path::new(p)), Path::new(p).strip_prefix(&r)) {
                (Ok(Some(e)), Ok(rest)) => {
                    entry(&e, root, rest.to_str().unwrap(), seen)?;
                }
                (Err(_), Err(_)) => {}
                (got, _) => return Err(format!("selecting {p:?} in {r:?} gives {got:?}").into()),
            }
            if p.starts_with('/') && Path::new(p).file_name().is_some() {
                let whole = clean(p);
                let (root, name) = whole.rsplit_once('/').unwrap();
                let root = if root.is_empty() { "/" } else { root };
                match EntryState::new_detached().try_select_path_in_workspace(Path::new(p)) {
                    Ok(Some(e)) => {
                        entry(&e, root, name, seen)?;
                    }
                    r => return Err(format!("selecting {p:?} without a root gives {r:?}").into()),
                }
            }
        }
        Op::Opts(root, main) => {
            let o = EntryOpts::new_rooted(root.into(), main.as_ref().map(PathBuf::from));
            let text = serde_json::to_string(&o).map_err(|e| Fail::from(e.to_string()))?;
            let back: EntryOpts = serde_json::from_str(&text).map_err(|e| Fail::from(format!("the options do not read back: {e}")))?;
            ensure_eq!(back, o, "the options read back");
            let e = EntryState::try_from(o).map_err(|e| Fail::from(format!("no entry for the options: {e}")))?;
            ensure_eq!(e.root(), Some(im(root)), "the root of the options");
            match main {
                Some(v) => {
                    entry(&e, root, v, seen)?;
                }
                None => ensure!(e.is_inactive(), "a main file out of nowhere"),
            }
        }
    }
    Ok(())
}

// ---- Generators (few distinct files: ids are never given back) ---------------

fn seg() -> impl Strategy<Value = String> {
    prop_oneof![4 => Just("a"), 4 => Just("b"), 1 => Just("."), 2 => Just(".."), 1 => Just("")].prop_map(str::to_owned)
}

fn root() -> BoxedStrategy<String> {
    bx((prop_oneof![5 => Just("/"), 1 => Just("")], prop::collection::vec(seg(), 0..5), any::<bool>()).prop_map(|(head, segs, tail)| {
        let mut s = format!("{head}{}", segs.join("/"));
        if tail && !s.is_empty() {
            s.push('/');
        }
        // Few different roots.
        let c = clean(&s);
        if c.split('/').filter(|c| !c.is_empty()).count() > 3 {
            return "/a/b".into();
        }
        s
    }))
}

fn file() -> BoxedStrategy<String> {
    bx((prop_oneof![3 => Just(""), 1 => Just("/")], prop::collection::vec(seg(), 0..3), prop_oneof![4 => Just("c.typ"), 2 => Just("a"), 1 => Just("..")])
        .prop_map(|(h, mut s, last)| {
            s.push(last.into());
            format!("{h}{}", s.join("/"))
        }))
}

fn reserved() -> BoxedStrategy<String> {
    bx(prop_oneof![
        (0u32..40).prop_map(|n| format!("p{n}")),
        prop_oneof![Just("p65535"), Just("p65536"), Just("p-1"), Just("p"), Just(""), Just("q0"), Just("p+1"), Just("p60000"), Just("pé"), Just("p1x")].prop_map(str::to_owned),
    ])
}

fn ops() -> BoxedStrategy<Vec<Op>> {
    bx(prop::collection::vec(
        prop_oneof![
            6 => (root(), file()).prop_map(|(r, v)| Op::File(r, v)),
            2 => (root(), file()).prop_map(|(r, v)| Op::Untitled(r, v)),
            1 => file().prop_map(Op::Rootless),
            1 => (file(), any::<bool>()).prop_map(|(v, u)| Op::NoRoot(v, u)),
            2 => (0u8..4, file()).prop_map(|(p, v)| Op::Package(p, v)),
            1 => (reserved(), 0u32..3, file()).prop_map(|(n, p, v)| Op::Reserved(n, p, v)),
            2 => (root(), file()).prop_map(|(r, v)| Op::ByParent(format!("{}/{v}", r.trim_end_matches('/')))),
            2 => (root(), file()).prop_map(|(r, v)| Op::Entry(r, v)),
            1 => (root(), file()).prop_map(|(r, v)| Op::Select(r, v)),
            3 => (root(), prop::option::of(file()), root(), file(), any::<bool>()).prop_map(|(r, m, o, v, inside)| {
                let base = if inside { clean(&r) } else { o };
                Op::TrySelect(r, m, format!("{}/{v}", base.trim_end_matches('/')))
            }),
            1 => (root(), prop::option::of(file())).prop_map(|(r, m)| Op::Opts(r, m)),
        ],
        2..14,
    ))
}

/// Several threads ask for the ids of the same files at once.
fn race(c: &(Vec<(String, String)>, u8)) -> Verdict {
    let (files, n) = c;
    let n = 2 + *n as usize % 5;
    let go = std::sync::Barrier::new(n);
    let got: Vec<Vec<(FileId, Option<PathBuf>)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let go = &go;
                s.spawn(move || {
                    go.wait();
                    let mut out: Vec<_> = (0..files.len())
                        .map(|i| {
                            let i = if k % 2 == 0 { i } else { files.len() - 1 - i };
                            let (r, v) = &files[i];
                            let id = WorkspaceResolver::workspace_file(Some(&im(r)), VirtualPath::new(v));
                            (id, Packages.path_for_id(id).and_then(|r| r.to_err()).ok())
                        })
                        .collect();
                    if k % 2 == 1 {
                        out.reverse();
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect::<Result<Vec<_>, _>>()
    })
    .map_err(|_| Fail::from("a thread panics"))?;
    let mut seen = Seen::default();
    for g in &got {
        for ((r, v), (id, p)) in files.iter().zip(g) {
            seen.add(Key::File(clean(r), VirtualPath::new(v)), *id)?;
            ensure_eq!(*p, on_disk(r, v), "the path of {v:?} under {r:?}");
        }
    }
    Ok(files.len() > 1)
}

fn main() {
    Check::main("C28", "a history counts when it names at least three files and comes back to one of them; a race when it is over several files", |c| {
        c.assume("FileId and VirtualPath are stand-ins written to the behaviour of typst 0.13, whose crate is not available here");
        c.prop("histories", Opts::new(60_000).thorough(20).shards(8), ops, judge);
        c.prop("races", Opts::new(3_000).thorough(20).shards(2), || bx((prop::collection::vec((root(), file()), 1..8), any::<u8>())), race);
    })
}
