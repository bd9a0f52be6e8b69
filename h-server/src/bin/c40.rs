//! C40: the root and the entry a document is compiled with.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use tinymist_project::{EntryResolver, ProjectResolutionKind};
use tinymist_std::ImmutPath;
use tinymist_world::{EntryReader, EntryState};
use typst::syntax::VirtualPath;
use vcommon::scratch::Scratch;
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Fail, Opts, Verdict};

/// A path below the scratch directory, by its components.
type Rel = Vec<u8>;
const NAMES: [&str; 6] = ["a", "ab", "a b", "ü", ".x", "a.typ"];

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    /// A document is resolved, some times in a row.
    Resolve(Option<Rel>, u8),
    /// A manifest is made or removed.
    Manifest(Rel, bool),
    /// Resolvers share what they know of manifests.
    Clone,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
enum Default_ {
    Absolute(Rel),
    Relative(Rel),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    lock: bool,
    root: Option<Rel>,
    roots: Vec<Rel>,
    entry: Option<Default_>,
    manifests: Vec<Rel>,
    ops: Vec<Op>,
}

fn rel(n: std::ops::Range<usize>) -> BoxedStrategy<Rel> {
    bx(prop::collection::vec(prop_oneof![3 => Just(0u8), 4 => 1..NAMES.len() as u8], n))
}
fn cases() -> BoxedStrategy<Case> {
    let op = prop_oneof![
        6 => (prop::option::weighted(0.9, rel(1..5)), 1..3u8).prop_map(|(p, n)| Op::Resolve(p, n)),
        2 => (rel(0..4), any::<bool>()).prop_map(|(p, b)| Op::Manifest(p, b)),
        1 => Just(Op::Clone),
    ];
    let entry = prop_oneof![rel(1..5).prop_map(Default_::Absolute), rel(1..3).prop_map(Default_::Relative)];
    bx((
        any::<bool>(),
        prop::option::weighted(0.3, rel(0..4)),
        prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(rel(0..4), 1..4)],
        prop::option::of(entry),
        prop::collection::vec(rel(0..4), 0..4),
        prop::collection::vec(op, 1..10),
    )
        .prop_map(|(lock, root, roots, entry, manifests, ops)| Case { lock, root, roots, entry, manifests, ops }))
}

fn components(p: &Path) -> Vec<&std::ffi::OsStr> {
    p.iter().collect()
}
/// Whether a path is in a directory.
fn within(p: &Path, dir: &Path) -> bool {
    let (p, d) = (components(p), components(dir));
    p.len() >= d.len() && p[..d.len()] == d[..]
}

struct Model<'a> {
    dir: &'a Path,
    root: Option<PathBuf>,
    roots: Vec<PathBuf>,
    /// What was found before, which is used while it is there.
    known: HashMap<PathBuf, Option<PathBuf>>,
}
impl Model<'_> {
    fn manifest_above(&mut self, p: &Path) -> Option<PathBuf> {
        match self.known.get(p) {
            Some(Some(d)) if d.join("typst.toml").exists() => return Some(d.clone()),
            Some(None) => return None,
            _ => {}
        }
        let mut found = None;
        let mut at = Some(p);
        while let Some(d) = at {
            if !within(d, self.dir) {
                break;
            }
            if d.join("typst.toml").exists() {
                found = Some(d.to_owned());
                break;
            }
            at = d.parent();
        }
        self.known.insert(p.to_owned(), found.clone());
        found
    }
    fn root(&mut self, p: Option<&Path>) -> Option<PathBuf> {
        if let Some(r) = &self.root {
            return Some(r.clone());
        }
        let Some(p) = p else { return self.roots.first().cloned() };
        if let Some(r) = self.roots.iter().find(|r| within(p, r)) {
            return Some(r.clone());
        }
        self.manifest_above(p).or_else(|| p.parent().map(Path::to_owned))
    }
}

fn shown(e: &EntryState) -> (Option<ImmutPath>, Option<PathBuf>) {
    let main = e.main().and_then(|id| Some(e.root()?.join(id.vpath().as_rootless_path())));
    (e.root(), main)
}

fn history(c: &Case) -> Verdict {
    let dir = Scratch::reused();
    let at = |r: &Rel| r.iter().fold(dir.path().to_owned(), |p, n| p.join(NAMES[*n as usize % NAMES.len()]));
    // Nothing is a manifest above the scratch directory.
    let put = |r: &Rel| {
        let d = at(r);
        if std::fs::create_dir_all(&d).is_ok() {
            let _ = std::fs::write(d.join("typst.toml"), "");
        }
    };
    c.manifests.iter().for_each(put);
    let default = c.entry.as_ref().map(|e| match e {
        Default_::Absolute(r) => at(r),
        Default_::Relative(r) => r.iter().map(|n| NAMES[*n as usize % NAMES.len()]).collect(),
    });
    let mut real = EntryResolver {
        project_resolution: if c.lock { ProjectResolutionKind::LockDatabase } else { ProjectResolutionKind::SingleFile },
        root_path: c.root.as_ref().map(|r| at(r).into()),
        roots: c.roots.iter().map(|r| at(r).into()).collect(),
        entry: default.clone().map(|p| p.into()),
        typst_toml_cache: Default::default(),
    };
    let mut m = Model {
        dir: dir.path(),
        root: c.root.as_ref().map(at),
        roots: c.roots.iter().map(at).collect(),
        known: HashMap::new(),
    };
    let quiet = |f: &dyn Fn() -> EntryState| no_panic(f).map_err(|e| Fail::from(format!("resolving panics: {e}")));

    // The default entry.
    let want = default.and_then(|p| if p.is_relative() { m.root(None).map(|r| r.join(p)) } else { Some(p) });
    ensure_eq!(real.resolve_default().as_deref().map(Path::to_owned), want, "the default entry");
    ensure!(real.validate().is_ok(), "an absolute root is no root");

    let mut nontrivial = 0;
    for op in &c.ops {
        match op {
            Op::Manifest(r, true) => put(r),
            Op::Manifest(r, false) => {
                let _ = std::fs::remove_file(at(r).join("typst.toml"));
            }
            Op::Clone => real = real.clone(),
            Op::Resolve(None, _) => {
                let got = quiet(&|| real.resolve(None))?;
                let root = m.root(None);
                ensure_eq!(shown(&got), (root.map(|r| r.into()), None), "a workspace without a document");
                ensure!(got.is_inactive(), "it has a document");
            }
            Op::Resolve(Some(r), n) => {
                let p = at(r);
                let mut root = m.root(Some(&p)).unwrap();
                for _ in 0..*n {
                    let got = real.root(Some(&ImmutPath::from(p.as_path())));
                    ensure_eq!(got.as_deref(), Some(root.as_path()), "the root for {p:?}");
                }
                if !within(&p, &root) {
                    root = p.parent().unwrap().to_owned();
                }
                nontrivial += u32::from(Some(root.as_path()) != p.parent());
                for _ in 0..*n {
                    let got = quiet(&|| real.resolve(Some(p.as_path().into())))?;
                    let want = (Some(ImmutPath::from(root.as_path())), Some(p.clone()));
                    ensure_eq!(shown(&got), want, "the root and document of {p:?}");
                    let lock = real.resolve_lock(&got);
                    ensure_eq!(lock, c.lock.then(|| root.as_path().into()), "where the lock of {p:?} is");
                    ensure!(!got.is_in_package() && !got.is_inactive(), "{p:?} is in a package or no document");
                    // Another document of the same project.
                    let other = got.select_in_workspace(Path::new("/b/c.typ"));
                    ensure_eq!(shown(&other), (Some(root.as_path().into()), Some(root.join("b/c.typ"))), "another document beside {p:?}");
                    ensure_eq!(other.main().map(|i| i.vpath().as_rooted_path().to_owned()), Some(PathBuf::from("/b/c.typ")), "its id");
                    let rooted = got.main().map(|i| i.vpath().as_rooted_path().to_owned());
                    let vpath = VirtualPath::new(p.strip_prefix(&root).unwrap());
                    ensure_eq!(rooted.as_deref(), Some(vpath.as_rooted_path()), "the path of {p:?} in its root");
                }
            }
        }
    }
    Ok(nontrivial > 0)
}

fn main() {
    Check::main("C40", "a document whose root is not its directory", |c| {
        c.prop("histories", Opts::new(12000).thorough(40).shards(24), cases, history);
    })
}
