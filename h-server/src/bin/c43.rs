//! C43: which document a file belongs to, by the locks beside it.
use h_server::server::Server;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use tinymist::Config;
use tinymist_project::*;
use tinymist_std::ImmutPath;
use tinymist_world::{EntryReader, EntryState};
use typst::syntax::VirtualPath;
use vcommon::scratch::Scratch;
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Fail, Opts, Verdict};

const DIRS: [&str; 4] = ["", "a", "a/b b", "ü"];
const FILES: [&str; 7] = ["m.typ", "n.typ", "a/m.typ", "a/x.typ", "a/b b/m.typ", "a/b b/y.typ", "ü/z.typ"];

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    /// A compiled document is recorded in the lock of a directory, with what
    /// it includes.
    Record(u8, u8, Vec<u8>, u32),
    /// Only that it was compiled again.
    Again(u8, u8),
    Ask(u8),
    Focus(u8),
    Restart,
    /// A lock that cannot be read takes the place of one.
    Garbage(u8),
    /// A lock is gone.
    Remove(u8),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    /// Whether locks are used.
    lock: bool,
    roots: bool,
    ops: Vec<Op>,
}

fn cases() -> BoxedStrategy<Case> {
    let (d, f) = (0..DIRS.len() as u8, 0..FILES.len() as u8);
    let op = prop_oneof![
        6 => (d.clone(), f.clone(), prop::collection::vec(f.clone(), 0..4), any::<u32>()).prop_map(|(d, m, f, p)| Op::Record(d, m, f, p)),
        2 => (d.clone(), f.clone()).prop_map(|(d, f)| Op::Again(d, f)),
        6 => f.clone().prop_map(Op::Ask),
        3 => f.prop_map(Op::Focus),
        2 => Just(Op::Restart),
        1 => d.clone().prop_map(Op::Garbage),
        1 => d.prop_map(Op::Remove),
    ];
    bx((prop::bool::weighted(0.85), any::<bool>(), prop::collection::vec(op, 3..18)).prop_map(|(lock, roots, ops)| Case { lock, roots, ops }))
}

/// The documents of a lock, last compiled last, and what they include.
type Lock = Vec<(PathBuf, Vec<PathBuf>)>;

fn history(c: &Case) -> Verdict {
    let dir = Scratch::reused();
    let base = dir.path();
    for d in DIRS {
        std::fs::create_dir_all(base.join(d)).unwrap();
    }
    let start = || {
        Server::new(Config {
            entry_resolver: EntryResolver {
                project_resolution: if c.lock { ProjectResolutionKind::LockDatabase } else { ProjectResolutionKind::SingleFile },
                roots: if c.roots { vec![base.into()] } else { vec![] },
                ..Default::default()
            },
            ..Default::default()
        })
    };
    let mut server = start();
    let mut disk: HashMap<PathBuf, Option<Lock>> = HashMap::new();
    let mut read: HashMap<PathBuf, Lock> = HashMap::new();
    let mut led = 0;
    for (n, op) in c.ops.iter().enumerate() {
        let what = format!("after {op:?} (step {n})");
        let place = |d: &u8| base.join(DIRS[*d as usize % DIRS.len()]).components().collect::<PathBuf>();
        let file = |f: &u8| base.join(FILES[*f as usize % FILES.len()]);
        match op {
            Op::Record(d, m, includes, priority) => {
                let d = place(d);
                let fit: Vec<PathBuf> = (0..FILES.len() as u8).map(|f| file(&f)).filter(|f| f.starts_with(&d)).collect();
                let m = fit[*m as usize % fit.len()].clone();
                let inside = m.strip_prefix(&d).unwrap();
                if disk.get(&d) == Some(&None) {
                    continue;
                }
                // As the server does after it has exported a document.
                let root: ImmutPath = d.as_path().into();
                let entry = EntryState::new_rooted(root.clone(), Some(VirtualPath::new(inside)));
                let world = h_server::pipeline::universe(entry, false, 0).snapshot();
                let mut up = update_lock(root);
                let id = up.compiled(&world).ok_or_else(|| Fail::from(format!("{what}: no document")))?;
                let mut files: Vec<PathBuf> = includes.iter().map(file).collect();
                files.push(m.clone());
                up.update_materials(id.clone(), files.iter().map(|p| ImmutPath::from(p.as_path())).collect());
                up.route(id, *priority);
                up.commit();
                let lock = disk.entry(d).or_insert(Some(vec![])).as_mut().unwrap();
                lock.retain(|(main, _)| *main != m);
                lock.push((m, files));
            }
            Op::Again(d, m) => {
                let d = place(d);
                let Some(Some(lock)) = disk.get_mut(&d).filter(|l| l.as_ref().is_some_and(|l| !l.is_empty())) else { continue };
                let at = *m as usize % lock.len();
                let m = lock[at].0.clone();
                let known = LockFile::read(&d).map_err(|e| Fail::from(format!("{what}: {e}")))?;
                let id = known.document.iter().find(|i| i.main.to_abs_path(&d).as_ref() == Some(&m)).map(|i| i.id.clone());
                let mut up = update_lock(d.as_path().into());
                up.route(id.ok_or_else(|| Fail::from(format!("{what}: the document {m:?} is not recorded")))?, n as u32);
                up.commit();
                let again = lock.remove(at);
                lock.push(again);
            }
            Op::Restart => {
                server = start();
                read.clear();
            }
            Op::Garbage(d) => {
                std::fs::write(place(d).join("tinymist.lock"), "version = ").unwrap();
                disk.insert(place(d), None);
            }
            Op::Remove(d) => {
                let _ = std::fs::remove_file(place(d).join("tinymist.lock"));
                disk.remove(&place(d));
            }
            Op::Ask(f) | Op::Focus(f) => {
                let f = file(f);
                let mut to = None;
                let mut at = f.parent();
                while let Some(d) = at.filter(|d| d.starts_with(base) && c.lock) {
                    // What a server has found in a lock, it keeps.
                    let lock = read.get(d).or(disk.get(d).and_then(|l| l.as_ref()));
                    let main = lock.and_then(|l| l.iter().rfind(|(_, files)| files.contains(&f)));
                    if let Some((main, _)) = main {
                        to = Some((d.to_owned(), main.clone()));
                        let lock = lock.unwrap().clone();
                        read.insert(d.to_owned(), lock);
                        break;
                    }
                    at = d.parent();
                }
                led += u32::from(to.is_some());
                let (root, main) = to.unwrap_or_else(|| (if c.roots { base.to_owned() } else { f.parent().unwrap().to_owned() }, f.clone()));
                let r = no_panic(|| match op {
                    Op::Ask(_) => server.s.change_main_file(Some(f.as_path().into())),
                    _ => server.s.focus_main_file(Some(f.as_path().into())),
                });
                ensure!(matches!(r, Ok(Ok(true))), "{what}: {r:?}");
                let entry = server.s.project.compiler.primary.verse.entry_state();
                ensure_eq!(entry.root().as_deref().map(Path::to_owned), Some(root.clone()), "{what}, the root");
                let got = entry.main().map(|id| root.join(id.vpath().as_rootless_path()));
                ensure_eq!(got, Some(main), "{what}, the document of {f:?} ");
            }
        }
    }
    Ok(led > 0)
}

fn main() {
    let home = Scratch::new();
    std::env::set_var("XDG_CACHE_HOME", home.path());
    std::env::set_var("HOME", home.path());
    Check::main("C43", "a lock leads from a file to a document", |c| {
        c.prop("histories", Opts::new(20000).thorough(20).shards(24), cases, history);
    })
}
