//! C13: an atomic file write is all or nothing.
use h_std::fault::{self, with_fault, Fault, FILES, READS, UNLINKS};
use h_std::tree::{self, build, Ent, Fs, Node, Rel};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use tinymist_std::fs::paths;
use vcommon::scratch::Scratch;
use vcommon::{bx, ensure, no_panic, Check, Fail, Hex, Opts, Verdict};

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    tree: Vec<Ent>,
    path: Rel,
    data: Hex,
    umask: u16,
    /// The writer runs in the file's directory and names it without one.
    bare: bool,
    /// Only this fault, in replays of a shrunk case.
    only: Option<Fault>,
}

#[derive(Serialize, Deserialize)]
struct Op {
    cwd: Hex,
    path: Hex,
    data: Hex,
    umask: u16,
}

fn run(op: Op) -> serde_json::Value {
    unsafe { libc::umask(op.umask as u32 & 0o777) };
    let _ = std::env::set_current_dir(OsStr::from_bytes(&op.cwd.0));
    // From here on it is the operation itself.
    match paths::write_atomic(Path::new(OsStr::from_bytes(&op.path.0)), &op.data.0) {
        Ok(()) => serde_json::json!({"ok": true}),
        Err(e) => serde_json::json!({"ok": false, "error": format!("{e:#}")}),
    }
}

fn fresh(root: &Path, c: &Case) -> Fs {
    let _ = std::fs::remove_dir_all(root);
    std::fs::create_dir(root).unwrap();
    build(root, &c.tree);
    let mut fs = Fs::read(root);
    fs.age();
    fs.mtimes.iter_mut().for_each(|m| *m = Fs::OLD);
    fs
}

/// The tree after the write, or `None` if the write cannot succeed.
fn written(before: &Fs, c: &Case) -> Option<Fs> {
    let mut fs = before.clone();
    let at = fs.get(&c.path, false)?;
    if at.name == b"." || matches!(at.node.map(|i| &fs.nodes[i]), Some(Node::Dir(_))) {
        return None;
    }
    let mode = before.file(&c.path).and_then(|(i, _)| match &before.nodes[i] {
        Node::File { mode, .. } => mode.map(|m| m & 0o777),
        _ => None,
    });
    fs.put(&at, Node::File { data: c.data.0.clone(), mode });
    Some(fs)
}

/// The same with any mode, for a writer that did not get to its end.
fn any_mode(fs: &Fs, c: &Case) -> Fs {
    let mut fs = fs.clone();
    let id = fs.get(&c.path, false).and_then(|p| p.node).unwrap();
    if let Node::File { mode, .. } = &mut fs.nodes[id] {
        *mode = None;
    }
    fs
}

fn hex(p: &Path) -> Hex {
    Hex(p.as_os_str().as_bytes().to_vec())
}

fn check_one(root: &Path, c: &Case, fault: Fault) -> Result<Vec<(i64, i64)>, Fail> {
    let before = fresh(root, c);
    let after = written(&before, c);
    let full = c.path.at(root);
    let (cwd, path) = match (c.bare, full.parent(), full.file_name()) {
        (true, Some(d), Some(n)) if d.is_dir() => (d.to_path_buf(), PathBuf::from(n)),
        _ => (root.to_path_buf(), full.clone()),
    };
    let out = with_fault(&Op { cwd: hex(&cwd), path: hex(&path), data: c.data.clone(), umask: c.umask }, fault)?;
    if let Some(s) = &out.crashed {
        return Err(format!("under {fault:?} the writer {s}").into());
    }
    let real = Fs::read(root);
    let dir = before.get(&c.path, false).map(|p| p.dir);
    let show = |e: &str| format!("under {fault:?} of the calls {:?}: {e}", out.calls.iter().map(|c| c.0).collect::<Vec<_>>());
    if out.killed {
        // Complete old or complete new; only temporary files may remain.
        let old = before.differs_but(&real, dir).or(before.touched(&real, &[]));
        let new = after.as_ref().map(|a| any_mode(a, c).differs_but(&real, dir).or(a.touched(&real, &[])));
        match (old, new) {
            (None, _) | (_, Some(None)) => {}
            (Some(o), n) => return Err(show(&format!("the killed writer left neither the old state ({o}) nor the new ({n:?})")).into()),
        }
        return Ok(out.calls);
    }
    let said = out.said.clone().unwrap_or_default();
    ensure!(said.get("panicked").is_none(), "{}", show("the writer panicked"));
    let unlink_failed = out.calls.iter().any(|(n, r)| UNLINKS.contains(n) && *r < 0);
    if said["ok"] == true {
        let Some(a) = after else { return Err(show("success is reported, but the file cannot be written").into()) };
        if let Some(d) = a.differs(&real).or(a.touched(&real, &[])) {
            return Err(show(&format!("success is reported, but {d}")).into());
        }
    } else {
        // The temporary file beside it has a longer name.
        let long = c.path.0.last().is_some_and(|n| n.0.len() > 240);
        ensure!(fault != Fault::None || after.is_none() || long, "the write fails: {said}");
        let extra = if unlink_failed { dir } else { None };
        if let Some(d) = before.differs_but(&real, extra).or(before.touched(&real, &[])) {
            return Err(show(&format!("the write failed ({said}), but {d}")).into());
        }
    }
    Ok(out.calls)
}

static RUNS: AtomicU64 = AtomicU64::new(0);

fn judge(c: &Case) -> Verdict {
    let s = Scratch::new();
    let root = tree::nest(s.path());
    if let Some(f) = c.only {
        check_one(&root, c, f)?;
        return Ok(true);
    }
    let calls = check_one(&root, c, Fault::None)?;
    let mut faults = vec![];
    for (i, (nr, _)) in calls.iter().enumerate() {
        let at = i as u32;
        faults.push(Fault::Kill { at, after: false });
        faults.push(Fault::Kill { at, after: true });
        if READS.contains(nr) || !FILES.contains(nr) {
            continue;
        }
        let errnos: &[i32] = match *nr {
            libc::SYS_open | libc::SYS_openat | libc::SYS_creat => &[libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::EEXIST, libc::EINTR],
            libc::SYS_write | libc::SYS_pwrite64 | libc::SYS_writev => &[libc::ENOSPC, libc::EIO, libc::EINTR],
            libc::SYS_rename | libc::SYS_renameat | libc::SYS_renameat2 => &[libc::EACCES, libc::EIO, libc::EXDEV],
            libc::SYS_fchmod | libc::SYS_chmod | libc::SYS_fchmodat => &[libc::EPERM, libc::EIO],
            _ => &[libc::EIO],
        };
        faults.extend(errnos.iter().map(|e| Fault::Fail { at, errno: *e }));
        if matches!(*nr, libc::SYS_write | libc::SYS_pwrite64 | libc::SYS_copy_file_range | libc::SYS_sendfile) {
            faults.push(Fault::Short { at, len: 1 });
            faults.push(Fault::Short { at, len: c.data.0.len() as u32 / 2 });
        }
    }
    for f in &faults {
        RUNS.fetch_add(1, Ordering::Relaxed);
        check_one(&root, c, *f)?;
    }
    Ok(c.tree.len() > 5 && faults.len() > 10)
}

fn case() -> BoxedStrategy<Case> {
    let existing = |p: Rel| {
        let q = p.clone();
        let file = (tree::data(), prop::sample::select(vec![0o644u16, 0o600, 0o755, 0o444, 0o777, 0o640, 0o000, 0o200]));
        prop_oneof![
            2 => Just(vec![]),
            5 => file.clone().prop_map(move |(d, m)| vec![Ent::File(p.clone(), d, m)]),
            1 => file.prop_map(move |(d, m)| {
                let mut other = q.clone();
                other.0.last_mut().unwrap().0.push(b'2');
                vec![Ent::File(q.clone(), d, m), Ent::Hard(other, q.clone())]
            }),
        ]
    };
    (tree::rel(), prop::option::weighted(0.05, 1usize..256), tree::tree(), tree::data(), prop::sample::select(vec![0o022u16, 0, 0o077, 0o777, 0o027]), any::<bool>())
        .prop_flat_map(move |(mut path, long, tree, data, umask, bare)| {
            if let Some(n) = long {
                path.0.last_mut().unwrap().0 = vec![b'n'; n];
            }
            existing(path.clone()).prop_map(move |first| {
                let mut tree: Vec<Ent> = tree.clone();
                let mut data = data.clone();
                if let (Some(Ent::File(_, old, _)), 0) = (first.first(), umask as usize % 2 + tree.len() % 2) {
                    // Nearly what is there already, sometimes just that.
                    let at = (data.0.len() as u16).wrapping_mul(1009);
                    data = Hex(if at % 5 == 0 { old.0.clone() } else { tree::near(&old.0, at, at as u8) });
                }
                let parent = Rel(path.0[..path.0.len() - 1].to_vec());
                let mut mine = vec![Ent::Dir(parent)];
                mine.extend(first);
                // Sometimes the path's own entries come last and may not fit.
                if data.0.len() % 5 == 4 {
                    tree.extend(mine);
                } else {
                    tree.splice(0..0, mine);
                }
                Case { tree, path: path.clone(), data: data.clone(), umask, bare, only: None }
            })
        })
        .boxed()
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Race {
    /// The contents each writer goes through: length and filling.
    writers: Vec<Vec<(u32, u8)>>,
    readers: u8,
    mode: u16,
}

fn judge_race(c: &Race) -> Verdict {
    let s = Scratch::new();
    let path = s.path().join("file");
    let text = |l: u32, b: u8| {
        let l = if ((9 << 20)..(24 << 20)).contains(&l) { l } else { l % 300_000 };
        let mut v = vec![b; l as usize];
        v.extend(b"end");
        v
    };
    let first = text(1000, 1);
    std::fs::write(&path, &first).unwrap();
    use std::os::unix::fs::PermissionsExt;
    let mode = c.mode as u32 & 0o777;
    std::fs::set_permissions(&path, std::fs::Permissions::from_mode(mode)).unwrap();
    let link = s.path().join("link");
    std::fs::hard_link(&path, &link).unwrap();
    let mut all: HashSet<Vec<u8>> = c.writers.iter().flatten().map(|(l, b)| text(*l, *b)).collect();
    all.insert(first.clone());
    let done = AtomicBool::new(false);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let say = |m: String| {
        bad.lock().unwrap().get_or_insert(m);
    };
    let seen: Mutex<HashSet<Vec<u8>>> = Mutex::new(HashSet::new());
    std::thread::scope(|sc| {
        for _ in 0..c.readers % 3 + 1 {
            sc.spawn(|| loop {
                let end = done.load(Ordering::SeqCst);
                match std::fs::read(&path) {
                    Ok(v) if all.contains(&v) => {
                        seen.lock().unwrap().insert(v);
                    }
                    Ok(v) => say(format!("a reader sees {} bytes that nobody wrote, starting {:?}", v.len(), &v[..v.len().min(8)])),
                    Err(e) => say(format!("a reader finds no file: {e}")),
                }
                match std::fs::read(&link) {
                    Ok(v) if v == first => {}
                    _ => say("another link to the old file has changed".into()),
                }
                if end {
                    break;
                }
            });
        }
        let hs: Vec<_> = c
            .writers
            .iter()
            .map(|w| {
                let (path, say) = (&path, &say);
                sc.spawn(move || {
                    for _ in 0..3 {
                        for (l, b) in w {
                            match no_panic(|| paths::write_atomic(path, text(*l, *b))) {
                                Ok(Ok(())) => {}
                                Ok(Err(e)) => say(format!("a write fails: {e:#}")),
                                Err(p) => say(format!("a write panics: {p}")),
                            }
                        }
                    }
                })
            })
            .collect();
        hs.into_iter().for_each(|h| h.join().unwrap());
        done.store(true, Ordering::SeqCst);
    });
    if let Some(b) = bad.into_inner().unwrap() {
        return Err(b.into());
    }
    let last = std::fs::read(&path).unwrap();
    let ends: Vec<Vec<u8>> = c.writers.iter().filter_map(|w| w.last()).map(|(l, b)| text(*l, *b)).collect();
    ensure!(ends.is_empty() || ends.contains(&last), "the file ends up with what no writer wrote last");
    let m = std::fs::metadata(&path).unwrap().permissions().mode() & 0o777;
    ensure!(m == mode, "the mode is {m:o}, not {mode:o}");
    let names: Vec<_> = std::fs::read_dir(s.path()).unwrap().map(|e| e.unwrap().file_name()).collect();
    ensure!(names.len() == 2, "the directory now holds {names:?}");
    let n = seen.into_inner().unwrap().len();
    Ok(n > 2)
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--helper") {
        fault::helper(run);
    }
    Check::main("C13", "a case is a tree, a path in it and new contents, written once as it is and then once for every fault at every system call on files (non-trivial: the tree has more than its fixed part and there are over ten faults); or writers and readers at once (non-trivial: readers saw at least three different contents)", |c| {
        c.assume("a system call either happens or not; what reaches a disk across a power loss is not simulated");
        c.assume("errors are injected into calls that change something or move data, not into calls that only look (stat)");
        c.prop("faults", Opts::new(3_500).shards(8).shrink(400), || bx(case()), judge);
        c.prop("readers", Opts::new(300).shards(3).shrink(60).retries(3), || bx((prop::collection::vec(prop::collection::vec((any::<u32>(), any::<u8>()), 1..5), 1..4), any::<u8>(), prop::sample::select(vec![0o644u16, 0o600, 0o755, 0o664])).prop_map(|(writers, readers, mode)| Race { writers, readers, mode })), judge_race);
        c.prop("large", Opts::new(4).shards(2).shrink(10).retries(3), || bx((prop::collection::vec(((9u32 << 20)..(24 << 20), any::<u8>()), 2..4), 1u8..4).prop_map(|(w, readers)| Race { writers: vec![w], readers, mode: 0o644 })), judge_race);
        c.note("writes_with_a_fault", RUNS.load(Ordering::Relaxed));
    });
}
