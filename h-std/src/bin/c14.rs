//! C14: the file helpers do what they say to exactly the paths named.
use h_std::fault::{self, with_fault, Fault, FILES, READS};
use h_std::tree::{self, build, Ent, Fs, Id, Node, Place, Rel};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use tinymist_std::fs::paths;
use vcommon::scratch::Scratch;
use vcommon::{bx, ensure, ensure_eq, Check, Fail, Hex, Opts, Verdict};

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
enum End {
    Ok,
    Err,
    Panic,
    /// The callback removes the directory itself.
    Gone,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    Read(Rel),
    ReadBytes(Rel),
    Write(Rel, Hex),
    WriteAtomic(Rel, Hex),
    WriteIfChanged(Rel, Hex),
    /// Writes what is already there.
    Rewrite(Rel),
    /// Writes, in one of three ways, nearly what is already there.
    Nearly(Rel, u8, u16, u8),
    Append(Rel, Hex),
    Create(Rel),
    Open(Rel),
    Copy(Rel, Rel),
    LinkOrCopy(Rel, Rel),
    RemoveFile(Rel),
    RemoveDir(Rel),
    RemoveDirAll(Rel),
    CreateDirAll(Rel),
    CreateDirAllExcluded(Rel),
    TempDirIn(Rel, End),
    Metadata(Rel),
    SymlinkMetadata(Rel),
    StripPrefix(Rel, Rel),
}

/// How the paths are written.
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
enum How {
    Absolute,
    /// Relative to the root of the tree.
    Relative,
    /// The bare name, from the directory it is in.
    Bare,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    tree: Vec<Ent>,
    ops: Vec<(Op, How)>,
    only: Option<Fault>,
}

#[derive(Serialize, Deserialize)]
struct Req {
    cwd: Hex,
    paths: Vec<Hex>,
    op: Op,
    data: Hex,
}

fn paths_of(op: &Op) -> Vec<&Rel> {
    match op {
        Op::Copy(a, b) | Op::LinkOrCopy(a, b) | Op::StripPrefix(a, b) => vec![a, b],
        Op::Read(a) | Op::ReadBytes(a) | Op::Write(a, _) | Op::WriteAtomic(a, _) | Op::WriteIfChanged(a, _) | Op::Rewrite(a) | Op::Nearly(a, ..) | Op::Append(a, _) | Op::Create(a) | Op::Open(a) => vec![a],
        Op::RemoveFile(a) | Op::RemoveDir(a) | Op::RemoveDirAll(a) | Op::CreateDirAll(a) | Op::CreateDirAllExcluded(a) | Op::TempDirIn(a, _) | Op::Metadata(a) | Op::SymlinkMetadata(a) => vec![a],
    }
}

/// What a callback leaves in its temporary directory.
fn litter(d: &Path, out: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(d.join("x/y"))?;
    std::fs::write(d.join("x/f"), "f")?;
    std::os::unix::fs::symlink(out, d.join("x/y/l"))?;
    std::os::unix::fs::symlink("../nowhere", d.join("l"))?;
    let f = d.join("ro");
    std::fs::write(&f, "ro")?;
    std::fs::set_permissions(&f, std::os::unix::fs::PermissionsExt::from_mode(0o400))
}

/// In the child: does it, and says what came of it.
fn run(r: Req) -> serde_json::Value {
    use serde_json::json;
    unsafe { libc::umask(0o022) };
    let _ = std::env::set_current_dir(OsStr::from_bytes(&r.cwd.0));
    let ps: Vec<&Path> = r.paths.iter().map(|p| Path::new(OsStr::from_bytes(&p.0))).collect();
    let p = ps[0];
    let hex = |b: &[u8]| serde_json::to_value(Hex(b.to_vec())).unwrap();
    let meta = |m: std::fs::Metadata| json!([m.is_dir(), m.is_symlink(), if m.is_dir() { 0 } else { m.len() }]);
    let done: anyhow::Result<serde_json::Value> = (|| {
        Ok(match &r.op {
            Op::Read(_) => hex(paths::read(p)?.as_bytes()),
            Op::ReadBytes(_) => hex(&paths::read_bytes(p)?),
            Op::Write(..) => json!(paths::write(p, &r.data.0)?),
            Op::WriteAtomic(..) => json!(paths::write_atomic(p, &r.data.0)?),
            Op::WriteIfChanged(..) | Op::Rewrite(_) => json!(paths::write_if_changed(p, &r.data.0)?),
            Op::Append(..) => json!(paths::append(p, &r.data.0)?),
            Op::Create(_) => json!(drop(paths::create(p)?)),
            Op::Open(_) => meta(paths::open(p)?.metadata()?),
            Op::Copy(..) => json!(paths::copy(p, ps[1])?),
            Op::LinkOrCopy(..) => json!(paths::link_or_copy(p, ps[1])?),
            Op::RemoveFile(_) => json!(paths::remove_file(p)?),
            Op::RemoveDir(_) => json!(paths::remove_dir(p)?),
            Op::RemoveDirAll(_) => json!(paths::remove_dir_all(p)?),
            Op::CreateDirAll(_) => json!(paths::create_dir_all(p)?),
            Op::CreateDirAllExcluded(_) => json!(paths::create_dir_all_excluded_from_backups_atomic(p)?),
            Op::Metadata(_) => meta(paths::metadata(p)?),
            Op::SymlinkMetadata(_) => meta(paths::symlink_metadata(p)?),
            Op::Nearly(..) => unreachable!(),
            Op::StripPrefix(..) => match paths::strip_prefix_canonical(p, ps[1]) {
                Ok(q) => hex(q.as_os_str().as_bytes()),
                Err(_) => json!(null),
            },
            Op::TempDirIn(_, end) => {
                let mut seen = json!(null);
                let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    paths::temp_dir_in(p, |d| {
                        let empty = std::fs::read_dir(d)?.next().is_none();
                        let inside = d.parent().map(|q| q.canonicalize().ok() == p.canonicalize().ok());
                        seen = json!([empty, inside, d.is_dir()]);
                        litter(d, Path::new(OsStr::from_bytes(&r.data.0)))?;
                        match end {
                            End::Ok => {}
                            End::Err => anyhow::bail!("the callback's error"),
                            End::Panic => panic!("the callback's panic"),
                            End::Gone => std::fs::remove_dir_all(d)?,
                        }
                        Ok(17)
                    })
                }));
                let how = match got {
                    Ok(Err(e)) if seen.is_null() => return Err(e),
                    Ok(Ok(n)) => json!(n),
                    Ok(Err(e)) => json!(format!("{e}")),
                    Err(_) => json!("panic"),
                };
                json!([seen, how])
            }
        })
    })();
    match done {
        Ok(v) => json!({"ok": true, "value": v}),
        Err(e) => json!({"ok": false, "error": format!("{e:#}")}),
    }
}

/// What the model expects of an operation.
struct Want {
    /// Whether it succeeds, if that is certain.
    ok: Option<bool>,
    /// The tree after success.
    after: Fs,
    /// The tree after failure.
    failed: Fs,
    /// Files that may be written to.
    may: Vec<Id>,
    /// What it returns.
    value: Option<serde_json::Value>,
    /// These two paths read the same afterwards.
    same: Option<(Rel, Rel)>,
    /// Names may be left here if a fault was injected.
    debris: Option<Id>,
}

/// Creates a directory with its parents: the tree with it, and the first
/// place where something appears.
fn mkdirs(fs: &Fs, r: &Rel, leaf: Node) -> Option<(Fs, Option<Place>)> {
    let (mut fs, all) = (fs.clone(), fs.names(r));
    let mut first = None;
    for k in 1..=all.len() {
        let at = fs.find(&all[..k], true)?;
        match at.node.map(|i| &fs.nodes[i]) {
            Some(Node::Dir(_)) => {}
            Some(_) => return None,
            None => {
                // A link that leads nowhere.
                if fs.find(&all[..k], false)?.node.is_some() {
                    return None;
                }
                first.get_or_insert(at.clone());
                fs.put(&at, if k == all.len() { leaf.clone() } else { Node::Dir(BTreeMap::new()) });
            }
        }
    }
    Some((fs, first))
}

fn same_inode(fs: &Fs, a: &Rel, b: &Rel) -> bool {
    let f = |r| fs.get(r, true).and_then(|p| p.node);
    f(a).is_some() && f(a) == f(b)
}

fn expect(fs: &Fs, op: &Op, data: &[u8], faulty: bool) -> Want {
    use serde_json::json;
    let hex = |b: &[u8]| serde_json::to_value(Hex(b.to_vec())).unwrap();
    let keep = |ok: bool, value| Want { ok: Some(ok), after: fs.clone(), failed: fs.clone(), may: vec![], value, same: None, debris: None };
    let unit = || Some(json!(null));
    // Writing through to an existing or a new file.
    let put = |p: &Rel, new: Vec<u8>, mode: u32, chmod: bool| -> Want {
        let mut w = keep(false, None);
        let Some(at) = fs.get(p, true) else { return w };
        match at.node {
            None => {
                w.after.put(&at, Node::File { data: new, mode: Some(mode) });
                w.failed.put(&at, Node::Maybe);
            }
            Some(i) => {
                let Node::File { data, mode: m } = &mut w.after.nodes[i] else { return keep(false, None) };
                *data = new;
                if chmod {
                    *m = Some(mode);
                }
                w.failed.nodes[i] = Node::Any;
                w.may.push(i);
            }
        }
        w.ok = Some(true);
        w
    };
    match op {
        Op::Read(p) => match fs.file(p) {
            Some((_, d)) if std::str::from_utf8(d).is_ok() => keep(true, Some(hex(d))),
            _ => keep(false, None),
        },
        Op::ReadBytes(p) => match fs.file(p) {
            Some((_, d)) => keep(true, Some(hex(d))),
            _ => keep(false, None),
        },
        Op::Write(p, _) => Want { value: unit(), ..put(p, data.to_vec(), 0o644, false) },
        Op::WriteAtomic(p, _) => {
            let mut w = keep(false, None);
            let Some(at) = fs.get(p, false) else { return w };
            w.debris = Some(at.dir);
            if at.name == b"." || matches!(at.node.map(|i| &fs.nodes[i]), Some(Node::Dir(_))) {
                return w;
            }
            let mode = fs.file(p).and_then(|(i, _)| match &fs.nodes[i] {
                Node::File { mode, .. } => mode.map(|m| m & 0o777),
                _ => None,
            });
            w.after.put(&at, Node::File { data: data.to_vec(), mode });
            w.ok = Some(true);
            w.value = unit();
            w
        }
        Op::WriteIfChanged(p, _) | Op::Rewrite(p) => match fs.file(p) {
            Some((_, d)) if d == data => keep(true, unit()),
            _ => Want { value: unit(), ..put(p, data.to_vec(), 0o644, false) },
        },
        Op::Append(p, _) => {
            let mut all = fs.file(p).map(|f| f.1.clone()).unwrap_or_default();
            all.extend(data);
            Want { value: unit(), ..put(p, all, 0o644, false) }
        }
        Op::Create(p) => Want { value: unit(), ..put(p, vec![], 0o644, false) },
        Op::Open(p) => match fs.get(p, true).and_then(|p| p.node).map(|i| &fs.nodes[i]) {
            Some(Node::Dir(_)) => keep(true, Some(json!([true, false, 0]))),
            Some(Node::File { data, .. }) => keep(true, Some(json!([false, false, data.len()]))),
            _ => keep(false, None),
        },
        Op::Metadata(p) | Op::SymlinkMetadata(p) => match fs.get(p, matches!(op, Op::Metadata(_))).and_then(|p| p.node).map(|i| &fs.nodes[i]) {
            Some(Node::Dir(_)) => keep(true, Some(json!([true, false, 0]))),
            Some(Node::File { data, .. }) => keep(true, Some(json!([false, false, data.len()]))),
            Some(Node::Link(t)) => keep(true, Some(json!([false, true, t.len()]))),
            _ => keep(false, None),
        },
        Op::Copy(p, q) => {
            let Some((i, d)) = fs.file(p) else { return keep(false, None) };
            let Node::File { mode, .. } = &fs.nodes[i] else { unreachable!() };
            Want { value: Some(json!(d.len())), ..put(q, d.clone(), mode.unwrap() & 0o777, true) }
        }
        Op::LinkOrCopy(p, q) => {
            let mut w = keep(false, None);
            let Some(at) = fs.get(q, false) else { return w };
            // A fault may keep this from being seen.
            let same = same_inode(fs, p, q);
            if same && !faulty {
                return keep(true, unit());
            }
            w.ok = if same { None } else { Some(false) };
            if at.name == b"." || matches!(at.node.map(|i| &fs.nodes[i]), Some(Node::Dir(_))) {
                return w;
            }
            if let (Some(i), true) = (at.node, faulty) {
                // Its other names, if it is removed by force.
                forget_mode(&mut w.after, i);
                forget_mode(&mut w.failed, i);
            }
            w.failed.put(&at, Node::Maybe);
            let Some(src) = fs.get(p, true).and_then(|p| p.node) else { return w };
            w.after.put(&at, Node::Any);
            // The source may be gone with what was in the destination's place,
            // or contain the destination.
            let mut without = fs.clone();
            without.dir_mut(at.dir).remove(&at.name);
            let mut apart = without.get(p, true).and_then(|p| p.node) == Some(src);
            fn has(fs: &Fs, d: Id, x: Id) -> bool {
                d == x || matches!(&fs.nodes[d], Node::Dir(m) if m.values().any(|i| has(fs, *i, x)))
            }
            apart &= !has(fs, src, at.dir);
            w.ok = apart.then_some(true);
            w.value = unit();
            w.same = Some((p.clone(), q.clone()));
            w
        }
        Op::RemoveFile(p) => {
            let mut w = keep(false, None);
            let Some(at) = fs.get(p, false) else { return w };
            match at.node {
                Some(i) if !matches!(fs.nodes[i], Node::Dir(_)) => {
                    if faulty {
                        forget_mode(&mut w.after, i);
                        forget_mode(&mut w.failed, i);
                    }
                    w.after.dir_mut(at.dir).remove(&at.name);
                    w.ok = Some(true);
                    w.value = unit();
                }
                _ => {}
            }
            w
        }
        Op::RemoveDir(p) => {
            let mut w = keep(false, None);
            let Some(at) = fs.get(p, false) else { return w };
            if at.node.is_some_and(|i| fs.nodes[i] == Node::Dir(BTreeMap::new())) {
                w.after.dir_mut(at.dir).remove(&at.name);
                w.ok = Some(true);
                w.value = unit();
            }
            w
        }
        Op::RemoveDirAll(p) => {
            let mut w = keep(false, None);
            let Some(at) = fs.get(p, false) else { return w };
            let Some(i) = at.node else { return w };
            if matches!(fs.nodes[i], Node::File { .. }) {
                return w;
            }
            if faulty {
                let mut below = vec![i];
                while let Some(i) = below.pop() {
                    forget_mode(&mut w.after, i);
                    forget_mode(&mut w.failed, i);
                    if let Node::Dir(d) = &fs.nodes[i] {
                        below.extend(d.values());
                    }
                }
            }
            w.after.dir_mut(at.dir).remove(&at.name);
            w.failed.put(&at, Node::Maybe);
            // The path may lead through a link that is below what it names.
            let mut without = fs.clone();
            if let Node::Dir(d) = &mut without.nodes[i] {
                d.clear();
            }
            w.ok = (without.get(p, false).is_some_and(|q| q.dir == at.dir && q.name == at.name)).then_some(true);
            w.value = unit();
            w
        }
        Op::CreateDirAll(p) => {
            let mut w = keep(false, None);
            let Some((after, first)) = mkdirs(fs, p, Node::Dir(BTreeMap::new())) else { return w };
            if let Some(f) = first {
                w.failed.put(&f, Node::Maybe);
            }
            Want { ok: Some(true), after, value: unit(), ..w }
        }
        Op::CreateDirAllExcluded(p) => {
            let mut w = keep(false, None);
            // A fault may keep the tag from being written, which is ignored.
            let tag = if faulty { Node::Maybe } else { Node::Any };
            let mut parent = p.clone();
            parent.0.pop();
            w.debris = fs.get(&parent, true).and_then(|p| p.node);
            let Some((mut after, first)) = mkdirs(fs, p, Node::Dir(BTreeMap::new())) else { return w };
            if let Some(f) = first {
                w.failed.put(&f, Node::Maybe);
                let at = after.get(p, true).unwrap().node.unwrap();
                let tag = after.add(tag);
                after.dir_mut(at).insert(b"CACHEDIR.TAG".to_vec(), tag);
            }
            Want { ok: Some(true), after, value: unit(), ..w }
        }
        Op::TempDirIn(p, end) => {
            let mut w = keep(false, None);
            let Some((after, first)) = mkdirs(fs, p, Node::Dir(BTreeMap::new())) else { return w };
            if let Some(f) = first {
                w.failed.put(&f, Node::Maybe);
            }
            w.debris = after.get(p, true).and_then(|p| p.node);
            let how = match end {
                End::Ok | End::Gone => json!(17),
                End::Err => json!("the callback's error"),
                End::Panic => json!("panic"),
            };
            Want { ok: Some(true), after, value: Some(json!([[true, true, true], how])), ..w }
        }
        Op::Nearly(..) => unreachable!(),
        Op::StripPrefix(..) => keep(true, None),
    }
}

fn forget_mode(fs: &mut Fs, i: Id) {
    if let Node::File { mode, .. } = &mut fs.nodes[i] {
        *mode = None;
    }
}

fn hex(p: &Path) -> Hex {
    Hex(p.as_os_str().as_bytes().to_vec())
}

struct Run {
    calls: Vec<(i64, i64)>,
    ok: bool,
    changed: bool,
}

/// The contents below a path, following links to it but not below it.
fn contents(fs: &Fs, r: &Rel) -> Option<BTreeMap<Vec<u8>, String>> {
    let id = fs.get(r, true)?.node?;
    let mut out = BTreeMap::new();
    fn walk(fs: &Fs, id: Id, at: Vec<u8>, out: &mut BTreeMap<Vec<u8>, String>) {
        let here = match &fs.nodes[id] {
            Node::Dir(d) => {
                d.iter().for_each(|(n, i)| walk(fs, *i, [&at[..], b"/", n].concat(), out));
                "dir".into()
            }
            n => format!("{n:?}"),
        };
        out.insert(at, here);
    }
    walk(fs, id, vec![], &mut out);
    Some(out)
}

fn step(root: &Path, op: &Op, how: How, fault: Fault) -> Result<Run, Fail> {
    let mut before = Fs::read(root);
    before.age();
    before.mtimes.iter_mut().for_each(|m| *m = Fs::OLD);
    let resolved;
    let op = match op {
        Op::Nearly(p, way, at, variation) => {
            let d = Hex(tree::near(before.file(p).map_or(&[], |f| f.1), *at, *variation));
            resolved = match way % 4 {
                0 => Op::Write(p.clone(), d),
                1 => Op::WriteAtomic(p.clone(), d),
                _ => Op::WriteIfChanged(p.clone(), d),
            };
            &resolved
        }
        op => op,
    };
    let rels = paths_of(op);
    let data = match op {
        Op::Write(_, d) | Op::WriteAtomic(_, d) | Op::WriteIfChanged(_, d) | Op::Append(_, d) => d.0.clone(),
        Op::Rewrite(p) => before.file(p).map(|f| f.1.clone()).unwrap_or_default(),
        Op::TempDirIn(..) => root.join("out").as_os_str().as_bytes().to_vec(),
        _ => vec![],
    };
    if let Op::Copy(a, b) = op {
        if same_inode(&before, a, b) {
            // What copying a file onto itself does is up to the system.
            return Ok(Run { calls: vec![], ok: false, changed: false });
        }
    }
    let full: Vec<PathBuf> = rels.iter().map(|r| r.at(root)).collect();
    let (cwd, ps) = match how {
        How::Relative => (root.to_path_buf(), rels.iter().map(|r| r.at(Path::new(""))).collect()),
        How::Bare if rels.len() == 1 && full[0].parent().is_some_and(|d| d.is_dir()) => (full[0].parent().unwrap().to_path_buf(), vec![PathBuf::from(full[0].file_name().unwrap())]),
        _ => (root.to_path_buf(), full.clone()),
    };
    let faulty = fault != Fault::None;
    let want = expect(&before, op, &data, faulty);
    let out = with_fault(&Req { cwd: hex(&cwd), paths: ps.iter().map(|p| hex(p)).collect(), op: op.clone(), data: Hex(data.clone()) }, fault)?;
    let what = format!("{op:?} ({how:?}) under {fault:?}");
    if let Some(s) = &out.crashed {
        return Err(format!("{what}: the process {s}").into());
    }
    let said = out.said.clone().unwrap_or_default();
    ensure!(said.get("panicked").is_none() && said.get("ok").is_some(), "{what}: it panicked");
    let ok = said["ok"] == true;
    let real = Fs::read(root);
    // A callback that met the fault itself is none of the helper's doing.
    let in_callback = faulty && matches!(op, Op::TempDirIn(..)) && ok && Some(&said["value"]) != want.value.as_ref();
    let result = if in_callback { want.value.clone().unwrap_or_default() } else { said["value"].clone() };
    match want.ok {
        Some(w) if !faulty => ensure!(w == ok, "{what}: it {}, but should {}: {said}", if ok { "succeeds" } else { "fails" }, if w { "succeed" } else { "fail" }),
        Some(false) => ensure!(!ok, "{what}: it succeeds, but cannot have: {said}"),
        _ => {}
    }
    let debris = if faulty { want.debris } else { None };
    if ok {
        if let Some(v) = &want.value {
            ensure_eq!(&result, v, "{what}: its result");
        }
        let tag = matches!(op, Op::CreateDirAllExcluded(_));
        let unclear = debris.filter(|_| matches!(op, Op::TempDirIn(..)));
        if let Some(d) = want.after.differs_but(&real, unclear).or(want.after.touched(&real, &want.may)) {
            return Err(format!("{what}: it succeeds, but {d}").into());
        }
        if let Some((a, b)) = &want.same {
            let (x, y) = (contents(&before, a), contents(&real, b));
            if want.ok == Some(true) {
                ensure_eq!(y, x, "{what}: what the destination reads as");
            }
        }
        if tag && !faulty && want.after.list().len() != before.list().len() {
            let at = rels[0].at(root).join("CACHEDIR.TAG");
            let text = std::fs::read(&at).unwrap_or_default();
            ensure!(text.starts_with(b"Signature: 8a477f597d28d172789f06886806bc55"), "{what}: no cache directory tag");
        }
        if let Op::StripPrefix(..) = op {
            let canon: Vec<PathBuf> = ps.iter().map(|p| cwd.join(p).canonicalize().unwrap_or(p.to_path_buf())).collect();
            match serde_json::from_value::<Option<Hex>>(said["value"].clone()).unwrap() {
                Some(rest) => {
                    let rest = Path::new(OsStr::from_bytes(&rest.0));
                    ensure_eq!(canon[1].join(rest).components().collect::<PathBuf>(), canon[0], "{what}: base and rest together");
                    ensure!(rest.is_relative(), "{what}: the rest {rest:?} is not relative");
                }
                None => ensure!(!canon[0].starts_with(&canon[1]), "{what}: {:?} starts with {:?}", canon[0], canon[1]),
            }
        }
    } else if faulty {
        if let Some(d) = want.failed.differs_but(&real, debris).or(want.failed.touched(&real, &want.may)) {
            return Err(format!("{what}: it fails ({said}), but {d}").into());
        }
    } else {
        // Linking may have removed what was in the destination's place.
        if let Some(d) = want.failed.differs(&real).or(want.failed.touched(&real, &want.may)) {
            return Err(format!("{what}: it fails ({said}), but {d}").into());
        }
    }
    let changed = before.differs(&real).is_some();
    Ok(Run { calls: out.calls, ok, changed })
}

fn start(c: &Case) -> (Scratch, PathBuf) {
    let s = Scratch::new();
    let root = tree::nest(s.path());
    build(&root, &c.tree);
    (s, root)
}

static OPS: AtomicU64 = AtomicU64::new(0);
static FAULTS: AtomicU64 = AtomicU64::new(0);

fn judge(c: &Case) -> Verdict {
    let (_s, root) = start(c);
    let mut changed = 0;
    for (i, (op, how)) in c.ops.iter().enumerate() {
        OPS.fetch_add(1, Ordering::Relaxed);
        let r = step(&root, op, *how, Fault::None).map_err(|f| f.at(&format!("operation {i}")))?;
        changed += (r.ok && r.changed) as u32;
    }
    Ok(changed > 1)
}

fn judge_faults(c: &Case) -> Verdict {
    let Some((op, how)) = c.ops.first() else { return Ok(false) };
    let again = |f: Fault| {
        FAULTS.fetch_add(1, Ordering::Relaxed);
        let (_s, root) = start(c);
        step(&root, op, *how, f)
    };
    if let Some(f) = c.only {
        again(f)?;
        return Ok(true);
    }
    let calls = again(Fault::None)?.calls;
    let mut n = 0;
    for (i, (nr, _)) in calls.iter().enumerate() {
        let at = i as u32;
        if READS.contains(nr) || !FILES.contains(nr) || *nr == libc::SYS_close {
            continue;
        }
        let errnos: &[i32] = match *nr {
            libc::SYS_open | libc::SYS_openat | libc::SYS_creat => &[libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::EINTR],
            libc::SYS_write | libc::SYS_pwrite64 | libc::SYS_writev => &[libc::ENOSPC, libc::EIO, libc::EINTR],
            libc::SYS_read => &[libc::EIO, libc::EINTR],
            libc::SYS_rename | libc::SYS_renameat | libc::SYS_renameat2 | libc::SYS_link | libc::SYS_linkat | libc::SYS_symlink | libc::SYS_symlinkat => &[libc::EACCES, libc::EXDEV, libc::EPERM],
            libc::SYS_unlink | libc::SYS_unlinkat => &[libc::EACCES, libc::EBUSY],
            libc::SYS_copy_file_range | libc::SYS_sendfile => &[libc::EIO, libc::EXDEV, libc::EINVAL],
            _ => &[libc::EACCES, libc::EIO],
        };
        for e in errnos {
            again(Fault::Fail { at, errno: *e })?;
            n += 1;
        }
        if matches!(*nr, libc::SYS_write | libc::SYS_pwrite64 | libc::SYS_copy_file_range | libc::SYS_sendfile) {
            again(Fault::Short { at, len: 1 })?;
        }
    }
    Ok(n > 4)
}

/// A path that is in the tree, near it, or anywhere.
fn pick(tree: &[Ent], (i, near, other): (u8, u8, Rel)) -> Rel {
    let have: Vec<&Rel> = tree
        .iter()
        .map(|e| match e {
            Ent::Dir(p) | Ent::File(p, ..) | Ent::Link(p, ..) | Ent::Hard(p, _) => p,
        })
        .collect();
    let mut p = match near % 8 {
        0 => return other,
        _ => have[i as usize * have.len() / 256].clone(),
    };
    match near % 8 {
        1 => p.0.push(other.0.last().unwrap().clone()),
        2 => *p.0.last_mut().unwrap() = other.0.last().unwrap().clone(),
        3 if p.0.len() > 1 => {
            p.0.pop();
        }
        4 => p.0.extend(other.0[1..].iter().cloned()),
        _ => {}
    }
    p
}

fn an_op() -> BoxedStrategy<(u8, (u8, u8, Rel), (u8, u8, Rel), Hex, How)> {
    let path = || (any::<u8>(), any::<u8>(), tree::rel());
    (any::<u8>(), path(), path(), tree::data(), prop::sample::select(vec![How::Absolute, How::Absolute, How::Relative, How::Bare])).boxed()
}

fn make(tree: &[Ent], (kind, a, b, d, how): (u8, (u8, u8, Rel), (u8, u8, Rel), Hex, How)) -> (Op, How) {
    let (p, q) = (pick(tree, a), pick(tree, b.clone()));
    let end = [End::Ok, End::Err, End::Panic, End::Gone][d.0.len() % 4];
    let op = match kind % 27 {
        0 | 24..=26 => Op::Read(p),
        1 => Op::ReadBytes(p),
        2 => Op::Write(p, d),
        3 => Op::WriteAtomic(p, d),
        4 => Op::WriteIfChanged(p, d),
        5 => Op::Rewrite(p),
        6 => Op::Nearly(p, b.1, u16::from_le_bytes([d.0.len() as u8, b.0]), d.0.len() as u8),
        7 => Op::Append(p, d),
        8 => Op::Create(p),
        9 => Op::Open(p),
        10 => Op::Copy(p, q),
        11..=13 => Op::LinkOrCopy(p, q),
        14 => Op::RemoveFile(p),
        15 => Op::RemoveDir(p),
        16 | 17 => Op::RemoveDirAll(p),
        18 => Op::CreateDirAll(p),
        19 | 20 => Op::CreateDirAllExcluded(p),
        21 => Op::TempDirIn(p, end),
        22 if d.0.len() % 2 == 0 => Op::Metadata(p),
        22 => Op::SymlinkMetadata(p),
        _ => Op::StripPrefix(p, q),
    };
    (op, how)
}

fn case(ops: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    (tree::tree(), prop::collection::vec(an_op(), ops))
        .prop_map(|(tree, raw)| {
            let ops = raw.into_iter().map(|r| make(&tree, r)).collect();
            Case { tree, ops, only: None }
        })
        .boxed()
}

/// What several threads do at once.
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Crowd {
    threads: u8,
    /// Directories to create, some of them below others.
    dirs: Vec<Rel>,
    /// What each thread appends, to one file.
    lines: Vec<Hex>,
}

fn judge_crowd(c: &Crowd) -> Verdict {
    let s = Scratch::new();
    let root = s.path();
    let log = root.join("log");
    let n = c.threads % 4 + 2;
    let gate = std::sync::Barrier::new(n as usize);
    let text = |t: u8, l: &Hex| [&[b'<', b'0' + t][..], &l.0, b">"].concat();
    let bad: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (gate, log) = (&gate, &log);
                sc.spawn(move || -> Result<(), String> {
                    gate.wait();
                    for d in &c.dirs {
                        let p = d.at(root);
                        paths::create_dir_all_excluded_from_backups_atomic(&p).map_err(|e| format!("creating a directory others create fails: {e:#}"))?;
                        if !p.is_dir() {
                            return Err(format!("{p:?} is reported, but not there"));
                        }
                    }
                    for l in &c.lines {
                        paths::append(log, &text(t, l)).map_err(|e| format!("appending fails: {e:#}"))?;
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Err("a panic".into())).err()).collect()
    });
    ensure!(bad.is_empty(), "{}", bad[0]);
    // Nothing but the directories, and a tag in every one that was asked for.
    let fs = Fs::read(root);
    let mut want = std::collections::BTreeSet::from([vec![]]);
    for d in &c.dirs {
        for k in 1..=d.0.len() {
            want.insert(d.0[..k].iter().flat_map(|n| [b"/", &n.0[..]].concat()).collect::<Vec<u8>>());
        }
    }
    for p in fs.list().keys() {
        let tag = p.strip_suffix(b"/CACHEDIR.TAG").is_some_and(|d| want.contains(d));
        ensure!(want.contains(p) || tag || p == b"/log", "{:?} has appeared", OsStr::from_bytes(p));
    }
    for (i, d) in c.dirs.iter().enumerate() {
        // A parent that was made for an earlier one has none.
        let made = c.dirs[..i].iter().any(|e| e.0.len() > d.0.len() && e.0.starts_with(&d.0));
        ensure!(made || d.at(root).join("CACHEDIR.TAG").is_file(), "{d:?} has no tag");
    }
    if !c.lines.is_empty() {
        // Each thread's pieces whole, in its order.
        let all = std::fs::read(&log).unwrap();
        let mut next = vec![0usize; n as usize];
        let mut at = 0;
        while at < all.len() {
            let t = (all[at..].len() > 2).then(|| all[at + 1].wrapping_sub(b'0')).filter(|t| *t < n);
            let Some(t) = t else { return Err(format!("a torn record at {at}").into()) };
            let Some(l) = c.lines.get(next[t as usize]) else { return Err(format!("thread {t} has one record too many").into()) };
            let want = text(t, l);
            ensure!(all[at..].starts_with(&want), "a torn record at {at}");
            next[t as usize] += 1;
            at += want.len();
        }
        ensure!(next.iter().all(|k| *k == c.lines.len()), "records are missing: {next:?} of {}", c.lines.len());
    }
    Ok(c.dirs.len() + c.lines.len() > 2)
}

fn crowd() -> BoxedStrategy<Crowd> {
    let dirs = prop::collection::vec(prop::collection::vec(prop::sample::select(vec!["a", "b", "é"]).prop_map(|s| Hex(s.as_bytes().to_vec())), 1..4).prop_map(Rel), 0..5);
    let lines = prop::collection::vec(tree::data(), 0..6);
    (any::<u8>(), dirs, lines).prop_map(|(threads, dirs, lines)| Crowd { threads, dirs, lines }).boxed()
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--helper") {
        fault::helper(run);
    }
    Check::main("C14", "a case is a tree and calls of the helpers on paths in and around it (non-trivial: at least two of them changed the tree), or a tree and one call, made again with every fault at every system call (non-trivial: over four faults), or several threads that create the same directories and append to one file (non-trivial: over two steps each)", |c| {
        c.assume("the process may do anything the file system allows (it runs as root); refusals are injected instead");
        c.assume("errors are injected into calls that change something or move data, not into calls that only look (stat) or close");
        c.prop("histories", Opts::new(15_000).shards(8).shrink(600), || bx(case(1..8)), judge);
        c.prop("faults", Opts::new(5_000).shards(8).shrink(400), || bx(case(1..2)), judge_faults);
        c.prop("crowd", Opts::new(1_500).shards(2).shrink(60).retries(5), || bx(crowd()), judge_crowd);
        c.note("operations", OPS.load(Ordering::Relaxed));
        c.note("operations_with_a_fault", FAULTS.load(Ordering::Relaxed));
    });
}
