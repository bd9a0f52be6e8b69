//! C16: file locks.
use h_std::tree::{self, build, Ent, Fs, Id, Node, Rel};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::ffi::OsStr;
use std::io::{BufRead, BufReader, Read, Seek, SeekFrom, Write};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tinymist_std::fs::flock::{FileLock, Filesystem};
use vcommon::scratch::Scratch;
use vcommon::{bx, ensure, ensure_eq, Check, Fail, Hex, Opts, Verdict};

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
enum Form {
    TryExclusive,
    TryShared,
    Exclusive,
    SharedCreate,
    Shared,
}

impl Form {
    fn exclusive(self) -> bool {
        matches!(self, Form::TryExclusive | Form::Exclusive)
    }
    fn waits(self) -> bool {
        !matches!(self, Form::TryExclusive | Form::TryShared)
    }
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
enum End {
    Drop,
    /// While another handle on the same open file stays around.
    Cloned,
    /// By a panic of the thread that holds it.
    Panic,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    /// In this process, on this file; how much of the path is the root's.
    Lock(u8, u8, Form, u8),
    Release(u8, End),
    /// Writes at the start through the lock, and reads all of it.
    Io(u8, Hex),
    RemoveSiblings(u8),
    Die(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    tree: Vec<Ent>,
    files: Vec<Rel>,
    ops: Vec<Op>,
}

#[derive(Serialize, Deserialize)]
enum Ask {
    Lock { root: Hex, path: Hex, form: Form },
    Release(End),
    Io(Hex),
    RemoveSiblings,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Reply {
    id: usize,
    ok: bool,
    /// Whether the lock is held now.
    got: bool,
    value: serde_json::Value,
}

/// A process that locks what it is told to.
fn locker() -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    type Held = Arc<Mutex<HashMap<usize, FileLock>>>;
    let held: Held = Default::default();
    let spare = Arc::new(Mutex::new(vec![]));
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let (id, ask): (usize, Ask) = serde_json::from_str(&line).unwrap();
        let (held, spare) = (held.clone(), spare.clone());
        let job = std::thread::spawn(move || {
            let done: anyhow::Result<(bool, serde_json::Value)> = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match &ask {
                Ask::Lock { root, path, form } => {
                    let fs = Filesystem::new(Path::new(OsStr::from_bytes(&root.0)).to_path_buf());
                    let path = Path::new(OsStr::from_bytes(&path.0));
                    let lock = match form {
                        Form::TryExclusive => fs.try_open_rw_exclusive_create(path)?,
                        Form::TryShared => fs.try_open_ro_shared_create(path)?,
                        Form::Exclusive => Some(fs.open_rw_exclusive_create(path, "exclusive")?),
                        Form::SharedCreate => Some(fs.open_ro_shared_create(path, "shared")?),
                        Form::Shared => Some(fs.open_ro_shared(path, "read-only")?),
                    };
                    let got = lock.is_some();
                    let mut at = vec![];
                    if let Some(l) = lock {
                        at = l.path().as_os_str().as_bytes().to_vec();
                        held.lock().unwrap().insert(id, l);
                    }
                    Ok((got, serde_json::to_value(Hex(at)).unwrap()))
                }
                Ask::Release(end) => {
                    let lock = held.lock().unwrap().remove(&id);
                    let lock = lock.ok_or_else(|| anyhow::anyhow!("not held"))?;
                    match end {
                        End::Drop => drop(lock),
                        End::Cloned => {
                            let f = lock.file().try_clone()?;
                            spare.lock().unwrap().push(f);
                            drop(lock);
                        }
                        End::Panic => {
                            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                                let _lock = lock;
                                panic!("a panic")
                            }));
                        }
                    }
                    Ok((false, serde_json::Value::Null))
                }
                Ask::Io(data) => {
                    let mut held = held.lock().unwrap();
                    let lock = held.get_mut(&id).unwrap();
                    lock.seek(SeekFrom::Start(0))?;
                    let wrote = lock.write_all(&data.0).and_then(|_| lock.flush()).is_ok();
                    lock.seek(SeekFrom::Start(0))?;
                    let mut all = vec![];
                    lock.read_to_end(&mut all)?;
                    Ok((true, serde_json::to_value((wrote, Hex(all))).unwrap()))
                }
                Ask::RemoveSiblings => {
                    let held = held.lock().unwrap();
                    held[&id].remove_siblings()?;
                    Ok((true, serde_json::Value::Null))
                }
            }))
            .unwrap_or_else(|_| Err(anyhow::anyhow!("PANIC")));
            let reply = match done {
                Ok((got, value)) => Reply { id, ok: true, got, value },
                Err(e) => Reply { id, ok: false, got: false, value: format!("{e:#}").into() },
            };
            let mut out = std::io::stdout().lock();
            let _ = writeln!(out, "{}", serde_json::to_string(&reply).unwrap());
            let _ = out.flush();
        });
        drop(job);
    }
    std::process::exit(0)
}

struct Locker(Child, ChildStdin);

impl Locker {
    fn start(to: Sender<Reply>) -> Self {
        use std::os::unix::process::CommandExt;
        let mut cmd = Command::new(std::env::current_exe().unwrap());
        cmd.arg("--locker").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        unsafe {
            cmd.pre_exec(|| {
                libc::umask(0o022);
                Ok(())
            })
        };
        let mut c = cmd.spawn().unwrap();
        let (i, o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
        std::thread::spawn(move || {
            for line in o.lines() {
                let Ok(line) = line else { break };
                let Ok(r) = serde_json::from_str(&line) else { break };
                if to.send(r).is_err() {
                    break;
                }
            }
        });
        Locker(c, i)
    }
    fn ask(&mut self, id: usize, ask: Ask) {
        writeln!(self.1, "{}", serde_json::to_string(&(id, ask)).unwrap()).unwrap();
        self.1.flush().unwrap();
    }
}

impl Drop for Locker {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

/// One attempt: held, or waiting.
struct Try {
    proc: usize,
    node: Id,
    rel: Rel,
    form: Form,
    held: bool,
}

struct World {
    fs: Fs,
    root: std::path::PathBuf,
    procs: Vec<Option<Locker>>,
    replies: Receiver<Reply>,
    to: Sender<Reply>,
    tries: BTreeMap<usize, Try>,
    next: usize,
    waited: u32,
    refused: u32,
}

const LONG: Duration = Duration::from_secs(20);

impl World {
    fn ask(&mut self, proc: usize, id: usize, ask: Ask) {
        let to = self.to.clone();
        self.procs[proc].get_or_insert_with(|| Locker::start(to)).ask(id, ask);
    }

    fn allowed(&self, node: Id, exclusive: bool) -> bool {
        self.tries.values().all(|t| !t.held || t.node != node || (!exclusive && !t.form.exclusive()))
    }

    /// A report on something else than what is waited for.
    fn other(&mut self, r: Reply) -> Result<(), Fail> {
        let Some(t) = self.tries.get(&r.id) else { return Err(format!("an unexpected report {r:?}").into()) };
        ensure!(!t.held, "a second report {r:?}");
        ensure!(r.ok && r.got, "a waiting attempt ends with {r:?}");
        ensure!(self.allowed(t.node, t.form.exclusive()), "{:?} of {:?} is granted against the locks that are held", t.form, t.rel);
        self.tries.get_mut(&r.id).unwrap().held = true;
        Ok(())
    }

    fn reply(&mut self, id: usize, what: &str) -> Result<Reply, Fail> {
        loop {
            let Ok(r) = self.replies.recv_timeout(LONG) else { return Err(format!("{what} does not come back").into()) };
            if r.id == id {
                ensure!(r.value != "PANIC", "{what} panics");
                return Ok(r);
            }
            self.other(r)?;
        }
    }

    /// Waits until nobody waits who need not.
    fn settle(&mut self) -> Result<(), Fail> {
        loop {
            let next = self.tries.values().find(|t| !t.held && self.allowed(t.node, t.form.exclusive()));
            let Some(t) = next else { return Ok(()) };
            let what = format!("{:?} of {:?}", t.form, t.rel);
            let Ok(r) = self.replies.recv_timeout(LONG) else { return Err(format!("{what} still waits although nothing is held against it").into()) };
            self.other(r)?;
        }
    }

    fn look(&self, what: &str) -> Result<(), Fail> {
        match self.fs.differs(&Fs::read(&self.root)) {
            Some(d) => Err(format!("after {what}, {d}").into()),
            None => Ok(()),
        }
    }

    fn lock(&mut self, proc: usize, rel: &Rel, form: Form, split: u8) -> Result<(), Fail> {
        let id = self.next;
        self.next += 1;
        let k = split as usize % rel.0.len().max(1);
        let root = Rel(rel.0[..k].to_vec()).at(&self.root);
        let path = Rel(rel.0[k..].to_vec()).at(Path::new(""));
        let hex = |p: &Path| Hex(p.as_os_str().as_bytes().to_vec());
        // What it opens.
        let mut at = self.fs.get(rel, true);
        if at.is_none() && form != Form::Shared {
            let parent = Rel(rel.0[..rel.0.len() - 1].to_vec());
            if let Some(fs) = mkdirs(&self.fs, &parent) {
                self.fs = fs;
                at = self.fs.get(rel, true);
            }
        }
        let node = match at {
            None => None,
            Some(p) => match p.node {
                Some(i) => matches!(self.fs.nodes[i], Node::File { .. }).then_some(i),
                None if form == Form::Shared => None,
                None => Some(self.fs.put(&p, Node::File { data: vec![], mode: Some(0o644) })),
            },
        };
        let what = format!("{form:?} of {rel:?}");
        self.ask(proc, id, Ask::Lock { root: hex(&root), path: hex(&path), form });
        let Some(node) = node else {
            // A directory may be opened to read, and even locked.
            let dir = self.fs.get(rel, true).and_then(|p| p.node);
            let r = self.reply(id, &what)?;
            if form == Form::Shared && dir.is_some() {
                if r.got {
                    self.ask(proc, id, Ask::Release(End::Drop));
                    self.reply(id, "the release")?;
                }
                return Ok(());
            }
            ensure!(!r.ok, "{what} succeeds, but there is no file to open");
            return Ok(());
        };
        let free = self.allowed(node, form.exclusive());
        if free || !form.waits() {
            let r = self.reply(id, &what)?;
            ensure!(r.ok, "{what} fails: {}", r.value);
            ensure!(r.got == free, "{what} {}, although {}", if r.got { "is granted" } else { "is refused" }, if free { "nothing is held against it" } else { "another lock is held" });
            if r.got {
                let said: Hex = serde_json::from_value(r.value).unwrap();
                ensure_eq!(said, hex(&rel.at(&self.root)), "{what}: the lock's path");
            } else {
                self.refused += 1;
                return Ok(());
            }
        } else {
            self.waited += 1;
        }
        self.tries.insert(id, Try { proc, node, rel: rel.clone(), form, held: free });
        if !free {
            if let Ok(r) = self.replies.recv_timeout(Duration::from_millis(2)) {
                if r.id == id {
                    return Err(format!("{what} comes back with {r:?} although another lock is held").into());
                }
                self.other(r)?;
            }
        }
        Ok(())
    }

    fn release(&mut self, id: usize, end: End) -> Result<(), Fail> {
        let t = self.tries.remove(&id).unwrap();
        self.ask(t.proc, id, Ask::Release(end));
        let r = self.reply(id, "a release")?;
        ensure!(r.ok, "releasing {:?}: {}", t.rel, r.value);
        self.settle()
    }

    fn die(&mut self, proc: usize) -> Result<(), Fail> {
        if let Some(l) = self.procs[proc].take() {
            drop(l);
            self.tries.retain(|_, t| t.proc != proc);
            self.settle()?;
        }
        Ok(())
    }

    /// Whether all who wait have come as far as to wait, so that they have opened
    /// their file.
    fn all_wait(&self) -> bool {
        for _ in 0..2_000 {
            let locks = std::fs::read_to_string("/proc/locks").unwrap_or_default();
            let waits = |pid: u32| {
                let lines = locks.lines().filter_map(|l| l.split_once("-> ")).map(|l| l.1.split_whitespace());
                lines.filter(|l| l.clone().next() == Some("FLOCK") && l.clone().nth(3).and_then(|p| p.parse().ok()) == Some(pid)).count()
            };
            let mut procs = self.procs.iter().enumerate().filter_map(|(i, p)| Some((i, p.as_ref()?.0.id())));
            if procs.all(|(i, pid)| self.tries.values().filter(|t| !t.held && t.proc == i).count() <= waits(pid)) {
                return true;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        false
    }

    fn held(&self, n: u8) -> Option<usize> {
        let ids: Vec<usize> = self.tries.iter().filter(|(_, t)| t.held).map(|(i, _)| *i).collect();
        (!ids.is_empty()).then(|| ids[n as usize * ids.len() / 256])
    }
}

fn mkdirs(fs: &Fs, r: &Rel) -> Option<Fs> {
    let (mut fs, all) = (fs.clone(), fs.names(r));
    for k in 1..=all.len() {
        let at = fs.find(&all[..k], true)?;
        match at.node.map(|i| &fs.nodes[i]) {
            Some(Node::Dir(_)) => {}
            Some(_) => return None,
            None if fs.find(&all[..k], false)?.node.is_some() => return None,
            None => {
                fs.put(&at, Node::Dir(BTreeMap::new()));
            }
        }
    }
    Some(fs)
}

fn judge(c: &Case) -> Verdict {
    let s = Scratch::new();
    let root = tree::nest(s.path());
    build(&root, &c.tree);
    let (to, replies) = channel();
    let mut w = World { fs: Fs::read(&root), root, procs: vec![None, None, None], replies, to, tries: BTreeMap::new(), next: 0, waited: 0, refused: 0 };
    let mut freed = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let what = format!("operation {i}");
        let done = match op {
            Op::Lock(p, f, form, split) => {
                let rel = c.files[*f as usize * c.files.len() / 256].clone();
                w.lock(*p as usize % 3, &rel, *form, *split)
            }
            Op::Release(n, end) => match w.held(*n) {
                Some(id) => {
                    freed += 1;
                    w.release(id, *end)
                }
                None => Ok(()),
            },
            Op::Io(n, data) => match w.held(*n) {
                Some(id) => {
                    let t = &w.tries[&id];
                    let (node, writable, proc) = (t.node, t.form != Form::Shared, t.proc);
                    if writable {
                        if let Node::File { data: d, .. } = &mut w.fs.nodes[node] {
                            let n = d.len().max(data.0.len());
                            d.resize(n, 0);
                            d[..data.0.len()].copy_from_slice(&data.0);
                        }
                    }
                    w.ask(proc, id, Ask::Io(data.clone()));
                    w.reply(id, "reading and writing").and_then(|r| {
                        ensure!(r.ok, "reading and writing through a lock: {}", r.value);
                        let (wrote, all): (bool, Hex) = serde_json::from_value(r.value).unwrap();
                        ensure!(wrote == writable || data.0.is_empty(), "writing through it: {wrote}");
                        let Node::File { data: d, .. } = &w.fs.nodes[node] else { unreachable!() };
                        ensure_eq!(&all.0, d, "what is read through the lock");
                        Ok(())
                    })
                }
                None => Ok(()),
            },
            Op::RemoveSiblings(n) => match w.held(*n) {
                // One who has not yet opened its file may make it anew.
                Some(id) if w.all_wait() => {
                    let t = &w.tries[&id];
                    let proc = t.proc;
                    let at = w.fs.get(&t.rel, false);
                    if let Some(p) = &at {
                        let mut fs = w.fs.clone();
                        fs.dir_mut(p.dir).retain(|n, _| *n == p.name);
                        if fs.get(&t.rel, false).map(|q| q.dir) != Some(p.dir) {
                            // A link it is reached by is among what is removed.
                            continue;
                        }
                        w.fs = fs;
                    }
                    w.ask(proc, id, Ask::RemoveSiblings);
                    w.reply(id, "removing the siblings").and_then(|r| {
                        ensure!(r.ok == at.is_some(), "removing the siblings: {r:?}");
                        Ok(())
                    })
                }
                _ => Ok(()),
            },
            Op::Die(p) => w.die(*p as usize % 3),
        };
        done.and_then(|_| w.settle()).and_then(|_| w.look(&what)).map_err(|f| f.at(&what))?;
    }
    // Everybody gets their turn.
    while let Some(id) = w.held(0) {
        w.release(id, End::Drop).map_err(|f| f.at("at the end"))?;
    }
    ensure!(w.tries.is_empty(), "someone still waits when nothing is held");
    if let Ok(r) = w.replies.try_recv() {
        return Err(format!("an unexpected report {r:?}").into());
    }
    w.look("the end")?;
    Ok(w.waited + w.refused > 0 && freed > 0)
}

fn case() -> BoxedStrategy<Case> {
    let form = || prop::sample::select(vec![Form::TryExclusive, Form::TryExclusive, Form::TryShared, Form::TryShared, Form::Exclusive, Form::SharedCreate, Form::Shared]);
    let op = prop_oneof![
        10 => (any::<u8>(), any::<u8>(), form(), any::<u8>()).prop_map(|(p, f, m, s)| Op::Lock(p, f, m, s)),
        5 => (any::<u8>(), prop::sample::select(vec![End::Drop, End::Drop, End::Cloned, End::Panic])).prop_map(|(n, e)| Op::Release(n, e)),
        1 => (any::<u8>(), tree::data()).prop_map(|(n, d)| Op::Io(n, d)),
        1 => any::<u8>().prop_map(Op::RemoveSiblings),
        1 => any::<u8>().prop_map(Op::Die),
    ];
    let files = prop::collection::vec(prop_oneof![3 => tree::rel(), 1 => Just(Rel::of("out/b")), 1 => Just(Rel::of("in/new/deep/f")), 1 => Just(Rel::of("in/a"))], 1..4);
    (tree::tree(), files, prop::collection::vec(op, 1..24)).prop_map(|(tree, files, ops)| Case { tree, files, ops }).boxed()
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--locker") {
        locker();
    }
    Check::main("C16", "a case is a tree and a history of lock attempts (each in its own thread), releases, deaths, reads, writes and clean-ups in three processes (non-trivial: some attempt was refused or had to wait, and some lock was released)", |c| {
        c.assume("the scratch file system is local, with working flock(2)");
        c.prop("histories", Opts::new(5_000).shards(8).shrink(200).retries(2), || bx(case()), judge);
    });
}
