//! File trees: generated, looked at, and a small model of what operations on
//! them mean.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use vcommon::Hex;

/// A path inside a tree, as names.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
pub struct Rel(pub Vec<Hex>);

impl Rel {
    pub fn at(&self, root: &Path) -> PathBuf {
        let mut p = root.to_path_buf();
        for n in &self.0 {
            p.push(OsStr::from_bytes(&n.0));
        }
        p
    }
    pub fn of(text: &str) -> Rel {
        Rel(text.split('/').filter(|s| !s.is_empty()).map(|s| Hex(s.as_bytes().to_vec())).collect())
    }
}

/// One entry of a generated tree.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Ent {
    Dir(Rel),
    File(Rel, Hex, u16),
    /// A symbolic link; the target is relative to the link, or to the root.
    Link(Rel, Rel, bool),
    Hard(Rel, Rel),
}

/// Creates what can be created, in order.
pub fn build(root: &Path, ents: &[Ent]) {
    for e in ents {
        let _ = match e {
            Ent::Dir(p) => std::fs::create_dir_all(p.at(root)),
            Ent::File(p, data, mode) => {
                let p = p.at(root);
                if std::fs::symlink_metadata(&p).is_ok() {
                    continue;
                }
                std::fs::write(&p, &data.0).and_then(|_| std::fs::set_permissions(&p, std::fs::Permissions::from_mode(*mode as u32 & 0o777)))
            }
            Ent::Link(p, to, absolute) => {
                let mut t = if *absolute { root.to_path_buf() } else { PathBuf::new() };
                for n in &to.0 {
                    t.push(OsStr::from_bytes(&n.0));
                }
                if t.as_os_str().is_empty() {
                    t.push(".");
                }
                std::os::unix::fs::symlink(t, p.at(root))
            }
            Ent::Hard(p, of) => std::fs::hard_link(of.at(root), p.at(root)),
        };
    }
}

/// Makes the empty directory for a tree.
pub fn nest(scratch: &Path) -> PathBuf {
    let root = scratch.canonicalize().unwrap().join("w/w/w/t");
    std::fs::create_dir_all(&root).unwrap();
    root
}

pub type Id = usize;

#[derive(Debug, Clone, PartialEq)]
pub enum Node {
    File { data: Vec<u8>, mode: Option<u32> },
    Dir(BTreeMap<Vec<u8>, Id>),
    Link(Vec<u8>),
    /// Anything, with anything below it.
    Any,
    /// The same, or nothing.
    Maybe,
}

/// A tree as the model sees it.
#[derive(Debug, Clone)]
pub struct Fs {
    pub base: PathBuf,
    /// Where in it the paths start: deep enough for links that lead upwards.
    prefix: Vec<Vec<u8>>,
    pub nodes: Vec<Node>,
    inos: HashMap<u64, Id>,
    pub mtimes: Vec<i128>,
}

pub const ROOT: Id = 0;

/// Where a path leads.
#[derive(Debug, Clone)]
pub struct Place {
    pub dir: Id,
    pub name: Vec<u8>,
    pub node: Option<Id>,
}

impl Fs {
    /// Reads the tree at `base`.
    pub fn read(base: &Path) -> Fs {
        let (base, prefix) = match base.ends_with("w/w/w/t") {
            true => (base.ancestors().nth(4).unwrap(), ["w", "w", "w", "t"].iter().map(|s| s.as_bytes().to_vec()).collect()),
            false => (base, vec![]),
        };
        let mut fs = Fs { base: base.to_path_buf(), prefix, nodes: vec![], inos: HashMap::new(), mtimes: vec![] };
        fs.scan(base);
        fs
    }

    fn scan(&mut self, p: &Path) -> Id {
        let m = std::fs::symlink_metadata(p).expect("look at a tree");
        if !m.is_dir() {
            if let Some(i) = self.inos.get(&m.ino()) {
                return *i;
            }
        }
        let id = self.nodes.len();
        self.inos.insert(m.ino(), id);
        self.mtimes.push(m.mtime() as i128 * 1_000_000_000 + m.mtime_nsec() as i128);
        if m.is_dir() {
            self.nodes.push(Node::Dir(BTreeMap::new()));
            let mut names: Vec<OsString> = std::fs::read_dir(p).expect("read a directory").map(|e| e.unwrap().file_name()).collect();
            names.sort();
            for n in names {
                let child = self.scan(&p.join(&n));
                let Node::Dir(d) = &mut self.nodes[id] else { unreachable!() };
                d.insert(n.into_vec(), child);
            }
        } else if m.is_symlink() {
            self.nodes.push(Node::Link(std::fs::read_link(p).unwrap().into_os_string().into_vec()));
        } else {
            self.nodes.push(Node::File { data: std::fs::read(p).unwrap(), mode: Some(m.mode() & 0o7777) });
        }
        id
    }

    /// Gives every file an old modification time, to see which are touched.
    pub fn age(&mut self) {
        fn walk(fs: &Fs, id: Id, p: &Path) {
            match &fs.nodes[id] {
                Node::Dir(d) => d.iter().for_each(|(n, i)| walk(fs, *i, &p.join(OsStr::from_bytes(n)))),
                Node::File { .. } => {
                    let t = libc::timespec { tv_sec: 1_000_000, tv_nsec: 0 };
                    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                    unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), [t, t].as_ptr(), libc::AT_SYMLINK_NOFOLLOW) };
                }
                _ => {}
            }
        }
        walk(self, ROOT, &self.base.clone());
    }

    pub const OLD: i128 = 1_000_000 * 1_000_000_000;

    fn dir(&self, id: Id) -> Option<&BTreeMap<Vec<u8>, Id>> {
        match &self.nodes[id] {
            Node::Dir(d) => Some(d),
            _ => None,
        }
    }

    pub fn dir_mut(&mut self, id: Id) -> &mut BTreeMap<Vec<u8>, Id> {
        match &mut self.nodes[id] {
            Node::Dir(d) => d,
            _ => panic!("not a directory"),
        }
    }

    /// Follows a path; the last link only if `follow`.  `None` is an error.
    pub fn find(&self, names: &[Vec<u8>], follow: bool) -> Option<Place> {
        let mut stack = vec![ROOT];
        let mut todo: Vec<Vec<u8>> = names.iter().rev().cloned().collect();
        let mut links = 0;
        if todo.is_empty() {
            return Some(Place { dir: ROOT, name: b".".to_vec(), node: Some(ROOT) });
        }
        loop {
            let n = todo.pop()?;
            let here = *stack.last().unwrap();
            if n == b"." || n.is_empty() || n == b".." {
                if n == b".." {
                    if stack.len() == 1 {
                        // Out of the tree; not generated.
                        return None;
                    }
                    stack.pop();
                }
                if todo.is_empty() {
                    let id = *stack.last().unwrap();
                    return Some(Place { dir: id, name: b".".to_vec(), node: Some(id) });
                }
                continue;
            }
            let d = self.dir(here)?;
            let node = d.get(&n).copied();
            let last = todo.is_empty();
            match node {
                None if last => return Some(Place { dir: here, name: n, node: None }),
                None => return None,
                Some(i) => match &self.nodes[i] {
                    Node::Link(t) if !last || follow => {
                        links += 1;
                        if links > 40 {
                            return None;
                        }
                        let base = self.base.as_os_str().as_bytes();
                        let t = match t.strip_prefix(b"/") {
                            None => &t[..],
                            Some(_) => {
                                stack.truncate(1);
                                t.strip_prefix(base)?
                            }
                        };
                        let more: Vec<Vec<u8>> = t.split(|b| *b == b'/').filter(|p| !p.is_empty()).map(|p| p.to_vec()).collect();
                        if more.is_empty() && todo.is_empty() {
                            let id = *stack.last().unwrap();
                            return Some(Place { dir: id, name: b".".to_vec(), node: Some(id) });
                        }
                        todo.extend(more.into_iter().rev());
                    }
                    _ if last => return Some(Place { dir: here, name: n, node: Some(i) }),
                    Node::Dir(_) => stack.push(i),
                    _ => return None,
                },
            }
        }
    }

    pub fn names(&self, rel: &Rel) -> Vec<Vec<u8>> {
        self.prefix.iter().cloned().chain(rel.0.iter().map(|n| n.0.clone())).collect()
    }

    pub fn get(&self, rel: &Rel, follow: bool) -> Option<Place> {
        self.find(&self.names(rel), follow)
    }

    pub fn file(&self, rel: &Rel) -> Option<(Id, &Vec<u8>)> {
        let id = self.get(rel, true)?.node?;
        match &self.nodes[id] {
            Node::File { data, .. } => Some((id, data)),
            _ => None,
        }
    }

    pub fn add(&mut self, node: Node) -> Id {
        self.nodes.push(node);
        self.mtimes.push(-1);
        self.nodes.len() - 1
    }

    pub fn put(&mut self, at: &Place, node: Node) -> Id {
        let id = self.add(node);
        self.dir_mut(at.dir).insert(at.name.clone(), id);
        id
    }

    /// Every path with its node, without following links.
    pub fn list(&self) -> BTreeMap<Vec<u8>, Id> {
        let mut out = BTreeMap::new();
        fn walk(fs: &Fs, id: Id, at: &mut Vec<u8>, out: &mut BTreeMap<Vec<u8>, Id>) {
            out.insert(at.clone(), id);
            if let Node::Dir(d) = &fs.nodes[id] {
                for (n, i) in d {
                    let len = at.len();
                    at.push(b'/');
                    at.extend(n);
                    walk(fs, *i, at, out);
                    at.truncate(len);
                }
            }
        }
        walk(self, ROOT, &mut vec![], &mut out);
        out
    }

    /// How `real` differs from this, if it does.
    pub fn differs(&self, real: &Fs) -> Option<String> {
        self.differs_but(real, None)
    }

    /// The same, with new names allowed in the directory `extra`.
    pub fn differs_but(&self, real: &Fs, extra: Option<Id>) -> Option<String> {
        let (want, got) = (self.list(), real.list());
        let show = |p: &[u8]| format!("{:?}", OsStr::from_bytes(p.strip_prefix(b"/").unwrap_or(p)));
        for (p, i) in &want {
            let Some(j) = got.get(p) else {
                if self.nodes[*i] == Node::Maybe {
                    continue;
                }
                return Some(format!("{} is missing", show(p)));
            };
            match (&self.nodes[*i], &real.nodes[*j]) {
                (Node::Any | Node::Maybe, _) => {}
                (Node::Dir(_), Node::Dir(_)) => {}
                (Node::Link(a), Node::Link(b)) if a == b => {}
                (Node::File { data: a, mode: m }, Node::File { data: b, mode: n }) => {
                    if a != b {
                        return Some(format!("{} holds {:?}, not {:?}", show(p), short(b), short(a)));
                    }
                    if m.is_some() && m != n {
                        return Some(format!("{} has the mode {:o}, not {:o}", show(p), n.unwrap(), m.unwrap()));
                    }
                }
                (a, b) => return Some(format!("{} is {}, not {}", show(p), kind(b), kind(a))),
            }
        }
        let mut below: Vec<&Vec<u8>> = vec![];
        for (p, i) in &want {
            if matches!(self.nodes[*i], Node::Any | Node::Maybe) || extra == Some(*i) {
                below.push(p);
            }
        }
        for p in got.keys() {
            if !want.contains_key(p) && !below.iter().any(|b| p.strip_prefix(&b[..]).is_some_and(|r| r.starts_with(b"/"))) {
                return Some(format!("{} has appeared", show(p)));
            }
        }
        // Which names are the same file.
        let mut group: HashMap<Id, Id> = HashMap::new();
        let mut back: HashMap<Id, Id> = HashMap::new();
        for (p, i) in &want {
            if let (Node::File { .. }, Some(j)) = (&self.nodes[*i], got.get(p)) {
                if *group.entry(*i).or_insert(*j) != *j || *back.entry(*j).or_insert(*i) != *i {
                    return Some(format!("{} is linked with other names than before", show(p)));
                }
            }
        }
        None
    }

    /// A path whose file was modified although its contents were to stay.
    pub fn touched(&self, real: &Fs, may: &[Id]) -> Option<String> {
        let got = real.list();
        for (p, i) in self.list() {
            if let (Node::File { .. }, Some(j)) = (&self.nodes[i], got.get(&p)) {
                if self.mtimes[i] != -1 && !may.contains(&i) && real.mtimes[*j] != Fs::OLD {
                    return Some(format!("{:?} was written to", OsStr::from_bytes(p.strip_prefix(b"/").unwrap_or(&p))));
                }
            }
        }
        None
    }
}

fn kind(n: &Node) -> String {
    match n {
        Node::File { .. } => "a file".into(),
        Node::Dir(_) => "a directory".into(),
        Node::Link(t) => format!("a link to {:?}", OsStr::from_bytes(t)),
        Node::Any | Node::Maybe => "anything".into(),
    }
}

fn short(b: &[u8]) -> String {
    let s: String = String::from_utf8_lossy(b).chars().take(40).collect();
    format!("{s} ({} bytes)", b.len())
}

pub fn name() -> BoxedStrategy<Hex> {
    prop_oneof![
        12 => prop::sample::select(vec!["a", "b", "c", "d"]).prop_map(|s| Hex(s.as_bytes().to_vec())),
        1 => prop::sample::select(vec!["-", "..x", "x y", "é", "\n", "a.tmp", ".h", "*", "CACHEDIR.TAG"]).prop_map(|s| Hex(s.as_bytes().to_vec())),
        1 => prop::collection::vec(prop_oneof![Just(0xffu8), 0x80u8..=255, 0x20u8..0x7f], 1..4).prop_map(|v| Hex(v.into_iter().map(|b| if b == b'/' || b == b'.' { b'x' } else { b }).collect())),
    ]
    .boxed()
}

/// A path below one of the tree's two top directories, mostly the first.
pub fn rel() -> BoxedStrategy<Rel> {
    (prop_oneof![6 => Just("in"), 1 => Just("out")], prop::collection::vec(name(), 1..4))
        .prop_map(|(top, mut ns)| {
            ns.insert(0, Hex(top.as_bytes().to_vec()));
            Rel(ns)
        })
        .boxed()
}

pub fn data() -> BoxedStrategy<Hex> {
    prop_oneof![
        1 => Just(Hex(vec![])),
        5 => vcommon::gen::text(8).prop_map(|s| Hex(s.into_bytes())),
        2 => prop::collection::vec(any::<u8>(), 0..12).prop_map(Hex),
        1 => (any::<u8>(), 0usize..70_000).prop_map(|(b, n)| Hex(vec![b; n])),
        1 => (any::<u8>(), 0usize..20_000).prop_map(|(b, n)| Hex((0..n).map(|i| b.wrapping_add((i / 5) as u8)).collect())),
        1 => vcommon::gen::text(4).prop_map(|t| Hex(format!("\u{feff}{t}").into_bytes())),
        1 => (prop::sample::select(vec!["\u{feff}\u{feff}", "\n", "\r\n", "\0", " ", "\u{1a}"]), vcommon::gen::text(4), any::<bool>()).prop_map(|(m, t, last)| Hex(if last { format!("{t}{m}") } else { format!("{m}{t}") }.into_bytes())),
    ]
    .boxed()
}

/// Something that is nearly the same.
pub fn near(d: &[u8], at: u16, how: u8) -> Vec<u8> {
    let mut d = d.to_vec();
    let i = at as usize * d.len() / 65536;
    match how % 8 {
        0 => d.push(at as u8),
        1 => drop(d.pop()),
        2 => d.insert(i, at as u8),
        3 => d.truncate(i),
        4 => d.push(b'\n'),
        _ if d.is_empty() => d.push(0),
        5 => d[i] ^= 1 << (at % 8),
        6 => drop(d.remove(i)),
        _ => *d.last_mut().unwrap() ^= 0x20,
    }
    d
}

/// A tree with an inner and an outer directory, and links from one to the other.
pub fn tree() -> BoxedStrategy<Vec<Ent>> {
    let target = prop_oneof![
        3 => prop::collection::vec(name(), 1..3),
        3 => prop::collection::vec(name(), 0..3).prop_map(|mut v| { v.splice(0..0, [Hex(b"..".to_vec()), Hex(b"out".to_vec())]); v }),
        2 => prop::collection::vec(name(), 0..3).prop_map(|mut v| { v.splice(0..0, [Hex(b"..".to_vec()), Hex(b"..".to_vec()), Hex(b"out".to_vec())]); v }),
        1 => prop::collection::vec(name(), 0..2).prop_map(|mut v| { v.insert(0, Hex(b"..".to_vec())); v }),
        2 => prop::sample::select(vec!["../out/a/c", "../../out/a/c", "../out/b", "../../out"]).prop_map(|s| Rel::of(s).0),
    ];
    let ent = prop_oneof![
        4 => rel().prop_map(Ent::Dir),
        6 => (rel(), data(), prop::sample::select(vec![0o644u16, 0o600, 0o755, 0o444, 0o777, 0o640, 0o000, 0o664])).prop_map(|(p, d, m)| Ent::File(p, d, m)),
        2 => (rel(), target).prop_map(|(p, t)| Ent::Link(p, Rel(t), false)),
        1 => (rel(), rel()).prop_map(|(p, t)| Ent::Link(p, t, true)),
        1 => (rel(), rel()).prop_map(|(p, t)| Ent::Hard(p, t)),
    ];
    prop::collection::vec(ent, 0..14)
        .prop_map(|mut v| {
            let mut all = vec![
                Ent::Dir(Rel::of("in")),
                Ent::Dir(Rel::of("out/a")),
                Ent::File(Rel::of("out/b"), Hex(b"outside".to_vec()), 0o640),
                Ent::File(Rel::of("out/a/c"), Hex(b"deep outside".to_vec()), 0o444),
            ];
            all.append(&mut v);
            all
        })
        .boxed()
}
