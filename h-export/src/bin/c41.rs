//! C41: what export commands write, and where.
use h_server::server::Server;
use lsp_types::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::{Component, Path, PathBuf};
use std::time::{Duration, Instant};
use sync_ls::{lsp, LspClientRoot, Message, RequestId};
use tinymist_config::{Config, ConstConfig};
use tinymist_export::ServerState;
use tinymist_project::LockFile;
use tinymist_task::ProjectTask;
use vcommon::scratch::Scratch;
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Fail, Opts, Verdict};

/// The names the workspace has.
const ROOTS: [&str; 4] = ["w", "w $name", "$dir", "w.d"];
const FILES: [&str; 7] = ["m.typ", "a/m.typ", "a/b c/y.v1.typ", "$name/$root.typ", "ü", "a/x.typ", "e$dir/q"];
/// Not in the workspace.
const ELSEWHERE: [&str; 2] = ["out/z.typ", "a/m.typ"];
const DATA: &str = "a/d.dat";

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
enum Line {
    Text(u8),
    Tagged(u8, u8),
    Include(u8),
    Read,
    Target,
    Break,
    Warn(u8),
    Error(u8),
}
type Doc = Vec<Line>;

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
enum Piece {
    Root,
    Dir,
    Name,
    Up,
    Lit(String),
}
/// How an output pattern begins: at the root, at an absolute path, or neither.
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
enum From {
    Root,
    Absolute,
    Nothing,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Settings {
    output: Option<(From, Vec<Vec<Piece>>)>,
    lock: bool,
    timestamp: Option<i64>,
    standards: Option<Vec<u8>>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
enum Page {
    Default,
    First,
    Merged(Option<String>),
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Query {
    format: String,
    extension: Option<String>,
    pretty: Option<bool>,
    selector: String,
    field: Option<String>,
    one: Option<bool>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
enum Kind {
    Pdf {
        timestamp: Option<String>,
        standards: Option<Vec<u8>>,
        snake: bool,
    },
    Html,
    Markdown,
    Text,
    Query(Query),
    Svg(Page),
    Png {
        page: Page,
        ppi: Option<f32>,
        fill: Option<String>,
    },
}
#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    Edit(u8, Doc),
    Close(u8),
    Write(u8, Doc),
    Data(u8),
    Remove(u8),
    Configure(Settings),
    Focus(u8, bool),
    Export(u8, Kind, Option<bool>),
    /// Something is where a file is to be written, or its directory.
    Obstacle(u8, String, bool),
    /// The answers that have been waited for come.
    Await,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    root: u8,
    /// Whether the editor has the workspace as a folder.
    folder: bool,
    disk: Vec<Option<Doc>>,
    settings: Settings,
    ops: Vec<Op>,
}

const COUNT: u8 = (FILES.len() + ELSEWHERE.len()) as u8;
const STANDARDS: [&str; 3] = ["1.7", "a-2b", "a-3b"];

fn doc() -> BoxedStrategy<Doc> {
    let line = prop_oneof![
        8 => any::<u8>().prop_map(Line::Text),
        6 => (0..3u8, 0..9u8).prop_map(|(l, n)| Line::Tagged(l, n)),
        3 => (0..FILES.len() as u8).prop_map(Line::Include),
        2 => Just(Line::Read),
        2 => Just(Line::Target),
        3 => Just(Line::Break),
        1 => (0..9u8).prop_map(Line::Warn),
        1 => (0..9u8).prop_map(Line::Error),
    ];
    bx(prop::collection::vec(line, 0..7))
}
fn settings() -> BoxedStrategy<Settings> {
    let piece = prop_oneof![
        1 => Just(Piece::Root),
        3 => Just(Piece::Dir),
        5 => Just(Piece::Name),
        5 => prop::sample::select(vec!["o", "out", ".x", "v1.2", "$", "$x", "a", "é ", "-"]).prop_map(|s| Piece::Lit(s.into())),
    ];
    let part = prop_oneof![
        3 => Just(vec![Piece::Dir]),
        4 => Just(vec![Piece::Name]),
        1 => Just(vec![Piece::Up]),
        6 => prop::collection::vec(piece, 1..4),
    ];
    let from = prop_oneof![4 => Just(From::Root), 2 => Just(From::Absolute), 2 => Just(From::Nothing)];
    let output = (
        from,
        prop::collection::vec(part, 0..4).prop_map(|v| {
            // At most one step up, so that what is written stays in here.
            let mut up = 0;
            v.into_iter()
                .filter(|p| {
                    p != &[Piece::Up] || {
                        up += 1;
                        up == 1
                    }
                })
                .collect()
        }),
    );
    bx((
        prop::option::weighted(0.8, output),
        any::<bool>(),
        prop::option::weighted(0.3, prop_oneof![8 => 0..4_000_000_000i64, 1 => Just(i64::MAX)]),
        prop::option::weighted(0.3, prop::collection::vec(0..3u8, 0..3)),
    )
        .prop_map(|(output, lock, timestamp, standards)| Settings {
            output,
            lock,
            timestamp,
            standards,
        }))
}
fn page() -> BoxedStrategy<Page> {
    let gap = prop_oneof![
        6 => (0..200u32, prop::sample::select(vec!["pt", "mm", "cm", "in"])).prop_map(|(n, u)| format!("{}{u}", n as f64 / 8.)),
        1 => (0..9u32, prop::sample::select(vec!["em", "fr", "%", "deg", "", "px", "pt pt"])).prop_map(|(n, u)| format!("{n}{u}")),
        1 => Just(String::new()),
    ];
    bx(prop_oneof![2 => Just(Page::Default), 2 => Just(Page::First), 4 => prop::option::weighted(0.8, gap).prop_map(Page::Merged)])
}
fn kind() -> BoxedStrategy<Kind> {
    let ts = prop_oneof![6 => (0..250_000_000_000i64).prop_map(|n| n.to_string()), 1 => Just("soon".to_owned()), 1 => Just(i64::MAX.to_string()), 1 => Just(String::new())];
    let some = |s: &'static [&'static str]| prop::sample::select(s).prop_map(str::to_owned);
    let query = (
        prop_oneof![9 => some(&["json", "yaml", "txt"]), 1 => some(&["xml", "", "a/b"])],
        prop::option::weighted(0.4, prop_oneof![6 => some(&["json", "pdfpc", "data", ""]), 1 => some(&["x/y", "../q"])]),
        prop::option::of(any::<bool>()),
        prop_oneof![9 => some(&["<a>", "<b>", "<c>"]), 1 => some(&["heading", "<z>"])],
        prop::option::weighted(0.6, some(&["value", "label", "other"])),
        prop::option::of(any::<bool>()),
    )
        .prop_map(|(format, extension, pretty, selector, field, one)| {
            Kind::Query(Query {
                format,
                extension,
                pretty,
                selector,
                field,
                one,
            })
        });
    let ppi = prop_oneof![4 => Just(96.0), 4 => (1..4000u32).prop_map(|n| n as f32 / 4.), 1 => prop::sample::select(vec![0., -0., -3., 1e-7, 1e30])];
    let fill = prop_oneof![
        3 => some(&["black", "white", "red", "green", "blue"]),
        4 => "#[0-9a-fA-F]{6}",
        2 => "#([0-9a-f]{3}|[0-9a-f]{4}|[0-9a-f]{8})",
        1 => some(&["#", "#12", "##123", "#gggggg", "pink", "Red", "", "rgb(1,2,3)", "#é12"]),
    ];
    bx(prop_oneof![
        4 => (prop::option::of(ts), prop::option::of(prop::collection::vec(0..3u8, 0..3)), any::<bool>()).prop_map(|(timestamp, standards, snake)| Kind::Pdf { timestamp, standards, snake }),
        2 => Just(Kind::Html),
        2 => Just(Kind::Markdown),
        2 => Just(Kind::Text),
        5 => query,
        4 => page().prop_map(Kind::Svg),
        4 => (page(), prop::option::of(ppi), prop::option::of(fill)).prop_map(|(page, ppi, fill)| Kind::Png { page, ppi, fill }),
    ])
}
fn cases() -> BoxedStrategy<Case> {
    let f = || 0..COUNT;
    let op = prop_oneof![
        4 => (f(), doc()).prop_map(|(f, d)| Op::Edit(f, d)),
        1 => f().prop_map(Op::Close),
        2 => (f(), doc()).prop_map(|(f, d)| Op::Write(f, d)),
        1 => any::<u8>().prop_map(Op::Data),
        1 => f().prop_map(Op::Remove),
        2 => settings().prop_map(Op::Configure),
        1 => (f(), any::<bool>()).prop_map(|(f, p)| Op::Focus(f, p)),
        14 => (f(), kind(), prop::option::of(any::<bool>())).prop_map(|(f, k, o)| Op::Export(f, k, o)),
        1 => (f(), prop::sample::select(vec!["pdf", "svg", "json"]), any::<bool>()).prop_map(|(f, e, d)| Op::Obstacle(f, e.into(), d)),
        4 => Just(Op::Await),
    ];
    bx((
        0..ROOTS.len() as u8,
        any::<bool>(),
        prop::collection::vec(prop::option::weighted(0.8, doc()), COUNT as usize),
        settings(),
        prop::collection::vec(op, 1..14),
    )
        .prop_map(|(root, folder, disk, settings, ops)| Case {
            root,
            folder,
            disk,
            settings,
            ops,
        }))
}

fn text(d: &Doc) -> String {
    let mut s = String::new();
    for l in d {
        s += &match l {
            Line::Text(n) => format!("text {n}"),
            Line::Tagged(l, n) => format!("<{}> {n}", (b'a' + l) as char),
            Line::Include(f) => format!("#include \"/{}\"", FILES[*f as usize]),
            Line::Read => format!("#read \"/{DATA}\""),
            Line::Target => "#target".into(),
            Line::Break => "#pagebreak".into(),
            Line::Warn(n) => format!("#warn {n}"),
            Line::Error(n) => format!("#error {n}"),
        };
        s.push('\n');
    }
    s
}

/// The answer that is to come, and what it is to leave.
struct Pending {
    /// Whether it is of only the first page.
    first: bool,
    /// What is written to, without an extension.
    stem: PathBuf,
    id: i32,
    what: String,
    to: Option<PathBuf>,
    want: Result<String, ()>,
    /// The beginning of what is wanted, if all of it is not known.
    vague: bool,
    open: bool,
    root: PathBuf,
    lock: bool,
    html: bool,
    ext: String,
    began: bool,
}

struct Run<'a> {
    case: &'a Case,
    base: PathBuf,
    root: PathBuf,
    settings: Settings,
    buffers: BTreeMap<u8, Doc>,
    disk: BTreeMap<u8, Doc>,
    data: Option<u8>,
    pending: Vec<Pending>,
}

/// Without `.` and `..`.
fn clean(p: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for c in p.components() {
        match c {
            Component::CurDir => {}
            Component::ParentDir => drop(out.pop()),
            c => out.push(c),
        }
    }
    out
}

impl Run<'_> {
    fn path(&self, f: u8) -> PathBuf {
        match FILES.get(f as usize) {
            Some(p) => self.root.join(p),
            None => self.base.join("else").join(ELSEWHERE[f as usize - FILES.len()]),
        }
    }
    /// The root of a document, by its path.
    fn root_of(&self, f: u8) -> PathBuf {
        let p = self.path(f);
        match self.case.folder && p.starts_with(&self.root) {
            true => self.root.clone(),
            false => p.parent().unwrap().to_owned(),
        }
    }
    fn doc(&self, path: &Path) -> Option<&Doc> {
        let f = (0..COUNT).find(|f| self.path(*f) == path)?;
        self.buffers.get(&f).or_else(|| self.disk.get(&f))
    }
    /// The pages of a document, unless there are errors.
    fn compiled(&self, f: u8, target: &str) -> Option<Vec<Vec<String>>> {
        let root = self.root_of(f);
        let mut pages = vec![vec![]];
        let mut ok = true;
        let mut budget = 64;
        self.walk(&root, &self.path(f), target, &mut vec![], &mut budget, &mut pages, &mut ok);
        ok.then_some(pages)
    }
    #[allow(clippy::too_many_arguments)]
    fn walk(
        &self,
        root: &Path,
        path: &Path,
        target: &str,
        stack: &mut Vec<PathBuf>,
        budget: &mut usize,
        pages: &mut Vec<Vec<String>>,
        ok: &mut bool,
    ) {
        if stack.iter().any(|p| p == path) || *budget == 0 {
            *ok = false;
            return;
        }
        *budget -= 1;
        let Some(d) = self.doc(path).cloned() else {
            *ok = false;
            return;
        };
        stack.push(path.to_owned());
        for l in &d {
            let mut push = |s: String| pages.last_mut().unwrap().push(s);
            match l {
                Line::Text(n) => push(format!("text {n}")),
                Line::Tagged(l, n) => push(format!("<{}> {n}", (b'a' + l) as char)),
                Line::Include(f) => self.walk(root, &root.join(FILES[*f as usize]), target, stack, budget, pages, ok),
                Line::Read => match self.data.filter(|_| *root == self.root) {
                    Some(n) => push(format!("<data {n}>")),
                    None => *ok = false,
                },
                Line::Target => push(target.to_owned()),
                Line::Break => pages.push(vec![]),
                Line::Warn(_) => {}
                Line::Error(_) => *ok = false,
            }
        }
        stack.pop();
    }
    /// Where the output goes, but for its extension.
    fn output(&self, f: u8) -> PathBuf {
        let (root, path) = (self.root_of(f), self.path(f));
        let Some((from, parts)) = &self.settings.output else { return path };
        let inside = path.strip_prefix(&root).unwrap();
        let mut s = match from {
            From::Root => root.display().to_string(),
            From::Absolute => self.base.join("abs").display().to_string(),
            From::Nothing if parts.is_empty() => return path,
            From::Nothing if parts[0].first() == Some(&Piece::Root) => String::new(),
            From::Nothing => format!("{}", root.display()),
        };
        for (n, p) in parts.iter().enumerate() {
            // Relative to the root, unless this begins with it.
            if n > 0 || !s.is_empty() {
                s.push('/');
            }
            for x in p {
                s += &match x {
                    Piece::Root => root.display().to_string(),
                    Piece::Dir => inside.parent().unwrap().display().to_string(),
                    Piece::Name => inside.file_name().unwrap().to_string_lossy().into_owned(),
                    Piece::Up => "..".into(),
                    Piece::Lit(l) => l.clone(),
                };
            }
        }
        clean(Path::new(&s))
    }
    fn pattern(&self) -> String {
        let Some((from, parts)) = &self.settings.output else {
            return String::new();
        };
        let parts: Vec<String> = parts
            .iter()
            .map(|p| {
                p.iter()
                    .map(|x| match x {
                        Piece::Root => "$root",
                        Piece::Dir => "$dir",
                        Piece::Name => "$name",
                        Piece::Up => "..",
                        Piece::Lit(l) => l,
                    })
                    .collect()
            })
            .collect();
        let rest = parts.join("/");
        match from {
            From::Root if parts.is_empty() => "$root".into(),
            From::Root => format!("$root/{rest}"),
            From::Absolute if parts.is_empty() => self.base.join("abs").display().to_string(),
            From::Absolute => format!("{}/{rest}", self.base.join("abs").display()),
            From::Nothing => rest,
        }
    }
    fn json(&self) -> Value {
        let mut args: Vec<String> = vec![];
        if let Some(t) = self.settings.timestamp {
            args.push(format!("--creation-timestamp={t}"));
        }
        if let Some(s) = &self.settings.standards {
            if !s.is_empty() {
                args.push(format!(
                    "--pdf-standard={}",
                    s.iter().map(|s| STANDARDS[*s as usize]).collect::<Vec<_>>().join(",")
                ));
            }
        }
        let mut o = Map::new();
        o.insert("outputPath".into(), json!(self.pattern()));
        o.insert("typstExtraArgs".into(), json!(args));
        o.insert(
            "projectResolution".into(),
            json!(if self.settings.lock { "lockDatabase" } else { "singleFile" }),
        );
        Value::Object(o)
    }

    /// What an export is to write, where it is known as a whole.
    fn exported(&self, f: u8, k: &Kind) -> Result<(String, bool), ()> {
        let target = if *k == Kind::Html { "html" } else { "paged" };
        let pages = self.compiled(f, target).ok_or(())?;
        let all: Vec<String> = pages.concat();
        Ok(match k {
            Kind::Pdf { timestamp, standards, .. } => {
                let at = match timestamp {
                    Some(t) => Some(t.parse::<i64>().map_err(drop)?),
                    None => self.settings.timestamp,
                };
                let at = at.map(|t| date(t).ok_or(())).transpose()?;
                let given = standards.clone().or(self.settings.standards.clone()).unwrap_or_default();
                if given.contains(&1) && given.contains(&2) {
                    return Err(());
                }
                let names: Vec<&str> = given.iter().map(|s| ["V_1_7", "A_2b", "A_3b"][*s as usize]).collect();
                let rest = format!(" as [{}] {pages:?}\n", names.join(", "));
                match at {
                    Some(at) => (format!("pdf at {at}{rest}"), false),
                    None => (rest, true),
                }
            }
            Kind::Html => (format!("html {all:?}\n"), false),
            Kind::Markdown => (format!("md {:?}\n", text(self.doc(&self.path(f)).unwrap())), false),
            Kind::Text => (format!("text {all:?}\n"), false),
            Kind::Query(q) => {
                if !["<a>", "<b>", "<c>", "<z>"].contains(&q.selector.as_str()) {
                    return Err(());
                }
                let found: Vec<&String> = all.iter().filter(|l| l.starts_with(&format!("{} ", q.selector))).collect();
                if q.one == Some(true) && found.len() != 1 {
                    return Err(());
                }
                let values: Vec<Value> = found
                    .into_iter()
                    .filter_map(|l| match q.field.as_deref() {
                        None => Some(json!(l)),
                        Some("value") => Some(json!(l[4..])),
                        Some("label") => Some(json!(l[..3])),
                        Some(_) => None,
                    })
                    .collect();
                let v = match q.one {
                    Some(true) => values.first().cloned().ok_or(())?,
                    _ => json!(values),
                };
                match q.format.as_str() {
                    "json" if q.pretty != Some(false) => (serde_json::to_string_pretty(&v).unwrap(), false),
                    "json" => (v.to_string(), false),
                    "yaml" => (format!("--- {v}\n"), false),
                    "txt" => (v.as_str().ok_or(())?.to_owned(), false),
                    _ => return Err(()),
                }
            }
            Kind::Svg(Page::Merged(gap)) => (format!("svg merged by {} {pages:?}\n", points(gap)?), false),
            Kind::Svg(_) => (format!("svg page {:?}\n", pages[0]), false),
            Kind::Png { page, ppi, fill } => {
                let ppi = ppi.unwrap_or(144.);
                if ppi <= 1e-6 {
                    return Err(());
                }
                let fill = match fill.as_deref() {
                    None | Some("white") => "#ffffff".into(),
                    Some("black") => "#000000".into(),
                    Some("red") => "#ff4136".into(),
                    Some("green") => "#2ecc40".into(),
                    Some("blue") => "#0074d9".into(),
                    Some(h) => hex(h)?,
                };
                match page {
                    Page::Merged(gap) => (format!("png at {} merged by {} on {fill} {pages:?}\n", ppi / 72., points(gap)?), false),
                    _ => (format!("png at {} page {:?}\n", ppi / 72., pages[0]), false),
                }
            }
        })
    }
}
fn hex(s: &str) -> Result<String, ()> {
    let d = s.strip_prefix('#').ok_or(())?;
    // typst takes its own colours' `#`s off.
    let d = d.strip_prefix('#').unwrap_or(d).to_lowercase();
    if !d.bytes().all(|b| b.is_ascii_hexdigit()) {
        return Err(());
    }
    let full: String = match d.len() {
        3 | 4 => d.chars().flat_map(|c| [c, c]).collect(),
        6 | 8 => d,
        _ => return Err(()),
    };
    Ok(format!("#{}", if full.len() == 8 && full.ends_with("ff") { &full[..6] } else { &full }))
}
fn points(gap: &Option<String>) -> Result<f64, ()> {
    let Some(g) = gap else { return Ok(0.) };
    let at = g.find(|c: char| !c.is_ascii_digit() && c != '.').ok_or(())?;
    let n: f64 = g[..at].parse().map_err(drop)?;
    Ok(match &g[at..] {
        "pt" => n,
        "mm" => n * 72. / 25.4,
        "cm" => n * 72. / 2.54,
        "in" => n * 72.,
        _ => return Err(()),
    })
}
/// A timestamp in UTC.
fn date(t: i64) -> Option<String> {
    if !(0..=253402300799).contains(&t) {
        return None;
    }
    let (mut days, s) = (t / 86400, t % 86400);
    let mut y = 1970;
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    while days >= 365 + i64::from(leap(y)) {
        days -= 365 + i64::from(leap(y));
        y += 1;
    }
    let mut m = 0;
    let len = |m: usize| [31, 28 + i64::from(leap(y)), 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m];
    while days >= len(m) {
        days -= len(m);
        m += 1;
    }
    Some(format!(
        "{y:04}-{:02}-{:02} {}:{:02}:{:02}.0",
        m + 1,
        days + 1,
        s / 3600,
        s / 60 % 60,
        s % 60
    ))
}

/// All the files and directories.
fn tree(p: &Path, out: &mut BTreeMap<PathBuf, Option<Vec<u8>>>) {
    for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            out.insert(p.clone(), None);
            tree(&p, out);
        } else {
            let data = std::fs::read(&p).ok();
            out.insert(p, data);
        }
    }
}
fn config(base: Option<&Path>, folder: Option<PathBuf>, json: &Value) -> Result<Config, Fail> {
    let _ = base;
    let mut c = Config::new(
        ConstConfig::default(),
        folder.into_iter().map(|p| p.as_path().into()).collect(),
        Default::default(),
    );
    c.update(json)
        .map_err(|e| Fail::from(format!("the configuration {json} is refused: {e}")))?;
    Ok(c)
}

fn history(c: &Case) -> Verdict {
    let dir = Scratch::reused();
    let base = dir.path().to_owned();
    let root = base.join(ROOTS[c.root as usize % ROOTS.len()]);
    let mut r = Run {
        case: c,
        base,
        root,
        settings: c.settings.clone(),
        buffers: Default::default(),
        disk: Default::default(),
        data: Some(7),
        pending: vec![],
    };
    for f in 0..COUNT {
        std::fs::create_dir_all(r.path(f).parent().unwrap()).unwrap();
        if let Some(Some(d)) = c.disk.get(f as usize) {
            std::fs::write(r.path(f), text(d)).unwrap();
            r.disk.insert(f, d.clone());
        }
    }
    std::fs::write(r.root.join(DATA), "data 7").unwrap();
    let folder = c.folder.then(|| r.root.clone());
    let cfg = config(None, folder, &r.json())?;
    let mut server = Server::new(tinymist::Config {
        entry_resolver: cfg.entry_resolver.clone(),
        ..Default::default()
    });
    let handle = server.rt.handle().clone();
    let (client, sent, _ends) = h_server::server::client(handle);
    let mut s = State { s: None, client, sent };
    let base_state = std::mem::replace(&mut server.s, Server::new(tinymist::Config::default()).s);
    s.s = Some(ServerState {
        client: s.client.weak().to_typed::<ServerState>(),
        config: cfg,
        base: base_state,
    });
    opened(&r.base);
    let mut done = 0;
    let mut ops = c.ops.clone();
    ops.push(Op::Await);
    for (n, op) in ops.iter().enumerate() {
        let what = format!("{op:?} (step {n})");
        let url = |f: u8, r: &Run| Url::from_file_path(r.path(f)).unwrap();
        let state = s.s.as_mut().unwrap();
        match op {
            Op::Edit(f, d) => {
                let item = TextDocumentItem {
                    uri: url(*f, &r),
                    language_id: "typst".into(),
                    version: n as i32,
                    text: text(d),
                };
                let res = if r.buffers.insert(*f, d.clone()).is_none() {
                    state.base.did_open(DidOpenTextDocumentParams { text_document: item })
                } else {
                    let change = TextDocumentContentChangeEvent {
                        range: None,
                        range_length: None,
                        text: item.text,
                    };
                    let text_document = VersionedTextDocumentIdentifier {
                        uri: item.uri,
                        version: item.version,
                    };
                    state.base.did_change(DidChangeTextDocumentParams {
                        text_document,
                        content_changes: vec![change],
                    })
                };
                ensure!(res.is_ok(), "{what}: {res:?}");
            }
            Op::Close(f) => {
                if r.buffers.remove(f).is_some() {
                    let text_document = TextDocumentIdentifier { uri: url(*f, &r) };
                    let res = state.base.did_close(DidCloseTextDocumentParams { text_document });
                    ensure!(res.is_ok(), "{what}: {res:?}");
                    server.pump_to(&mut state.base);
                }
            }
            // The disk is left alone while something is being exported.
            Op::Write(f, d) if r.pending.is_empty() => {
                if std::fs::write(r.path(*f), text(d)).is_ok() {
                    r.disk.insert(*f, d.clone());
                }
            }
            Op::Data(v) if r.pending.is_empty() => {
                std::fs::write(r.root.join(DATA), format!("data {v}")).unwrap();
                r.data = Some(*v);
            }
            Op::Remove(f) if r.pending.is_empty() => {
                let _ = std::fs::remove_file(r.path(*f));
                r.disk.remove(f);
            }
            Op::Write(..) | Op::Data(_) | Op::Remove(_) => {}
            Op::Configure(set) => {
                r.settings = set.clone();
                let folder = c.folder.then(|| r.root.clone());
                state.config = config(None, folder, &r.json())?;
                state.base.config.entry_resolver = state.config.entry_resolver.clone();
            }
            Op::Focus(f, pin) => {
                let p = Some(r.path(*f).as_path().into());
                let res = if *pin {
                    state.base.pin_main_file(p).map(|_| true)
                } else {
                    state.base.focus_main_file(p)
                };
                ensure!(res.is_ok(), "{what}: {res:?}");
            }
            Op::Obstacle(f, ext, is_dir) if r.pending.is_empty() => {
                let p = r.output(*f).with_extension(ext);
                let up = p.parent().unwrap().to_owned();
                if *is_dir && !p.exists() && p.starts_with(&r.base) {
                    let _ = std::fs::create_dir_all(&p);
                } else if !up.exists() && up.starts_with(&r.base) {
                    let _ = up.parent().map(std::fs::create_dir_all);
                    let _ = std::fs::write(&up, "in the way");
                }
            }
            Op::Obstacle(..) => {}
            Op::Export(f, k, open) => {
                ensure!(
                    r.output(*f).starts_with(&r.base),
                    "this check would write outside of its directory: {what}"
                );
                let mut o = Map::new();
                let mut put = |k: &str, v: Option<Value>| drop(v.map(|v| o.insert(k.to_owned(), v)));
                put("open", open.map(|b| json!(b)));
                let page = |p: &Page| match p {
                    Page::Default => None,
                    Page::First => Some(json!("first")),
                    Page::Merged(None) => Some(json!({"merged": {}})),
                    Page::Merged(Some(g)) => Some(json!({"merged": {"gap": g}})),
                };
                match k {
                    Kind::Pdf { timestamp, standards, snake } => {
                        put(
                            if *snake { "creation_timestamp" } else { "creationTimestamp" },
                            timestamp.as_ref().map(|t| json!(t)),
                        );
                        put(
                            if *snake { "pdf_standard" } else { "pdfStandard" },
                            standards
                                .as_ref()
                                .map(|s| json!(s.iter().map(|s| STANDARDS[*s as usize]).collect::<Vec<_>>())),
                        );
                    }
                    Kind::Query(q) => {
                        put("format", Some(json!(q.format)));
                        put("outputExtension", q.extension.as_ref().map(|e| json!(e)));
                        put("pretty", q.pretty.map(|b| json!(b)));
                        put("selector", Some(json!(q.selector)));
                        put("field", q.field.as_ref().map(|e| json!(e)));
                        put("one", q.one.map(|b| json!(b)));
                    }
                    Kind::Svg(p) => put("page", page(p)),
                    Kind::Png { page: p, ppi, fill } => {
                        put("page", page(p));
                        put("ppi", ppi.map(|n| json!(n)));
                        put("fill", fill.as_ref().map(|n| json!(n)));
                    }
                    _ => {}
                }
                let mut args = vec![json!(r.path(*f))];
                if !o.is_empty() || n % 2 == 0 {
                    args.push(Value::Object(o));
                }
                let ext = match k {
                    Kind::Pdf { .. } => "pdf",
                    Kind::Html => "html",
                    Kind::Markdown => "md",
                    Kind::Text => "txt",
                    Kind::Svg(_) => "svg",
                    Kind::Png { .. } => "png",
                    Kind::Query(q) => q.extension.as_deref().unwrap_or(&q.format),
                };
                let stem = r.output(*f);
                let to = (!stem.is_dir() && !ext.contains('/')).then(|| stem.with_extension(ext));
                // Sources that are asked to be overwritten are.
                if to.as_ref().is_some_and(|t| t.ends_with(DATA) || (0..COUNT).any(|f| r.path(f) == *t)) {
                    continue;
                }
                let want = r.exported(*f, k);
                let id = n as i32;
                s.client.weak().register_request("export", &RequestId::from(id), Instant::now());
                let rid = RequestId::from(id);
                let res = {
                    let _in = server.rt.enter();
                    no_panic(|| match k {
                        Kind::Pdf { .. } => state.export_pdf(rid, args),
                        Kind::Html => state.export_html(rid, args),
                        Kind::Markdown => state.export_markdown(rid, args),
                        Kind::Text => state.export_text(rid, args),
                        Kind::Query(_) => state.export_query(rid, args),
                        Kind::Svg(_) => state.export_svg(rid, args),
                        Kind::Png { .. } => state.export_png(rid, args),
                    })
                    .map_err(|e| Fail::from(format!("{what}: {e}")))?
                };
                let (want, vague) = match want {
                    Ok((w, v)) => (Ok(w), v),
                    Err(()) => (Err(()), false),
                };
                r.pending.push(Pending {
                    id,
                    stem,
                    first: matches!(
                        k,
                        Kind::Svg(Page::Default | Page::First)
                            | Kind::Png {
                                page: Page::Default | Page::First,
                                ..
                            }
                    ),
                    what,
                    to,
                    want,
                    vague,
                    open: *open == Some(true),
                    root: r.root_of(*f),
                    lock: r.settings.lock,
                    html: *k == Kind::Html,
                    ext: ext.to_owned(),
                    began: res.is_ok(),
                });
            }
            Op::Await => {
                done += settle(&mut r, &server, &s)?;
            }
        }
    }
    // The projects stop before the runtime does.
    server.s = s.s.take().unwrap().base;
    Ok(done > 0)
}
struct State {
    s: Option<ServerState>,
    client: LspClientRoot,
    sent: crossbeam_channel::Receiver<Message>,
}

/// Takes what has been opened in a directory. (Other cases open files at the
/// same time.)
fn opened(base: &Path) -> Vec<PathBuf> {
    let mut all = open::OPENED.lock();
    let (ours, others) = std::mem::take(&mut *all).into_iter().partition(|p| p.starts_with(base));
    *all = others;
    ours
}

/// Waits for the answers; the number of files that have been written.
fn settle(r: &mut Run, server: &Server, s: &State) -> Result<u32, Fail> {
    let pending = std::mem::take(&mut r.pending);
    if pending.is_empty() {
        return Ok(0);
    }
    let mut old = BTreeMap::new();
    // What is written meanwhile is what is waited for.
    tree(&r.base, &mut old);
    let mut answers: BTreeMap<i32, lsp::Response> = BTreeMap::new();
    let waited = pending.iter().filter(|p| p.began).count();
    let end = Instant::now() + Duration::from_secs(20);
    while answers.len() < waited {
        if Instant::now() > end {
            let left: Vec<&String> = pending
                .iter()
                .filter(|p| p.began && !answers.contains_key(&p.id))
                .map(|p| &p.what)
                .collect();
            return Err(Fail::from(format!("an export is never answered: {left:?}")));
        }
        server.rt.block_on(async { tokio::time::sleep(Duration::from_micros(200)).await });
        while let Ok(m) = s.sent.try_recv() {
            if let Message::Lsp(lsp::Message::Response(a)) = m {
                let id = a.id.to_string().parse::<i32>().map_err(|e| Fail::from(format!("{e}")))?;
                answers.insert(id, a);
            }
        }
    }
    // Routes are recorded after the answer.
    if pending.iter().any(|p| p.lock && p.began) {
        server.rt.block_on(async { tokio::time::sleep(Duration::from_millis(2)).await });
    }
    let mut opened = opened(&r.base);
    let mut new = BTreeMap::new();
    tree(&r.base, &mut new);
    let mut to_open: Vec<PathBuf> = vec![];
    let mut may: Vec<&PathBuf> = vec![];
    let mut count = 0;
    for p in &pending {
        let Pending { what, to, want, .. } = p;
        may.extend(to.iter());
        let same = to.is_some() && pending.iter().filter(|q| q.to == *to).count() > 1;
        let a = answers.get(&p.id);
        // Something else than a file there, or in the way to it.
        let blocked = to.as_ref().is_some_and(|t| old.get(t) == Some(&None) || t.ancestors().skip(1).any(|d| matches!(old.get(d), Some(Some(_)))))
            || pending.iter().any(|q| q.id != p.id && q.to.is_some() && to.as_ref().is_some_and(|t| { let o = q.to.as_ref().unwrap(); t.starts_with(o) && t != o || o.starts_with(t) && t != o }))
            // Where another one has made a directory.
            || pending.iter().any(|q| q.id != p.id && q.to.as_ref().is_some_and(|o| o.starts_with(&p.stem) && o != &p.stem));
        let good = a.filter(|a| a.error.is_none());
        match (to, want, good) {
            (Some(t), Ok(w), Some(a)) => {
                let told = a.result.as_ref().and_then(|v| v.as_str()).map(PathBuf::from);
                ensure_eq!(told.as_ref(), Some(t), "{what}: what is answered ");
                let data = new.get(t).cloned().flatten().map(|d| String::from_utf8_lossy(&d).into_owned());
                let data = data.ok_or_else(|| Fail::from(format!("{what}: there is no file at {t:?}")))?;
                if !same {
                    let ok = if p.vague {
                        data.ends_with(w.as_str()) && data.starts_with("pdf at 2")
                    } else {
                        data == *w
                    };
                    ensure!(ok, "{what}: {data:?} is written, not {w:?}");
                    let already = old.get(t) == Some(&Some(data.into_bytes()));
                    count += u32::from(!already);
                }
                if p.open {
                    to_open.push(t.clone());
                }
                if p.lock {
                    let lock = LockFile::read(&p.root).map_err(|e| Fail::from(format!("{what}: the lock: {e}")))?;
                    let here = lock.task.iter().any(|t| {
                        let kind = match t.task {
                            ProjectTask::ExportHtml(_) => p.html,
                            _ => !p.html,
                        };
                        let first = t.task.as_export().into_iter().flat_map(|e| &e.transform).any(|t| match t {
                            tinymist_task::ExportTransform::Pages { ranges } => {
                                ranges.iter().all(|r| "1".parse().is_ok_and(|one: tinymist_task::Pages| one == *r))
                            }
                            _ => false,
                        });
                        kind && first == p.first && t.task.extension() == p.ext && lock.get_document(&t.document).is_some()
                    });
                    let replaced = pending.iter().filter(|q| q.root == p.root).count() > 1;
                    ensure!(here || replaced, "{what}: the task is not in the lock: {:?}", lock.task);
                }
            }
            (_, _, Some(a)) => {
                return Err(Fail::from(format!(
                    "{what}: answered {:?} for what cannot be exported (to {to:?})",
                    a.result
                )))
            }
            (Some(_), Ok(_), None) if !blocked => {
                return Err(Fail::from(format!(
                    "{what}: is to write {to:?}, and fails: {:?}",
                    a.and_then(|a| a.error.as_ref()).map(|e| &e.message)
                )));
            }
            // (Another one may have made a directory of it.)
            (Some(t), _, None) if !same && new.get(t) != Some(&None) => {
                ensure_eq!(new.get(t), old.get(t), "{what}: fails, and changes the file ");
            }
            (_, _, None) => {}
        }
    }
    opened.sort();
    to_open.sort();
    ensure_eq!(opened, to_open, "what is opened ");
    for (p, data) in &new {
        let lock = p.file_name().is_some_and(|f| f == "tinymist.lock") && pending.iter().any(|q| q.lock && q.root == p.parent().unwrap());
        let made = data.is_none() && may.iter().any(|t| t.starts_with(p));
        ensure!(
            old.get(p) == Some(data) || lock || made || may.contains(&p),
            "{p:?} is written as well: {:?}",
            data.as_ref().map(|d| String::from_utf8_lossy(d))
        );
    }
    for p in old.keys() {
        ensure!(new.contains_key(p), "{p:?} is gone");
    }
    Ok(count)
}

fn main() {
    let home = Scratch::new();
    std::env::set_var("XDG_CACHE_HOME", home.path());
    std::env::set_var("HOME", home.path());
    std::env::remove_var("SOURCE_DATE_EPOCH");
    Check::main("C41", "an export writes a file", |c| {
        c.prop("histories", Opts::new(20000).thorough(20).shards(24), cases, history);
    })
}
