//! C34: the project lock file through histories of updates, alone and at once.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::num::NonZeroUsize;
use std::path::{Path, PathBuf};
use std::str::FromStr;
use tinymist_project::*;
use tinymist_std::ImmutPath;
use tinymist_world::EntryState;
use typst::syntax::VirtualPath;
use vcommon::scratch::Scratch;
use vcommon::{bx, ensure, ensure_eq, gen, Check, Fail, Opts, Verdict};

// ---- Cases -------------------------------------------------------------------

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Doc {
    id: String,
    root: Option<String>,
    main: String,
    inputs: Vec<(String, String)>,
    fonts: Vec<String>,
    system: bool,
    pkg: Option<String>,
    cache: Option<String>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Tr {
    Pages(Vec<(Option<usize>, Option<usize>)>),
    Merge(Option<String>),
    Script(Option<String>),
    Pretty(Option<String>),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Task {
    id: String,
    doc: String,
    kind: u8,
    when: u8,
    output: Option<String>,
    transform: Vec<Tr>,
    a: Option<String>,
    n: Option<i64>,
    std: Vec<u8>,
    ppi: i32,
    one: bool,
    text: String,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Up {
    Doc(Doc),
    Task(Task),
    Route(String, u32),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    /// Through `LockFile::update`.
    Update(Vec<Up>),
    /// Through `update_lock`, as the server does.
    Commit(Vec<Up>, Option<(String, Vec<String>)>),
    /// The closure fails after having made changes.
    Fail(Vec<Up>),
    /// A compiled world is recorded.
    Compiled(String),
    /// Writes something that is no lock file, tries to update, puts the file back.
    Garbage(String),
    Future(u8),
    Read,
}

fn id(s: &str) -> Id {
    Id::new(s.to_owned())
}
fn res(s: &str) -> ResourcePath {
    ResourcePath::from_str(&format!("file:{s}")).expect("harness: a resource path")
}

impl Doc {
    fn build(&self) -> ProjectInput {
        ProjectInput {
            id: id(&self.id),
            root: self.root.as_deref().map(res),
            main: res(&self.main),
            inputs: self.inputs.clone(),
            font_paths: self.fonts.iter().map(|f| res(f)).collect(),
            system_fonts: self.system,
            package_path: self.pkg.as_deref().map(res),
            package_cache_path: self.cache.as_deref().map(res),
        }
    }
}

impl Task {
    fn build(&self) -> ApplyProjectTask {
        let when = [TaskWhen::Never, TaskWhen::OnSave, TaskWhen::OnType, TaskWhen::OnDocumentHasTitle][self.when as usize % 4];
        let n = |v: &Option<usize>| v.and_then(NonZeroUsize::new);
        let mut export = ExportTask::new(when);
        export.output = self.output.as_deref().map(PathPattern::new);
        export.transform = self
            .transform
            .iter()
            .map(|t| match t {
                Tr::Pages(v) => ExportTransform::Pages { ranges: v.iter().map(|(a, b)| Pages(n(a)..=n(b))).collect() },
                Tr::Merge(gap) => ExportTransform::Merge { gap: gap.clone() },
                Tr::Script(script) => ExportTransform::Script { script: script.clone() },
                Tr::Pretty(script) => ExportTransform::Pretty { script: script.clone() },
            })
            .collect();
        let task = match self.kind % 9 {
            0 => ProjectTask::Preview(PreviewTask { when }),
            1 => ProjectTask::ExportPdf(ExportPdfTask {
                export,
                pdf_standards: self.std.iter().map(|s| [PdfStandard::V_1_7, PdfStandard::A_2b, PdfStandard::A_3b][*s as usize % 3]).collect(),
                creation_timestamp: self.n,
            }),
            2 => ProjectTask::ExportPng(ExportPngTask { export, ppi: Scalar::try_from(self.ppi as f32 / 7.0).unwrap(), fill: self.a.clone() }),
            3 => ProjectTask::ExportSvg(ExportSvgTask { export }),
            4 => ProjectTask::ExportHtml(ExportHtmlTask { export }),
            5 => ProjectTask::ExportSvgHtml(ExportHtmlTask { export }),
            6 => ProjectTask::ExportMd(ExportMarkdownTask { export }),
            7 => ProjectTask::ExportText(ExportTextTask { export }),
            _ => ProjectTask::Query(QueryTask {
                export,
                format: self.text.clone(),
                output_extension: self.a.clone(),
                selector: self.text.clone(),
                field: self.a.clone(),
                one: self.one,
            }),
        };
        ApplyProjectTask { id: id(&self.id), document: id(&self.doc), task }
    }
}

// ---- Model -------------------------------------------------------------------

#[derive(Default, Clone)]
struct Model {
    docs: Vec<ProjectInput>,
    tasks: Vec<ApplyProjectTask>,
    routes: Vec<ProjectRoute>,
}

impl Model {
    fn apply(&mut self, u: &Up) {
        match u {
            Up::Doc(d) => self.doc(d.build()),
            Up::Task(t) => {
                let t = t.build();
                self.tasks.retain(|o| o.id != t.id);
                self.tasks.push(t);
            }
            Up::Route(i, priority) => {
                self.routes.retain(|o| o.id != id(i));
                self.routes.push(ProjectRoute { id: id(i), priority: *priority });
            }
        }
    }
    fn doc(&mut self, d: ProjectInput) {
        self.docs.retain(|o| o.id != d.id);
        self.docs.push(d);
    }
    fn file(&self) -> LockFile {
        let mut docs = self.docs.clone();
        docs.sort_by_key(|d| d.id.to_string());
        let mut tasks = self.tasks.clone();
        tasks.sort_by_key(|t| (t.document.to_string(), t.id.to_string()));
        LockFile { document: docs, task: tasks, route: self.routes.iter().cloned().collect() }
    }
}

fn apply(l: &mut LockFile, u: &Up) {
    match u {
        Up::Doc(d) => l.replace_document(d.build()),
        Up::Task(t) => l.replace_task(t.build()),
        Up::Route(i, priority) => l.replace_route(ProjectRoute { id: id(i), priority: *priority }),
    }
}

/// The file reads back as the model, by every way to look at it.
fn same(dir: &Path, m: &Model) -> Result<(), Fail> {
    let got = LockFile::read(dir).map_err(|e| Fail::from(format!("the lock file does not read: {e}\n{}", std::fs::read_to_string(dir.join(LOCK_FILENAME)).unwrap_or_default())))?;
    let want = m.file();
    ensure_eq!(got.document, want.document, "the documents");
    ensure_eq!(got.task, want.task, "the tasks");
    ensure_eq!(got.route, want.route, "the routes");
    for d in &m.docs {
        ensure_eq!(got.get_document(&d.id), Some(d), "the document by its id");
    }
    for t in &m.tasks {
        ensure_eq!(got.get_task(&t.id), Some(t), "the task by its id");
    }
    ensure!(got.get_document(&id("no such")).is_none() && got.get_task(&id("no such")).is_none(), "an entry out of nowhere");
    Ok(())
}

fn cache() -> PathBuf {
    PathBuf::from(std::env::var_os("XDG_CACHE_HOME").expect("harness: the cache directory"))
}

fn materials(dir: &Path) -> Vec<PathBuf> {
    let mut out = vec![];
    let mut todo = vec![dir.to_owned()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                todo.push(p)
            } else if p.file_name().is_some_and(|n| n == "path-material.json") {
                out.push(p)
            }
        }
    }
    out
}

fn histories(ops: &Vec<Op>) -> Verdict {
    let dir = Scratch::reused();
    let root: ImmutPath = dir.path().into();
    let file = root.join(LOCK_FILENAME);
    let mut m = Model::default();
    let mut transforms = 0;
    let mut recs = Recs::default();
    for (i, op) in ops.iter().enumerate() {
        let at = |f: Fail| f.at(&format!("step {i} {op:?}"));
        let before = std::fs::read(&file).ok();
        match op {
            Op::Update(ups) => {
                LockFile::update(&root, |l| {
                    ups.iter().for_each(|u| apply(l, u));
                    Ok(())
                })
                .map_err(|e| at(format!("updating fails: {e}").into()))?;
                ups.iter().for_each(|u| m.apply(u));
                same(&root, &m).map_err(at)?;
                transforms += usize::from(m.tasks.iter().any(|t| t.task.as_export().is_some_and(|e| !e.transform.is_empty())));
                // Once more, with nothing to do.
                let now = std::fs::read(&file).ok();
                LockFile::update(&root, |_| Ok(())).map_err(|e| at(format!("updating fails: {e}").into()))?;
                ensure!(std::fs::read(&file).ok() == now, "step {i}: an update that changes nothing changes the file");
            }
            Op::Commit(ups, mat) => {
                let mut up = update_lock(root.clone());
                for u in ups {
                    match u {
                        Up::Doc(_) => {}
                        Up::Task(t) => up.task(t.build()),
                        Up::Route(i, p) => up.route(id(i), *p),
                    }
                    if !matches!(u, Up::Doc(_)) {
                        m.apply(u);
                    }
                }
                if let Some((i, files)) = mat {
                    up.update_materials(id(i), files.iter().map(|f| ImmutPath::from(Path::new(f))).collect());
                }
                up.commit();
                same(&root, &m).map_err(at)?;
                if let Some((i, files)) = mat {
                    let mut want: Vec<PathBuf> = files.iter().map(PathBuf::from).collect();
                    want.sort();
                    let (mine, dirs) = recorded(&root)?;
                    recs.extend(dirs);
                    let mine: Vec<_> = mine.iter().filter(|a| a.id == id(i)).collect();
                    ensure_eq!(mine.len(), 1, "step {i}: the number of records of the files of {i:?}");
                    ensure_eq!(mine[0].files, want, "step {i}: the files of {i:?}");
                }
            }
            Op::Fail(ups) => {
                let r = LockFile::update(&root, |l| {
                    ups.iter().for_each(|u| apply(l, u));
                    Err(tinymist_std::error_once!("given up"))
                });
                ensure!(r.is_err(), "step {i}: the failure of an update is lost");
                let now = std::fs::read(&file).ok();
                ensure!(now == before || (before.is_none() && now.as_deref() == Some(&[])), "step {i}: a failed update changed the file");
            }
            Op::Compiled(main) => {
                let e = EntryState::new_rooted(root.clone(), Some(VirtualPath::new(main)));
                let world = world(e);
                let mut up = update_lock(root.clone());
                let i = up.compiled(&world).ok_or_else(|| at("a compiled document has no id".into()))?;
                up.commit();
                let got = LockFile::read(&root).map_err(|e| at(format!("the lock file does not read: {e}").into()))?;
                let d = got.get_document(&i).ok_or_else(|| at("the compiled document is not there".into()))?.clone();
                // As those who read the lock file understand it.
                let abs = d.main.to_abs_path(&root).map(|p| tinymist_std::path::clean(p));
                ensure_eq!(abs, Some(root.join(main)), "step {i}: the main file of the compiled document");
                // Opened again from the lock file, it is the same document.
                let again = WorldProvider::entry(&(d.clone(), root.clone())).and_then(EntryState::try_from);
                let again = again.map_err(|e| at(format!("the recorded document cannot be opened: {e}").into()))?;
                ensure_eq!(again.workspace_root(), Some(root.clone()), "step {i}: the root of the document opened again");
                ensure_eq!(again.main(), tinymist_world::EntryReader::main_id(&world), "step {i}: the main file of the document opened again");
                m.doc(d);
                same(&root, &m).map_err(at)?;
            }
            Op::Garbage(text) => {
                std::fs::write(&file, text).unwrap();
                let fresh = text.trim().is_empty();
                let r = LockFile::update(&root, |l| {
                    l.replace_route(ProjectRoute { id: id("x"), priority: 1 });
                    Ok(())
                });
                if fresh {
                    ensure!(r.is_ok(), "step {i}: a blank file cannot be updated");
                } else {
                    ensure!(r.is_err(), "step {i}: {text:?} is taken for a lock file");
                    ensure!(std::fs::read_to_string(&file).ok().as_deref() == Some(text), "step {i}: what is no lock file was overwritten");
                }
                back(&file, &before);
            }
            Op::Future(n) => {
                let v = ["0.1.0", "9.0.0", "0.1.0-rc1", "1", "", "0.1.0-beta1"][*n as usize % 6];
                let text = format!("version = {v:?}\n[[route]]\nid = \"a\"\npriority = 1\n");
                std::fs::write(&file, &text).unwrap();
                let r = LockFile::update(&root, |_| Ok(()));
                ensure!(r.is_err(), "step {i}: a lock file of version {v:?} is updated");
                ensure!(std::fs::read_to_string(&file).ok().as_deref() == Some(&text), "step {i}: a lock file of version {v:?} was overwritten");
                ensure!(LockFile::read(&root).is_err(), "step {i}: a lock file of version {v:?} is read");
                back(&file, &before);
            }
            Op::Read => match before {
                Some(b) if !b.is_empty() => same(&root, &m).map_err(at)?,
                _ => ensure!(LockFile::read(&root).is_err(), "step {i}: a missing lock file is read"),
            },
        }
    }
    Ok(m.docs.len() + m.tasks.len() + m.routes.len() > 2 || transforms > 0)
}

/// The records of the files of a root, and the directories they are in.
fn recorded(root: &Path) -> Result<(Vec<ProjectPathMaterial>, Vec<PathBuf>), Fail> {
    let mut out = (vec![], vec![]);
    for p in materials(&cache()) {
        // Other histories come and go meanwhile.
        let Ok(data) = std::fs::read(&p) else { continue };
        let m: ProjectPathMaterial = serde_json::from_slice(&data).map_err(|e| Fail::from(format!("{p:?} does not read: {e}")))?;
        if Path::new(m.root.as_str()) == root {
            out.0.push(m);
            out.1.push(p.parent().unwrap().to_owned());
        }
    }
    Ok(out)
}

/// Removes the records of a history when it ends: the cache is shared.
#[derive(Default)]
struct Recs(std::collections::BTreeSet<PathBuf>);
impl Recs {
    fn extend(&mut self, dirs: Vec<PathBuf>) {
        self.0.extend(dirs)
    }
}
impl Drop for Recs {
    fn drop(&mut self) {
        for d in &self.0 {
            let _ = std::fs::remove_dir_all(d);
            // The directories above it, as far as they are empty.
            let _ = d.ancestors().skip(1).take(2).try_for_each(std::fs::remove_dir);
        }
    }
}

fn back(file: &Path, before: &Option<Vec<u8>>) {
    match before {
        Some(b) => std::fs::write(file, b).unwrap(),
        None => std::fs::remove_file(file).unwrap(),
    }
}

/// The text of a state reads back as that state.
fn text(ups: &Vec<Up>) -> Verdict {
    let mut m = Model::default();
    let mut l = LockFile::default();
    for u in ups {
        m.apply(u);
        apply(&mut l, u);
    }
    l.sort();
    let text = l.serialize_resolve();
    let got = toml::from_str::<LockFileCompat>(&text).map_err(|e| Fail::from(format!("{e}\n{text}")))?;
    ensure_eq!(got.version().map_err(|e| Fail::from(e.to_string()))?, LOCK_VERSION, "the version");
    let got = got.migrate().map_err(|e| Fail::from(format!("{e}\n{text}")))?;
    ensure!(got == m.file(), "got {got:?}\nexpected {:?}\nfrom {text}", m.file());
    ensure_eq!(got.serialize_resolve(), text, "written again");
    Ok(ups.len() > 2)
}

/// Several update at once: nobody's entries get lost, and a reader never sees
/// half a file.
fn races(c: &Vec<Vec<Up>>) -> Verdict {
    let dir = Scratch::reused();
    let root: ImmutPath = dir.path().into();
    LockFile::update(&root, |l| {
        l.replace_route(ProjectRoute { id: id("first"), priority: 0 });
        Ok(())
    })
    .map_err(|e| Fail::from(format!("{e}")))?;
    let go = std::sync::Barrier::new(c.len() + 1);
    let done = std::sync::atomic::AtomicBool::new(false);
    let mine: Vec<Vec<Up>> = c
        .iter()
        .enumerate()
        .map(|(k, ups)| {
            let mut ups = ups.clone();
            for u in &mut ups {
                let i = match u {
                    Up::Doc(d) => &mut d.id,
                    Up::Task(t) => &mut t.id,
                    Up::Route(i, _) => i,
                };
                *i = format!("{k}-{i}");
            }
            ups
        })
        .collect();
    std::thread::scope(|s| -> Result<(), Fail> {
        let hs: Vec<_> = mine
            .iter()
            .enumerate()
            .map(|(k, ups)| {
                let (go, root) = (&go, root.clone());
                s.spawn(move || -> Result<(), Fail> {
                    go.wait();
                    for u in ups {
                        if k % 2 == 1 && !matches!(u, Up::Doc(_)) {
                            let mut up = update_lock(root.clone());
                            match u {
                                Up::Task(t) => up.task(t.build()),
                                Up::Route(i, p) => up.route(id(i), *p),
                                _ => {}
                            }
                            up.commit();
                        } else {
                            LockFile::update(&root, |l| {
                                apply(l, u);
                                Ok(())
                            })
                            .map_err(|e| Fail::from(format!("updating fails: {e}")))?;
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        let (go, done, root) = (&go, &done, root.clone());
        let reader = s.spawn(move || -> Result<(), Fail> {
            go.wait();
            let mut routes = 0;
            while !done.load(std::sync::atomic::Ordering::Relaxed) {
                let l = LockFile::read(&root).map_err(|e| Fail::from(format!("reading meanwhile fails: {e}")))?;
                ensure!(l.route.len() >= routes, "a route was lost meanwhile");
                routes = l.route.len();
            }
            Ok(())
        });
        let rs: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
        done.store(true, std::sync::atomic::Ordering::Relaxed);
        let r = reader.join();
        for r in rs.into_iter().chain([r]) {
            r.map_err(|_| Fail::from("a thread panics"))??;
        }
        Ok(())
    })?;
    let mut m = Model::default();
    mine.iter().flatten().for_each(|u| m.apply(u));
    let got = LockFile::read(&root).map_err(|e| Fail::from(format!("the lock file does not read: {e}")))?;
    let want = m.file();
    ensure_eq!(got.document, want.document, "the documents");
    ensure_eq!(got.task, want.task, "the tasks");
    let by_id = |r: &LockFile| {
        let mut v: Vec<_> = r.route.iter().map(|r| (r.id.to_string(), r.priority)).filter(|r| r.0 != "first").collect();
        v.sort();
        v
    };
    ensure_eq!(by_id(&got), by_id(&want), "the routes");
    Ok(c.iter().filter(|u| !u.is_empty()).count() > 1)
}

// ---- Generators ----------------------------------------------------------------

fn word() -> BoxedStrategy<String> {
    bx(prop_oneof![
        6 => prop_oneof![Just("a"), Just("b"), Just("file:main.typ"), Just("")].prop_map(str::to_owned),
        2 => gen::text(6),
        1 => gen::word(),
        1 => prop_oneof![Just("'''"), Just("\"\"\""), Just("\r\n"), Just("[task]"), Just("x = 1\n"), Just("\\"), Just("#"), Just("\u{7f}"), Just("a:b:c"), Just("$root/$dir")].prop_map(str::to_owned),
    ])
}

fn doc() -> BoxedStrategy<Doc> {
    bx((word(), prop::option::of(word()), word(), prop::collection::vec((word(), word()), 0..3), prop::collection::vec(word(), 0..3), any::<bool>(), prop::option::of(word()), prop::option::of(word()))
        .prop_map(|(id, root, main, inputs, fonts, system, pkg, cache)| Doc { id, root, main, inputs, fonts, system, pkg, cache }))
}

fn tr() -> BoxedStrategy<Tr> {
    let n = || prop::option::of(1usize..9);
    let r = (n(), n()).prop_filter("a range", |(a, b)| a.is_some() || b.is_some()).prop_map(|(a, b)| match (a, b) {
        (Some(a), Some(b)) => (Some(a.min(b)), Some(a.max(b))),
        r => r,
    });
    bx(prop_oneof![
        prop::collection::vec(r, 0..4).prop_map(Tr::Pages),
        prop::option::of(word()).prop_map(Tr::Merge),
        prop::option::of(word()).prop_map(Tr::Script),
        prop::option::of(word()).prop_map(Tr::Pretty),
    ])
}

fn task() -> BoxedStrategy<Task> {
    let some = (prop::option::of(word()), prop::option::of(prop_oneof![any::<i64>(), 0i64..9]), prop::collection::vec(0u8..3, 0..3), any::<i32>(), any::<bool>(), word());
    bx((word(), word(), 0u8..9, 0u8..4, prop::option::of(word()), prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(tr(), 1..4)], some)
        .prop_map(|(id, doc, kind, when, output, transform, (a, n, std, ppi, one, text))| Task { id, doc, kind, when, output, transform, a, n, std, ppi, one, text }))
}

fn up() -> BoxedStrategy<Up> {
    bx(prop_oneof![
        1 => doc().prop_map(Up::Doc),
        2 => task().prop_map(Up::Task),
        1 => (word(), any::<u32>()).prop_map(|(i, p)| Up::Route(i, p)),
    ])
}

fn op() -> BoxedStrategy<Op> {
    let ups = || prop::collection::vec(up(), 0..4);
    let names = || prop_oneof![Just("/a/b.typ"), Just("/a/é.typ"), Just("/x"), Just("/a/b.png")].prop_map(str::to_owned);
    bx(prop_oneof![
        6 => ups().prop_map(Op::Update),
        3 => (ups(), prop::option::of((word(), prop::collection::vec(names(), 0..4)))).prop_map(|(u, m)| Op::Commit(u, m)),
        1 => ups().prop_map(Op::Fail),
        1 => prop_oneof![Just("main.typ"), Just("a/é.typ"), Just("a:b.typ"), Just("x y.typ")].prop_map(|s| Op::Compiled(s.into())),
        1 => prop_oneof![Just("version = "), Just(" \n"), Just(""), Just("x"), Just("[[route]]\n"), Just("version = 1"), Just("\u{feff}x"), Just("version = \"0.1.0-beta0\"\n[[task]]\nid = 1\n")].prop_map(|s| Op::Garbage(s.into())),
        1 => (0u8..6).prop_map(Op::Future),
        1 => Just(Op::Read),
    ])
}

fn world(entry: EntryState) -> LspWorld {
    let packages = LspUniverseBuilder::resolve_package(None, None);
    let fonts = LspUniverseBuilder::only_embedded_fonts().unwrap();
    LspUniverseBuilder::build(entry, Default::default(), Default::default(), Default::default(), packages, fonts.into()).snapshot()
}

fn main() {
    let home = Scratch::reused();
    std::env::set_var("XDG_CACHE_HOME", home.path());
    std::env::set_var("HOME", home.path());
    Check::main("C34", "a history when it ends with at least three entries or wrote a task with transforms; a race when at least two update", |c| {
        c.assume("the toml crate is 0.9, the repository asks for 0.8, which is not available here");
        c.prop("text", Opts::new(50_000).thorough(20).shards(6), || bx(prop::collection::vec(up(), 0..6)), text);
        c.prop("histories", Opts::new(15_000).thorough(20).shards(8), || bx(prop::collection::vec(op(), 1..8)), histories);
        c.prop("races", Opts::new(1_200).thorough(20).shards(2), || bx(prop::collection::vec(prop::collection::vec(up(), 0..5), 2..5)), races);
    })
}
