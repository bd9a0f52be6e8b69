//! What is compiled, against what the buffers and the disk hold, through
//! histories of edits, changes of files, and events that come late.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::Duration;
use tinymist::actor::editor::EditorRequest;
use tinymist::project::analysis::Analysis;
use tinymist::project::{CompileHandlerImpl, ProjectState};
use tinymist::task::export::ON_EXPORT;
use tinymist::task::{ExportTask, ExportUserConfig};
use tinymist::tool::word_count::WordsCount;
use tinymist_project::*;
use tinymist_std::typst::TypstDocument;
use tinymist_std::ImmutPath;
use tinymist_task::ExportTarget;
use tinymist_vfs::notify::{FilesystemEvent, MemoryEvent};
use tinymist_vfs::{FileChangeSet, FileSnapshot};
use tinymist_world::args::{CompileFontArgs, CompilePackageArgs};
use tinymist_world::{EntryReader, EntryState, ShadowApi, TaskInputs, WorldComputeGraph, WorldDeps};
use tokio::sync::mpsc;
use typst::foundations::{Bytes, Dict, Str, Value};
use typst::syntax::VirtualPath;
use typst::utils::LazyHash;
use vcommon::scratch::Scratch;
use vcommon::{ensure, known, Fail, Verdict};

pub const FILES: [&str; 5] = ["main.typ", "a.typ", "sub/b.typ", "sub/data.txt", "z.typ"];
/// The files that can be compiled.
pub const MAINS: [usize; 3] = [0, 1, 2];

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Line {
    Text(u8),
    Include(u8),
    Read(u8),
    Input,
    Target,
    Title(u8),
    Break,
    Warn(u8),
    Error(u8),
}
pub type Doc = Vec<Line>;

pub fn text(d: &Doc) -> String {
    let mut s = String::new();
    for l in d {
        let at = |f: &u8| format!("\"/{}\"", FILES[*f as usize % FILES.len()]);
        s += &match l {
            Line::Text(n) => format!("text {n}"),
            Line::Include(f) => format!("#include {}", at(f)),
            Line::Read(f) => format!("#read {}", at(f)),
            Line::Input => "#input k".into(),
            Line::Target => "#target".into(),
            Line::Title(n) => format!("#title {n}"),
            Line::Break => "#pagebreak".into(),
            Line::Warn(n) => format!("#warn {n}"),
            Line::Error(n) => format!("#error {n}"),
        };
        s.push('\n');
    }
    s
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Op {
    /// The editor opens, changes or closes files.
    Buffers(Vec<(u8, Option<Doc>)>),
    /// The editor tells all it has open.
    Sync(Vec<(u8, Doc)>),
    /// A file is written in place; or emptied before.
    Write(u8, Doc, bool),
    Empty(u8),
    Remove(u8),
    /// Another file takes its place.
    Replace(u8, Doc),
    /// It is given another name.
    Away(u8),
    /// The watcher's next event reaches the compiler, or all of them do.
    Fs(bool),
    /// A compilation's end reaches the compiler.
    Done(u8),
    /// The watcher gets some time; or that in which it waits for writers.
    Idle,
    Sleep,
    Entry(Option<u8>),
    Input(u8),
    Compile(u8),
    Dedicate(u8, u8),
    Settle(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Case {
    pub disk: Vec<Option<Doc>>,
    pub html: bool,
    pub lint: u8,
    pub export: u8,
    /// Messages are not handled one by one.
    pub lazy: bool,
    pub ops: Vec<Op>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Shown {
    pub doc: Option<Vec<Vec<String>>>,
    pub title: Option<String>,
    pub diags: BTreeSet<String>,
}
pub fn shown(a: &LspCompiledArtifact) -> Shown {
    let lines = |v: &[ecow::EcoString]| v.iter().map(|l| l.to_string()).collect::<Vec<_>>();
    let (doc, title) = match &a.doc {
        Some(TypstDocument::Paged(d)) => (Some(d.pages.iter().map(|p| lines(&p.lines)).collect()), d.info.title.clone()),
        Some(TypstDocument::Html(d)) => (Some(vec![lines(&d.root.lines)]), d.info.title.clone()),
        None => (None, None),
    };
    Shown {
        doc,
        title: title.map(|t| t.to_string()),
        diags: a.diagnostics().map(|d| d.message.to_string()).collect(),
    }
}

pub type Exports = Arc<parking_lot::Mutex<Vec<(ProjectInsId, usize, Shown)>>>;

pub struct Sut<'a> {
    pub case: &'a Case,
    pub rt: tokio::runtime::Runtime,
    pub ctl: notify::Control,
    pub fs: Arc<parking_lot::Mutex<VecDeque<FilesystemEvent>>>,
    pub client: mpsc::UnboundedReceiver<LspInterrupt>,
    pub editor: mpsc::UnboundedReceiver<EditorRequest>,
    pub state: ProjectState,
    pub dir: Scratch,
    pub buffers: BTreeMap<usize, String>,
    /// Compilations that have ended, which the compiler was not told.
    pub ended: VecDeque<LspCompiledArtifact>,
    /// How many instances of a project there were that may still end one.
    pub ghosts: usize,
    /// Files whose changes nobody could see.
    pub missed: BTreeSet<usize>,
    pub diags: HashMap<ProjectInsId, Option<BTreeSet<String>>>,
    /// What was notified: the reasons and what there was to see.
    pub notified: Vec<(ProjectInsId, ExportSignal, Shown)>,
    pub exports: Exports,
    pub counts: HashMap<ProjectInsId, WordsCount>,
    pub input: u8,
    /// Dedicated projects that are left with a late end of an earlier one.
    pub haunted: BTreeSet<ProjectInsId>,
    pub name: String,
    pub compiled: usize,
    pub deferred: usize,
}

pub fn inputs(n: u8) -> Arc<LazyHash<Dict>> {
    Arc::new(LazyHash::new(
        [(Str::from("k"), Value::Str(Str::from(n.to_string().as_str())))].into_iter().collect(),
    ))
}
pub fn target(html: bool) -> ExportTarget {
    if html {
        ExportTarget::Html
    } else {
        ExportTarget::Paged
    }
}
pub fn when(n: u8) -> TaskWhen {
    [TaskWhen::Never, TaskWhen::OnType, TaskWhen::OnSave, TaskWhen::OnDocumentHasTitle][n as usize % 4]
}
pub fn universe(entry: EntryState, html: bool, input: u8) -> LspUniverse {
    let features = if html {
        typst::Features::from_iter([typst::Feature::Html])
    } else {
        Default::default()
    };
    let fonts = LspUniverseBuilder::resolve_fonts(CompileFontArgs::default()).unwrap();
    let packages = LspUniverseBuilder::resolve_package(None, Some(&CompilePackageArgs::default()));
    LspUniverseBuilder::build(entry, target(html), features, inputs(input), packages, Arc::new(fonts))
}
pub fn ded(n: u8) -> ProjectInsId {
    ProjectInsId(format!("p{}", n % 2).as_str().into())
}

impl<'a> Sut<'a> {
    pub fn new(case: &'a Case) -> Self {
        let dir = Scratch::reused();
        std::fs::create_dir(dir.path().join("sub")).unwrap();
        for (f, d) in FILES.iter().zip(&case.disk) {
            if let Some(d) = d {
                std::fs::write(dir.path().join(f), text(d)).unwrap();
            }
        }
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
        let handle = rt.handle().clone();
        let _in = handle.enter();
        let fs: Arc<parking_lot::Mutex<VecDeque<FilesystemEvent>>> = Arc::default();
        let (dep_tx, dep_rx) = mpsc::unbounded_channel();
        let to = fs.clone();
        rt.block_on(watch_deps(dep_rx, move |e| to.lock().push_back(e)));
        let ctl = notify::Control::last().unwrap();
        let (client_tx, client) = mpsc::unbounded_channel::<LspInterrupt>();
        let (editor_tx, editor) = mpsc::unbounded_channel();
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let name = format!("{}#{}", dir.path().display(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
        let exports: Exports = Arc::default();
        let to = exports.clone();
        ON_EXPORT.lock().insert(
            name.clone(),
            Arc::new(move |a: &LspCompiledArtifact| to.lock().push((a.id().clone(), a.world().revision().get(), shown(a)))),
        );
        let config = ExportUserConfig {
            task: ProjectTask::ExportPdf(ExportPdfTask {
                export: tinymist_project::ExportTask {
                    when: when(case.export),
                    output: Some(PathPattern::new(&name)),
                    transform: vec![],
                },
                pdf_standards: vec![],
                creation_timestamp: None,
            }),
            count_words: true,
            ..Default::default()
        };
        let export = ExportTask::new(rt.handle().clone(), Some(editor_tx.clone()), config);
        let handler = Arc::new(CompileHandlerImpl {
            analysis: Arc::new(Analysis {
                position_encoding: Default::default(),
                lint: when(case.lint),
            }),
            preview: Default::default(),
            is_standalone: false,
            export: export.clone(),
            editor_tx,
            client: Box::new(client_tx),
            status_revision: Default::default(),
            notified_revision: Default::default(),
            diag_revision: Default::default(),
        });
        let entry = EntryState::new_rooted(dir.path().into(), Some(VirtualPath::new(FILES[0])));
        let compiler = ProjectCompiler::new(
            universe(entry, case.html, 0),
            dep_tx,
            CompileServerOpts {
                handler: handler.clone(),
                enable_watch: true,
                export_target: target(case.html),
            },
        );
        let state = ProjectState {
            compiler,
            preview: handler.preview.clone(),
            analysis: handler.analysis.clone(),
            export,
        };
        Self {
            case,
            rt,
            ctl,
            fs,
            client,
            editor,
            state,
            dir,
            buffers: BTreeMap::new(),
            ended: VecDeque::new(),
            ghosts: 0,
            missed: BTreeSet::new(),
            diags: HashMap::new(),
            notified: vec![],
            exports,
            counts: HashMap::new(),
            input: 0,
            haunted: BTreeSet::new(),
            name,
            compiled: 0,
            deferred: 0,
        }
    }

    pub fn path(&self, f: usize) -> PathBuf {
        self.dir.path().join(FILES[f])
    }
    pub fn entry(&self, f: Option<u8>) -> EntryState {
        let vpath = f.map(|f| VirtualPath::new(FILES[MAINS[f as usize % MAINS.len()]]));
        EntryState::new_rooted(self.dir.path().into(), vpath)
    }

    /// Lets the tasks run that can.
    pub fn pump(&mut self) {
        self.rt.block_on(async {
            for _ in 0..24 {
                tokio::task::yield_now().await;
            }
        });
    }

    /// Tells the compiler something, and waits for the compilations it starts.
    pub fn tell(&mut self, i: LspInterrupt) -> Result<(), Fail> {
        if std::env::var_os("C51_TRACE").is_some() {
            eprintln!(
                "{i:?} {:?}",
                match &i {
                    LspInterrupt::Fs(e) => format!("{e:?}"),
                    LspInterrupt::Compiled(a) => format!("{:?} {:?}", a.world().revision(), shown(a)),
                    _ => String::new(),
                }
            );
        }
        self.state.interrupt(i);
        self.wait()
    }
    pub fn wait(&mut self) -> Result<(), Fail> {
        loop {
            while let Ok(i) = self.client.try_recv() {
                self.end(i);
            }
            let running = self
                .state
                .compiler
                .projects()
                .filter(|p| p.ext.is_compiling)
                .map(|p| p.id.clone())
                .collect::<Vec<_>>();
            let waits = running.iter().find(|id| !self.ended.iter().any(|a| a.id() == *id)).cloned();
            let Some(id) = waits else { break };
            let client = &mut self.client;
            let got = self
                .rt
                .block_on(async { tokio::time::timeout(Duration::from_secs(8), client.recv()).await });
            match got {
                Ok(Some(i)) => self.end(i),
                _ if self.haunted.contains(&id) => {
                    return Err(known(
                        "late-end",
                        format!("the project {id} that took the place of one still compiling is never told that its compilation ended"),
                    ))
                }
                _ => return Err(Fail::from(format!("the project {id} is compiling, but is never told that it ended"))),
            }
        }
        while let Ok(r) = self.editor.try_recv() {
            match r {
                EditorRequest::Diag(v, d) => drop(self.diags.insert(v.id, d.map(|d| d.into_values().flatten().map(|d| d.message).collect()))),
                EditorRequest::WordCount(id, n) => drop(self.counts.insert(id, n)),
                _ => {}
            }
        }
        Ok(())
    }
    pub fn end(&mut self, i: LspInterrupt) {
        if let LspInterrupt::Compiled(a) = i {
            self.notified.push((a.id().clone(), a.snap.signal, shown(&a)));
            self.compiled += 1;
            self.ended.push_back(a);
        }
    }

    pub fn deliver_fs(&mut self) -> Result<bool, Fail> {
        let e = self.fs.lock().pop_front();
        match e {
            Some(e) => self.tell(LspInterrupt::Fs(e)).map(|_| true),
            None => Ok(false),
        }
    }
    pub fn deliver_end(&mut self, n: usize) -> Result<bool, Fail> {
        if self.ended.is_empty() {
            return Ok(false);
        }
        let n = n % self.ended.len();
        let a = self.ended.remove(n).unwrap();
        self.tell(LspInterrupt::Compiled(a)).map(|_| true)
    }

    pub fn deps(&mut self) -> BTreeSet<PathBuf> {
        let mut all = BTreeSet::new();
        for p in self.state.compiler.projects() {
            if let Some(a) = &p.ext.last_compilation {
                let w = a.world();
                w.iter_dependencies(&mut |id| {
                    if let Ok(p) = w.path_for_id(id) {
                        all.insert(p.as_path().to_owned());
                    }
                });
            }
        }
        all
    }

    pub fn disk(&mut self, f: u8, kind: notify::EventKind, change: impl FnOnce(&Path) -> bool) {
        let f = f as usize % FILES.len();
        let p = self.path(f);
        if !change(&p) {
            return;
        }
        if !self.ctl.happen(kind, &[&p]) {
            self.missed.insert(f);
        }
    }

    pub fn step(&mut self, op: &Op) -> Result<(), Fail> {
        if std::env::var_os("C51_TRACE").is_some() {
            eprintln!("- {op:?}");
        }
        use notify::event::{ModifyKind, RemoveKind, RenameMode};
        use notify::EventKind as K;
        let file = |f: &u8| *f as usize % FILES.len();
        let snap = |s: &str| -> FileSnapshot { Ok(Bytes::from_string(s.to_owned())).into() };
        match op {
            Op::Buffers(v) => {
                let mut set = FileChangeSet::default();
                let mut done = BTreeSet::new();
                for (f, d) in v {
                    if !done.insert(file(f)) {
                        continue;
                    }
                    let p: ImmutPath = self.path(file(f)).as_path().into();
                    match d {
                        Some(d) => {
                            set.inserts.push((p, snap(&text(d))));
                            self.buffers.insert(file(f), text(d));
                        }
                        None => {
                            // Closes only what is open.
                            if self.buffers.remove(&file(f)).is_some() {
                                set.removes.push(p);
                            }
                        }
                    }
                }
                if !set.is_empty() {
                    self.tell(LspInterrupt::Memory(MemoryEvent::Update(set)))?;
                }
            }
            Op::Sync(v) => {
                self.buffers = v.iter().map(|(f, d)| (file(f), text(d))).collect();
                let set = self.buffers.iter().map(|(f, d)| (self.path(*f).as_path().into(), snap(d))).collect();
                self.tell(LspInterrupt::Memory(MemoryEvent::Sync(FileChangeSet::new_inserts(set))))?;
            }
            Op::Write(f, d, emptied) => {
                if *emptied {
                    self.disk(*f, K::Modify(ModifyKind::Data), |p| std::fs::write(p, "").is_ok());
                    self.idle();
                }
                self.disk(*f, K::Modify(ModifyKind::Data), |p| std::fs::write(p, text(d)).is_ok());
            }
            Op::Empty(f) => self.disk(*f, K::Modify(ModifyKind::Data), |p| std::fs::write(p, "").is_ok()),
            Op::Remove(f) => self.disk(*f, K::Remove(RemoveKind::File), |p| std::fs::remove_file(p).is_ok()),
            Op::Replace(f, d) => {
                let new = self.dir.path().join("new");
                self.disk(*f, K::Remove(RemoveKind::File), |p| {
                    std::fs::write(&new, text(d)).unwrap();
                    std::fs::rename(&new, p).is_ok()
                })
            }
            Op::Away(f) => {
                let away = self.dir.path().join("away");
                self.disk(*f, K::Modify(ModifyKind::Name(RenameMode::From)), |p| std::fs::rename(p, &away).is_ok())
            }
            Op::Fs(all) => while self.deliver_fs()? && *all {},
            Op::Done(n) => drop(self.deliver_end(*n as usize)?),
            Op::Idle => self.pump(),
            Op::Sleep => self.sleep(),
            Op::Entry(f) => {
                let entry = Some(self.entry(*f));
                self.tell(LspInterrupt::ChangeTask(ProjectInsId::PRIMARY, TaskInputs { entry, inputs: None }))?
            }
            Op::Input(n) => {
                self.input = *n;
                let change = TaskInputs {
                    entry: None,
                    inputs: Some(inputs(*n)),
                };
                self.tell(LspInterrupt::ChangeTask(ProjectInsId::PRIMARY, change))?
            }
            Op::Compile(n) => {
                let id = if *n % 3 == 0 { ProjectInsId::PRIMARY } else { ded(*n) };
                self.tell(LspInterrupt::Compile(id))?
            }
            Op::Dedicate(n, f) => {
                self.haunt(&ded(*n));
                let entry = self.entry(Some(*f));
                self.state.restart_dedicate(&ded(*n).0, entry).map_err(|e| Fail::from(e.to_string()))?;
                // As the server does next.
                self.tell(LspInterrupt::Compile(ded(*n)))?
            }
            Op::Settle(n) => {
                self.haunt(&ded(*n));
                self.tell(LspInterrupt::Settle(ded(*n)))?
            }
        }
        self.idle();
        Ok(())
    }
    pub fn idle(&mut self) {
        if !self.case.lazy {
            self.pump();
        }
    }
    pub fn sleep(&mut self) {
        self.rt.block_on(tokio::time::sleep(Duration::from_millis(60)));
        self.pump();
    }
    pub fn haunt(&mut self, id: &ProjectInsId) {
        if self.ended.iter().any(|a| a.id() == id) {
            self.haunted.insert(id.clone());
        }
    }

    /// Until nothing is left to happen.
    pub fn settle(&mut self) -> Result<(), Fail> {
        for round in 0.. {
            ensure!(round < 400, "compilations never come to an end");
            self.pump();
            let (a, b) = (self.deliver_fs()?, self.deliver_end(0)?);
            if a || b {
                continue;
            }
            self.sleep();
            if self.fs.lock().is_empty() {
                self.wait()?;
                // What the analysis and the exports still have to tell.
                self.sleep();
                self.wait()?;
                if self.fs.lock().is_empty() && self.ended.is_empty() {
                    break;
                }
            }
            self.deferred += 1;
        }
        Ok(())
    }

    /// Gives threads that are late some more time.
    pub fn until<T>(&mut self, mut f: impl FnMut(&mut Self) -> Result<T, Fail>) -> Result<T, Fail> {
        // Once that did not help, it is not waited for as long.
        static FAILED: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        let n = if FAILED.load(std::sync::atomic::Ordering::Relaxed) > 6 { 2 } else { 20 };
        for _ in 0..n {
            let r = f(self);
            if r.is_ok() {
                return r;
            }
            self.sleep();
            self.settle()?;
        }
        let r = f(self);
        FAILED.fetch_add(u32::from(r.is_err()), std::sync::atomic::Ordering::Relaxed);
        r
    }

    /// What there is to see of an entry.
    pub fn want(&self, entry: EntryState, input: u8) -> Shown {
        let mut v = universe(entry, self.case.html, input);
        for (f, d) in &self.buffers {
            v.map_shadow(&self.path(*f), Bytes::from_string(d.clone())).unwrap();
        }
        shown(&CompiledArtifact::from_graph(WorldComputeGraph::from_world(v.snapshot()), self.case.html))
    }

    pub fn check(&mut self, at: &str) -> Result<(), Fail> {
        self.until(|s| s.check_now(at))
    }
    fn check_now(&mut self, at: &str) -> Result<(), Fail> {
        let all: Vec<_> = self
            .state
            .compiler
            .projects()
            .map(|p| {
                (
                    p.id.clone(),
                    p.verse.entry_state(),
                    p.verse.inputs(),
                    p.ext.last_compilation.clone(),
                    p.ext.is_compiling,
                )
            })
            .collect();
        let fail = |id: &ProjectInsId, m: String| {
            if self.haunted.contains(id) {
                known("late-end", m)
            } else {
                Fail::from(m)
            }
        };
        for (id, entry, ins, last, compiling) in &all {
            if *compiling {
                return Err(fail(id, format!("{at}: {id} is still compiling")));
            }
            if entry.is_inactive() {
                continue;
            }
            let Some(Value::Str(n)) = ins.get("k") else {
                panic!("harness: the inputs")
            };
            let want = self.want(entry.clone(), n.parse().unwrap());
            let Some(last) = last else {
                return Err(fail(id, format!("{at}: {id} was never compiled")));
            };
            if shown(last) != want {
                return Err(fail(id, format!("{at}: {id} shows {:?}, but the files hold {want:?}", shown(last))));
            }
            let diags = self.diags.get(id).cloned().flatten().unwrap_or_default();
            if diags != want.diags {
                return Err(fail(
                    id,
                    format!("{at}: the diagnostics of {id} are {diags:?}, expected {:?}", want.diags),
                ));
            }
        }
        for (id, d) in &self.diags {
            let live = all.iter().any(|p| p.0 == *id && !p.1.is_inactive());
            if !live && d.as_ref().is_some_and(|d| !d.is_empty()) {
                return Err(known(
                    "late-diagnostics",
                    format!("{at}: there are diagnostics of {id}, which is not compiled anymore: {d:?}"),
                ));
            }
        }
        Ok(())
    }

    pub fn watched(&mut self, at: &str) -> Result<(), Fail> {
        self.until(|s| s.watched_now(at))
    }
    fn watched_now(&mut self, at: &str) -> Result<(), Fail> {
        let inactive = self.state.compiler.primary.verse.entry_state().is_inactive();
        for p in self.deps() {
            let missed = self.missed.iter().any(|f| self.path(*f) == p);
            if p.is_file() && !missed && !inactive && self.haunted.is_empty() {
                ensure!(
                    self.ctl.watches(&p),
                    "{at}: {} is not watched, though compilations depend on it; watched: {:?}",
                    p.display(),
                    self.ctl.watched()
                );
            }
        }
        Ok(())
    }
}
impl Drop for Sut<'_> {
    fn drop(&mut self) {
        ON_EXPORT.lock().remove(&self.name);
    }
}

pub fn pipeline(case: &Case) -> Verdict {
    let mut s = Sut::new(case);
    let handle = s.rt.handle().clone();
    let _in = handle.enter();
    s.tell(LspInterrupt::Compile(ProjectInsId::PRIMARY))?;
    s.settle()?;
    s.check("at first")?;
    s.watched("at first")?;
    for op in &case.ops {
        s.step(op)?;
    }
    s.settle()?;
    // What is watched was read since then.
    let (ctl, dir, deps) = (s.ctl.clone(), s.dir.path().to_owned(), s.deps());
    s.missed
        .retain(|f| !ctl.watches(&dir.join(FILES[*f])) && deps.contains(&dir.join(FILES[*f])));
    if s.missed.is_empty() {
        s.check("at the end")?;
    }
    s.watched("at the end")?;
    let ids: Vec<_> = s.state.compiler.projects().map(|p| p.id.clone()).collect();
    for id in ids {
        s.tell(LspInterrupt::Compile(id))?;
    }
    s.settle()?;
    s.missed.clear();
    s.check("after all was compiled again")?;
    s.watched("after all was compiled again")?;
    Ok(s.compiled > 3 && case.ops.len() > 2)
}

pub fn doc() -> BoxedStrategy<Doc> {
    let f = 0..FILES.len() as u8;
    let line = prop_oneof![
        4 => (0..4u8).prop_map(Line::Text),
        4 => f.clone().prop_map(Line::Include),
        2 => f.prop_map(Line::Read),
        1 => Just(Line::Input),
        1 => Just(Line::Target),
        1 => (0..3u8).prop_map(Line::Title),
        1 => Just(Line::Break),
        1 => (0..3u8).prop_map(Line::Warn),
        1 => (0..3u8).prop_map(Line::Error),
    ];
    prop_oneof![1 => Just(vec![]), 12 => proptest::collection::vec(line, 1..4)].boxed()
}
pub fn cases(n: usize) -> BoxedStrategy<Case> {
    let f = 0..FILES.len() as u8;
    let buf = (f.clone(), proptest::option::weighted(0.6, doc()));
    let op = prop_oneof![
        8 => proptest::collection::vec(buf, 1..3).prop_map(Op::Buffers),
        1 => proptest::collection::vec((f.clone(), doc()), 0..3).prop_map(Op::Sync),
        5 => (f.clone(), doc(), any::<bool>()).prop_map(|(f, d, e)| Op::Write(f, d, e)),
        2 => f.clone().prop_map(Op::Empty),
        2 => f.clone().prop_map(Op::Remove),
        2 => (f.clone(), doc()).prop_map(|(f, d)| Op::Replace(f, d)),
        1 => f.clone().prop_map(Op::Away),
        6 => any::<bool>().prop_map(Op::Fs),
        8 => (0..3u8).prop_map(Op::Done),
        3 => Just(Op::Idle),
        1 => Just(Op::Sleep),
        2 => proptest::option::weighted(0.8, 0..3u8).prop_map(Op::Entry),
        1 => (0..3u8).prop_map(Op::Input),
        1 => (0..3u8).prop_map(Op::Compile),
        2 => (0..2u8, 0..3u8).prop_map(|(a, b)| Op::Dedicate(a, b)),
        1 => (0..2u8).prop_map(Op::Settle),
    ];
    (
        proptest::collection::vec(proptest::option::weighted(0.9, doc()), FILES.len()),
        any::<bool>(),
        0..4u8,
        0..4u8,
        any::<bool>(),
        proptest::collection::vec(op, 0..n),
    )
        .prop_map(|(disk, html, lint, export, lazy, ops)| Case {
            disk,
            html,
            lint,
            export,
            lazy,
            ops,
        })
        .boxed()
}
