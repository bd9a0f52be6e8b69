//! When what is exported.
use crate::pipeline::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tinymist::actor::editor::EditorRequest;
use tinymist::task::export::ON_EXPORT;
use tinymist::task::{ExportTask, ExportUserConfig};
use tinymist::tool::word_count::WordsCount;
use tinymist_project::*;
use tinymist_vfs::notify::MemoryEvent;
use tinymist_vfs::{FileChangeSet, FileSnapshot};
use tinymist_world::{CompileSnapshot, EntryReader, EntryState, ShadowApi, WorldComputeGraph};
use tokio::sync::mpsc;
use typst::foundations::Bytes;
use typst::syntax::VirtualPath;
use vcommon::scratch::Scratch;
use vcommon::{ensure, ensure_eq, Fail, Verdict};

/// Whether an export configured so is due.
pub fn due(when: &TaskWhen, s: ExportSignal, d: &Shown) -> bool {
    d.doc.is_some()
        && match when {
            TaskWhen::Never => false,
            TaskWhen::OnType => s.by_entry_update || s.by_mem_events,
            TaskWhen::OnSave => s.by_entry_update || s.by_fs_events,
            TaskWhen::OnDocumentHasTitle => s.by_entry_update || (s.by_fs_events && d.title.is_some()),
        }
}
pub fn chars(d: &Shown) -> Option<usize> {
    d.doc.as_ref().map(|p| p.iter().flatten().map(|l| l.chars().count()).sum())
}

fn task(when: TaskWhen, name: &str) -> ProjectTask {
    ProjectTask::ExportPdf(ExportPdfTask {
        export: tinymist_project::ExportTask {
            when,
            output: Some(PathPattern::new(name)),
            transform: vec![],
        },
        pdf_standards: vec![],
        creation_timestamp: None,
    })
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Ev {
    /// A compilation of a project ended.
    End {
        id: u8,
        doc: Doc,
        by: u8,
    },
    /// The same one is told once more.
    Again(u8),
    When(u8),
    /// Some time passes.
    Run(u8),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Ends {
    pub when: u8,
    pub evs: Vec<Ev>,
}

pub fn ends(c: &Ends) -> Verdict {
    let dir = Scratch::reused();
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let name = format!("{}!{}", dir.path().display(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    let got: Exports = Arc::default();
    let to = got.clone();
    ON_EXPORT.lock().insert(
        name.clone(),
        Arc::new(move |a: &LspCompiledArtifact| to.lock().push((a.id().clone(), a.world().revision().get(), shown(a)))),
    );
    struct Gone(String);
    impl Drop for Gone {
        fn drop(&mut self) {
            ON_EXPORT.lock().remove(&self.0);
        }
    }
    let _gone = Gone(name.clone());
    let config = |w: u8| ExportUserConfig {
        task: task(when(w), &name),
        count_words: true,
        ..Default::default()
    };
    let (tx, mut rx) = mpsc::unbounded_channel();
    let exp = ExportTask::new(rt.handle().clone(), Some(tx), config(c.when));
    let mut now = when(c.when);
    let mut verses: BTreeMap<u8, LspUniverse> = BTreeMap::new();
    let mut told: HashMap<ProjectInsId, LspCompiledArtifact> = HashMap::new();
    // What is due to be exported and counted, in order.
    let mut want: HashMap<ProjectInsId, Vec<(usize, Shown)>> = HashMap::new();
    let mut counts: HashMap<ProjectInsId, (usize, Option<usize>)> = HashMap::new();
    let run = |n: u8| {
        rt.block_on(async {
            for _ in 0..8 {
                tokio::task::yield_now().await;
            }
            if n > 1 {
                tokio::time::sleep(Duration::from_micros(700 * n as u64)).await;
            }
        })
    };
    let mut n = 0;
    for ev in &c.evs {
        match ev {
            Ev::End { id, doc, by } => {
                let entry = EntryState::new_rooted(dir.path().into(), Some(VirtualPath::new(FILES[0])));
                let v = verses.entry(*id % 3).or_insert_with(|| universe(entry, false, 0));
                v.map_shadow(&dir.path().join(FILES[0]), Bytes::from_string(text(doc))).unwrap();
                let by = *by % 8;
                let signal = ExportSignal {
                    by_mem_events: by & 1 > 0,
                    by_fs_events: by & 2 > 0,
                    by_entry_update: by & 4 > 0,
                };
                let id = ProjectInsId(format!("p{}", *id % 3).as_str().into());
                let snap = CompileSnapshot {
                    id: id.clone(),
                    signal,
                    world: v.snapshot(),
                    success_doc: None,
                };
                let a = CompiledArtifact::from_graph(WorldComputeGraph::new(snap), false);
                exp.signal(&a);
                let rev = a.world().revision().get();
                if due(&now, signal, &shown(&a)) {
                    want.entry(id.clone()).or_default().push((rev, shown(&a)));
                    n += 1;
                }
                counts.insert(id.clone(), (rev, chars(&shown(&a))));
                told.insert(id, a);
            }
            Ev::Again(id) => {
                let id = ProjectInsId(format!("p{}", *id % 3).as_str().into());
                if let Some(a) = told.get(&id) {
                    exp.signal(a);
                    if due(&now, a.snap.signal, &shown(a)) {
                        want.entry(id.clone()).or_default().push((a.world().revision().get(), shown(a)));
                    }
                }
            }
            Ev::When(w) => {
                exp.change_config(config(*w));
                now = when(*w);
            }
            Ev::Run(n) => run(*n % 6),
        }
    }
    let mut last: HashMap<ProjectInsId, WordsCount> = HashMap::new();
    let mut judge = || -> Result<(), Fail> {
        while let Ok(r) = rx.try_recv() {
            if let EditorRequest::WordCount(id, n) = r {
                last.insert(id, n);
            }
        }
        let got = got.lock().clone();
        for (id, rev, d) in &got {
            ensure!(want.get(id).is_some_and(|w| w.contains(&(*rev, d.clone()))), "the export of {id} at {rev} was not due");
        }
        for (id, want) in &want {
            let of = got.iter().filter(|g| g.0 == *id).map(|g| (g.1, g.2.clone())).collect::<Vec<_>>();
            let revs = of.iter().map(|o| o.0).collect::<Vec<_>>();
            ensure!(revs.is_sorted(), "the exports of {id} are out of order: {revs:?}");
            let due = want.iter().map(|w| w.0).collect::<Vec<_>>();
            ensure_eq!(of.last(), want.last(), "the last export of {id}; its exports: {revs:?}, those due: {due:?}");
        }
        for (id, (_, n)) in &counts {
            if let Some(n) = n {
                ensure_eq!(last.get(id).map(|w| w.chars), Some(*n), "the words counted last of {id}");
            }
        }
        Ok(())
    };
    // Until all is done that must be; then whether there is more.
    static FAILED: AtomicBool = AtomicBool::new(false);
    let rounds = if FAILED.load(Ordering::Relaxed) { 60 } else { 1500 };
    for _ in 0..rounds {
        if judge().is_ok() {
            break;
        }
        run(5);
    }
    run(5);
    let verdict = judge();
    FAILED.fetch_or(verdict.is_err(), Ordering::Relaxed);
    verdict?;
    Ok(n > 2)
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
pub enum Probe {
    /// The main file is edited, saved, or it is compiled anyway.
    Edit,
    Save,
    Compile,
    Other,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Probed {
    pub case: Case,
    pub probes: Vec<Probe>,
}

fn invariants(s: &Sut) -> Result<(), Fail> {
    let when = when(s.case.export);
    let mut want: HashMap<&ProjectInsId, &Shown> = HashMap::new();
    for (id, signal, d) in &s.notified {
        if due(&when, *signal, d) {
            want.insert(id, d);
        }
    }
    let exports = s.exports.lock();
    for (id, _, d) in exports.iter() {
        ensure!(
            s.notified.iter().any(|n| n.0 == *id && n.2 == *d && due(&when, n.1, d)),
            "an export of {id} that was not due: {d:?}"
        );
    }
    for (id, want) in want {
        let last = exports.iter().rev().find(|e| e.0 == *id).map(|e| &e.2);
        ensure_eq!(last, Some(want), "the last export of {id}");
    }
    Ok(())
}

pub fn probed(c: &Probed) -> Verdict {
    let mut s = Sut::new(&c.case);
    let handle = s.rt.handle().clone();
    let _in = handle.enter();
    s.tell(LspInterrupt::Compile(ProjectInsId::PRIMARY))?;
    s.settle()?;
    for op in &c.case.ops {
        s.step(op)?;
    }
    s.settle()?;
    s.until(|s| invariants(s))?;
    let id = ProjectInsId::PRIMARY;
    s.tell(LspInterrupt::Compile(id.clone()))?;
    s.settle()?;
    let Some(main) = s.state.compiler.primary.verse.main_id() else {
        return Ok(false);
    };
    let main = FILES.iter().position(|f| main.vpath() == &VirtualPath::new(f)).unwrap();
    let w = when(c.case.export);
    for (i, p) in c.probes.iter().enumerate() {
        let (notified, exported) = (s.notified.len(), s.exports.lock().len());
        let more = format!("text 9{i}\n");
        let old = s.buffers.get(&main).cloned();
        let quiet = s.missed.is_empty();
        match p {
            Probe::Edit => {
                let new = old.unwrap_or_default() + &more;
                let set = FileChangeSet::new_inserts(vec![(
                    s.path(main).as_path().into(),
                    FileSnapshot::from(Ok(Bytes::from_string(new.clone()))),
                )]);
                s.buffers.insert(main, new);
                s.tell(LspInterrupt::Memory(MemoryEvent::Update(set)))?;
            }
            Probe::Save => {
                if !s.ctl.watches(&s.path(main)) {
                    continue;
                }
                let new = old.unwrap_or_default() + &more;
                let kind = notify::EventKind::Modify(notify::event::ModifyKind::Data);
                s.disk(main as u8, kind, |p| std::fs::write(p, new).is_ok());
            }
            Probe::Compile => s.tell(LspInterrupt::Compile(id.clone()))?,
            Probe::Other => {
                // Nobody depends on it.
                let other = s.dir.path().join("other.typ");
                let set = FileChangeSet::new_inserts(vec![(other.as_path().into(), FileSnapshot::from(Ok(Bytes::from_string(more))))]);
                s.tell(LspInterrupt::Memory(MemoryEvent::Update(set)))?;
            }
        }
        s.settle()?;
        s.until(|s| invariants(s))?;
        s.until(|s| judge(s, *p, i, quiet, notified, exported))?;
    }
    Ok(!c.probes.is_empty() && c.case.ops.len() > 2 && !matches!(w, TaskWhen::Never))
}

fn judge(s: &mut Sut, p: Probe, i: usize, quiet: bool, notified: usize, exported: usize) -> Result<(), Fail> {
    let id = ProjectInsId::PRIMARY;
    let w = when(s.case.export);
    {
        let entry = s.state.compiler.primary.verse.entry_state();
        let want = s.want(entry, s.input);
        let new = s.notified[notified..].iter().filter(|n| n.0 == id).cloned().collect::<Vec<_>>();
        let signals = new.iter().map(|n| n.1).collect::<Vec<_>>();
        let by = |s: &ExportSignal| (s.by_mem_events, s.by_fs_events, s.by_entry_update);
        match p {
            Probe::Edit => ensure!(
                signals.iter().any(|s| s.by_mem_events),
                "nothing is compiled for the edit of the main file: {signals:?}"
            ),
            Probe::Save => ensure!(
                signals.iter().any(|s| s.by_fs_events),
                "nothing is compiled for the saved main file: {signals:?}"
            ),
            Probe::Compile => ensure!(signals.iter().any(|s| s.by_entry_update), "it was not compiled: {signals:?}"),
            Probe::Other if quiet => ensure!(signals.is_empty(), "it was compiled for a file nobody depends on"),
            Probe::Other => {}
        }
        if quiet && i > 0 {
            let may = match p {
                Probe::Edit => (true, false, false),
                Probe::Save => (false, true, false),
                _ => (false, false, true),
            };
            for s in &signals {
                let s = by(s);
                ensure!((!s.0 || may.0) && (!s.1 || may.1) && (!s.2 || may.2), "{p:?} was told as {s:?}");
            }
        }
        if let Some(n) = new.last() {
            ensure_eq!(n.2, want, "what is notified for {p:?}");
            if let Some(n) = chars(&want) {
                ensure_eq!(s.counts.get(&id).map(|w| w.chars), Some(n), "the words counted after {p:?}");
            }
        }
        let exported = s.exports.lock()[exported..]
            .iter()
            .filter(|e| e.0 == id)
            .map(|e| e.2.clone())
            .collect::<Vec<_>>();
        let must = want.doc.is_some()
            && match (p, &w) {
                (_, TaskWhen::Never) | (Probe::Other, _) => false,
                (Probe::Compile, _) => true,
                (Probe::Edit, w) => matches!(w, TaskWhen::OnType),
                (Probe::Save, TaskWhen::OnDocumentHasTitle) => want.title.is_some(),
                (Probe::Save, w) => matches!(w, TaskWhen::OnSave),
            };
        if must {
            ensure_eq!(exported.last(), Some(&want), "what {w:?} exports after {p:?}");
        } else if quiet && i > 0 {
            ensure!(exported.is_empty(), "{w:?} exports after {p:?}");
        }
    }
    Ok(())
}

pub fn some_ends(n: usize) -> BoxedStrategy<Ends> {
    let ev = prop_oneof![
        8 => (0..3u8, doc(), 0..8u8).prop_map(|(id, doc, by)| Ev::End { id, doc, by }),
        1 => (0..3u8).prop_map(Ev::Again),
        1 => (0..4u8).prop_map(Ev::When),
        3 => (0..6u8).prop_map(Ev::Run),
    ];
    (0..4u8, proptest::collection::vec(ev, 0..n))
        .prop_map(|(when, evs)| Ends { when, evs })
        .boxed()
}
pub fn some_probed(n: usize) -> BoxedStrategy<Probed> {
    let p = prop_oneof![3 => Just(Probe::Edit), 3 => Just(Probe::Save), 1 => Just(Probe::Compile), 1 => Just(Probe::Other)];
    (cases(n), proptest::collection::vec(p, 1..4), 0..4u8)
        .prop_map(|(mut case, probes, export)| {
            case.export = export;
            Probed { case, probes }
        })
        .boxed()
}
