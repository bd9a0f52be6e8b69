//! C32: what the editor is told of the projects.
use h_server::server::{client, notification};
use lsp_types::{Diagnostic, Position, Range, Url};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::{Arc, LazyLock};
use parking_lot::Mutex;
use tinymist::actor::editor::{EditorActor, EditorActorConfig, EditorRequest, ProjVersion};
use tinymist::tool::word_count::WordsCount;
use tinymist_project::*;
use tinymist_query::DiagnosticsMap;
use tinymist_vfs::FileId;
use tokio::sync::mpsc;
use typst::syntax::VirtualPath;
use tinymist_world::{CompilerFeat, EntryState};
use vcommon::{bx, ensure, ensure_eq, Check, Fail, Opts, Verdict};

/// What a project has to say of files, each with some diagnostics.
type Report = Vec<(u8, Vec<u8>)>;

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    Report(u8, Option<Report>),
    Status(u8, Option<u8>, u32, u8),
    Words(u8, u8),
    Notify(bool),
    /// The actor gets to run; otherwise requests pile up.
    Run,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    notify: bool,
    ops: Vec<Op>,
}
fn cases() -> BoxedStrategy<Case> {
    let report = || prop::collection::vec((0..4u8, prop::collection::vec(0..5u8, 0..4)), 0..4);
    let op = prop_oneof![
        8 => (0..4u8, prop::option::weighted(0.8, report())).prop_map(|(p, r)| Op::Report(p, r)),
        2 => (0..3u8, prop::option::of(0..3u8), any::<u32>(), 0..5u8).prop_map(|(p, f, n, s)| Op::Status(p, f, n, s)),
        1 => (0..3u8, any::<u8>()).prop_map(|(p, n)| Op::Words(p, n)),
        1 => any::<bool>().prop_map(Op::Notify),
        3 => Just(Op::Run),
    ];
    bx((any::<bool>(), prop::collection::vec(op, 1..24)).prop_map(|(notify, ops)| Case { notify, ops }))
}

fn project(p: u8) -> ProjectInsId {
    match p {
        0 => ProjectInsId::PRIMARY,
        p => ProjectInsId(format!("p{p}").as_str().into()),
    }
}
fn url(f: u8) -> Url {
    Url::parse(["file:///a.typ", "file:///a%20b.typ", "untitled:Untitled-1", "file:///sub/c.typ"][f as usize % 4]).unwrap()
}
fn diagnostic(p: u8, d: u8) -> Diagnostic {
    Diagnostic {
        // Some are the same in several projects.
        message: if d < 3 { format!("{p}: {d}") } else { format!("{d}") },
        range: Range::new(Position::new(d as u32, 0), Position::new(d as u32, 1)),
        ..Default::default()
    }
}
/// The result of a compilation, which only those tell.
fn result() -> CompileStatusResult {
    static RESULT: LazyLock<CompileStatusResult> = LazyLock::new(|| {
        struct Keep(Arc<Mutex<Option<CompileStatusResult>>>);
        impl<F: CompilerFeat + Send + Sync + 'static, E: 'static> CompileHandler<F, E> for Keep {
            fn on_any_compile_reason(&self, _: &mut ProjectCompiler<F, E>) {}
            fn notify_compile(&self, _: &CompiledArtifact<F>) {}
            fn status(&self, _: usize, r: CompileReport) {
                if let CompileStatusEnum::CompileSuccess(r) | CompileStatusEnum::CompileError(r) = r.status {
                    *self.0.lock() = Some(r);
                }
            }
        }
        let kept: Arc<Mutex<_>> = Arc::default();
        let handler: Arc<dyn CompileHandler<LspCompilerFeat, ()>> = Arc::new(Keep(kept.clone()));
        let entry = EntryState::new_rooted(Path::new("/verif-none").into(), Some(VirtualPath::new("a.typ")));
        let opts = CompileServerOpts {
            handler: handler.clone(),
            enable_watch: false,
            export_target: Default::default(),
        };
        let mut c = ProjectCompiler::new(h_server::pipeline::universe(entry, false, 0), mpsc::unbounded_channel().0, opts);
        c.process(Interrupt::Compile(c.primary.id.clone()));
        c.primary.may_compile(&handler).expect("no compilation")();
        let kept = kept.lock().take();
        kept.expect("no result")
    });
    RESULT.clone()
}
fn file(f: u8) -> FileId {
    FileId::new(None, VirtualPath::new(["main.typ", "sub/a b.typ", "ü.typ"][f as usize % 3]))
}

#[derive(Debug, Clone, PartialEq)]
struct Status {
    status: &'static str,
    path: String,
    pages: u64,
    words: Option<u64>,
}

fn history(c: &Case) -> Verdict {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let (root, sent, _ends) = client(rt.handle().clone());
    let (tx, rx) = mpsc::unbounded_channel();
    let actor = rt.spawn(EditorActor::new(root.weak(), rx, c.notify).run());

    let mut notify = c.notify;
    let mut reports: BTreeMap<u8, BTreeMap<u8, Vec<u8>>> = BTreeMap::new();
    let mut status = Status {
        status: "compiling",
        path: String::new(),
        pages: 0,
        words: None,
    };
    let mut told: Vec<Status> = vec![];
    // What the editor shows.
    let mut shown: BTreeMap<String, Vec<Diagnostic>> = BTreeMap::new();
    let mut shared = 0;
    let mut ops = c.ops.clone();
    ops.push(Op::Run);
    for (n, op) in ops.iter().enumerate() {
        let what = format!("after {op:?} (step {n})");
        let r = match op {
            Op::Report(p, r) => {
                let r = r.as_ref().map(|r| r.iter().cloned().collect::<BTreeMap<u8, Vec<u8>>>());
                reports.insert(*p, r.clone().unwrap_or_default());
                let map = r.map(|r| {
                    let of = |(f, ds): (u8, Vec<u8>)| (url(f), ds.into_iter().map(|d| diagnostic(*p, d)).collect());
                    r.into_iter().map(of).collect::<DiagnosticsMap>()
                });
                let version = ProjVersion { id: project(*p), revision: n };
                tx.send(EditorRequest::Diag(version, map))
            }
            Op::Status(p, f, pages, s) => {
                let report = CompileReport {
                    id: project(*p),
                    compiling_id: f.map(file),
                    page_count: *pages,
                    status: match s % 5 {
                        0 => CompileStatusEnum::Suspend,
                        1 => CompileStatusEnum::Compiling,
                        2 => CompileStatusEnum::CompileSuccess(result()),
                        3 => CompileStatusEnum::CompileError(result()),
                        _ => CompileStatusEnum::ExportError(result()),
                    },
                };
                if *p == 0 && notify {
                    status.status = ["compileSuccess", "compiling", "compileSuccess", "compileError", "compileError"][*s as usize % 5];
                    status.path = f.map(|f| ["/main.typ", "/sub/a b.typ", "/ü.typ"][f as usize % 3].to_owned()).unwrap_or_default();
                    status.pages = *pages as u64;
                    told.push(status.clone());
                }
                tx.send(EditorRequest::Status(report))
            }
            Op::Words(p, n) => {
                if *p == 0 && notify {
                    status.words = Some(*n as u64);
                    told.push(status.clone());
                }
                let count = WordsCount {
                    words: *n as usize,
                    ..Default::default()
                };
                tx.send(EditorRequest::WordCount(project(*p), count))
            }
            Op::Notify(b) => {
                notify = *b;
                tx.send(EditorRequest::Config(EditorActorConfig { notify_status: *b }))
            }
            Op::Run => {
                rt.block_on(async {
                    for _ in 0..64 {
                        tokio::task::yield_now().await;
                    }
                });
                Ok(())
            }
        };
        ensure!(r.is_ok() && !actor.is_finished(), "{what}: the actor is gone");
        if !matches!(op, Op::Run) {
            continue;
        }
        let mut got = vec![];
        while let Ok(m) = sent.try_recv() {
            let m = notification(&m).cloned().ok_or_else(|| Fail::from(format!("{what}, the editor is sent {m:?}")))?;
            match m.method.as_str() {
                "textDocument/publishDiagnostics" => {
                    let uri = m.params["uri"].as_str().unwrap_or("").to_owned();
                    let ds: Vec<Diagnostic> = serde_json::from_value(m.params["diagnostics"].clone()).map_err(|e| Fail::from(format!("{what}: {e}")))?;
                    ensure!(m.params.get("version").is_none_or(Value::is_null), "{what}: a version nobody has");
                    shown.insert(uri, ds);
                }
                "tinymist/compileStatus" => got.push(m.params),
                m => return Err(Fail::from(format!("{what}, the editor is sent {m}"))),
            }
        }
        for f in 0..4 {
            let uri = url(f).to_string();
            let mut all = shown.get(&uri).cloned().unwrap_or_default();
            let mut of = 0;
            // Each project's are there together and in order.
            let mut left: BTreeSet<u8> = reports.iter().filter(|(_, r)| r.get(&f).is_some_and(|d| !d.is_empty())).map(|(p, _)| *p).collect();
            shared += u32::from(left.len() > 1);
            while !left.is_empty() {
                let next = left.iter().copied().find(|p| {
                    let ds: Vec<_> = reports[p][&f].iter().map(|d| diagnostic(*p, *d)).collect();
                    all.starts_with(&ds) && consistent(&all[ds.len()..], &left, *p, &reports, f)
                });
                let Some(p) = next else {
                    return Err(Fail::from(format!("{what}, {uri} shows {shown:?}, of the projects' {reports:?}")));
                };
                left.remove(&p);
                all.drain(..reports[&p][&f].len());
                of += 1;
            }
            ensure!(all.is_empty(), "{what}, {uri} still shows {all:?} beside those of {of} projects: {reports:?}");
        }
        let want = std::mem::take(&mut told);
        ensure_eq!(got.len(), want.len(), "{what}, the number of statuses: {got:?}, {want:?}");
        for (g, w) in got.iter().zip(want) {
            let g = (g["status"].as_str(), g["path"].as_str(), g["pageCount"].as_u64(), g["wordsCount"]["words"].as_u64());
            ensure_eq!(g, (Some(w.status), Some(w.path.as_str()), Some(w.pages), w.words), "{what}, the status");
        }
    }
    drop(tx);
    rt.block_on(async {
        for _ in 0..4 {
            tokio::task::yield_now().await;
        }
    });
    ensure!(actor.is_finished(), "the actor does not end");
    Ok(shared > 0)
}
/// Whether the rest can be those of the other projects (their lengths fit).
fn consistent(rest: &[Diagnostic], left: &BTreeSet<u8>, p: u8, reports: &BTreeMap<u8, BTreeMap<u8, Vec<u8>>>, f: u8) -> bool {
    let mut left: BTreeSet<u8> = left.clone();
    left.remove(&p);
    if left.is_empty() {
        return rest.is_empty();
    }
    left.iter().any(|q| {
        let ds: Vec<_> = reports[q][&f].iter().map(|d| diagnostic(*q, *d)).collect();
        rest.starts_with(&ds) && consistent(&rest[ds.len()..], &left, *q, reports, f)
    })
}

fn main() {
    Check::main("C32", "a file with diagnostics of more than one project", |c| {
        c.prop("histories", Opts::new(20000).thorough(20).shards(24), cases, history);
    })
}
