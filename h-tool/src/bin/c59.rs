//! C59: previews are started, scrolled and killed one by one.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

use futures::channel::mpsc as fm;
use lsp_types::Url;
use proptest::prelude::*;
use reflexo_typst::debug_loc::{DocumentPosition, SourceSpanOffset};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use sync_ls::lsp;
use sync_ls::{AnySchedulableResponse, Connection, ConnectionRx, LspClientRoot, LspMessage, LspResult, Message, SchedulableResponse, ServiceState};
use tinymist::actor::editor::EditorRequest;
use tinymist::preview_events::ServerEvent;
use tinymist::project::analysis::Analysis;
use tinymist::project::ProjectState;
use tinymist::task::ExportTask;
use tinymist::tool::preview::{PreviewState, StartPreviewResponse};
use tinymist::web::hyper_tungstenite::{tungstenite, HyperWebsocketStream};
use tinymist::web::PAGES;
use tinymist::{Config, ServerState};
use tinymist_project::*;
use tinymist_std::typst::TypstDocument;
use tinymist_vfs::notify::{FilesystemEvent, NotifyMessage};
use tinymist_vfs::FileChangeSet;
use tinymist_world::EntryReader;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::sync::mpsc;
use typst::layout::{Abs, PagedDocument, Point, Position};
use typst::model::DocumentInfo;
use typst::syntax::Span;
use typst_preview::{CompileStatus, CompileView, DocToSrcJumpInfo, Location};
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Fail, Opts, Verdict};

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
enum Host {
    Free,
    /// Someone else listens there.
    Taken,
    /// There is no such address.
    Bad(u8),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Start {
    /// Regular, browsing, by default (without arguments), in background.
    how: u8,
    /// Which task; none is not to say.
    task: Option<u8>,
    entry: Option<u8>,
    relative: bool,
    secondary: bool,
    host: Host,
    /// The (deprecated) address of the static server: the same or another.
    statics: Option<bool>,
    slide: bool,
    open: bool,
    junk: u8,
    /// Its answer is not waited for.
    pending: bool,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
enum Op {
    Start(Start),
    Kill(u8),
    /// Killed several times at once.
    Kills(Vec<u8>),
    KillAll,
    /// What a client may send instead of the name of a task.
    KillOdd(u8),
    Page(u8),
    Get(u8, u8),
    Scroll(u8, u16),
    Focus(Option<u8>, Option<(u8, u8)>),
    ScrollAll,
    Notify(u8),
    /// A page's reader clicks.
    Click(u8, u8),
    Reload,
    Turn(u8),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    customized: bool,
    background: Option<Option<Start>>,
    browsing: Option<Vec<String>>,
    ops: Vec<Op>,
}

const FILES: [&str; 6] = ["/v59/a.typ", "/v59/b c.typ", "/v59/sub/ä.typ", "/v59/#1%.typ", "/w59/e.typ", "/v59/f.typ"];
const TASKS: [&str; 6] = ["t1", "t2", "a b", "ü", "primary", "default_preview"];

fn start() -> BoxedStrategy<Start> {
    let how = prop_oneof![6 => Just(0u8), 2 => Just(1), 1 => Just(2)];
    let task = prop::option::weighted(0.8, prop_oneof![12 => 0..4u8, 1 => Just(4), 2 => Just(5)]);
    let host = prop_oneof![12 => Just(Host::Free), 1 => Just(Host::Taken), 1 => (0..3u8).prop_map(Host::Bad)];
    let statics = prop_oneof![12 => Just(None), 1 => any::<bool>().prop_map(Some)];
    let junk = prop_oneof![20 => Just(0u8), 1 => 1..6u8];
    let flags = (prop::bool::weighted(0.06), prop::bool::weighted(0.4), any::<bool>(), prop::bool::weighted(0.1), prop::bool::weighted(0.15));
    let entry = prop::option::weighted(0.85, 0..FILES.len() as u8);
    bx((how, task, entry, host, statics, junk, flags).prop_map(|(how, task, entry, host, statics, junk, (relative, secondary, slide, open, pending))| Start {
        how,
        task,
        entry,
        relative,
        secondary,
        host,
        statics,
        slide,
        open,
        junk,
        pending,
    }))
}
fn op() -> BoxedStrategy<Op> {
    let t = || 0..TASKS.len() as u8;
    bx(prop_oneof![
        12 => start().prop_map(Op::Start),
        6 => t().prop_map(Op::Kill),
        1 => prop::collection::vec(t(), 2..6).prop_map(Op::Kills),
        1 => Just(Op::KillAll),
        1 => (0..4u8).prop_map(Op::KillOdd),
        5 => t().prop_map(Op::Page),
        2 => (t(), any::<u8>()).prop_map(|(t, n)| Op::Get(t, n)),
        4 => (t(), 1..999u16).prop_map(|(t, n)| Op::Scroll(t, n)),
        2 => (prop::option::weighted(0.8, 0..FILES.len() as u8), prop::option::weighted(0.8, (0..9u8, 0..20u8))).prop_map(|(f, p)| Op::Focus(f, p)),
        2 => Just(Op::ScrollAll),
        3 => any::<u8>().prop_map(Op::Notify),
        3 => (t(), any::<u8>()).prop_map(|(t, n)| Op::Click(t, n)),
        1 => Just(Op::Reload),
        1 => (0..20u8).prop_map(Op::Turn),
    ])
}
fn cases(ops: usize) -> BoxedStrategy<Case> {
    let background = prop_oneof![5 => Just(None), 1 => Just(Some(None)), 2 => start().prop_map(|s| Some(Some(Start { how: 3, pending: false, ..s })))];
    let browsing = prop_oneof![
        4 => Just(None),
        1 => Just(Some(vec![])),
        1 => prop::sample::select(vec![vec!["--task-id", "t1"], vec!["--invert-colors", "auto"], vec!["--no-such"], vec!["--open"]]).prop_map(|v| Some(v.into_iter().map(str::to_owned).collect())),
    ];
    bx((any::<bool>(), background, browsing, prop::collection::vec(op(), 1..=ops)).prop_map(|(customized, background, browsing, ops)| Case { customized, background, browsing, ops }))
}

struct View(TypstDocument);
impl CompileView for View {
    fn doc(&self) -> Option<TypstDocument> {
        Some(self.0.clone())
    }
    fn status(&self) -> CompileStatus {
        CompileStatus::CompileSuccess
    }
    fn is_on_saved(&self) -> bool {
        false
    }
    fn is_by_entry_update(&self) -> bool {
        false
    }
    fn resolve_frame_loc(&self, p: &DocumentPosition) -> Option<(SourceSpanOffset, SourceSpanOffset)> {
        let s = SourceSpanOffset { span: Span::from_raw(std::num::NonZeroU64::new(p.page_no as u64 + 1).unwrap()), offset: 0 };
        // It ends a character further, or where it starts.
        Some((s, SourceSpanOffset { offset: p.page_no % 2, ..s }))
    }
    fn resolve_document_position(&self, by: Location) -> Vec<Position> {
        let Location::Src(l) = by;
        if !FILES.contains(&l.filepath.as_str()) {
            return vec![];
        }
        vec![Position { page: std::num::NonZeroUsize::new(l.pos.line as usize + 1).unwrap(), point: Point { x: Abs(l.pos.character.into()), y: Abs(0.) } }]
    }
    fn resolve_span(&self, s: Span, offset: Option<usize>) -> Option<DocToSrcJumpInfo> {
        let n = s.into_raw().get() as usize - 1;
        let mut p = place(n);
        p.start = p.start.map(|(l, c)| (l, c + offset.unwrap_or(0)));
        Some(p)
    }
}
/// Where the n-th thing is; some are nowhere a document could be.
fn place(n: usize) -> DocToSrcJumpInfo {
    let file = FILES.get(n % 8).copied().unwrap_or("not/absolute.typ");
    DocToSrcJumpInfo { filepath: file.to_owned(), start: Some((n, n % 5)), end: Some((n + n % 3, n % 5 + 1)) }
}

/// A page of a preview.
struct Page {
    to: fm::UnboundedSender<tungstenite::Message>,
    from: fm::UnboundedReceiver<tungstenite::Message>,
    got: Vec<String>,
    shows: Option<String>,
}
struct Tab {
    project: String,
    primary: bool,
    background: bool,
    addr: String,
    html: String,
    pages: Vec<Page>,
    /// It was shown a document.
    doc: bool,
}
struct Pending {
    task: String,
    answer: tokio::task::JoinHandle<LspResult<Value>>,
    want: Want,
}
#[derive(Debug, Clone)]
struct Want {
    /// The project it is of, or none where it is to fail.
    project: Option<String>,
    primary: bool,
    browsing: bool,
    background: bool,
    entry: Option<u8>,
    slide: bool,
    host: String,
}

struct Init;
impl sync_ls::Initializer for Init {
    type I = Value;
    type S = ServerState;
    fn initialize(self, _: Value) -> (ServerState, AnySchedulableResponse) {
        unreachable!()
    }
}

type Deps = Arc<parking_lot::Mutex<Vec<mpsc::UnboundedReceiver<NotifyMessage>>>>;
struct Sut {
    s: ServerState,
    _editor: mpsc::UnboundedReceiver<EditorRequest>,
    sent: crossbeam_channel::Receiver<Message>,
    rx: ConnectionRxOf,
    deps: Deps,
    _root: LspClientRoot,
    _ends: Box<dyn std::any::Any>,
    _taken: std::net::TcpListener,
    taken: String,
    ip: String,
    disposed: BTreeMap<String, usize>,
    shown: Vec<Value>,
    /// The model.
    tabs: BTreeMap<String, Tab>,
    killed: BTreeMap<String, usize>,
    pin: (bool, bool),
    pending: Vec<Pending>,
    stats: BTreeSet<&'static str>,
    customized: bool,
    rt: tokio::runtime::Runtime,
}
type ConnectionRxOf = sync_ls::TConnectionRx<LspMessage>;
const _: fn(ConnectionRx) = |_| ();

static LATE: AtomicBool = AtomicBool::new(false);
static NEXT: AtomicU64 = AtomicU64::new(0);

impl Sut {
    fn new(case: &Case, rt: tokio::runtime::Runtime) -> Result<Self, Fail> {
        let handle = rt.handle().clone();
        let (ev_tx, ev_rx) = crossbeam_channel::unbounded();
        let (out_tx, sent) = crossbeam_channel::unbounded();
        let (in_tx, in_rx) = crossbeam_channel::unbounded();
        let conn: Connection<LspMessage> = Connection::<Message>::verif_from_channels((ev_tx, ev_rx), (out_tx, in_rx)).into();
        let root = LspClientRoot::new(handle.clone(), conn.sender);
        let rx = conn.receiver;
        let deps: Deps = Arc::default();
        let to = deps.clone();
        let mut config = Config { customized_show_document: case.customized, ..Default::default() };
        config.make_project = Some(Arc::new(move |config: &Config, editor_tx, preview| {
            let (dep_tx, dep_rx) = mpsc::unbounded_channel();
            to.lock().push(dep_rx);
            let entry = config.entry_resolver.resolve(config.entry_resolver.resolve_default());
            let fonts = LspUniverseBuilder::resolve_fonts(CompileFontArgs::default()).unwrap();
            let packages = LspUniverseBuilder::resolve_package(None, Some(&CompilePackageArgs::default()));
            let universe = LspUniverseBuilder::build(entry, Default::default(), Default::default(), Default::default(), packages, Arc::new(fonts));
            let opts = CompileServerOpts { handler: Arc::new(std::marker::PhantomData), enable_watch: false, export_target: Default::default() };
            ProjectState { compiler: ProjectCompiler::new(universe, dep_tx, opts), preview, analysis: Arc::new(Analysis::default()), export: ExportTask::new(handle.clone(), Some(editor_tx), config.export.clone()) }
        }));
        let n = NEXT.fetch_add(1, Ordering::SeqCst) + u64::from(std::process::id()) * 65_521;
        let ip = format!("127.{}.{}.{}", 1 + n / 63_500 % 254, 1 + n / 250 % 254, 1 + n % 250);
        let taken = std::net::TcpListener::bind((ip.as_str(), 0)).map_err(|e| format!("{ip}: {e}"))?;
        let at = taken.local_addr().unwrap().to_string();
        config.preview.browsing.args = case.browsing.clone();
        if let Some(b) = &case.background {
            config.preview.background.enabled = true;
            config.preview.background.args = b.as_ref().map(|b| args_of(b, &ip, &at).0);
        } else if case.customized {
            // Arguments alone start nothing.
            config.preview.background.args = Some(vec![format!("--data-plane-host={ip}:0")]);
        }
        let (editor_tx, editor) = mpsc::unbounded_channel();
        let watchers = tinymist::project::ProjectPreviewState::default();
        let project = (config.make_project.as_ref().unwrap())(&config, editor_tx.clone(), watchers.clone());
        let client = root.weak().to_typed::<ServerState>();
        let preview = PreviewState::new(&config, watchers, client.cast(|s: &mut ServerState| &mut s.preview));
        let s = ServerState {
            client,
            route: Default::default(),
            project,
            preview,
            pinning_by_user: false,
            pinning_by_preview: false,
            pinning_by_browsing_preview: false,
            focusing: None,
            implicit_position: None,
            ever_focusing_by_activities: false,
            ever_manual_focusing: false,
            config,
            memory_changes: Default::default(),
            editor_tx,
        };
        Ok(Self {
            s,
            _editor: editor,
            sent,
            rx,
            deps,
            _root: root,
            _ends: Box::new(in_tx),
            _taken: taken,
            taken: at,
            ip,
            disposed: BTreeMap::new(),
            shown: vec![],
            tabs: BTreeMap::new(),
            killed: BTreeMap::new(),
            pin: (false, false),
            pending: vec![],
            stats: BTreeSet::new(),
            customized: case.customized,
            rt,
        })
    }

    /// The tasks go on a little, and what they have for the server is handed over.
    fn turn(&mut self, n: usize) -> Result<(), Fail> {
        self.rt.block_on(async {
            for _ in 0..n {
                tokio::task::yield_now().await;
            }
        });
        while let Ok(ev) = self.rx.event.try_recv() {
            let to = ServiceState::<Init, ServerState>::Ready(&mut self.s);
            let done = match ev.downcast::<LspInterrupt>() {
                Ok(i) => ServerState::compile_interrupt::<Init>(to, *i),
                Err(ev) => match ev.downcast::<ServerEvent>() {
                    Ok(e) => ServerState::server_event::<Init>(to, *e),
                    Err(_) => return Err("an event of neither kind".into()),
                },
            };
            done.map_err(|e| e.to_string())?;
        }
        let mut asked = vec![];
        for rx in self.deps.lock().iter_mut() {
            while let Ok(m) = rx.try_recv() {
                asked.push(m);
            }
        }
        for m in asked {
            if let NotifyMessage::UpstreamUpdate(ev) = m {
                self.s.project.interrupt(Interrupt::Fs(FilesystemEvent::UpstreamUpdate { changeset: FileChangeSet::default(), upstream_event: Some(ev) }));
            }
        }
        while let Ok(m) = self.sent.try_recv() {
            match m {
                Message::Lsp(lsp::Message::Notification(n)) if n.method == "tinymist/preview/dispose" => {
                    let t = n.params["taskId"].as_str().ok_or("a disposal of no task")?.to_owned();
                    *self.disposed.entry(t).or_default() += 1;
                }
                Message::Lsp(lsp::Message::Notification(n)) if n.method == "tinymist/preview/scrollSource" => {
                    ensure!(self.customized, "the editor did not ask for its own notification");
                    self.shown.push(n.params);
                }
                Message::Lsp(lsp::Message::Request(r)) if r.method == "window/showDocument" => {
                    ensure!(!self.customized, "the editor asked for its own notification");
                    self.shown.push(r.params);
                }
                Message::Lsp(lsp::Message::Notification(n)) if n.method == "tinymist/documentOutline" => {}
                m => return Err(format!("the client is sent {m:?}").into()),
            }
        }
        for t in self.tabs.values_mut() {
            for p in &mut t.pages {
                while let Ok(m) = p.from.try_recv() {
                    let tungstenite::Message::Binary(b) = m else { return Err(format!("a page is told {m:?}").into()) };
                    let s = String::from_utf8(b).map_err(|_| "not UTF-8")?;
                    match s.split_once(',') {
                        Some(("new", v)) => p.shows = Some(v.to_owned()),
                        Some(("diff-v1", v)) => p.shows = Some(v.split_once('>').ok_or("no such diff")?.1.to_owned()),
                        _ => p.got.push(s),
                    }
                }
            }
        }
        Ok(())
    }
    /// Goes on until it is so.
    fn until(&mut self, what: &str, mut so: impl FnMut(&mut Self) -> bool) -> Result<(), Fail> {
        let begun = Instant::now();
        let mut n = 0;
        loop {
            if so(self) {
                return Ok(());
            }
            self.turn(4)?;
            n += 1;
            if n > 200 {
                self.rt.block_on(tokio::time::sleep(Duration::from_millis(1)));
                // What came of it meanwhile is handed over, too.
                self.turn(1)?;
                let late = LATE.load(Ordering::Relaxed);
                if begun.elapsed() > Duration::from_secs(if late { 1 } else { 20 }) {
                    // What makes the case smaller need not be as patient.
                    LATE.store(true, Ordering::Relaxed);
                    return Err(format!("never: {what}").into());
                }
            }
        }
    }
    /// Nothing goes on any more.
    fn rest(&mut self) -> Result<(), Fail> {
        for _ in 0..6 {
            self.turn(12)?;
        }
        Ok(())
    }
    fn spawn<T: Serialize + Send + 'static>(&self, f: SchedulableResponse<T>) -> tokio::task::JoinHandle<LspResult<Value>> {
        self.rt.spawn(async move {
            let mut f = Box::pin(f?);
            f.as_mut().await;
            let r = f.as_mut().take_output().expect("answered");
            r.map(|v| serde_json::to_value(v).unwrap())
        })
    }
    /// What is answered.
    fn answer(&mut self, mut h: tokio::task::JoinHandle<LspResult<Value>>, what: &str) -> Result<LspResult<Value>, Fail> {
        self.until(&format!("the answer to {what}"), |_| h.is_finished())?;
        self.rt.block_on(&mut h).map_err(|e| format!("{what} is not answered: {e}").into())
    }
    fn registered(&self) -> BTreeMap<String, String> {
        self.s.preview.watchers.inner.lock().iter().map(|(k, v)| (k.to_string(), v.task_id().to_owned())).collect()
    }
    fn wanted(&self) -> BTreeMap<String, String> {
        let tabs = self.tabs.iter().map(|(t, tab)| (tab.project.clone(), t.clone()));
        tabs.chain(self.pending.iter().filter_map(|p| Some((p.want.project.clone()?, p.task.clone())))).collect()
    }

    fn do_start(&mut self, st: &Start, default_args: &Option<Vec<String>>) -> Result<(), Fail> {
        let (mut args, mut host) = args_of(st, &self.ip, &self.taken);
        let mut st = st.clone();
        let mut junk = st.junk > 0;
        if st.how == 2 {
            args = match default_args {
                Some(a) => a.clone(),
                None => vec!["--open".into()],
            };
            st = Start { how: 2, task: None, entry: None, relative: false, secondary: false, host: Host::Free, statics: None, slide: false, open: args.iter().any(|a| a == "--open"), junk: 0, pending: st.pending };
            junk = args.iter().any(|a| a == "--no-such");
            if args.iter().any(|a| a == "t1") {
                st.task = Some(0);
            }
            // As documented it is a port of its own; the arguments given may
            // leave the usual one.
            host = if default_args.is_none() { "127.0.0.1:0".to_owned() } else { "127.0.0.1:23625".to_owned() };
            if default_args.is_some() && !junk {
                return Ok(());
            }
        }
        let task = st.task.map_or("default_preview", |t| TASKS[usize::from(t)]).to_owned();
        let running = self.tabs.contains_key(&task) || self.pending.iter().any(|p| p.task == task);
        if running {
            // It is for the client to name its previews apart.
            return Ok(());
        }
        let used = self.wanted();
        let browsing = st.how != 0;
        let background = st.how == 3;
        let relative = st.relative && st.entry.is_some();
        let other = st.statics == Some(false);
        let primary = !st.secondary && (browsing || st.entry.is_some()) && !used.contains_key("primary");
        let refused = junk || relative || task == "primary" || (background && st.secondary) || (background && !primary) || other || (!primary && st.entry.is_none());
        let project = if primary { "primary".to_owned() } else { task.clone() };
        let fails = refused || st.host != Host::Free;
        let want = Want {
            project: (!refused).then_some(project.clone()),
            primary,
            browsing,
            background,
            entry: st.entry,
            slide: st.slide,
            host,
        };
        let what = format!("start {task:?} {args:?} (how {})", st.how);
        let before = self.pin;
        let opened = open::OPENED.lock().len();
        let _ = opened;
        let h = if background {
            self.s.background_preview();
            None
        } else {
            let json = if args.is_empty() && st.junk == 0 && st.how != 2 { vec![] } else { vec![json!(args)] };
            let f = match st.how {
                0 => self.s.do_start_preview(json),
                1 => self.s.browse_preview(json),
                _ => self.s.default_preview(vec![]),
            };
                Some(self.spawn(f))
        };
        if !refused {
            // At once: what is focused or opened next is not to change it.
            if primary {
                self.pin = (true, browsing);
            }
            ensure_eq!((self.s.pinning_by_preview, self.s.pinning_by_browsing_preview), self.pin, "what the primary project is pinned by, after {what}");
        }
        let Some(h) = h else {
            // In background: nobody is told.
            if fails {
                self.rest()?;
                if refused {
                    ensure_eq!(self.registered(), used, "the previews, after {what}, that is to fail");
                    self.pin = before;
                } else {
                    self.pin = (false, false);
                    self.until(&format!("the projects are released after {what} failed"), |s| s.registered() == used)?;
                }
                return Ok(());
            }
            self.rest()?;
            // Where it listens can be told from outside only.
            self.tabs.insert(task, Tab { project, primary, background: true, addr: String::new(), html: String::new(), pages: vec![], doc: false });
            self.stats.insert("background");
            return Ok(());
        };
        if fails {
            let r = self.answer(h, &what)?;
            ensure!(r.is_err(), "{what} is to fail, and is answered {r:?}");
            if !refused {
                self.stats.insert("bind");
                self.pin = if primary { (false, false) } else { before };
            }
            self.until(&format!("the projects are released after {what} failed: {r:?}"), |s| s.registered() == used)?;
            if self.pending.is_empty() {
                self.check(&format!("{what} failed"))?;
            }
            return Ok(());
        }
        let p = Pending { task, answer: h, want };
        if st.pending {
            self.pending.push(p);
            self.stats.insert("pending");
            return Ok(());
        }
        self.finish(p, &what, false)
    }
    /// A preview is up.
    fn finish(&mut self, p: Pending, what: &str, killed: bool) -> Result<(), Fail> {
        let r = self.answer(p.answer, what)?;
        let v = match r {
            Ok(v) => v,
            Err(e) => return Err(format!("{what}: refused with {e:?}").into()),
        };
        let addr = v["staticServerAddr"].as_str().ok_or_else(|| format!("{what}: no address in {v}"))?.to_owned();
        let port: u16 = addr.rsplit(':').next().unwrap().parse().map_err(|_| format!("no port in {addr}"))?;
        ensure!(port != 0, "{what}: port 0");
        ensure_eq!(&v, &json!({"staticServerPort": port, "staticServerAddr": addr, "dataPlanePort": port, "isPrimary": p.want.primary}), "the answer to {what}");
        ensure_eq!(addr.rsplit_once(':').unwrap().0, p.want.host.rsplit_once(':').unwrap().0, "where {what} listens");
        let mode = if p.want.slide { "Slide" } else { "Doc" };
        let html = format!("<html>/|preview-arg:previewMode:{mode}</html>");
        let project = p.want.project.clone().unwrap();
        if let Some(e) = p.want.entry.filter(|_| !killed) {
            let main = self.s.project.compiler.projects().find(|x| x.id.to_string() == project).and_then(|x| x.verse.entry_state().main());
            let main = main.map(|m| m.vpath().as_rootless_path().to_string_lossy().into_owned());
            let name = Path::new(FILES[usize::from(e)]).file_name().unwrap().to_str().unwrap();
            ensure!(main.as_deref().is_some_and(|m| m.ends_with(name)), "{what} is of {main:?}");
        }
        self.tabs.insert(p.task, Tab { project, primary: p.want.primary, background: false, addr, html, pages: vec![], doc: false });
        self.stats.insert(if p.want.primary { "primary" } else { "dedicated" });
        Ok(())
    }
    fn finish_all(&mut self) -> Result<(), Fail> {
        for p in std::mem::take(&mut self.pending) {
            let what = format!("start {:?} meanwhile", p.task);
            self.finish(p, &what, false)?;
        }
        Ok(())
    }

    fn get(&mut self, addr: &str, path: &str, headers: &str) -> Result<Option<(u16, String, String)>, Fail> {
        let ask = format!("GET {path} HTTP/1.1\r\n{headers}\r\n");
        let addr = addr.to_owned();
        let r = self.rt.block_on(async move {
            let go = async {
                let mut s = tokio::net::TcpStream::connect(&addr).await.ok()?;
                s.write_all(ask.as_bytes()).await.ok()?;
                let mut got = vec![];
                let mut buf = [0; 512];
                loop {
                    let text = String::from_utf8_lossy(&got).into_owned();
                    if let Some((head, body)) = text.split_once("\r\n\r\n") {
                        let n: usize = head.lines().find_map(|l| l.strip_prefix("Content-Length: ")).unwrap().parse().unwrap();
                        if body.len() >= n {
                            let status = head.split(' ').nth(1).unwrap().parse().unwrap();
                            return Some((status, head.to_owned(), body.to_owned()));
                        }
                    }
                    match s.read(&mut buf).await.ok()? {
                        0 => return None,
                        n => got.extend(&buf[..n]),
                    }
                }
            };
            tokio::time::timeout(Duration::from_secs(20), go).await
        });
        r.map_err(|_| Fail::from(format!("a request of {path} is never answered")))
    }
    /// Whether someone listens there.
    fn listens(&mut self, addr: &str) -> bool {
        // That host is everybody's: it could be anyone.
        if addr.starts_with("127.0.0.1:") {
            return false;
        }
        let addr = addr.to_owned();
        // A connection to a free port can end up with itself.
        self.rt.block_on(async move { tokio::net::TcpStream::connect(addr).await.is_ok_and(|s| s.local_addr().ok() != s.peer_addr().ok()) })
    }

    /// A task is killed, and that was answered.
    fn gone(&mut self, task: &str, addr_closed: bool) -> Result<(), Fail> {
        let t = self.tabs.remove(task).unwrap();
        if addr_closed {
            let open = self.listens(&t.addr.clone());
            ensure!(!open, "{task:?} is killed, and still listens at {}", t.addr);
        }
        if t.primary {
            self.pin = (false, false);
        }
        *self.killed.entry(task.to_owned()).or_default() += 1;
        self.stats.insert("killed");
        if !t.pages.is_empty() {
            self.stats.insert("killed with a page");
        }
        Ok(())
    }
    fn kill(&mut self, task: &str) -> Result<(), Fail> {
        let what = format!("kill {task:?}");
        let f = self.s.kill_preview(vec![json!(task)]);
        let h = self.spawn(f);
        let r = self.answer(h, &what)?;
        if let Some(i) = self.pending.iter().position(|p| p.task == task) {
            // It may be too early for that.
            let p = self.pending.remove(i);
            self.finish(p, &what, r.is_ok())?;
            if r.is_ok() {
                return self.gone(task, true);
            }
            return Ok(());
        }
        match self.tabs.get(task) {
            None => ensure!(r.is_err(), "{what}: there is no such preview, and it is answered {r:?}"),
            Some(t) => {
                ensure_eq!(format!("{r:?}"), format!("{:?}", LspResult::Ok(Value::Null)), "the answer to {what}");
                if !t.background {
                    self.gone(task, true)?;
                }
            }
        }
        Ok(())
    }

    /// What is there is what should be.
    fn check(&mut self, after: &str) -> Result<(), Fail> {
        let want = self.wanted();
        let so = self.until("as expected", |s| {
            let projects: BTreeSet<String> = s.s.project.compiler.projects().map(|p| p.id.to_string()).collect();
            let of: BTreeSet<String> = s.tabs.values().map(|t| t.project.clone()).chain(["primary".to_owned()]).chain(s.pending.iter().filter_map(|p| p.want.project.clone())).collect();
            s.registered() == want && (s.s.pinning_by_preview, s.s.pinning_by_browsing_preview) == s.pin && s.disposed == s.killed && projects == of
        });
        if so.is_err() {
            let projects: Vec<String> = self.s.project.compiler.projects().map(|p| p.id.to_string()).collect();
            let pin = (self.s.pinning_by_preview, self.s.pinning_by_browsing_preview);
            return Err(format!(
                "after {after}: the previews by project are {:?}, and should be {want:?}; pinned is {pin:?}, and should be {:?}; disposed are {:?}, and killed {:?}; there are the projects {projects:?}",
                self.registered(),
                self.pin,
                self.disposed,
                self.killed
            )
            .into());
        }
        Ok(())
    }

    fn step(&mut self, op: &Op, browsing: &Option<Vec<String>>, n: usize) -> Result<(), Fail> {
        let name = |t: u8| TASKS[usize::from(t) % TASKS.len()];
        // A reader of the previews there are.
        let pick = |s: &Self, t: u8| {
            let live: Vec<&String> = s.tabs.iter().filter(|(_, t)| !t.addr.is_empty()).map(|(k, _)| k).collect();
            (!live.is_empty()).then(|| live[usize::from(t) % live.len()].clone())
        };
        match op {
            Op::Start(s) => self.do_start(s, browsing)?,
            Op::Kill(t) => self.kill(name(*t))?,
            Op::Kills(ts) => {
                self.finish_all()?;
                let asked: Vec<_> = ts
                    .iter()
                    .map(|t| {
                        let f = self.s.kill_preview(vec![json!(name(*t))]);
                        (name(*t), self.spawn(f))
                    })
                    .collect();
                for (t, h) in asked {
                    let r = self.answer(h, &format!("kill {t:?}"))?;
                    match self.tabs.get(t).map(|t| t.background) {
                        Some(false) => {
                            ensure!(r.is_ok(), "kill {t:?} is answered {r:?}");
                            self.gone(t, true)?;
                        }
                        Some(true) => ensure!(r.is_ok(), "kill {t:?} is answered {r:?}"),
                        None => ensure!(r.is_err(), "kill {t:?}, that was killed already, is answered {r:?}"),
                    }
                }
            }
            Op::KillAll => {
                self.finish_all()?;
                let f = self.s.kill_preview(vec![]);
                let h = self.spawn(f);
                let r = self.answer(h, "kill all")?;
                ensure!(matches!(r, Ok(Value::Null)), "to kill all previews is answered {r:?}");
                let all: Vec<(String, String)> = self.tabs.iter().filter(|t| !t.1.background).map(|(k, t)| (k.clone(), t.addr.clone())).collect();
                if all.len() > 1 {
                    self.stats.insert("many killed");
                }
                for (t, addr) in all {
                    self.gone(&t, false)?;
                    self.until(&format!("{t:?} no longer listens, when all are killed"), |s| !s.listens(&addr))?;
                }
            }
            Op::KillOdd(k) => {
                let arg = [json!(3), json!(null), json!(["t1"]), json!({"taskId": "t1"})][usize::from(*k % 4)].clone();
                let f = self.s.kill_preview(vec![arg]);
                let h = self.spawn(f);
                let r = self.answer(h, "an odd kill")?;
                ensure!(r.is_err(), "an odd kill is answered {r:?}");
            }
            Op::Page(t) => {
                let Some(t) = pick(self, *t) else { return Ok(()) };
                let (to, in_) = fm::unbounded();
                let (out, from) = fm::unbounded();
                let id = NEXT.fetch_add(1, Ordering::SeqCst) + (1 << 40);
                PAGES.lock().insert(id, HyperWebsocketStream { to: out, from: in_ });
                let addr = self.tabs[&t].addr.clone();
                let got = self.get(&addr, "/", &format!("Upgrade: websocket\r\nX-Page: {id}\r\nOrigin: http://{addr}\r\n"))?;
                ensure!(got.as_ref().is_some_and(|g| g.0 == 101), "the page of {t:?} is answered {got:?}");
                to.unbounded_send(tungstenite::Message::Text("current".into())).ok();
                let tab = self.tabs.get_mut(&t).unwrap();
                tab.pages.push(Page { to, from, got: vec![], shows: None });
                let doc = tab.doc;
                self.rest()?;
                // So that it is there for what comes next.
                self.until(&format!("the page of {t:?} is greeted"), |s| s.tabs[&t].pages.last().is_some_and(|p| (p.shows.is_some() || !doc) && !p.got.is_empty()))?;
                self.stats.insert("page");
            }
            Op::Get(t, k) => {
                let Some(t) = pick(self, *t) else { return Ok(()) };
                let (addr, html) = (self.tabs[&t].addr.clone(), self.tabs[&t].html.clone());
                let origin = ["".to_owned(), format!("Origin: http://{addr}\r\n"), "Origin: vscode-webview://x\r\n".into(), "origin: http://evil.example\r\n".into()][usize::from(k % 4)].clone();
                let evil = k % 4 == 3;
                let path = ["/", "/?a=b", "/x", "/index.html"][usize::from(k / 4 % 4)];
                let got = self.get(&addr, path, &origin)?;
                match got {
                    None => ensure!(evil, "{path} with {origin:?} of {t:?} is not answered"),
                    Some(g) => {
                        ensure!(!evil, "{path} with {origin:?} of {t:?} is answered {g:?}");
                        if path.split('?').next() == Some("/") {
                            ensure!(g.0 == 200 && g.1.contains("text/html"), "the page of {t:?} is answered {g:?}");
                            ensure_eq!(&g.2, &html, "the page of {t:?}");
                        } else {
                            ensure!(g.0 == 302 && g.1.contains("Location: /\r\n"), "{path} of {t:?} is answered {g:?}");
                        }
                    }
                }
            }
            Op::Scroll(t, n) => {
                self.finish_all()?;
                let t = name(*t);
                let f = self.s.scroll_preview(vec![json!(t), json!({"event": "panelScrollByPosition", "position": {"page_no": n, "x": 1, "y": 2}})]);
                let h = self.spawn(f);
                let r = self.answer(h, "scroll")?;
                ensure!(matches!(r, Ok(Value::Null)), "to scroll {t:?} is answered {r:?}");
                let want = format!("viewport,{n} 1 2");
                self.told(&want, |k| k == t)?;
            }
            Op::Focus(f, p) => {
                self.s.focusing = f.map(|f| Path::new(FILES[usize::from(f)]).into());
                self.s.implicit_position = p.map(|(l, c)| reflexo::debug_loc::LspPosition { line: l.into(), character: c.into() });
            }
            Op::ScrollAll => {
                self.finish_all()?;
                let f = self.s.scroll_preview(vec![]);
                let h = self.spawn(f);
                let r = self.answer(h, "scroll all")?;
                match (&self.s.focusing, &self.s.implicit_position) {
                    (Some(_), Some(p)) => {
                        ensure!(matches!(r, Ok(Value::Null)), "to scroll all is answered {r:?}");
                        let want = format!("jump,{} {} 0", p.line + 1, p.character);
                        let docs: BTreeSet<String> = self.tabs.iter().filter(|t| t.1.doc).map(|t| t.0.clone()).collect();
                        self.told(&want, |k| docs.contains(k))?;
                    }
                    _ => ensure!(r.is_err(), "to scroll all to nowhere is answered {r:?}"),
                }
            }
            Op::Notify(k) => {
                self.finish_all()?;
                // A compilation of one of the projects.
                let projects: Vec<(String, String)> = self.wanted().into_iter().collect();
                if projects.is_empty() {
                    return Ok(());
                }
                let (project, task) = projects[usize::from(*k) % projects.len()].clone();
                let title = format!("v{n}");
                let info = DocumentInfo { title: Some(title.clone().into()), ..Default::default() };
                let doc = TypstDocument::Paged(Arc::new(PagedDocument { pages: vec![], info, introspector: Default::default() }));
                let id = ProjectInsId(project.as_str().into());
                let w = self.s.project.preview.get(&id).ok_or_else(|| format!("nobody previews {project:?}"))?;
                w.notify_compile(Arc::new(View(doc)));
                if self.tabs[&task].background {
                    return Ok(());
                }
                self.tabs.get_mut(&task).unwrap().doc = true;
                self.until(&format!("the pages of {task:?} show {title}"), |s| s.tabs[&task].pages.iter().all(|p| p.shows.as_deref() == Some(&title)))?;
                self.rest()?;
                let odd = self.tabs.iter().find(|(k, t)| **k != task && t.pages.iter().any(|p| p.shows.as_deref() == Some(&title)));
                ensure!(odd.is_none(), "a page of {:?} shows what is of {task:?}", odd.map(|o| o.0));
                if self.tabs[&task].pages.len() > 0 {
                    self.stats.insert("shown");
                }
            }
            Op::Click(t, k) => {
                let Some(t) = pick(self, *t) else { return Ok(()) };
                let tab = &self.tabs[&t];
                if tab.pages.is_empty() || !tab.doc {
                    return Ok(());
                }
                let n = usize::from(*k % 40);
                let seen = self.shown.len();
                tab.pages[0].to.unbounded_send(tungstenite::Message::Text(format!("src-point {{\"page_no\":{n},\"x\":1,\"y\":2}}"))).ok();
                let p = place(n);
                let a = p.start.unwrap();
                let b = (a.0, a.1 + n % 2);
                let url = Url::from_file_path(&p.filepath).ok();
                if self.customized || url.is_some() {
                    self.until("the editor is led to the source", |s| s.shown.len() > seen)?;
                    self.stats.insert("click");
                }
                self.rest()?;
                // Every page of the preview looks it up, and tells so.
                let mut got = self.shown[seen..].to_vec();
                let n = got.len();
                got.dedup();
                ensure!(n <= self.tabs[&t].pages.len(), "the editor is led to the source {n} times");
                let at = |p: (usize, usize)| json!({"line": p.0, "character": p.1});
                let want = if self.customized {
                    vec![json!({"filepath": p.filepath, "start": [a.0, a.1], "end": [b.0, b.1]})]
                } else if let Some(u) = url {
                    vec![json!({"uri": u, "takeFocus": true, "selection": {"start": at(a), "end": at(b)}})]
                } else {
                    vec![]
                };
                ensure_eq!(&got, &want, "where the editor is led by a click");
            }
            Op::Reload => {
                self.finish_all()?;
                self.s.reload_projects().map_err(|e| e.to_string())?;
                        let all: Vec<(String, String)> = self.tabs.iter().filter(|t| !t.1.background).map(|(k, t)| (k.clone(), t.addr.clone())).collect();
                for (t, addr) in all {
                    self.gone(&t, false)?;
                    self.until(&format!("{t:?} no longer listens, when the projects are loaded again"), |s| !s.listens(&addr))?;
                    self.stats.insert("reload");
                }
            }
            Op::Turn(n) => self.turn(usize::from(*n))?,
        }
        if self.pending.is_empty() {
            self.check(&format!("{op:?}"))?;
        }
        Ok(())
    }
    /// The pages of these previews are told so, and those of no other.
    fn told(&mut self, want: &str, of: impl Fn(&str) -> bool) -> Result<(), Fail> {
        self.until(&format!("{want:?} is told"), |s| s.tabs.iter().filter(|(k, _)| of(k)).all(|(_, t)| t.pages.iter().all(|p| p.got.iter().any(|g| g == want))))?;
        self.rest()?;
        let mut any = false;
        for (k, t) in &mut self.tabs {
            // Where a source is, every page looks up, and all are told.
            let most = if want.starts_with("jump") { t.pages.len() } else { 1 };
            for p in &mut t.pages {
                let n = p.got.iter().filter(|g| *g == want).count();
                p.got.retain(|g| g != want);
                ensure!(if of(k) { 0 < n && n <= most } else { n == 0 }, "the page of {k:?} is told {want:?} {n} times");
                any |= n > 0;
            }
        }
        if any {
            self.stats.insert("scroll");
        }
        Ok(())
    }
}

/// The arguments, and the address to listen at.
fn args_of(s: &Start, ip: &str, taken: &str) -> (Vec<String>, String) {
    let host = match s.host {
        Host::Free => format!("{ip}:0"),
        Host::Taken => taken.to_owned(),
        Host::Bad(k) => ["nowhere", "127.0.0.1:99999", "[::1:0"][usize::from(k % 3)].to_owned(),
    };
    let mut a = vec![format!("--data-plane-host={host}")];
    if let Some(t) = s.task {
        a.extend(["--task-id".to_owned(), TASKS[usize::from(t)].to_owned()]);
    }
    if s.secondary {
        a.push("--not-primary".into());
    }
    if s.slide {
        a.extend(["--preview-mode".to_owned(), "slide".to_owned()]);
    }
    if s.open {
        a.push("--open".into());
    }
    if let Some(same) = s.statics {
        a.push(format!("--static-file-host={}", if same { host.as_str() } else { "127.0.0.1:1" }));
    }
    if let Some(e) = s.entry {
        let f = FILES[usize::from(e)];
        a.push(if s.relative { f[1..].to_owned() } else { f.to_owned() });
    }
    match s.junk {
        0 => {}
        1 => a.push("--no-such-option".into()),
        2 => a.push("--preview-mode=paper".into()),
        3 => a.extend(["x".to_owned(), "y".to_owned(), "z".to_owned()]),
        4 => a.push("--refresh-style=never".into()),
        _ => a.push("--task-id".into()),
    }
    (a, host)
}

fn judge(c: &Case) -> Verdict {
    no_panic(|| {
        // Looks at each answer right when it is given, in a part of the cases.
        let interval = if c.ops.len() % 3 == 0 { 1 } else { 61 };
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().event_interval(interval).build().unwrap();
        let handle = rt.handle().clone();
        // As the server's own thread is.
        let _in = handle.enter();
        let mut sut = Sut::new(c, rt)?;
        if let Some(b) = &c.background {
            let st = b.clone().unwrap_or(Start { how: 3, task: None, entry: None, relative: false, secondary: false, host: Host::Free, statics: None, slide: false, open: false, junk: 0, pending: false });
            if b.is_some() {
                sut.do_start(&st, &None)?;
            }
        } else {
            sut.s.background_preview();
            sut.rest()?;
            sut.check("a background preview that is not enabled")?;
        }
        for (n, op) in c.ops.iter().enumerate() {
            sut.step(op, &c.browsing, n)?;
        }
        sut.finish_all()?;
        sut.check("all")?;
        // What is left can be killed, but for what runs in background.
        let left: Vec<String> = sut.tabs.keys().cloned().collect();
        for t in left {
            sut.kill(&t)?;
        }
        sut.check("all is killed")?;
        let s = &sut.stats;
        Ok(s.contains("killed") && s.len() > 3)
    })?
}

fn main() {
    Check::main("C59", "a preview that is killed, and three more kinds of things that happen", |c| {
        c.prop("previews", Opts::new(24000).thorough(25).shards(64).shrink(80).retries(3).confirm(3), || cases(24), judge);
        c.prop("few", Opts::new(36000).thorough(25).shards(64).shrink(80).retries(3).confirm(3), || cases(5), judge);
    })
}
#[allow(dead_code)]
fn _response(r: StartPreviewResponse) -> Value {
    serde_json::to_value(r).unwrap()
}
