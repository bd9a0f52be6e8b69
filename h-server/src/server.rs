//! A server's state without compilations, for what it holds and points at.
use std::path::Path;
use std::sync::Arc;
use sync_ls::lsp::{self, Notification};
use sync_ls::{Connection, LspClientRoot, LspMessage, Message};
use tinymist::actor::editor::EditorRequest;
use tinymist::project::analysis::Analysis;
use tinymist::project::ProjectState;
use tinymist::task::ExportTask;
use tinymist::{Config, ServerState};
use tinymist_project::*;
use tinymist_vfs::notify::{FilesystemEvent, NotifyMessage};
use tinymist_vfs::FileChangeSet;
use tinymist_world::EntryState;
use tokio::sync::mpsc;
use typst::diag::FileResult;
use typst::foundations::Bytes;
use tinymist_query::LspWorldExt;
use typst::World;

pub struct Server {
    pub s: ServerState,
    pub editor: mpsc::UnboundedReceiver<EditorRequest>,
    pub sent: crossbeam_channel::Receiver<Message>,
    deps: Arc<parking_lot::Mutex<Vec<mpsc::UnboundedReceiver<NotifyMessage>>>>,
    pub root: LspClientRoot,
    _ends: Vec<Box<dyn std::any::Any>>,
    pub rt: tokio::runtime::Runtime,
}

/// A client, and what it is sent.
pub fn client(handle: tokio::runtime::Handle) -> (LspClientRoot, crossbeam_channel::Receiver<Message>, Vec<Box<dyn std::any::Any>>) {
    let (ev_tx, ev_rx) = crossbeam_channel::unbounded();
    let (out_tx, sent) = crossbeam_channel::unbounded();
    let (in_tx, in_rx) = crossbeam_channel::unbounded();
    let conn: Connection<LspMessage> = Connection::<Message>::verif_from_channels((ev_tx, ev_rx), (out_tx, in_rx)).into();
    let root = LspClientRoot::new(handle, conn.sender);
    (root, sent, vec![Box::new(conn.receiver), Box::new(in_tx)])
}
pub fn notification(m: &Message) -> Option<&Notification> {
    match m {
        Message::Lsp(lsp::Message::Notification(n)) => Some(n),
        _ => None,
    }
}

impl Server {
    pub fn new(mut config: Config) -> Self {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
        let handle = rt.handle().clone();
        let (root, sent, ends) = client(handle.clone());
        let deps: Arc<parking_lot::Mutex<Vec<_>>> = Arc::default();
        let to = deps.clone();
        config.make_project = Some(Arc::new(move |config: &Config, editor_tx, preview| {
            let (dep_tx, dep_rx) = mpsc::unbounded_channel();
            to.lock().push(dep_rx);
            let entry = config.entry_resolver.resolve(config.entry_resolver.resolve_default());
            ProjectState {
                compiler: ProjectCompiler::new(
                    crate::pipeline::universe(entry, false, 0),
                    dep_tx,
                    CompileServerOpts {
                        handler: Arc::new(std::marker::PhantomData),
                        enable_watch: false,
                        export_target: Default::default(),
                    },
                ),
                preview,
                analysis: Arc::new(Analysis::default()),
                export: ExportTask::new(handle.clone(), Some(editor_tx), config.export.clone()),
            }
        }));
        let (editor_tx, editor) = mpsc::unbounded_channel();
        let project = (config.make_project.as_ref().unwrap())(&config, editor_tx.clone(), Default::default());
        let s = ServerState {
            client: root.weak().to_typed::<ServerState>(),
            route: Default::default(),
            project,
            preview: Default::default(),
            pinning_by_user: false,
            pinning_by_preview: false,
            pinning_by_browsing_preview: false,
            focusing: None,
            implicit_position: None,
            ever_focusing_by_activities: false,
            ever_manual_focusing: false,
            config,
            memory_changes: Default::default(),
            editor_tx,
        };
        Self {
            s,
            editor,
            sent,
            deps,
            root,
            _ends: ends,
            rt,
        }
    }

    /// Answers what the compilers ask the watcher.
    pub fn pump(&mut self) {
        self.pump_of(|s| &mut s.s);
    }
    /// As `pump`, where the state has been moved.
    pub fn pump_to(&mut self, state: &mut ServerState) {
        self.pump_of(|_| state);
    }
    fn pump_of<'a>(&'a mut self, state: impl FnOnce(&'a mut Self) -> &'a mut ServerState) {
        let mut asked = vec![];
        for rx in self.deps.lock().iter_mut() {
            while let Ok(m) = rx.try_recv() {
                asked.push(m);
            }
        }
        let s = state(self);
        for m in asked {
            if let NotifyMessage::UpstreamUpdate(ev) = m {
                s.project.interrupt(Interrupt::Fs(FilesystemEvent::UpstreamUpdate {
                    changeset: FileChangeSet::default(),
                    upstream_event: Some(ev),
                }));
            }
        }
    }

    /// What each of the projects is about to compile.
    pub fn entries(&mut self) -> Vec<(ProjectInsId, EntryState)> {
        use tinymist_world::EntryReader;
        self.s.project.compiler.projects().map(|p| (p.id.clone(), p.verse.entry_state())).collect()
    }

    /// What each of the projects sees in a file.
    pub fn seen(&mut self, path: &Path) -> Vec<(ProjectInsId, FileResult<Bytes>)> {
        let mut out = vec![];
        for p in self.s.project.compiler.projects() {
            let w = p.verse.snapshot();
            if let Ok(id) = w.file_id_by_path(path) {
                out.push((p.id.clone(), w.file(id)));
            }
        }
        out
    }
}
