use crate::actor::editor::EditorRequest;
use crate::project::{EntryResolver, ProjectState};
use crate::route::ProjectRouteState;
use crate::{Config, ConstConfig};
use reflexo::debug_loc::LspPosition;
use sync_ls::TypedLspClient;
use tokio::sync::mpsc;
use typst::syntax::Source;
include!(concat!(env!("OUT_DIR"), "/server.rs"));

#[cfg(not(feature = "real-preview"))]
pub enum ServerEvent {
    UnpinPrimaryByPreview,
}
#[cfg(feature = "real-preview")]
pub mod preview_events {
    use crate::{typst_preview, ServerState};
    use sync_ls::*;
    include!(concat!(env!("OUT_DIR"), "/server_preview.rs"));
}
#[cfg(feature = "real-preview")]
pub use preview_events::ServerEvent;
/// The state the real one has of these.
pub struct ServerState {
    pub client: TypedLspClient<Self>,
    pub route: ProjectRouteState,
    pub project: ProjectState,
    pub preview: crate::tool::preview::PreviewState,
    pub pinning_by_user: bool,
    pub pinning_by_preview: bool,
    pub pinning_by_browsing_preview: bool,
    pub focusing: Option<ImmutPath>,
    pub implicit_position: Option<LspPosition>,
    pub ever_focusing_by_activities: bool,
    pub ever_manual_focusing: bool,
    pub config: Config,
    pub memory_changes: HashMap<Arc<Path>, Source>,
    pub editor_tx: mpsc::UnboundedSender<EditorRequest>,
}
impl ServerState {
    pub fn const_config(&self) -> &ConstConfig {
        &self.config.const_config
    }
    pub fn entry_resolver(&self) -> &EntryResolver {
        &self.config.entry_resolver
    }
}

impl ServerState {
    /// A fresh project, made as the configuration tells.
    pub fn project(config: &Config, editor_tx: mpsc::UnboundedSender<EditorRequest>, _: TypedLspClient<ServerState>, preview: crate::project::ProjectPreviewState) -> ProjectState {
        (config.make_project.as_ref().unwrap())(config, editor_tx, preview)
    }
}
