use crate::task::ExportUserConfig;
use tinymist_project::EntryResolver;
use tinymist_query::PositionEncoding;
#[derive(Debug, Clone, Default)]
pub struct ConstConfig {
    pub position_encoding: PositionEncoding,
}
#[derive(Clone, Default)]
pub struct Config {
    pub customized_show_document: bool,
    pub preview: PreviewFeat,
    pub has_default_entry_path: bool,
    pub entry_resolver: EntryResolver,
    pub const_config: ConstConfig,
    pub export: ExportUserConfig,
    pub make_project: Option<MakeProject>,
    pub export_target: tinymist_task::ExportTarget,
}

pub type MakeProject = std::sync::Arc<dyn Fn(&Config, tokio::sync::mpsc::UnboundedSender<crate::actor::editor::EditorRequest>, crate::project::ProjectPreviewState) -> crate::project::ProjectState + Send + Sync>;

#[derive(Debug, Clone, Default)]
pub struct PreviewFeat {
    pub browsing: BrowsingPreviewOpts,
    pub background: BackgroundPreviewOpts,
}
#[derive(Debug, Clone, Default)]
pub struct BrowsingPreviewOpts {
    pub args: Option<Vec<String>>,
}
#[derive(Debug, Clone, Default)]
pub struct BackgroundPreviewOpts {
    pub enabled: bool,
    pub args: Option<Vec<String>>,
}
