use crate::{typst_preview, ServerState};
use analysis::{Analysis, CheckRequest};
include!(concat!(env!("OUT_DIR"), "/project.rs"));

/// What the handler asks of the language analysis.
pub mod analysis {
    use ecow::EcoVec;
    use lsp_types::{Diagnostic, Url};
    use tinymist_project::{LspCompiledArtifact, LspWorld};
    use tinymist_query::{DiagnosticsMap, PositionEncoding};
    use tinymist_task::TaskWhen;
    use typst::World;

    #[derive(Debug, Clone, Default)]
    pub struct Analysis {
        pub position_encoding: PositionEncoding,
        pub lint: TaskWhen,
    }
    impl Analysis {
        pub fn enter(&self, world: LspWorld) -> LspWorld {
            world
        }
    }
    /// All of them at the main file.
    pub fn convert_diagnostics<'a>(w: &LspWorld, d: impl Iterator<Item = &'a typst::diag::SourceDiagnostic>, _: PositionEncoding) -> DiagnosticsMap {
        let path = w.path_for_id(w.main()).ok().and_then(|p| Url::from_file_path(p.as_path()).ok());
        let url = path.unwrap_or_else(|| Url::parse("untitled:main").unwrap());
        let all: EcoVec<Diagnostic> = d.map(|d| Diagnostic { message: d.message.to_string(), ..Default::default() }).collect();
        if all.is_empty() {
            return DiagnosticsMap::default();
        }
        DiagnosticsMap::from_iter([(url, all)])
    }
    pub struct CheckRequest {
        pub snap: LspCompiledArtifact,
    }
    impl CheckRequest {
        /// Takes longer at every other revision.
        pub fn request(self, w: &mut LspWorld) -> Option<DiagnosticsMap> {
            if w.revision().get() % 2 == 1 {
                std::thread::sleep(std::time::Duration::from_millis(3));
            }
            Some(convert_diagnostics(w, self.snap.diagnostics(), PositionEncoding::Utf16))
        }
    }
}
/// As the real one, without the queries.
pub struct ProjectState {
    pub compiler: LspProjectCompiler,
    pub preview: ProjectPreviewState,
    pub analysis: Arc<Analysis>,
    pub export: crate::task::ExportTask,
}
