//! The configuration of the server and what follows from changing it, from the
//! real sources, and stand-ins for what they name of the rest.
#![allow(dead_code, unused_imports, unused_macros)]
extern crate self as tinymist_query;
extern crate self as tinymist_render;
extern crate self as typst_shim;

include!(concat!(env!("OUT_DIR"), "/render.rs"));
pub mod completion {
    pub type PostfixSnippet = serde_json::Value;
}
pub mod completion_feat {
    include!(concat!(env!("OUT_DIR"), "/completion.rs"));
}
pub mod prelude {
    pub use ecow::EcoVec;
}
pub use completion_feat::{CompletionFeat, SymbolCompletionWay};
pub use tinymist::query::PositionEncoding;

pub mod actor {
    pub use tinymist::actor::*;
}
pub mod project {
    pub use tinymist::project::*;
}
pub mod world {
    pub use tinymist::world::*;
}
pub mod utils {
    #[path = "/repo/crates/tinymist/src/utils.rs"]
    mod real;
    pub use real::{try_, try_or, Derived};
    pub use typst::utils::LazyHash;
}
pub mod task {
    include!(concat!(env!("OUT_DIR"), "/format.rs"));
    pub use tinymist::task::ExportUserConfig;
}
pub mod config {
    include!(concat!(env!("OUT_DIR"), "/config.rs"));
    /// Names no tokens.
    pub fn get_semantic_tokens_options() -> SemanticTokensOptions {
        SemanticTokensOptions::default()
    }
}
pub mod lsp {
    include!(concat!(env!("OUT_DIR"), "/lsp.rs"));
    pub mod init {
        include!(concat!(env!("OUT_DIR"), "/init.rs"));
    }
}
pub mod server {
    include!(concat!(env!("OUT_DIR"), "/server.rs"));

    /// What the configuration has been applied to.
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Applied {
        Export,
        Reload,
        Formatter,
    }
    /// Keeps its configuration.
    pub struct FormatTask(pub FormatUserConfig);
    pub struct ServerState {
        pub client: TypedLspClient<Self>,
        pub config: Config,
        pub sema_tokens_registered: bool,
        pub formatter_registered: bool,
        pub editor_tx: tokio::sync::mpsc::UnboundedSender<EditorRequest>,
        pub editor_rx: tokio::sync::mpsc::UnboundedReceiver<EditorRequest>,
        pub export: ExportUserConfig,
        pub formatter: FormatTask,
        pub applied: Vec<Applied>,
        pub started: bool,
    }
    impl FormatTask {
        pub fn change_config(&mut self, c: FormatUserConfig) {
            self.0 = c;
        }
    }
    impl ServerState {
        /// A server with this configuration.
        pub fn main(client: TypedLspClient<Self>, config: Config, start: bool) -> Self {
            let (editor_tx, editor_rx) = tokio::sync::mpsc::unbounded_channel();
            Self {
                client,
                sema_tokens_registered: false,
                formatter_registered: false,
                editor_tx,
                editor_rx,
                export: config.export(),
                formatter: FormatTask(config.formatter()),
                config,
                applied: vec![],
                started: start,
            }
        }
        pub fn const_config(&self) -> &ConstConfig {
            &self.config.const_config
        }
        pub fn change_export_config(&mut self, c: ExportUserConfig) {
            self.applied.push(Applied::Export);
            self.export = c;
        }
        pub fn reload_projects(&mut self) -> Result<()> {
            self.applied.push(Applied::Reload);
            Ok(())
        }
    }
    use crate::actor::editor::EditorRequest;
    use crate::task::{ExportUserConfig, FormatUserConfig};
}

pub use config::*;
pub use server::*;
pub use sync_ls::LspClient;
pub use world::{CompileFontArgs, CompileOnceArgs, CompilePackageArgs};

use sync_ls::*;
use utils::*;
use world::*;
