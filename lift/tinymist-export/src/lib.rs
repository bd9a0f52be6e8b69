//! The export commands, from the real sources, and stand-ins for what they
//! name of the rest.
#![allow(dead_code, unused_imports, unused_macros)]
extern crate self as tinymist_query;
pub use query_parts::{url_to_path, LspWorldExt};
pub mod project {
    pub use tinymist::project::*;
    pub use tinymist_project::*;
    pub use tinymist_task::*;
    pub use tinymist_world::{EntryReader, EntryState, TaskInputs};
}
pub mod world {
    pub use tinymist_world as base;
    pub use tinymist_world::*;
}
#[path = "/repo/crates/tinymist/src/utils.rs"]
mod utils;
pub mod lsp {
    pub mod init {
        pub use super::query::QueryFuture;
    }
    pub mod query {
        include!(concat!(env!("OUT_DIR"), "/query.rs"));
        macro_rules! run_query {
            ($req_id: ident, $self: ident.$query: ident ($($arg_key:ident),* $(,)?)) => {{
                let req = crate::OnExportRequest { $($arg_key),* };
                let query_fut = $self.on_export(req.clone());
                $self.client.untyped().schedule_query($req_id, query_fut)
            }};
        }
        pub(crate) use run_query;
    }
}
pub mod task {
    pub use tinymist::task::*;
    pub mod export {
        include!(concat!(env!("OUT_DIR"), "/export.rs"));
        pub struct ExportTask;
    }
    pub use export::ExportTask;
}
/// Writes files as what is named in the exporting code does, in the scratch
/// directories of this process.
pub mod guard {
    use std::path::Path;
    fn ours(path: &Path) -> bool {
        let base = format!("verif-{}-", std::process::id());
        let inside = path.starts_with("/dev/shm") || path.starts_with(std::env::temp_dir());
        let mut depth = 0;
        for p in path.components() {
            match p {
                std::path::Component::ParentDir if depth == 0 => {}
                std::path::Component::ParentDir => depth -= 1,
                std::path::Component::Normal(n) if depth > 0 || n.to_string_lossy().starts_with(&base) => depth += 1,
                _ => {}
            }
        }
        inside && depth > 0
    }
    pub fn create_dir_all(path: impl AsRef<Path>) -> std::io::Result<()> {
        if !ours(path.as_ref()) {
            return Err(std::io::Error::other(format!("not where this check is: {:?}", path.as_ref())));
        }
        std::fs::create_dir_all(path)
    }
    pub fn write_atomic(path: impl AsRef<Path>, data: impl AsRef<[u8]>) -> anyhow::Result<()> {
        if !ours(path.as_ref()) {
            anyhow::bail!("not where this check is: {:?}", path.as_ref());
        }
        tinymist_std::fs::paths::write_atomic(path, data)
    }
}
pub mod cmd {
    include!(concat!(env!("OUT_DIR"), "/cmd.rs"));
}
pub mod requests {
    use tinymist_task::ProjectTask;
    /// As the real one.
    #[derive(Debug, Clone)]
    pub struct OnExportRequest {
        pub path: std::path::PathBuf,
        pub task: ProjectTask,
        pub open: bool,
    }
    /// As the real one.
    #[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
    #[serde(untagged)]
    pub enum CompilerQueryResponse {
        OnExport(Option<std::path::PathBuf>),
    }
}
pub use requests::*;
pub mod server {
    include!(concat!(env!("OUT_DIR"), "/server.rs"));

    pub struct ServerState {
        pub client: sync_ls::TypedLspClient<ServerState>,
        pub config: tinymist_config::Config,
        pub base: tinymist::ServerState,
    }
    impl ServerState {
        pub fn snapshot(&mut self) -> Result<LspComputeGraph> {
            self.base.project.snapshot()
        }
    }
}
pub use server::*;
pub use sync_ls::LspClient;
pub use tinymist_world::args::*;

use serde_json::from_value;
use sync_ls::*;
use utils::*;
use world::*;
