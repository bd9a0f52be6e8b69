//! The parts of the server that hold its state, from the real sources, and
//! stand-ins for what they name of the rest.
#![allow(dead_code, unused_imports, unused_macros)]
pub mod actor {
    #[path = "/repo/crates/tinymist/src/actor/editor.rs"]
    pub mod editor;
    #[cfg(feature = "real-preview")]
    #[path = "/repo/crates/tinymist/src/actor/preview.rs"]
    pub mod preview;
}
#[path = "/repo/crates/tinymist/src/input.rs"]
pub mod input;
#[path = "/repo/crates/tinymist/src/route.rs"]
pub mod route;
#[path = "/repo/crates/tinymist/src/utils.rs"]
pub mod utils;
pub mod cmd {
    include!(concat!(env!("OUT_DIR"), "/cmd.rs"));
}
#[cfg(feature = "real-preview")]
mod cmd_preview {
    use crate::typst_preview;
    include!(concat!(env!("OUT_DIR"), "/cmd_preview.rs"));
}
#[cfg(feature = "real-preview")]
pub mod web;
pub mod lsp {
    include!(concat!(env!("OUT_DIR"), "/lsp.rs"));
}
pub mod config;
pub mod project;
pub mod server;
pub mod stats {}
pub mod task;
pub mod tool;
#[cfg(not(feature = "real-preview"))]
pub mod typst_preview;
#[cfg(feature = "real-preview")]
pub use ::typst_preview;


pub use config::*;
pub use server::*;
pub use sync_ls::LspClient;
pub use tinymist_project::world;
pub use tinymist_query as query;

use serde_json::from_value;
use sync_ls::*;
use utils::*;
use world::*;
