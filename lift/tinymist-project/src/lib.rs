//! `tinymist-project` from the real sources.
#[path = "/repo/crates/tinymist-project/src/args.rs"]
mod args;
#[path = "/repo/crates/tinymist-project/src/compiler.rs"]
mod compiler;
#[path = "/repo/crates/tinymist-project/src/entry.rs"]
mod entry;
#[path = "/repo/crates/tinymist-project/src/lock.rs"]
mod lock;
#[path = "/repo/crates/tinymist-project/src/lsp.rs"]
mod lsp;
#[path = "/repo/crates/tinymist-project/src/model.rs"]
mod model;
#[path = "/repo/crates/tinymist-project/src/watch.rs"]
mod watch;
#[path = "/repo/crates/tinymist-project/src/world.rs"]
pub mod world;
pub use args::*;
pub use compiler::*;
pub use entry::*;
pub use lock::*;
pub use lsp::*;
pub use model::*;
pub use tinymist_world::{CompileSnapshot, ExportSignal, ProjectInsId};
pub use watch::*;
pub use world::*;
/// The default project route priority assigned to user actions.
pub const PROJECT_ROUTE_USER_ACTION_PRIORITY: u32 = 256;
/// No fonts.
extern crate self as typst_assets;
pub fn fonts() -> impl Iterator<Item = &'static [u8]> {
    std::iter::empty()
}
