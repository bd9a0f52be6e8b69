//! `tinymist-world` from the real sources, without the parts that need typst's
//! parser, fonts or the network: what parses tokens, searches fonts and
//! downloads packages is stood in for.
#![allow(dead_code)]
#[path = "/repo/crates/tinymist-world/src/args.rs"]
pub mod args;
#[path = "/repo/crates/tinymist-world/src/compute.rs"]
mod compute;
#[path = "/repo/crates/tinymist-world/src/debug_loc.rs"]
pub mod debug_loc;
#[path = "/repo/crates/tinymist-world/src/entry.rs"]
pub mod entry;
pub mod package {
    #[path = "/repo/crates/tinymist-world/src/package/mod.rs"]
    mod real;
    pub use real::*;
    pub mod registry {
        pub use crate::system::HttpRegistry;
        pub use tinymist_package::registry::*;
    }
}
pub mod config {
    #[derive(Debug, Clone, PartialEq, Default)]
    pub struct CompileFontOpts {
        pub font_paths: Vec<std::path::PathBuf>,
        pub no_system_fonts: bool,
        pub with_embedded_fonts: Vec<std::borrow::Cow<'static, [u8]>>,
    }
}
#[path = "/repo/crates/tinymist-world/src/snapshot.rs"]
mod snapshot;
#[path = "/repo/crates/tinymist-world/src/source.rs"]
pub mod source;
#[path = "/repo/crates/tinymist-world/src/world.rs"]
pub mod world;
pub mod font {
    #[path = "/repo/crates/tinymist-world/src/font/loader.rs"]
    mod loader;
    #[path = "/repo/crates/tinymist-world/src/font/resolver.rs"]
    mod resolver;
    #[path = "/repo/crates/tinymist-world/src/font/slot.rs"]
    mod slot;
    pub mod system {
        use super::FontResolverImpl;
        /// Finds no fonts.
        #[derive(Default)]
        pub struct SystemFontSearcher(Vec<std::path::PathBuf>);
        impl SystemFontSearcher {
            pub fn new() -> Self {
                Self::default()
            }
            pub fn resolve_opts(&mut self, o: crate::config::CompileFontOpts) -> tinymist_std::Result<()> {
                self.0 = o.font_paths;
                Ok(())
            }
            pub fn build(self) -> FontResolverImpl {
                FontResolverImpl::new(self.0, Default::default(), vec![])
            }
        }
    }
    pub use loader::*;
    pub use resolver::*;
    pub use slot::*;
}
/// No tokens.
pub mod parser {
    pub struct SemanticToken;
    pub struct SemanticTokensLegend;
    pub enum OffsetEncoding {
        Utf16,
    }
    pub fn get_semantic_tokens_legend() -> SemanticTokensLegend {
        SemanticTokensLegend
    }
    pub fn get_semantic_tokens_full(_: &typst::syntax::Source, _: OffsetEncoding) -> Vec<SemanticToken> {
        vec![]
    }
}
include!(concat!(env!("OUT_DIR"), "/lib.rs"));
pub use args::*;
pub use compute::*;
pub use entry::*;
pub use snapshot::*;
use typst::diag::At;
pub use world::*;

pub mod system;
pub use system::{HttpRegistry, SystemUniverseBuilder};
