//! The parts of `tinymist-query` that do not need the compiler, from the real
//! sources, and stand-ins for what they name of the rest.
#![allow(dead_code)]
pub mod adt {
    #[path = "/repo/crates/tinymist-query/src/adt/revision.rs"]
    pub mod revision;
}
#[path = "/repo/crates/tinymist-query/src/lsp_typst_boundary.rs"]
pub mod lsp_typst_boundary;
#[path = "/repo/crates/tinymist-query/src/semantic_tokens_delta.rs"]
mod semantic_tokens_delta;
#[path = "/repo/crates/tinymist-query/src/semantic_tokens_full.rs"]
mod semantic_tokens_full;
pub use lsp_typst_boundary::*;
pub use semantic_tokens_delta::*;
pub use semantic_tokens_full::*;

pub mod world_ext {
    include!(concat!(env!("OUT_DIR"), "/world_ext.rs"));
}
pub use world_ext::LspWorldExt;

pub type DiagnosticsMap = std::collections::HashMap<lsp_types::Url, ecow::EcoVec<lsp_types::Diagnostic>>;

pub mod prelude {
    pub use crate::analysis::LocalContext;
    pub use crate::lsp_typst_boundary::{path_to_url, to_lsp_position, to_lsp_range, to_typst_position, to_typst_range, LspRange, PositionEncoding};
    pub use crate::SemanticRequest;
    pub use ecow::{eco_vec, EcoVec};
    pub use lsp_types::{Diagnostic, Position as LspPosition, SemanticTokens, SemanticTokensDelta, SemanticTokensFullDeltaResult, SemanticTokensResult, TextEdit, Url, WorkspaceEdit};
    pub use serde_json::Value as JsonValue;
    pub use std::collections::HashMap;
    pub use std::iter;
    pub use std::ops::Range;
    pub use std::path::{Path, PathBuf};
    pub use std::sync::{Arc, LazyLock, OnceLock};
    pub use typst::syntax::{FileId as TypstFileId, Source};
}

pub mod syntax {
    pub type ExprInfo = crate::analysis::Info;
}

pub trait SemanticRequest {
    type Response;
    fn request(self, ctx: &mut analysis::LocalContext) -> Option<Self::Response>;
}

pub enum CompilerQueryRequest {
    SemanticTokensFull(SemanticTokensFullRequest),
    SemanticTokensDelta(SemanticTokensDeltaRequest),
    Other,
}

pub mod analysis {
    pub use global::*;
    pub use semantic_tokens::{SemanticTokenCache, SemanticTokenContext, SemanticTokens};

    pub mod semantic_tokens {
        use super::LocalContext;
        use typst::syntax::Source;

        /// One token for each number of the text.
        pub fn get_semantic_tokens(_: &mut LocalContext, source: &Source) -> SemanticTokens {
            SemanticTokens::new(tokens_of(source.text()))
        }
        pub fn tokens_of(text: &str) -> Vec<SemanticToken> {
            text.split_whitespace()
                .map(|w| {
                    let n: u32 = w.parse().unwrap();
                    SemanticToken { delta_line: n & 1, delta_start: n >> 1, length: n + 1, token_type: n, token_modifiers_bitset: 0 }
                })
                .collect()
        }
        include!(concat!(env!("OUT_DIR"), "/semantic_tokens.rs"));
    }
    /// What is known of a file at a revision.
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Info {
        pub fid: typst::syntax::FileId,
        pub revision: usize,
        pub value: u64,
    }
    pub type TypeInfo = Info;
    pub mod prelude {
        pub use crate::prelude::*;
        pub use std::hash::Hash;
    }
    pub mod global {
        use crate::analysis::semantic_tokens::*;
        pub type LintInfo = super::Info;
        include!(concat!(env!("OUT_DIR"), "/global.rs"));

        #[derive(Default)]
        pub struct AnalysisGlobalCaches {
            pub signatures: CacheMap<u32>,
            pub def_signatures: CacheMap<u32>,
            pub static_signatures: CacheMap<u32>,
            pub terms: CacheMap<u32>,
        }
        #[derive(Default)]
        pub struct Analysis {
            pub tokens_caches: Arc<Mutex<SemanticTokenCache>>,
            pub caches: AnalysisGlobalCaches,
            pub analysis_rev_cache: Arc<Mutex<AnalysisRevCache>>,
        }
        /// Knows one text.
        pub struct LocalContext {
            pub tokens: Option<SemanticTokenContext>,
            pub source: Source,
        }
        impl LocalContext {
            pub fn source_by_path(&self, _: &Path) -> Result<Source, ()> {
                Ok(self.source.clone())
            }
        }
    }
}
