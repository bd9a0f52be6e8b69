pub mod word_count {
    use serde::{Deserialize, Serialize};
    use tinymist_std::typst::TypstDocument;
    #[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(rename_all = "camelCase")]
    pub struct WordsCount {
        pub words: usize,
        pub chars: usize,
        pub spaces: usize,
        pub cjk_chars: usize,
    }
    /// The number of pages and characters.
    pub fn word_count(doc: &TypstDocument) -> WordsCount {
        let chars = match doc {
            TypstDocument::Paged(d) => d.pages.iter().flat_map(|p| &p.lines).map(|l| l.chars().count()).sum(),
            TypstDocument::Html(d) => d.root.lines.iter().map(|l| l.chars().count()).sum(),
        };
        WordsCount { chars, ..Default::default() }
    }
}
pub mod preview {
    /// As that of `hyper`.
    #[derive(Debug, Clone)]
    pub struct HeaderValue(pub Vec<u8>);
    impl HeaderValue {
        pub fn to_str(&self) -> Result<&str, ()> {
            let visible = |b: &u8| (32..127).contains(b) || *b == b'\t';
            self.0.iter().all(visible).then(|| std::str::from_utf8(&self.0).unwrap()).ok_or(())
        }
    }
    impl PartialEq<String> for HeaderValue {
        fn eq(&self, o: &String) -> bool {
            self.0 == o.as_bytes()
        }
    }
    impl PartialEq<HeaderValue> for String {
        fn eq(&self, o: &HeaderValue) -> bool {
            self.as_bytes() == o.0
        }
    }
    pub mod http {
        use super::HeaderValue;
        include!(concat!(env!("OUT_DIR"), "/http.rs"));
    }
    pub mod compile {
        use tinymist_project::LspCompiledArtifact;
        use tinymist_std::typst::TypstDocument;
        use crate::typst_preview::{self, CompileStatus};
        /// As the real one.
        pub struct PreviewCompileView {
            pub art: LspCompiledArtifact,
        }
        impl typst_preview::CompileView for PreviewCompileView {
            fn doc(&self) -> Option<TypstDocument> {
                self.art.doc.clone()
            }
            fn status(&self) -> CompileStatus {
                match self.art.doc {
                    Some(_) => CompileStatus::CompileSuccess,
                    None => CompileStatus::CompileError,
                }
            }
            fn is_on_saved(&self) -> bool {
                self.art.snap.signal.by_fs_events
            }
            fn is_by_entry_update(&self) -> bool {
                self.art.snap.signal.by_entry_update
            }
        }
    }
    pub use compile::PreviewCompileView;
    #[cfg(feature = "real-preview")]
    mod handler {
        include!(concat!(env!("OUT_DIR"), "/preview_compile.rs"));
    }
    #[cfg(feature = "real-preview")]
    pub mod http_server {
        use crate::web::{http_body_util, hyper, hyper_tungstenite, hyper_util};
        include!(concat!(env!("OUT_DIR"), "/http_server.rs"));
    }
    #[cfg(feature = "real-preview")]
    mod real {
        use super::*;
        use crate::web::{hyper_tungstenite, tinymist_assets};
        include!(concat!(env!("OUT_DIR"), "/preview.rs"));
    }
    #[cfg(feature = "real-preview")]
    pub use {handler::*, http_server::{make_http_server, HttpServer}, real::*};
    #[cfg(not(feature = "real-preview"))]
    #[derive(Default)]
    pub struct PreviewState {
        pub watchers: crate::project::ProjectPreviewState,
    }
    #[cfg(not(feature = "real-preview"))]
    impl PreviewState {
        pub fn stop_all(&mut self) {}
    }
}
