//! Stand-in for the `reflexo-typst` crate.
pub use ::typst::foundations::Bytes;
pub use ::typst::foundations::Dict as TypstDict;
pub use ::typst::utils::LazyHash;
pub use tinymist_std::error;
pub use tinymist_std::ImmutPath;
pub use tinymist_std::path;
pub use tinymist_std::typst::TypstDocument;
pub use tinymist_world::{CompilationTask, CompilerWorld, ExportComputation, TaskInputs};
pub mod query {
    use ::typst::foundations::Content;
    use tinymist_std::typst::TypstDocument;
    /// The lines of the document that begin with the label.
    pub fn retrieve<W>(_: &W, selector: &str, doc: &TypstDocument) -> Result<Vec<Content>, String> {
        if !selector.starts_with('<') || !selector.ends_with('>') {
            return Err(format!("failed to evaluate selector: {selector}"));
        }
        let lines: Vec<_> = match doc {
            TypstDocument::Paged(d) => d.pages.iter().flat_map(|p| p.lines.iter()).cloned().collect(),
            TypstDocument::Html(d) => d.root.lines.iter().cloned().collect(),
        };
        Ok(lines.into_iter().filter(|l| l.split(' ').next() == Some(selector)).map(Content::line).collect())
    }
}
pub mod typst {
    pub use ::typst::*;
    pub mod prelude {
        pub use ecow::{eco_vec, EcoString, EcoVec};
    }
}
#[derive(Debug, Clone, Copy)]
pub enum DiagnosticFormat {
    Human,
    Short,
}
pub mod diag {
    pub fn print_diagnostics<'d, W, D: Iterator<Item = &'d typst::diag::SourceDiagnostic>>(_: &W, d: D, _: super::DiagnosticFormat) -> Result<(), String> {
        d.count();
        Ok(())
    }
}
pub use tinymist_std::Error;
pub mod time {
    pub use std::time::Duration;
}
pub mod debug_loc {
    use serde::{Deserialize, Serialize};
    /// A position in a source file, as the LSP counts it.
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
    pub struct LspPosition {
        pub line: u32,
        pub character: u32,
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct SourceLocation {
        pub filepath: String,
        pub pos: LspPosition,
    }
    /// A place on a page.
    #[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
    pub struct DocumentPosition {
        pub page_no: usize,
        pub x: f32,
        pub y: f32,
    }
    pub type SourceSpan = typst::syntax::Span;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct SourceSpanOffset {
        pub span: SourceSpan,
        pub offset: usize,
    }
    impl From<SourceSpan> for SourceSpanOffset {
        fn from(span: SourceSpan) -> Self {
            Self { span, offset: 0 }
        }
    }
    /// A step of the way to an element of a rendered page.
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct ElementPoint {
        pub kind: u32,
        pub index: u32,
        pub fingerprint: String,
    }
    impl From<(u32, u32, String)> for ElementPoint {
        fn from((kind, index, fingerprint): (u32, u32, String)) -> Self {
            Self { kind, index, fingerprint }
        }
    }
}
