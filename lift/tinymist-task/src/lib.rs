//! The task model and some of the exporters, from the real sources.
#[path = "/repo/crates/tinymist-task/src/model.rs"]
mod model;
pub use model::*;
#[path = "/repo/crates/tinymist-task/src/primitives.rs"]
mod primitives;
pub use primitives::*;

pub mod compute {
    use typst::foundations::Bytes;
    include!(concat!(env!("OUT_DIR"), "/compute.rs"));

    #[path = "/repo/crates/tinymist-task/src/compute/pdf.rs"]
    pub mod pdf;
    pub use pdf::*;
    /// Stands in for the text exporter: the lines.
    pub struct TextExport;
    impl TextExport {
        pub fn run_on_doc(doc: &TypstDocument) -> Result<String> {
            let pages = match doc {
                TypstDocument::Paged(d) => d.pages.clone(),
                TypstDocument::Html(d) => vec![d.root.clone()],
            };
            Ok(format!("text {:?}\n", pages.into_iter().flat_map(|p| p.lines).collect::<Vec<_>>()))
        }
    }
}
pub use compute::*;
