//! Stand-in for `reflexo-vec2svg`: says what it was asked to draw.
pub struct DefaultExportFeature;
pub fn render_svg_html<F>(doc: &typst::layout::PagedDocument) -> String {
    format!("svg-html {:?}\n", doc.pages.iter().map(|p| &p.lines).collect::<Vec<_>>())
}

use reflexo_typst::debug_loc::{ElementPoint, SourceSpanOffset};
use tinymist_std::typst::TypstDocument;
use typst::syntax::Span;

/// Stands for the renderer of one page: knows the document it rendered last,
/// and says how to get from that to another. A document is its title.
#[derive(Default)]
pub struct IncrSvgDocServer {
    now: Option<String>,
    debug: bool,
}
impl IncrSvgDocServer {
    pub fn set_should_attach_debug_info(&mut self, v: bool) {
        self.debug = v;
    }
    /// The document rendered last, from nothing.
    pub fn pack_current(&mut self) -> Option<Vec<u8>> {
        self.now.as_ref().map(|n| format!("new,{n}").into_bytes())
    }
    /// What turns the document rendered last into this one.
    pub fn pack_delta(&mut self, doc: &TypstDocument) -> Vec<u8> {
        let to = doc.info().title.clone().unwrap_or_default().to_string();
        // A document that takes its time.
        if to.starts_with('z') {
            std::thread::sleep(std::time::Duration::from_millis(30));
        }
        let from = self.now.replace(to.clone());
        format!("diff-v1,{}>{to}", from.unwrap_or_default()).into_bytes()
    }
    /// `[kind, index]` spans the spans of those numbers; no other length does.
    pub fn resolve_span_by_element_path(&mut self, path: &[ElementPoint]) -> Result<Option<(SourceSpanOffset, SourceSpanOffset)>, tinymist_std::Error> {
        let at = |n: u32, offset: usize| SourceSpanOffset { span: Span::from_raw(std::num::NonZeroU64::new(u64::from(n) + 1).unwrap()), offset };
        match path {
            [] => Err(tinymist_std::error_once!("no path")),
            [p] if self.debug => Ok(Some((at(p.kind, 0), at(p.index, p.fingerprint.len())))),
            _ => Ok(None),
        }
    }
    pub fn resolve_element_paths_by_span(&mut self, s: SourceSpanOffset) -> Result<Vec<Vec<ElementPoint>>, tinymist_std::Error> {
        match &self.now {
            Some(now) => Ok(vec![vec![ElementPoint { kind: s.span.into_raw().get() as u32, index: s.offset as u32, fingerprint: now.clone() }]]),
            None => Err(tinymist_std::error_once!("nothing rendered")),
        }
    }
}
