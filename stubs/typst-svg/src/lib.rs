//! Stand-in for `typst-svg`: says what it was asked to draw.
use typst::layout::{Abs, Page, PagedDocument};
pub fn svg(page: &Page) -> String {
    format!("svg page {:?}\n", page.lines)
}
pub fn svg_merged(doc: &PagedDocument, gap: Abs) -> String {
    format!("svg merged by {} {:?}\n", gap.to_pt(), doc.pages.iter().map(|p| &p.lines).collect::<Vec<_>>())
}
