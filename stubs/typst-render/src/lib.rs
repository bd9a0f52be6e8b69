//! Stand-in for `typst-render`: says what it was asked to draw.
use typst::layout::{Abs, Page, PagedDocument};
use typst::visualize::Color;
pub struct Pixmap(String);
impl Pixmap {
    pub fn encode_png(&self) -> Result<Vec<u8>, String> {
        Ok(self.0.clone().into_bytes())
    }
}
pub fn render(page: &Page, pixel_per_pt: f32) -> Pixmap {
    Pixmap(format!("png at {pixel_per_pt} page {:?}\n", page.lines))
}
pub fn render_merged(doc: &PagedDocument, pixel_per_pt: f32, gap: Abs, fill: Option<Color>) -> Pixmap {
    let fill = fill.map(|c| c.to_hex().to_string()).unwrap_or_default();
    Pixmap(format!("png at {pixel_per_pt} merged by {} on {fill} {:?}\n", gap.to_pt(), doc.pages.iter().map(|p| &p.lines).collect::<Vec<_>>()))
}
