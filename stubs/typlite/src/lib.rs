//! Stand-in for `typlite`: the main file, marked.
use std::sync::Arc;
use tinymist_project::LspWorld;
use typst::World;
pub struct Typlite(Arc<LspWorld>);
impl Typlite {
    pub fn new(w: Arc<LspWorld>) -> Self {
        Self(w)
    }
    pub fn convert(self) -> Result<String, String> {
        let w = self.0;
        w.source(w.main()).map(|s| format!("md {:?}\n", s.text())).map_err(|e| format!("{e:?}"))
    }
}
