//! The end of a preview the compiler talks to.
use std::sync::Arc;
use tinymist_std::typst::TypstDocument;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CompileStatus {
    Compiling,
    CompileSuccess,
    CompileError,
}
pub trait CompileView: Send + Sync {
    fn doc(&self) -> Option<TypstDocument>;
    fn status(&self) -> CompileStatus;
    fn is_on_saved(&self) -> bool;
    fn is_by_entry_update(&self) -> bool;
}
#[derive(Default)]
pub struct CompileWatcher {
    pub seen: parking_lot::Mutex<Vec<Arc<dyn CompileView>>>,
    pub statuses: parking_lot::Mutex<Vec<CompileStatus>>,
}
impl CompileWatcher {
    pub fn status(&self, s: CompileStatus) {
        self.statuses.lock().push(s);
    }
    pub fn notify_compile(&self, v: Arc<dyn CompileView>) {
        self.seen.lock().push(v);
    }
}
