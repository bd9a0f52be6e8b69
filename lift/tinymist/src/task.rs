include!(concat!(env!("OUT_DIR"), "/task.rs"));
pub mod export {
    include!(concat!(env!("OUT_DIR"), "/export.rs"));

    /// Where exports go, by the output they are asked to have.
    pub type OnExport = dyn Fn(&LspCompiledArtifact) + Send + Sync;
    pub static ON_EXPORT: std::sync::LazyLock<parking_lot::Mutex<std::collections::HashMap<String, Arc<OnExport>>>> = std::sync::LazyLock::new(Default::default);
    impl ExportTask {
        /// Tells whom it may concern, taking a while.
        pub async fn do_export(task: ProjectTask, artifact: LspCompiledArtifact, _: Option<tinymist_std::ImmutPath>) -> Result<Option<PathBuf>> {
            let to = task.as_export().and_then(|e| e.output.as_ref()).map(|o| o.0.as_str().to_owned()).unwrap_or_default();
            let f = ON_EXPORT.lock().get(&to).cloned();
            tokio::time::sleep(std::time::Duration::from_millis(1)).await;
            if let Some(f) = f {
                f(&artifact);
            }
            Ok(None)
        }
    }
}
pub use export::{ExportTask, ExportUserConfig};
pub mod format {
    include!(concat!(env!("OUT_DIR"), "/format.rs"));
}
