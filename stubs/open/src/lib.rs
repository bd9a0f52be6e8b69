//! Stand-in for the `open` crate: takes down what was to be opened.
pub static OPENED: parking_lot::Mutex<Vec<std::path::PathBuf>> = parking_lot::Mutex::new(vec![]);
pub fn that_detached(path: impl AsRef<std::ffi::OsStr>) -> std::io::Result<()> {
    OPENED.lock().push(path.as_ref().into());
    Ok(())
}
