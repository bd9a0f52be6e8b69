//! Scratch directories that are removed again.
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Scratch(PathBuf, Option<u64>);

static N: AtomicU64 = AtomicU64::new(0);
static POOL: Mutex<Vec<u64>> = Mutex::new(Vec::new());

impl Scratch {
    pub fn new() -> Self {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        Self::new_in(&base)
    }
    pub fn new_in(base: &Path) -> Self {
        let p = base.join(format!("verif-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir(&p).expect("create scratch directory");
        Scratch(p, None)
    }
    /// One whose name was that of another that is gone, if there is any. There
    /// are places with only so many ids for paths.
    pub fn reused() -> Self {
        let n = POOL.lock().unwrap_or_else(|e| e.into_inner()).pop().unwrap_or_else(|| N.fetch_add(1, Ordering::SeqCst));
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("verif-{}-r{n}", std::process::id()));
        std::fs::create_dir(&p).expect("create scratch directory");
        Scratch(p, Some(n))
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        // Make everything removable first, then remove; never follows links.
        fn unlock(p: &Path) {
            use std::os::unix::fs::PermissionsExt;
            if let Ok(m) = std::fs::symlink_metadata(p) {
                if m.is_dir() {
                    let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o700));
                    if let Ok(rd) = std::fs::read_dir(p) {
                        for e in rd.flatten() {
                            unlock(&e.path());
                        }
                    }
                }
            }
        }
        unlock(&self.0);
        let gone = std::fs::remove_dir_all(&self.0).is_ok();
        if let (Some(n), true) = (self.1, gone) {
            POOL.lock().unwrap_or_else(|e| e.into_inner()).push(n);
        }
    }
}
