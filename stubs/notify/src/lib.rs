//! Stand-in for the `notify` crate: a watcher that sees what the test tells it
//! happened. As with the inotify backend, removing a watched file or renaming
//! it away ends the watch; changes of files that are not watched are not seen.
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Debug, Default, Clone, Copy)]
pub struct Config;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RecursiveMode {
    Recursive,
    NonRecursive,
}
pub mod event {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum RemoveKind {
        Any,
        File,
        Folder,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum RenameMode {
        Any,
        To,
        From,
        Both,
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum ModifyKind {
        Any,
        Data,
        Metadata,
        Name(RenameMode),
        Other,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum CreateKind {
        Any,
        File,
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum EventKind {
    Any,
    Access,
    Create(event::CreateKind),
    Modify(event::ModifyKind),
    Remove(event::RemoveKind),
    Other,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Event {
    pub kind: EventKind,
    pub paths: Vec<PathBuf>,
}

type Handler = Box<dyn FnMut(Result<Event>) + Send>;
#[derive(Default)]
pub struct Shared {
    watched: Mutex<HashSet<PathBuf>>,
    handler: Mutex<Option<Handler>>,
}
thread_local! {
    static MADE: std::cell::RefCell<Option<Control>> = const { std::cell::RefCell::new(None) };
}
/// The test's end of a watcher.
#[derive(Clone)]
pub struct Control(Arc<Shared>);
impl Control {
    /// The watcher made last by this thread.
    pub fn last() -> Option<Control> {
        MADE.with(|m| m.borrow().clone())
    }
    pub fn watches(&self, p: &Path) -> bool {
        self.0.watched.lock().unwrap().contains(p)
    }
    pub fn watched(&self) -> Vec<PathBuf> {
        let mut v: Vec<_> = self.0.watched.lock().unwrap().iter().cloned().collect();
        v.sort();
        v
    }
    /// Reports what happened to watched files.
    pub fn happen(&self, kind: EventKind, paths: &[&Path]) -> bool {
        let mut w = self.0.watched.lock().unwrap();
        let paths: Vec<PathBuf> = paths.iter().filter(|p| w.contains(**p)).map(|p| p.to_path_buf()).collect();
        if paths.is_empty() {
            return false;
        }
        if matches!(kind, EventKind::Remove(_) | EventKind::Modify(event::ModifyKind::Name(event::RenameMode::From))) {
            paths.iter().for_each(|p| {
                w.remove(p);
            });
        }
        drop(w);
        if let Some(h) = self.0.handler.lock().unwrap().as_mut() {
            h(Ok(Event { kind, paths }));
        }
        true
    }
    /// Reports an error of the watcher.
    pub fn fail(&self) {
        if let Some(h) = self.0.handler.lock().unwrap().as_mut() {
            h(Err(Error("queue overflow".into())));
        }
    }
}

pub struct RecommendedWatcher(Arc<Shared>);
impl std::fmt::Debug for RecommendedWatcher {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("RecommendedWatcher")
    }
}
impl Drop for RecommendedWatcher {
    fn drop(&mut self) {
        self.0.handler.lock().unwrap().take();
    }
}
pub trait Watcher {
    fn new<F: FnMut(Result<Event>) + Send + 'static>(handler: F, config: Config) -> Result<Self>
    where
        Self: Sized;
    fn watch(&mut self, path: &Path, mode: RecursiveMode) -> Result<()>;
    fn unwatch(&mut self, path: &Path) -> Result<()>;
}
impl Watcher for RecommendedWatcher {
    fn new<F: FnMut(Result<Event>) + Send + 'static>(handler: F, _: Config) -> Result<Self> {
        let s = Arc::new(Shared::default());
        *s.handler.lock().unwrap() = Some(Box::new(handler));
        MADE.with(|m| *m.borrow_mut() = Some(Control(s.clone())));
        Ok(Self(s))
    }
    fn watch(&mut self, path: &Path, _: RecursiveMode) -> Result<()> {
        if !path.exists() {
            return Err(Error(format!("no such file: {}", path.display())));
        }
        self.0.watched.lock().unwrap().insert(path.to_owned());
        Ok(())
    }
    fn unwatch(&mut self, path: &Path) -> Result<()> {
        match self.0.watched.lock().unwrap().remove(path) {
            true => Ok(()),
            false => Err(Error("no such watch".into())),
        }
    }
}
