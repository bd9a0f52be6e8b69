use std::fmt;
use std::path::{Component, Path, PathBuf};

/// An absolute path in the virtual file system of a project or package.
#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct VirtualPath(PathBuf);

impl VirtualPath {
    pub fn new(path: impl AsRef<Path>) -> Self {
        let mut out = Path::new(&Component::RootDir).to_path_buf();
        for c in path.as_ref().components() {
            match c {
                Component::Prefix(_) | Component::RootDir | Component::CurDir => {}
                Component::ParentDir => match out.components().next_back() {
                    Some(Component::Normal(_)) => {
                        out.pop();
                    }
                    _ => out.push(c),
                },
                Component::Normal(_) => out.push(c),
            }
        }
        Self(out)
    }
    pub fn within_root(path: &Path, root: &Path) -> Option<Self> {
        path.strip_prefix(root).ok().map(Self::new)
    }
    pub fn as_rooted_path(&self) -> &Path {
        &self.0
    }
    pub fn as_rootless_path(&self) -> &Path {
        self.0.strip_prefix(Component::RootDir).unwrap_or(&self.0)
    }
    pub fn resolve(&self, root: &Path) -> Option<PathBuf> {
        let root_len = root.as_os_str().len();
        let mut out = root.to_path_buf();
        for c in self.0.components() {
            match c {
                Component::Prefix(_) | Component::RootDir | Component::CurDir => {}
                Component::ParentDir => {
                    out.pop();
                    if out.as_os_str().len() < root_len {
                        return None;
                    }
                }
                Component::Normal(_) => out.push(c),
            }
        }
        Some(out)
    }
    pub fn join(&self, path: impl AsRef<Path>) -> Self {
        match self.0.parent() {
            Some(p) => Self::new(p.join(path)),
            None => Self::new(path),
        }
    }
    pub fn with_extension(&self, e: &str) -> Self {
        Self(self.0.with_extension(e))
    }
}
impl fmt::Debug for VirtualPath {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0.display(), f)
    }
}
