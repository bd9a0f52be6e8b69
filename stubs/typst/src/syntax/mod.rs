pub mod package;
mod path;
mod source;
mod code;
pub use code::{ast, parse_code, SyntaxNode};
pub use path::VirtualPath;
pub use source::{is_newline, Source};

use std::collections::HashMap;
use std::fmt;
use std::num::NonZeroU16;
use std::sync::{LazyLock, RwLock};

use package::PackageSpec;

/// Identifies a file in a project or package. Equal ids denote equal
/// (package, path) pairs.
#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct FileId(NonZeroU16);

type Pair = &'static (Option<PackageSpec>, VirtualPath);
struct Interner {
    to_id: HashMap<Pair, FileId>,
    from_id: Vec<Pair>,
}
static INTERNER: LazyLock<RwLock<Interner>> =
    LazyLock::new(|| RwLock::new(Interner { to_id: HashMap::new(), from_id: Vec::new() }));

impl FileId {
    #[track_caller]
    pub fn new(package: Option<PackageSpec>, path: VirtualPath) -> Self {
        let pair = (package, path);
        let mut i = INTERNER.write().unwrap_or_else(|e| e.into_inner());
        if let Some(&id) = i.to_id.get(&pair) {
            return id;
        }
        let num = u16::try_from(i.from_id.len() + 1).and_then(NonZeroU16::try_from).expect("out of file ids");
        let id = FileId(num);
        let leaked = Box::leak(Box::new(pair));
        i.to_id.insert(leaked, id);
        i.from_id.push(leaked);
        id
    }
    #[track_caller]
    pub fn new_fake(path: VirtualPath) -> Self {
        let mut i = INTERNER.write().unwrap_or_else(|e| e.into_inner());
        let num = u16::try_from(i.from_id.len() + 1).and_then(NonZeroU16::try_from).expect("out of file ids");
        i.from_id.push(Box::leak(Box::new((None, path))));
        FileId(num)
    }
    pub fn package(&self) -> Option<&'static PackageSpec> {
        self.pair().0.as_ref()
    }
    pub fn vpath(&self) -> &'static VirtualPath {
        &self.pair().1
    }
    pub fn join(self, path: &str) -> Self {
        Self::new(self.package().cloned(), self.vpath().join(path))
    }
    pub fn with_extension(&self, e: &str) -> Self {
        Self::new(self.package().cloned(), self.vpath().with_extension(e))
    }
    pub const fn from_raw(v: NonZeroU16) -> Self {
        Self(v)
    }
    pub const fn into_raw(self) -> NonZeroU16 {
        self.0
    }
    fn pair(&self) -> Pair {
        INTERNER.read().unwrap_or_else(|e| e.into_inner()).from_id[usize::from(self.0.get() - 1)]
    }
}
impl fmt::Debug for FileId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.package() {
            Some(p) => write!(f, "{p}{:?}", self.vpath()),
            None => write!(f, "{:?}", self.vpath()),
        }
    }
}

#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
pub struct Span(u64);
impl Span {
    pub const fn detached() -> Self {
        Span(1)
    }
    pub const fn is_detached(self) -> bool {
        self.0 == 1
    }
    pub const fn from_raw(v: std::num::NonZeroU64) -> Self {
        Span(v.get())
    }
    pub const fn into_raw(self) -> std::num::NonZeroU64 {
        match std::num::NonZeroU64::new(self.0) {
            Some(v) => v,
            None => panic!(),
        }
    }
}
