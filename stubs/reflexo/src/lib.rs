//! Stand-in for the `reflexo` crate: what of it the server uses, which it
//! shares with `tinymist-std`.
pub use tinymist_std::{error, hash, path, CowStr, ImmutPath, TakeAs};
pub mod debug_loc {
    /// A position in a document, as the LSP counts it.
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct LspPosition {
        pub line: u32,
        pub character: u32,
    }
}
pub mod time {
    pub use std::time::Duration;
}
