//! The real `tinymist-std` and its `typst` module, over the stand-in typst.
pub use real::*;
#[path = "/repo/crates/tinymist-std/src/concepts/typst.rs"]
pub mod typst;
pub mod time {
    pub use real::time::*;
    use ::typst;
    include!(concat!(env!("OUT_DIR"), "/time.rs"));
}
