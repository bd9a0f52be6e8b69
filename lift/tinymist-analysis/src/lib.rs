//! The position conversions, from the real source.
#[path = "/repo/crates/tinymist-analysis/src/location.rs"]
pub mod location;
