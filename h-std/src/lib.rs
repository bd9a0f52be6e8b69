//! Shared parts of the tinymist-std checks.
pub mod fault;
pub mod tree;
