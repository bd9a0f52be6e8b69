pub mod exports;
pub mod pipeline;
pub mod server;
pub mod text;
