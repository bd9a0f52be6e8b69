//! Stand-in for the formatter: its configuration.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Config {
    pub indent_space: usize,
    pub max_line_length: usize,
    pub line_wrap: bool,
}
impl Default for Config {
    fn default() -> Self {
        Self { indent_space: 2, max_line_length: 80, line_wrap: true }
    }
}
