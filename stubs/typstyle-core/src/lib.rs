//! Stand-in for the formatter: its configuration.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Config {
    pub tab_spaces: usize,
    pub max_width: usize,
}
impl Default for Config {
    fn default() -> Self {
        Self { tab_spaces: 2, max_width: 80 }
    }
}
impl Config {
    pub fn with_width(mut self, max_width: usize) -> Self {
        self.max_width = max_width;
        self
    }
    pub fn with_tab_spaces(mut self, tab_spaces: usize) -> Self {
        self.tab_spaces = tab_spaces;
        self
    }
}
