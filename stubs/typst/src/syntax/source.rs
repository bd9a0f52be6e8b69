use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::Range;
use std::sync::Arc;

use super::{FileId, VirtualPath};

/// A source file: text with a table of its lines.
#[derive(Clone)]
pub struct Source(Arc<Repr>);

#[derive(Clone)]
struct Repr {
    id: FileId,
    text: String,
    lines: Vec<Line>,
}
#[derive(Clone, Copy)]
struct Line {
    byte_idx: usize,
    utf16_idx: usize,
}

/// The characters that end a line in typst (`\r\n` ends one line).
pub fn is_newline(c: char) -> bool {
    matches!(c, '\n' | '\x0B' | '\x0C' | '\r' | '\u{0085}' | '\u{2028}' | '\u{2029}')
}

fn lines(text: &str) -> Vec<Line> {
    let mut out = vec![Line { byte_idx: 0, utf16_idx: 0 }];
    let mut utf16 = 0;
    let mut it = text.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        utf16 += c.len_utf16();
        if !is_newline(c) || (c == '\r' && matches!(it.peek(), Some((_, '\n')))) {
            continue;
        }
        out.push(Line { byte_idx: i + c.len_utf8(), utf16_idx: utf16 });
    }
    out
}

impl Source {
    pub fn new(id: FileId, text: String) -> Self {
        let lines = lines(&text);
        Self(Arc::new(Repr { id, text, lines }))
    }
    pub fn detached(text: impl Into<String>) -> Self {
        Self::new(FileId::new(None, VirtualPath::new("main.typ")), text.into())
    }
    pub fn text(&self) -> &str {
        &self.0.text
    }
    pub fn id(&self) -> FileId {
        self.0.id
    }
    /// Replaces the text, keeping common prefix and suffix: returns what was
    /// changed.
    pub fn replace(&mut self, new: &str) -> Range<usize> {
        let old = self.text();
        let mut prefix = old.bytes().zip(new.bytes()).take_while(|(x, y)| x == y).count();
        if prefix == old.len() && prefix == new.len() {
            return 0..0;
        }
        while !old.is_char_boundary(prefix) || !new.is_char_boundary(prefix) {
            prefix -= 1;
        }
        let mut suffix = old.as_bytes()[prefix..]
            .iter()
            .rev()
            .zip(new.as_bytes()[prefix..].iter().rev())
            .take_while(|(x, y)| x == y)
            .count();
        while !old.is_char_boundary(old.len() - suffix) || !new.is_char_boundary(new.len() - suffix) {
            suffix -= 1;
        }
        let range = prefix..old.len() - suffix;
        let with = new[prefix..new.len() - suffix].to_owned();
        self.edit(range, &with)
    }
    #[track_caller]
    pub fn edit(&mut self, replace: Range<usize>, with: &str) -> Range<usize> {
        let start = replace.start;
        let inner = Arc::make_mut(&mut self.0);
        inner.text.replace_range(replace, with);
        inner.lines = lines(&inner.text);
        start..start + with.len()
    }
    pub fn len_bytes(&self) -> usize {
        self.0.text.len()
    }
    pub fn len_utf16(&self) -> usize {
        let last = self.0.lines.last().unwrap();
        last.utf16_idx + self.0.text[last.byte_idx..].chars().map(char::len_utf16).sum::<usize>()
    }
    pub fn len_lines(&self) -> usize {
        self.0.lines.len()
    }
    pub fn get(&self, range: Range<usize>) -> Option<&str> {
        self.text().get(range)
    }
    pub fn byte_to_utf16(&self, byte_idx: usize) -> Option<usize> {
        let line = self.0.lines.get(self.byte_to_line(byte_idx)?)?;
        let head = self.text().get(line.byte_idx..byte_idx)?;
        Some(line.utf16_idx + head.chars().map(char::len_utf16).sum::<usize>())
    }
    pub fn byte_to_line(&self, byte_idx: usize) -> Option<usize> {
        (byte_idx <= self.0.text.len()).then(|| {
            match self.0.lines.binary_search_by_key(&byte_idx, |l| l.byte_idx) {
                Ok(i) => i,
                Err(i) => i - 1,
            }
        })
    }
    /// The number of *characters* before the byte in its line.
    pub fn byte_to_column(&self, byte_idx: usize) -> Option<usize> {
        let line = self.byte_to_line(byte_idx)?;
        let start = self.line_to_byte(line)?;
        Some(self.get(start..byte_idx)?.chars().count())
    }
    pub fn utf16_to_byte(&self, utf16_idx: usize) -> Option<usize> {
        let i = match self.0.lines.binary_search_by_key(&utf16_idx, |l| l.utf16_idx) {
            Ok(i) => i,
            Err(i) => i - 1,
        };
        let line = self.0.lines.get(i)?;
        let text = self.text().get(line.byte_idx..)?;
        let mut k = line.utf16_idx;
        for (i, c) in text.char_indices() {
            if k >= utf16_idx {
                return Some(line.byte_idx + i);
            }
            k += c.len_utf16();
        }
        (k == utf16_idx).then_some(self.0.text.len())
    }
    pub fn line_to_byte(&self, line_idx: usize) -> Option<usize> {
        self.0.lines.get(line_idx).map(|l| l.byte_idx)
    }
    pub fn line_to_range(&self, line_idx: usize) -> Option<Range<usize>> {
        let start = self.line_to_byte(line_idx)?;
        let end = self.line_to_byte(line_idx + 1).unwrap_or(self.0.text.len());
        Some(start..end)
    }
    /// The column counts *characters*.
    pub fn line_column_to_byte(&self, line_idx: usize, column_idx: usize) -> Option<usize> {
        let range = self.line_to_range(line_idx)?;
        let line = self.get(range.clone())?;
        let mut chars = line.chars();
        for _ in 0..column_idx {
            chars.next();
        }
        Some(range.start + (line.len() - chars.as_str().len()))
    }
}
impl fmt::Debug for Source {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Source({:?})", self.id().vpath())
    }
}
impl Hash for Source {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.id.hash(h);
        self.0.text.hash(h);
    }
}
impl AsRef<str> for Source {
    fn as_ref(&self) -> &str {
        self.text()
    }
}
