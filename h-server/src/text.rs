//! Texts as an editor has them.
use proptest::prelude::*;
use vcommon::bx;

pub fn piece() -> BoxedStrategy<String> {
    let ch = prop_oneof![
        8 => prop::char::range('a', 'e'),
        3 => prop::sample::select(vec!['\t', ' ', '#', '\0', '$', '"', '*']),
        3 => prop::sample::select(vec!['é', 'ß', '\u{7ff}', '\u{301}', '\u{80}']),
        2 => prop::sample::select(vec!['中', '\u{800}', '\u{ffff}', '\u{feff}', '\u{200d}', '\u{d7ff}']),
        3 => prop::sample::select(vec!['😀', '𝕏', '\u{10000}', '\u{10ffff}']),
        1 => any::<char>(),
    ];
    prop_oneof![
        16 => ch.prop_map(|c| c.to_string()),
        6 => prop::sample::select(vec!["\n", "\r\n", "\r", "\n\n", "\r\r\n", "\n\r"]).prop_map(str::to_owned),
    ]
    .boxed()
}
/// Line breaks typst knows and the protocol does not.
pub const UNUSUAL: [char; 5] = ['\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}'];

pub fn doc(max: usize, unusual: bool) -> BoxedStrategy<String> {
    let one = if unusual {
        bx(prop_oneof![20 => piece(), 1 => prop::sample::select(UNUSUAL.to_vec()).prop_map(|c| c.to_string())])
    } else {
        bx(piece().prop_map(|s| if s.chars().any(|c| UNUSUAL.contains(&c)) { "x".into() } else { s }))
    };
    bx(prop::collection::vec(one, 0..max).prop_map(|v| v.concat()))
}
/// The lines as the protocol has them: where they start, and end before the break.
pub fn lines(text: &str) -> Vec<(usize, usize)> {
    let (mut out, mut start, mut i) = (vec![], 0, 0);
    let b = text.as_bytes();
    while i < b.len() {
        let n = match b[i] {
            b'\r' if b.get(i + 1) == Some(&b'\n') => 2,
            b'\r' | b'\n' => 1,
            _ => 0,
        };
        if n > 0 {
            out.push((start, i));
            start = i + n;
        }
        i += n.max(1);
    }
    out.push((start, text.len()));
    out
}
pub fn units(s: &str, utf8: bool) -> u32 {
    if utf8 {
        s.len() as u32
    } else {
        s.encode_utf16().count() as u32
    }
}

/// The offset of a position, clamped to its line, or to the end.
pub fn offset(text: &str, p: lsp_types::Position, utf8: bool) -> usize {
    let Some(&(start, end)) = lines(text).get(p.line as usize) else {
        return text.len();
    };
    let mut n = 0;
    for (i, c) in text[start..end].char_indices() {
        if n >= p.character {
            return start + i;
        }
        n += if utf8 { c.len_utf8() as u32 } else { c.len_utf16() as u32 };
    }
    end
}
