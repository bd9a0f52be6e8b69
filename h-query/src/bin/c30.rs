//! C30: positions and byte offsets.
use lsp_types::{Position, Range};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tinymist_analysis::location::{to_lsp_position, to_lsp_range, to_typst_position, to_typst_range, PositionEncoding};
use typst::syntax::Source;
use vcommon::{bx, ensure, ensure_eq, no_panic, Check, Fail, Opts, Verdict};

const BREAKS: &[char] = &['\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}'];
const ENCODINGS: [PositionEncoding; 2] = [PositionEncoding::Utf8, PositionEncoding::Utf16];

/// The lines of a text, as (start, end before the line break, end after it).
fn lines(text: &str) -> Vec<(usize, usize, usize)> {
    let (mut out, mut start, mut i) = (vec![], 0, 0);
    while i < text.len() {
        let c = text[i..].chars().next().unwrap();
        let mut n = c.len_utf8();
        if BREAKS.contains(&c) {
            if text[i..].starts_with("\r\n") {
                n = 2;
            }
            out.push((start, i, i + n));
            start = i + n;
        }
        i += n;
    }
    out.push((start, text.len(), text.len()));
    out
}

fn units(s: &str, e: PositionEncoding) -> u32 {
    match e {
        PositionEncoding::Utf8 => s.bytes().count() as u32,
        PositionEncoding::Utf16 => s.encode_utf16().count() as u32,
    }
}

fn doc() -> BoxedStrategy<String> {
    let ch = prop_oneof![
        6 => prop::char::range('a', 'd'),
        3 => prop::sample::select(vec!['\t', ' ', '#', '\0']),
        3 => prop::sample::select(vec!['é', 'ß', '\u{7ff}', '\u{301}', '\u{80}']),
        2 => prop::sample::select(vec!['中', '\u{800}', '\u{ffff}', '\u{feff}', '\u{200d}', '\u{d7ff}', '\u{e000}']),
        3 => prop::sample::select(vec!['😀', '𝕏', '\u{10000}', '\u{10ffff}']),
        1 => any::<char>(),
    ];
    let piece = prop_oneof![
        8 => ch.prop_map(|c| c.to_string()),
        3 => prop::sample::select(vec!["\n", "\r\n", "\r", "\n\n", "\r\r\n", "\n\r"]).prop_map(str::to_owned),
        1 => prop::sample::select(BREAKS.to_vec()).prop_map(|c| c.to_string()),
    ];
    prop::collection::vec(piece, 0..24).prop_map(|v| v.concat()).boxed()
}

fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    no_panic(f).map_err(|e| Fail::from(format!("the conversion panics: {e}")))
}

fn offsets(text: &String) -> Verdict {
    let src = Source::detached(text.clone());
    let lines = lines(text);
    for e in ENCODINGS {
        let mut last: Option<Position> = None;
        for (at, _) in text.char_indices().map(|(i, c)| (i, Some(c))).chain([(text.len(), None)]) {
            let line = lines.iter().rposition(|l| l.0 <= at).unwrap();
            let (start, end, _) = lines[line];
            let pos = quiet(|| to_lsp_position(at, e, &src))?;
            ensure_eq!(pos, Position::new(line as u32, units(&text[start..at], e)), "the position of offset {at} in {text:?}, {e:?}");
            if let Some(l) = last {
                ensure!(pos > l, "the position of offset {at} in {text:?} is not after the one before: {l:?}, {pos:?}");
            }
            last = Some(pos);
            // Between \r and \n there is no position of its own.
            let want = at.min(end);
            ensure_eq!(quiet(|| to_typst_position(pos, e, &src))?, Some(want), "offset {at} of {text:?} as {pos:?}, {e:?} and back");
        }
        for beyond in [1, 2, 100, usize::MAX - text.len()] {
            let pos = quiet(|| to_lsp_position(text.len() + beyond, e, &src))?;
            ensure!(pos > last.unwrap(), "an offset beyond the end of {text:?} has the position {pos:?}, one within it");
            ensure_eq!(quiet(|| to_typst_position(pos, e, &src))?, Some(text.len()), "a position beyond the end");
        }
    }
    Ok(lines.len() > 1 && !text.is_ascii())
}

#[derive(Serialize, Deserialize, Debug, Clone)]
struct At {
    text: String,
    a: (u32, u32),
    b: (u32, u32),
    utf8: bool,
}

fn coord() -> BoxedStrategy<u32> {
    prop_oneof![12 => 0u32..8, 3 => 0u32..40, 1 => prop::sample::select(vec![u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 16])].boxed()
}

/// The boundaries a position may stand for.
fn meant(text: &str, p: Position, e: PositionEncoding) -> Vec<usize> {
    let lines = lines(text);
    let Some(&(start, end, _)) = lines.get(p.line as usize) else { return vec![text.len()] };
    let line = &text[start..end];
    let mut before = 0;
    for (i, c) in line.char_indices() {
        let here = units(&line[..i], e);
        if here == p.character {
            return vec![start + i];
        }
        if here > p.character {
            return vec![start + before, start + i];
        }
        before = i;
        let next = units(&line[..i + c.len_utf8()], e);
        if next > p.character && i + c.len_utf8() == line.len() {
            return vec![start + i, end];
        }
    }
    vec![end]
}

fn positions(at: &At) -> Verdict {
    let At { text, a, b, utf8 } = at;
    let e = if *utf8 { PositionEncoding::Utf8 } else { PositionEncoding::Utf16 };
    let src = Source::detached(text.clone());
    let mut all = vec![];
    for (l, c) in [*a, *b] {
        let p = Position::new(l, c);
        let got = quiet(|| to_typst_position(p, e, &src))?;
        let Some(got) = got else { return Err(Fail::from(format!("{p:?} in {text:?} is nowhere"))) };
        let want = meant(text, p, e);
        ensure!(want.contains(&got), "{p:?} of {text:?} ({e:?}) is taken for offset {got}, not {want:?}");
        all.push((p, got));
    }
    let (lo, hi) = if all[0].0 <= all[1].0 { (all[0], all[1]) } else { (all[1], all[0]) };
    ensure!(lo.1 <= hi.1, "{:?} is before {:?} but their offsets in {text:?} are {} and {}", lo.0, hi.0, lo.1, hi.1);
    let r = quiet(|| to_typst_range(Range::new(lo.0, hi.0), e, &src))?;
    ensure_eq!(r, Some(lo.1..hi.1), "the range from {:?} to {:?} of {text:?}", lo.0, hi.0);
    let back = quiet(|| to_lsp_range(lo.1..hi.1, &src, e))?;
    ensure_eq!(back, Range::new(to_lsp_position(lo.1, e, &src), to_lsp_position(hi.1, e, &src)), "the range {lo:?} to {hi:?} of {text:?}");
    Ok(a != b && text.len() > 2)
}

fn main() {
    Check::main("C30", "the document has several lines and more than ASCII, or two different positions are looked up in it", |c| {
        c.prop("every offset", Opts::new(60_000).thorough(20).shards(4), || bx(doc()), offsets);
        c.prop("any position", Opts::new(120_000).thorough(20).shards(4), || bx((doc(), (coord(), coord()), (coord(), coord()), any::<bool>()).prop_map(|(text, a, b, utf8)| At { text, a, b, utf8 })), positions);
    });
}
