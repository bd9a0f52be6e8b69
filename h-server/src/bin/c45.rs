//! C45: the edits a formatted document is sent as.
use h_server::text::{doc, offset, UNUSUAL};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use tinymist::task::format::calc_diff;
use tinymist_query::PositionEncoding;
use typst::syntax::Source;
use vcommon::{bx, ensure, known, no_panic, Check, Fail, Opts, Verdict};

#[derive(Serialize, Deserialize, Debug, Clone)]
struct Case {
    utf8: bool,
    old: String,
    new: String,
}

/// Texts that have much in common.
fn cases(unusual: bool) -> BoxedStrategy<Case> {
    let other = (doc(40, unusual), prop::collection::vec((any::<u16>(), any::<u16>(), doc(4, unusual)), 0..4)).prop_map(|(old, edits)| {
        let mut new = old.clone();
        for (a, b, t) in edits {
            let mut at = |n: u16| {
                let mut i = (n as usize * (new.len() + 1)) >> 16;
                while !new.is_char_boundary(i) {
                    i -= 1;
                }
                i
            };
            let (a, b) = (at(a), at(b.min(a.saturating_add(9000)).max(a)));
            new.replace_range(a..b, &t);
        }
        (old, new)
    });
    let breaks = doc(40, unusual).prop_map(|old| {
        let new = old.replace("\r\n", "\n").replace('\r', "\n");
        (old, new)
    });
    let crlf = doc(40, unusual).prop_map(|new| (new.replace('\n', "\r\n"), new));
    // Characters whose encodings share bytes.
    let close = prop::collection::vec(prop::sample::select(vec!["a", "é", "è", "ĩ", "😀", "😁", "𝕏", "中", "丮", "\n", "\r"]), 0..5);
    let near = (close.clone(), close.clone(), close.clone(), close).prop_map(|(a, b, c, d)| {
        let (a, b, c, d) = (a.concat(), b.concat(), c.concat(), d.concat());
        (format!("{a}{b}{d}"), format!("{a}{c}{d}"))
    });
    bx((any::<bool>(), prop_oneof![4 => other, 1 => breaks, 1 => crlf, 3 => near, 1 => (doc(20, unusual), doc(20, unusual))])
        .prop_map(|(utf8, (old, new))| Case { utf8, old, new }))
}

fn judge(c: &Case) -> Verdict {
    let Case { utf8, old, new } = c;
    let encoding = if *utf8 { PositionEncoding::Utf8 } else { PositionEncoding::Utf16 };
    let odd = old.contains(UNUSUAL);
    let fail = |m: String| if odd { known("unusual-line-breaks", m) } else { Fail::from(m) };
    let edits = no_panic(|| calc_diff(Source::detached(old.clone()), new.clone(), encoding))
        .map_err(|e| fail(format!("no edits from {old:?} to {new:?}: {e}")))?;
    let Some(edits) = edits else {
        return Err(fail(format!("no edits from {old:?} to {new:?}")));
    };
    ensure!(edits.is_empty() == (old == new), "{} edits from {old:?} to {new:?}", edits.len());
    // All of them are about the text as it was.
    let mut spans = vec![];
    for e in &edits {
        let (a, b) = (offset(old, e.range.start, *utf8), offset(old, e.range.end, *utf8));
        if a > b {
            return Err(fail(format!("a reversed edit from {old:?} to {new:?}: {edits:?}")));
        }
        spans.push((a, b, e.new_text.as_str()));
    }
    spans.sort_by_key(|s| (s.0, s.1));
    let (mut out, mut last) = (String::new(), 0);
    for (a, b, t) in spans {
        if a < last {
            return Err(fail(format!("edits that overlap from {old:?} to {new:?}: {edits:?}")));
        }
        out += &old[last..a];
        out += t;
        last = b;
    }
    out += &old[last..];
    if &out != new {
        return Err(fail(format!("the edits from {old:?} to {new:?} lead to {out:?}: {edits:?}")));
    }
    Ok(old != new)
}

fn main() {
    Check::main("C45", "texts that differ", |c| {
        c.prop("edits", Opts::new(60000).thorough(40).shards(24), || cases(false), judge);
        c.prop("line breaks", Opts::new(8000).thorough(40).shards(12), || cases(true), judge);
    })
}
