//! C50: the outline is that of the document, and its entries lead there.
use h_preview::{cases, judge, Mix};
use vcommon::{Check, Opts};

fn main() {
    Check::main("C50", "more than two outlines, and an entry that is followed", |c| {
        let m = Mix { ops: 20, docs: 6, headings: 9, pages: 1, says: 5, odd: 1, ctls: 2, many: 0, floods: 0, settles: 6, waits: 0 };
        let some = |s: &h_preview::Stats| s.outlines > 2 && s.entries > 0;
        c.prop("outlines", Opts::new(120_000).thorough(25).shards(64).retries(5).confirm(5), || cases(m), judge(some));
        let deep = Mix { ops: 4, headings: 24, ..m };
        c.prop("deep", Opts::new(60_000).thorough(25).shards(64).retries(5).confirm(5), || cases(deep), judge(|s| s.outlines > 0));
        let wide = Mix { ops: 40, docs: 9, headings: 40, says: 8, settles: 9, ..m };
        c.prop("wide", Opts::new(8_000).thorough(25).shards(64).retries(5).confirm(5), || cases(wide), judge(some));
        let long = Mix { ops: 160, docs: 8, headings: 4, says: 8, settles: 9, ..m };
        c.prop("long", Opts::new(12_000).thorough(25).shards(64).retries(5).confirm(5), || cases(long), judge(some));
    })
}
