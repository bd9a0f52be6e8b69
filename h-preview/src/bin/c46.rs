//! C46: a page shows the latest document.
use h_preview::{cases, judge, race, races, Mix};
use vcommon::{Check, Opts};

fn main() {
    Check::main("C46", "more than two documents that count and a page", |c| {
        let m = Mix { ops: 24, docs: 8, headings: 2, pages: 5, says: 2, odd: 1, ctls: 1, many: 0, floods: 0, settles: 3, waits: 0 };
        c.prop("pages", Opts::new(250_000).thorough(25).shards(64).retries(5).confirm(5), || cases(m), judge(|s| s.docs > 2 && s.pages > 0));
        let m = Mix { ops: 90, docs: 12, headings: 0, pages: 6, settles: 5, ..m };
        c.prop("long", Opts::new(40_000).thorough(25).shards(64).retries(5).confirm(5), || cases(m), judge(|s| s.docs > 2 && s.pages > 0));
        let m = Mix { ops: 14, docs: 3, pages: 3, waits: 4, ..m };
        c.prop("idle", Opts::new(60_000).thorough(25).shards(64).retries(5).confirm(5), || cases(m), judge(|s| s.pages > 0 && s.rung));
        let m = Mix { ops: 9, docs: 4, pages: 4, floods: 2, ..m };
        c.prop("floods", Opts::new(4_000).thorough(25).shards(32).retries(5).confirm(5), || cases(m), judge(|s| s.docs > 0 && s.pages > 0));
        c.prop("threads", Opts::new(1500).thorough(40).shards(4).shrink(0).retries(1).confirm(1), races, race);
    })
}
