//! C49: what a page or the editor asks of the other is passed on.
use h_preview::{cases, judge, Mix};
use vcommon::{Check, Opts};

fn main() {
    Check::main("C49", "more than two windows and three requests passed on, or one of them after something odd", |c| {
        let some = |s: &h_preview::Stats| s.windows > 2 && (s.routed > 3 || (s.odd > 0 && s.routed > 0));
        let m = Mix { ops: 26, docs: 3, headings: 2, pages: 2, says: 9, odd: 1, ctls: 8, many: 0, floods: 0, settles: 5, waits: 0 };
        c.prop("requests", Opts::new(250_000).thorough(25).shards(64).retries(5).confirm(5), || cases(m), judge(some));
        let odd = Mix { odd: 4, ..m };
        c.prop("odd", Opts::new(80_000).thorough(25).shards(64).retries(5).confirm(5), || cases(odd), judge(some));
        let many = Mix { many: 4, ops: 20, ..m };
        c.prop("many", Opts::new(40_000).thorough(25).shards(64).retries(5).confirm(5), || cases(many), judge(some));
    })
}
