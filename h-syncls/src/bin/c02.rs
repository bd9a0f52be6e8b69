//! C02: the LSP lifecycle decides what is served.
use h_syncls::drive::*;
use proptest::prelude::*;
use vcommon::{bx, Check, Opts};

const MINE: &[What] = &[What::RespCount, What::RespClass, What::Runs, What::RespRuns, What::Loop];

fn main() {
    Check::main(
        "C02",
        "histories around initialize, initialized, shutdown and exit in any order, with requests, notifications, responses and events in between, compared with a model of the lifecycle after every step; non-trivial: the history was served in at least two states of the lifecycle",
        |c| {
            c.assume("a second initialize before the initialized notification may be refused as not initialized or as invalid");
            c.assume("a shutdown request counts as handled when a shutdown handler is registered and was run, whatever it answers");
            let mixed = || {
                bx(prop::collection::vec(
                    prop_oneof![8 => lifecycle(), 3 => request(|| fx(1)), 1 => trouble(), 2 => note_step(), 1 => resolve(), 2 => answer(), 1 => event_step()],
                    0..20,
                ))
            };
            c.prop("any-order", Opts::new(40_000).thorough(40), move || history(mixed()), |h| judge(h, MINE, |o| o.states.len() >= 2));
            c.prop("after-ready", Opts::new(30_000).thorough(40), move || ready_then(mixed()), |h| judge(h, MINE, |o| o.states.len() >= 3));
        },
    )
}
