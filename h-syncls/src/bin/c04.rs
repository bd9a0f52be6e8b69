//! C04: messages and events reach exactly their own handler, in order.
use h_syncls::drive::*;
use proptest::prelude::*;
use vcommon::{bx, Check, Opts};

const MINE: &[What] = &[What::Runs, What::OutNote, What::Loop];

fn main() {
    Check::main(
        "C04",
        "histories of messages and events to handlers of every kind, with any subset of the handlers registered and names that resemble each other, compared with a model of the dispatch after every step; in a quarter of them everything is queued before the server starts; non-trivial: at least three handlers ran",
        |c| {
            c.assume("messages that arrive while an event is being handled may be served before or after the events queued behind it; histories of one step at a time and fully queued histories avoid that race");
            let steps = || {
                bx(prop::collection::vec(
                    prop_oneof![8 => request(|| fx(2)), 2 => trouble(), 6 => note_step(), 2 => answer(), 1 => resolve(), 5 => event_step()],
                    0..22,
                ))
            };
            let long = || {
                let note = prop_oneof![30 => event_step(), 4 => note_step(), 6 => request(|| fx(1)), 1 => trouble()];
                bx(prop::collection::vec(note, 40..300))
            };
            c.prop("long", Opts::new(400).thorough(20).shrink(400), move || ready_then(long()), |h| judge(h, MINE, |o| o.runs >= 3));
            c.prop("histories", Opts::new(60_000).thorough(40), move || ready_then(steps()), |h| judge(h, MINE, |o| o.runs >= 3));
        },
    )
}
