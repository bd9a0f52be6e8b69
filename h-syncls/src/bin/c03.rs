//! C03: each response from the client reaches the request that asked for it.
use h_syncls::drive::*;
use h_syncls::stress;
use proptest::prelude::*;
use vcommon::{bx, Check, Opts};

const MINE: &[What] = &[What::OutReq, What::RespRuns, What::Loop];

fn main() {
    Check::main(
        "C03",
        "histories in which handlers of every kind send the client requests and the client answers them in any order, twice, with unknown ids or ids of another form, compared with a model after every step; plus requests sent from many threads at once, and tens of thousands outstanding at once; non-trivial: at least one answer reached an outstanding request (histories), at least two threads sent requests (threads), at least a thousand requests (many outstanding)",
        |c| {
            let steps = || {
                bx(prop::collection::vec(
                    prop_oneof![4 => request(|| fx(2)), 4 => note_step(), 9 => answer(), 1 => resolve(), 3 => event_step(), 1 => trouble()],
                    0..22,
                ))
            };
            c.prop("histories", Opts::new(50_000).thorough(40), move || ready_then(steps()), |h| judge(h, MINE, |o| o.answered_asks >= 1));
            c.prop(
                "many-threads",
                Opts::new(1500).thorough(40).shards(4).retries(20),
                || {
                    bx((prop::collection::vec(prop::collection::vec((any::<u8>(), any::<bool>()), 1..12), 1..6), any::<u64>(), 1u8..4)
                        .prop_map(|(threads, order, copies)| stress::Asks { threads, order, copies }))
                },
                stress::asks,
            );
            c.prop(
                "many-outstanding",
                Opts::new(24).thorough(30).shrink(60),
                || {
                    bx((prop_oneof![4 => 1u32..5000, 1 => 65_000u32..70_000], prop_oneof![1 => Just(0), 1 => any::<u8>()], any::<u64>())
                        .prop_map(|(n, early, order)| stress::Many { n, early, order }))
                },
                stress::many,
            );
        },
    )
}
