//! C01: every LSP request gets exactly one response.
use h_syncls::drive::*;
use h_syncls::{stress, Id};
use proptest::prelude::*;
use vcommon::{bx, Check, Opts};

const MINE: &[What] = &[What::RespCount, What::RespClass, What::RespContent, What::Pending, What::Loop];

fn main() {
    Check::main(
        "C01",
        "histories of requests of every handler kind (plain, self-answering, asynchronous, refused, malformed, unknown), notifications, client responses and events, driven step by step through a real server loop and compared with a model after every step; plus many asynchronous requests at once on worker threads; non-trivial: at least one answer was pending across a step (histories), at least two requests in flight (stress)",
        |c| {
            c.assume("a request id is used again only after its request was answered");
            c.assume("malformed parameters may be refused with -32600 or -32602");
            c.prop(
                "histories",
                Opts::new(60_000).thorough(40),
                || {
                    ready_then(bx(prop::collection::vec(
                        prop_oneof![24 => request(|| fx(0)), 6 => trouble(), 4 => note_step(), 12 => resolve(), 2 => answer(), 2 => event_step(), 1 => lifecycle()],
                        0..24,
                    )))
                },
                |h| judge(h, MINE, |o| o.async_pending_max >= 1),
            );
            c.prop(
                "long",
                Opts::new(400).thorough(20).shrink(400),
                || {
                    ready_then(bx(prop::collection::vec(
                        prop_oneof![40 => request(|| fx(0)), 2 => trouble(), 2 => note_step(), 8 => resolve(), 1 => event_step()],
                        60..400,
                    )))
                },
                |h| judge(h, MINE, |o| o.async_pending_max >= 1),
            );
            c.prop(
                "slow",
                Opts::new(160).thorough(20).shards(32).shrink(100),
                || {
                    ready_then(bx(prop::collection::vec(
                        prop_oneof![24 => request(|| fx(0)), 2 => trouble(), 3 => (0u16..400).prop_map(Step::Wait), 12 => resolve()],
                        4..24,
                    )))
                },
                |h| judge(h, MINE, |o| o.async_pending_max >= 1),
            );
            c.prop(
                "many-at-once",
                Opts::new(1500).thorough(40).shards(4).retries(20),
                || {
                    bx((
                        prop::collection::vec((any::<bool>(), 0u8..6, 0u8..4, any::<bool>()), 1..40).prop_map(|v| {
                            v.into_iter()
                                .enumerate()
                                .map(|(i, (s, work, dup, fail))| stress::Job { id: if s { Id::S(i.to_string()) } else { Id::N(i as i32) }, work, dup, fail })
                                .collect::<Vec<_>>()
                        }),
                        1usize..6,
                    )
                        .prop_map(|(jobs, threads)| stress::Answers { jobs, threads }))
                },
                stress::answers,
            );
            c.prop(
                "crowd",
                Opts::new(12).thorough(20).shards(4).shrink(20),
                || bx((prop_oneof![1 => 2u32..2000, 2 => 5000u32..14_000], 150u8..=255, 1usize..3).prop_map(|(n, work, threads)| stress::Crowd { n, work, threads })),
                stress::crowd,
            );
        },
    )
}
