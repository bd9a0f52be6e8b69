//! C51: the pipeline shows what the buffers and the disk hold.
use h_server::pipeline::{cases, pipeline};
use vcommon::{Check, Opts};

fn main() {
    Check::main("C51", "more than three compilations and two operations", |c| {
        c.prop("pipeline", Opts::new(12000).thorough(20).shards(120).shrink(300).retries(5).confirm(5), || cases(14), pipeline);
    })
}
