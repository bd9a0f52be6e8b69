//! C56: exports and word counts follow what is compiled and why.
use h_server::exports::*;
use vcommon::{Check, Opts};

fn main() {
    Check::main("C56", "more than two exports are due; or probed after more than two operations where exports are not off", |c| {
        c.prop("ends", Opts::new(6000).thorough(20).shards(60).shrink(500).retries(3).confirm(5), || some_ends(14), ends);
        c.prop("history", Opts::new(5000).thorough(20).shards(60).shrink(300).retries(5).confirm(5), || some_probed(8), probed);
    })
}
