//! The suites every build can run.
use crate::sk::Kind;
use crate::{est, memo, port};

/// Runs a suite; false when there is none of that name.
pub fn run(suite: &str, seed: u64, n: u64, tier: u64, input: &str) -> bool {
    match suite {
        "hist-plus" => memo::hist(Kind::Plus, seed, n),
        "hist-pf" => memo::hist(Kind::PF, seed, n),
        "merge-plus" => memo::merge(Kind::Plus, seed, n),
        "merge-pf" => memo::merge(Kind::PF, seed, n),
        "prec" => memo::prec(seed, tier),
        "save-plus" => memo::copy(Kind::Plus, false, seed, n),
        "save-pf" => memo::copy(Kind::PF, false, seed, n),
        "clone-plus" => memo::copy(Kind::Plus, true, seed, n),
        "clone-pf" => memo::copy(Kind::PF, true, seed, n),
        "api" => memo::api(seed, n),
        "ranks-plus" => est::ranks(Kind::Plus, seed, n),
        "ranks-pf" => est::ranks(Kind::PF, seed, n),
        "limits" => est::limits(seed, n),
        "bias" => est::bias(seed, n, tier),
        "ranges" => est::ranges(seed, n),
        "codec" => est::codec(seed, n),
        "extreme-plus" => est::extreme(Kind::Plus, seed, n),
        "extreme-pf" => est::extreme(Kind::PF, seed, n),
        "sizes-plus" => est::sizes(Kind::Plus, seed, n),
        "sizes-pf" => est::sizes(Kind::PF, seed, n),
        "memory-plus" => est::memory(Kind::Plus, seed, n),
        "memory-pf" => est::memory(Kind::PF, seed, n),
        "port-plus" => port::port(Kind::Plus, seed, n, input),
        "port-pf" => port::port(Kind::PF, seed, n, input),
        _ => return false,
    }
    true
}
