//! Generated-input checks of the properties in /verif/properties.jsonl.
//!
//!   drive PROP TIER           run a check: spawns workers, shrinks, writes evidence and replay
//!   worker PROP ...           one shard of a check (spawned by drive)
//!   one PROP CFG              one input from standard input
//!   replay FILE               run a replay file again
//!   stats PROP N              what the generator of a property makes
//!   selftest                  the harness's own arithmetic and generators

mod case;
mod check;
mod cov;
mod driver;
mod exact;
mod gen;
mod heap;
mod input;
mod miri;
#[cfg(feature = "mesh")]
mod observe;
mod oracle;
mod props;
mod rng;
mod selftest;
mod shrink;
mod text;
mod tri;
mod worker;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "drive" => driver::drive(arg(2), arg(3)),
        "worker" => worker::worker(&a[2..]),
        "one" => worker::one(arg(2), arg(3)),
        "replay" => driver::replay(arg(2)),
        "stats" => worker::stats(arg(2), arg(3).parse().unwrap_or(1000)),
        "selftest" => selftest::run(),
        _ => {
            eprintln!("usage: drive PROP TIER | replay FILE | selftest");
            2
        }
    };
    text::cleanup();
    miri::cleanup();
    std::process::exit(code);
}
