//! Programs for an interpreter that simulates threads and the memory model of the language.
//!
//! The interpreter (Miri) executes the code under test with a schedule, stale reads and
//! addresses chosen by a seed; the same seed chooses the scenario here. It reports data races,
//! invalid accesses, uninitialized reads, deadlocks and leaks; what values read is checked here.
//!
//! Arguments: program, number of scenarios, numbers of operations to leave out, `plan` to print
//! the scenarios only.
mod reading;
mod rng;
mod sharing;
mod tree;

use rng::Rng;

/// numbers of operations of a scenario
const SPAN: usize = 1000;

fn main() {
    // before anything that depends on the arguments
    let mut seeds = Rng::new();
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map_or("", |s| s.as_str());
    let runs: usize = arg(2).parse().unwrap_or(1);
    let skip: Vec<usize> = arg(3).split(',').filter_map(|s| s.parse().ok()).collect();
    let plan = arg(4) == "plan";
    for i in 0..runs {
        let seed = seeds.next();
        if plan {
            println!("scenario {i}: {seed:x}");
        }
        let (ops, hash) = match arg(1) {
            "sharing" => sharing::m06(Rng::from(seed), plan, i * SPAN, &skip),
            "reading" => reading::m01(Rng::from(seed), plan, i * SPAN, &skip),
            _ => panic!("unknown program"),
        };
        if !plan {
            println!("DONE {ops} {hash:016x} {seed:x}");
        }
    }
}
