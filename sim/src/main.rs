use nanosim::{alloc, engine, registry::checks};
use std::time::Duration;

fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| d.to_string())
}

fn main() {
    // backtraces of simulated failures are slow
    std::env::set_var("RUST_BACKTRACE", "0");
    alloc::init();
    engine::install_panic_hook();
    nanosim::streams::warm_process();
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map_or("", |s| s.as_str());
    let list = checks();
    let code = match arg(1) {
        "check" => {
            let Some(check) = list.iter().find(|c| c.id == arg(2)) else {
                eprintln!("unknown property");
                std::process::exit(2);
            };
            let tier = if arg(3).is_empty() { env("VERIF_TIER", "quick") } else { arg(3).to_string() };
            let thorough = tier == "thorough";
            let runs = env("VERIF_RUNS", "").parse().unwrap_or(if thorough {
                check.quick * 40
            } else {
                check.quick
            });
            let cfg = engine::Config {
                seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
                tier,
                workers: env("VERIF_WORKERS", "8").parse().unwrap_or(8),
                runs,
                wall: Duration::from_secs(if thorough { 780 } else { 240 }),
                verif: env("VERIF_DIR", "/verif"),
            };
            engine::check_command(check, &cfg)
        }
        "replay" => engine::replay_command(&list, arg(2)),
        "one" => engine::one_command(&list, arg(2), arg(3).parse().unwrap_or(1), arg(4).parse().unwrap_or(0)),
        "list" => {
            for c in &list {
                println!("{} {}", c.id, c.quick);
            }
            0
        }
        "determinism" => {
            let n = arg(2).parse().unwrap_or(200);
            let seeds: Vec<u64> = args.iter().skip(3).filter_map(|s| s.parse().ok()).collect();
            engine::determinism_command(&list, n, if seeds.is_empty() { &[1, 2] } else { &seeds })
        }
        _ => {
            eprintln!("nanosim check ID [quick|thorough] | replay FILE | one ID SEED RUN | determinism RUNS SEED...");
            2
        }
    };
    std::process::exit(code);
}
