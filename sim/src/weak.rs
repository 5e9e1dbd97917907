//! A second simulator: programs of /verif/weak are executed by an interpreter (Miri) that chooses
//! the schedule of threads (switching between any two basic blocks), stale values of atomics and
//! addresses from a seed, and reports data races, invalid accesses, uninitialized reads, deadlocks
//! and leaks.
use crate::json::{self, J};
use std::{
    collections::BTreeSet,
    process::{Command, Stdio},
    time::{Duration, Instant},
};

/// The program for a property, scenarios of a seed, and seeds of a quick check.
pub fn program(id: &str) -> Option<(&'static str, usize, u32)> {
    Some(match id {
        "M06" => ("sharing", 4, 192),
        "M01" => ("reading", 1, 32),
        _ => return None,
    })
}

const FLAGS: &str = "-Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance -Zmiri-preemption-rate=0.1";

const DEFECTS: [&str; 7] = [
    "error: Undefined Behavior",
    "error: memory leaked",
    "error: the evaluated program deadlocked",
    "error: the main thread terminated without waiting",
    "error: abnormal termination",
    "error: the evaluated program leaked",
    "panicked at",
];

pub struct Outcome {
    pub code: i32,
    pub out: String,
    pub err: String,
}

fn miri(verif: &str, flags: &str, args: &[String], limit: Duration) -> Option<Outcome> {
    let sysroot = format!("{verif}/sim/target/miri-sysroot");
    if !std::path::Path::new(&sysroot).join("lib").exists() {
        return None;
    }
    let dir = format!("{verif}/weak");
    static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let n = COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let file = |x: &str| format!("{verif}/sim/target/weak-{}-{n}.{x}", std::process::id());
    let open = |x: &str| std::fs::File::create(file(x)).ok();
    let mut child = Command::new("timeout")
        .args(["-k", "5", &limit.as_secs().to_string(), "cargo", "+nightly", "miri", "run", "--offline", "--quiet"])
        .args(["--target-dir", &format!("{verif}/sim/target"), "--"])
        .args(args)
        .current_dir(dir)
        .env("MIRI_SYSROOT", sysroot)
        .env("MIRIFLAGS", format!("{FLAGS} {flags}"))
        .env_remove("RUSTFLAGS")
        .stdin(Stdio::null())
        .stdout(open("out")?)
        .stderr(open("err")?)
        .spawn()
        .ok()?;
    let code = child.wait().ok()?.code().unwrap_or(-1);
    let take = |x: &str| {
        let s = std::fs::read(file(x)).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        let _ = std::fs::remove_file(file(x));
        s
    };
    Some(Outcome { code, out: take("out"), err: take("err") })
}

/// What went wrong, without addresses and thread numbers, and the report.
fn defect(o: &Outcome) -> Option<(String, String)> {
    if o.code == 0 {
        return None;
    }
    let l: Vec<&str> = o.err.lines().collect();
    let i = l.iter().position(|l| DEFECTS.iter().any(|d| l.contains(d)))?;
    let mut m = l[i].to_string();
    if m.contains("panicked at") {
        m = format!("{m} {}", l.get(i + 1).unwrap_or(&""));
    }
    let class: String = m
        .split(|c: char| !c.is_ascii_alphabetic())
        .filter(|w| !w.is_empty() && !w.starts_with("alloc") && *w != "unnamed")
        .take(12)
        .collect::<Vec<_>>()
        .join(" ");
    Some((class, m))
}

fn arguments(program: &str, runs: usize, skip: &[usize], plan: bool) -> Vec<String> {
    let s = skip.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    vec![
        program.into(),
        runs.to_string(),
        if s.is_empty() { "-".into() } else { s },
        if plan { "plan" } else { "exec" }.into(),
    ]
}

fn single(verif: &str, seed: u32, args: &[String]) -> Option<Outcome> {
    miri(verif, &format!("-Zmiri-seed={seed}"), args, Duration::from_secs(120))
}

#[derive(Default)]
pub struct Found {
    pub path: String,
    pub class: String,
    pub message: String,
}

#[derive(Default)]
pub struct Report {
    pub evidence: Vec<(&'static str, J)>,
    pub found: Option<Found>,
}

pub fn search(id: &str, seed: u64, tier: &str, verif: &str, limit: Duration) -> Report {
    let Some((program, runs, quick)) = program(id) else { return Report::default() };
    let start = Instant::now();
    let seeds = match std::env::var("VERIF_WEAK").ok().and_then(|s| s.parse().ok()) {
        Some(n) => n,
        None if tier == "thorough" => quick * 40,
        None => quick,
    };
    // every seed has seeds of its own
    let base = (seed % 4000) as u32 * 1_000_000 + 1;
    let args = arguments(program, runs, &[], false);
    let (mut done, mut scenarios, mut ops) = (0, 0, 0);
    let mut orders = BTreeSet::new();
    let mut failing = None;
    let mut note = String::new();
    while done < seeds && start.elapsed() < limit && failing.is_none() {
        let n = (seeds - done).min(128);
        let (a, b) = (base + done, base + done + n);
        let flags = format!("-Zmiri-many-seeds={a}..{b} -Zmiri-many-seeds-keep-going");
        let left = limit.saturating_sub(start.elapsed()) + Duration::from_secs(30);
        let Some(o) = miri(verif, &flags, &args, left) else {
            note = "the interpreter is not available".into();
            break;
        };
        for l in o.out.lines() {
            let Some(i) = l.find("DONE ") else { continue };
            let w: Vec<&str> = l[i..].split(' ').collect();
            scenarios += 1;
            ops += w.get(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            orders.insert(w.get(2).unwrap_or(&"").to_string());
        }
        done += n;
        if o.code == 0 {
            continue;
        }
        let mut l: Vec<u32> = o
            .err
            .lines()
            .chain(o.out.lines())
            .filter_map(|l| l.find("FAILING SEED:").and_then(|i| l[i + 13..].trim().split(' ').next()?.parse().ok()))
            .collect();
        l.sort();
        if l.is_empty() {
            note = format!("the interpreter stopped: {}", last_error(&o.err));
            break;
        }
        for s in l.into_iter().take(6) {
            match single(verif, s, &args) {
                Some(o) => match defect(&o) {
                    Some(d) => {
                        failing = Some((s, d));
                        break;
                    }
                    None => note = format!("seed {s} was not judged: {}", last_error(&o.err)),
                },
                None => note = format!("seed {s} could not be repeated"),
            }
        }
    }
    let mut r = Report::default();
    if let Some((s, (class, message))) = failing {
        r.found = Some(minimise(id, program, runs, s, class, message, tier, seed, verif));
    }
    let wall = start.elapsed().as_secs_f64();
    let mut e = vec![
        ("program", json::s(format!("weak/src/{program}.rs"))),
        ("seeds", J::Int(done as i64)),
        ("scenarios", J::Int(scenarios)),
        ("operations", J::Int(ops as i64)),
        ("distinct_orders", J::Int(orders.len() as i64)),
        ("seconds", J::Float(wall)),
        ("seeds_per_hour", J::Int((done as f64 / wall.max(0.001) * 3600.0) as i64)),
        (
            "simulates",
            json::s("schedules of threads (switches between basic blocks), stale reads of atomics as the memory model of the language permits them, addresses; reports data races, invalid and uninitialized accesses, leaks, deadlocks"),
        ),
        ("measure", json::s("distinct_orders counts different orders of the begins and ends of the operations of all threads")),
    ];
    if !note.is_empty() {
        eprintln!("{id}: {note}");
        e.push(("note", json::s(note)));
    }
    r.evidence = e;
    println!("{id}: {done} seeds of the interpreter, {scenarios} scenarios, {wall:.1} s");
    r
}

fn last_error(e: &str) -> &str {
    e.lines().rev().find(|l| l.starts_with("error")).unwrap_or("no message")
}

#[allow(clippy::too_many_arguments)]
fn minimise(
    id: &str,
    program: &str,
    runs: usize,
    miri_seed: u32,
    class: String,
    message: String,
    tier: &str,
    seed: u64,
    verif: &str,
) -> Found {
    let end = Instant::now() + Duration::from_secs(40);
    let fails = |runs: usize, skip: &[usize]| {
        single(verif, miri_seed, &arguments(program, runs, skip, false))
            .and_then(|o| defect(&o).map(|d| (d.0 == class, d.1, o.err)))
            .filter(|x| x.0)
    };
    let mut tried = 0;
    let mut best_runs = runs;
    for n in 1..runs {
        tried += 1;
        if fails(n, &[]).is_some() {
            best_runs = n;
            break;
        }
    }
    let plan = |runs: usize, skip: &[usize]| -> Vec<String> {
        single(verif, miri_seed, &arguments(program, runs, skip, true))
            .map(|o| o.out.lines().map(|l| l.to_string()).collect())
            .unwrap_or_default()
    };
    let ops: Vec<usize> = plan(best_runs, &[])
        .iter()
        .filter_map(|l| l.split("operation ").nth(1)?.split(':').next()?.parse().ok())
        .collect();
    let mut skip: Vec<usize> = vec![];
    // several candidates at once
    let mut left: Vec<usize> = ops.into_iter().rev().collect();
    while !left.is_empty() && Instant::now() < end {
        let part: Vec<usize> = left.drain(..left.len().min(6)).collect();
        tried += part.len();
        let good: Vec<usize> = std::thread::scope(|s| {
            let l: Vec<_> = part
                .iter()
                .map(|k| {
                    let mut with = skip.clone();
                    with.push(*k);
                    let fails = &fails;
                    s.spawn(move || fails(best_runs, &with).map(|_| *k))
                })
                .collect();
            l.into_iter().filter_map(|t| t.join().ok().flatten()).collect()
        });
        let mut all = skip.clone();
        all.extend(&good);
        if good.len() > 1 {
            tried += 1;
        }
        if good.len() > 1 && fails(best_runs, &all).is_some() {
            skip = all;
        } else if let Some((k, rest)) = good.split_first() {
            skip.push(*k);
            left.extend(rest);
        }
    }
    skip.sort();
    let (message, report) = match fails(best_runs, &skip) {
        Some((_, m, e)) => (m, e),
        None => (message, String::new()),
    };
    let plan = plan(best_runs, &skip);
    let lines = |l: Vec<&str>| J::Arr(l.into_iter().map(json::s).collect());
    let dir = format!("{verif}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-weak-{miri_seed}.json");
    let doc = json::o(vec![
        ("property", json::s(id)),
        ("engine", json::s("weak")),
        ("seed", J::Int(seed as i64)),
        ("tier", json::s(tier)),
        ("class", json::s(class.clone())),
        ("violation", json::s(message.clone())),
        ("program", json::s(program)),
        ("miri_seed", J::Int(miri_seed as i64)),
        ("scenarios", J::Int(best_runs as i64)),
        ("skip", J::Arr(skip.iter().map(|x| J::Int(*x as i64)).collect())),
        ("minimisation_runs", J::Int(tried as i64)),
        ("plan", lines(plan.iter().map(|l| l.as_str()).collect())),
        ("report", lines(report.lines().collect())),
    ]);
    std::fs::write(&path, doc.text()).expect("replay file");
    println!("{id}: {message}");
    for l in plan.iter().map(|l| l.as_str()).chain(report.lines()).take(80) {
        println!("  {l}");
    }
    println!("VIOLATION property={id} replay={path}");
    Found { path, class, message }
}

pub fn replay(j: &J, path: &str, verif: &str) -> i32 {
    let text = |k: &str| j.get(k).and_then(J::str).unwrap_or("").to_string();
    let int = |k: &str| j.get(k).and_then(J::int).unwrap_or(0);
    let skip: Vec<usize> = match j.get("skip") {
        Some(J::Arr(a)) => a.iter().filter_map(|x| Some(x.int()? as usize)).collect(),
        _ => vec![],
    };
    let args = |plan| arguments(&text("program"), int("scenarios") as usize, &skip, plan);
    let seed = int("miri_seed") as u32;
    if let Some(o) = single(verif, seed, &args(true)) {
        print!("{}", o.out);
    }
    let Some(o) = single(verif, seed, &args(false)) else {
        eprintln!("the interpreter is not available");
        return 2;
    };
    print!("{}", o.err);
    match defect(&o) {
        Some((c, m)) if c == text("class") => {
            println!("{m}");
            println!("VIOLATION property={} replay={path}", text("property"));
            1
        }
        d => {
            println!("the violation does not occur{}", d.map_or(String::new(), |d| format!(", but {}", d.1)));
            0
        }
    }
}
