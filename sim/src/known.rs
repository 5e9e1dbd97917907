//! Inputs of recorded findings: they are executed by every check of their property.
use crate::{
    engine,
    io::{Fs, Plan, SimIo},
    json::{self, J},
};

pub struct Probe {
    pub property: &'static str,
    pub name: &'static str,
    run: fn() -> Result<(), String>,
}

const PROBES: &[Probe] = &[Probe {
    property: "C14",
    name: "deep-nesting",
    run: deep_nesting,
}];

/// A module in which a stretch of storage reads as 300000 times '['.
fn deep_nesting() -> Result<(), String> {
    let status = engine::in_process(|| {
        // SAFETY: the process is a child of its own
        unsafe { libc::dup2(libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY), 2) };
        let n = 300_000;
        let mut fs = Fs::default();
        fs.mkdirs("/w");
        fs.cwd = "/w".into();
        fs.put("/w/a.json", ("[".repeat(n) + &"]".repeat(n)).as_bytes());
        let plan = Plan {
            max_events: usize::MAX,
            ..Default::default()
        };
        let io = SimIo::new(fs, plan, &["nanvm", "a.json", "b.json"]);
        let r = std::thread::Builder::new()
            .stack_size(engine::STACK)
            .spawn(move || nanvm_lib::app::run(&io).map_err(|e| e.to_string()))
            .expect("thread")
            .join();
        // an error is an orderly end, too
        assert!(r.is_ok());
    });
    match status {
        0 => Ok(()),
        s => Err(format!(
            "a module of 300000 nested arrays ends the process: {} (the stack of 8 MiB overflows)",
            engine::describe_status(s)
        )),
    }
}

/// Returns false if a probe shows a violation that is not listed.
pub fn check(id: &str, verif: &str) -> bool {
    let list = std::fs::read_to_string(format!("{verif}/known-findings")).unwrap_or_default();
    let mut ok = true;
    for p in PROBES.iter().filter(|p| p.property == id) {
        let Err(m) = (p.run)() else { continue };
        if list.lines().any(|l| l.starts_with(&format!("finding: property={id} {}:", p.name))) {
            println!("KNOWN-FINDING: property={id} {}: {m}", p.name);
            continue;
        }
        let dir = format!("{verif}/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{id}-{}.json", p.name);
        let doc = json::o(vec![
            ("property", json::s(id)),
            ("engine", json::s("probe")),
            ("probe", json::s(p.name)),
            ("violation", json::s(m.clone())),
        ]);
        std::fs::write(&path, doc.text()).expect("replay file");
        println!("{id}: {m}");
        println!("VIOLATION property={id} replay={path}");
        ok = false;
    }
    ok
}

pub fn replay(j: &J, path: &str) -> i32 {
    let name = j.get("probe").and_then(J::str).unwrap_or("");
    let Some(p) = PROBES.iter().find(|p| p.name == name) else { return 2 };
    match (p.run)() {
        Ok(()) => {
            println!("the violation does not occur");
            0
        }
        Err(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={path}", p.property);
            1
        }
    }
}
