//! Runs scenarios in forked processes, searches over seeds, minimises and reports violations.

use crate::{
    alloc,
    choices::{hash_bytes, mix, Choices, Rng, MAX_CHOICES},
    json::{self, J},
};
use std::{
    collections::{BTreeMap, HashSet},
    fmt::Display,
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    ptr::null_mut,
    sync::{
        atomic::{AtomicI64, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

/// One simulated run, as seen by a check.
pub struct Case {
    pub c: Choices,
    /// scenarios and traces are written down
    pub detail: bool,
    pub notes: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<(String, String)>,
    /// identifies the explored behaviour
    pub trace: u64,
    pub nontrivial: bool,
    pub ticks: u64,
    pub executions: u64,
    pub thorough: bool,
}

impl Case {
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.detail {
            let s = f();
            live_note(&s);
            self.notes.push(s);
        }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(k.to_string()).or_default() += n;
        }
    }
    pub fn violation(&mut self, class: &str, msg: impl Display) {
        let msg = msg.to_string();
        self.note(|| format!("VIOLATION {class}: {msg}"));
        if self.violations.len() < 8 {
            self.violations.push((class.to_string(), msg));
        }
    }
    pub fn check(&mut self, ok: bool, class: &str, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violation(class, msg());
        }
        ok
    }
    pub fn trace(&mut self, v: u64) {
        self.trace = mix(self.trace, v);
    }
    pub fn trace_str(&mut self, s: &str) {
        self.trace = hash_bytes(self.trace, s.as_bytes());
    }
}

pub struct Check {
    pub id: &'static str,
    pub run: fn(&mut Case),
    /// number of scenarios of the quick tier
    pub quick: u64,
    /// what a scenario is and when it counts as non-trivial
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
    /// conditions that the runs are expected to reach
    pub probes: &'static [&'static str],
}

// ---- the entropy of the process ----

static ENTROPY: AtomicU64 = AtomicU64::new(0);

/// Hash keys of threads that start later are drawn from this seed.
pub fn set_entropy(seed: u64) {
    ENTROPY.store(mix(seed, 77), Ordering::SeqCst);
}

static ENTROPY_DRAWN: AtomicU64 = AtomicU64::new(0);

pub fn entropy_drawn() -> u64 {
    ENTROPY_DRAWN.load(Ordering::SeqCst)
}

/// Replaces the system call: `std` draws the keys of hash maps from here.
///
/// # Safety
/// as `getrandom(2)`
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut r = Rng::new(ENTROPY.load(Ordering::SeqCst));
    for i in 0..len {
        buf.add(i).write(r.next() as u8);
    }
    ENTROPY.store(r.next(), Ordering::SeqCst);
    ENTROPY_DRAWN.fetch_add(1, Ordering::SeqCst);
    len as isize
}

// ---- shared memory ----

#[derive(Clone, Copy)]
pub struct Shm {
    pub p: *mut u8,
    pub len: usize,
}

unsafe impl Send for Shm {}

pub fn shm(len: usize) -> Shm {
    unsafe {
        let p = libc::mmap(
            null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        Shm {
            p: p as *mut u8,
            len,
        }
    }
}

pub fn unmap(m: Shm) {
    unsafe { libc::munmap(m.p as *mut _, m.len) };
}

#[derive(Default)]
struct Out(Vec<u8>);

impl Out {
    fn u(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn s(&mut self, s: &str) {
        self.u(s.len() as u64);
        self.0.extend_from_slice(s.as_bytes());
    }
}

struct In<'a>(&'a [u8]);

impl In<'_> {
    fn u(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    fn s(&mut self) -> String {
        let n = self.u() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        String::from_utf8_lossy(a).into_owned()
    }
}

pub fn store(m: Shm, data: &[u8]) -> bool {
    if data.len() + 8 > m.len {
        return false;
    }
    unsafe {
        m.p.add(8).copy_from(data.as_ptr(), data.len());
        (m.p as *mut u64).write(data.len() as u64);
    }
    true
}

pub fn load(m: Shm) -> Option<Vec<u8>> {
    unsafe {
        let n = (m.p as *mut u64).read() as usize;
        if n == 0 {
            return None;
        }
        Some(std::slice::from_raw_parts(m.p.add(8), n).to_vec())
    }
}

// ---- one run in a process of its own ----

/// The panic message that was last seen.
pub static PANIC: Mutex<String> = Mutex::new(String::new());

pub fn last_panic() -> String {
    PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        alloc::off(|| {
            let m = info.to_string();
            if let Ok(mut p) = PANIC.lock() {
                *p = m;
            }
        })
    }));
}

#[derive(Clone, Default, Debug)]
pub struct Report {
    pub choices: Vec<u32>,
    pub trace: u64,
    pub nontrivial: bool,
    pub ticks: u64,
    pub executions: u64,
    pub counters: BTreeMap<String, u64>,
    pub violations: Vec<(String, String)>,
    pub notes: Vec<String>,
    pub harness_error: Option<String>,
}

pub enum Source {
    Seed(u64),
    List(Vec<u32>),
}

const CHOICE_BYTES: usize = (MAX_CHOICES + 1) * 4;

pub struct Arena {
    choices: Shm,
    result: Shm,
    /// notes of a run that may end abnormally
    live: Shm,
}

static LIVE: std::sync::atomic::AtomicPtr<u8> = std::sync::atomic::AtomicPtr::new(null_mut());
const LIVE_BYTES: usize = 4 << 20;

fn live_note(s: &str) {
    let p = LIVE.load(std::sync::atomic::Ordering::Relaxed);
    if !p.is_null() {
        unsafe {
            let n = (p as *mut u64).read() as usize;
            let l = s.len().min(LIVE_BYTES.saturating_sub(n + 64));
            p.add(8 + n).copy_from_nonoverlapping(s.as_ptr(), l);
            p.add(8 + n + l).write(b'\n');
            (p as *mut u64).write((n + l + 1) as u64);
        }
    }
}

impl Arena {
    pub fn new() -> Arena {
        Arena {
            choices: shm(CHOICE_BYTES),
            result: shm(8 << 20),
            live: shm(LIVE_BYTES),
        }
    }
}

impl Default for Arena {
    fn default() -> Self {
        Self::new()
    }
}

pub const CPU_SECONDS: i64 = 8;
pub const WALL_SECONDS: u32 = 60;
/// A run that reached its limit of time is repeated with a limit as many times as large, so that
/// a slow machine is not taken for a program that does not end.
const PATIENCE: i64 = 5;
static FACTOR: AtomicI64 = AtomicI64::new(1);
/// as the main thread of a process
pub const STACK: usize = 8 << 20;

/// Limits of a process that runs code under test.
pub unsafe fn limits(cpu: i64, wall: u32) {
    let factor = FACTOR.load(Ordering::Relaxed);
    let (cpu, wall) = (cpu * factor, wall * factor as u32);
    let t = libc::itimerval {
        it_interval: libc::timeval {
            tv_sec: 0,
            tv_usec: 0,
        },
        it_value: libc::timeval {
            tv_sec: cpu,
            tv_usec: 0,
        },
    };
    libc::setitimer(libc::ITIMER_PROF, &t, null_mut());
    libc::alarm(wall);
    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    let no = libc::rlimit {
        rlim_cur: 0,
        rlim_max: 0,
    };
    libc::setrlimit(libc::RLIMIT_CORE, &no);
}

pub unsafe fn silence() {
    let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
    if fd >= 0 {
        libc::dup2(fd, 2);
        libc::close(fd);
    }
}

pub fn wait(pid: i32) -> i32 {
    let mut status = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut status, 0) };
        if r == pid {
            return status;
        }
    }
}

pub fn describe_status(status: i32) -> String {
    if libc::WIFSIGNALED(status) {
        match libc::WTERMSIG(status) {
            libc::SIGPROF => format!("hang: no end after {CPU_SECONDS} s of processor time"),
            libc::SIGALRM => format!("hang: no end after {WALL_SECONDS} s"),
            libc::SIGSEGV => "SIGSEGV: invalid memory access".to_string(),
            libc::SIGBUS => "SIGBUS: invalid memory access".to_string(),
            libc::SIGABRT => "SIGABRT: abort".to_string(),
            libc::SIGILL => "SIGILL".to_string(),
            s => format!("signal {s}"),
        }
    } else {
        format!("exit status {}", libc::WEXITSTATUS(status))
    }
}

pub fn run_case(check: &Check, a: &Arena, source: Source, detail: bool, thorough: bool) -> Report {
    unsafe {
        (a.result.p as *mut u64).write(0);
        (a.choices.p as *mut u32).write(0);
        (a.live.p as *mut u64).write(0);
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            child(check, a, source, detail, thorough);
        }
        let status = wait(pid);
        let p = a.choices.p as *const u32;
        let n = p.read() as usize;
        let choices = std::slice::from_raw_parts(p.add(1), n).to_vec();
        match (load(a.result), status) {
            (Some(data), 0) => {
                let mut i = In(&data);
                let mut r = Report {
                    choices,
                    trace: i.u(),
                    nontrivial: i.u() != 0,
                    ticks: i.u(),
                    executions: i.u(),
                    ..Default::default()
                };
                for _ in 0..i.u() {
                    let k = i.s();
                    let v = i.u();
                    r.counters.insert(k, v);
                }
                for _ in 0..i.u() {
                    let k = i.s();
                    let v = i.s();
                    r.violations.push((k, v));
                }
                for _ in 0..i.u() {
                    r.notes.push(i.s());
                }
                r
            }
            (Some(data), _) => Report {
                choices,
                harness_error: Some(String::from_utf8_lossy(&data).into_owned()),
                ..Default::default()
            },
            (None, _) => {
                let what = describe_status(status);
                Report {
                    choices,
                    violations: vec![(
                        format!("abnormal end: {}", what.split(':').next().unwrap()),
                        format!("the process of the simulated run ended with {what}"),
                    )],
                    notes: {
                        let n = (a.live.p as *const u64).read() as usize;
                        let t = std::slice::from_raw_parts(a.live.p.add(8), n);
                        String::from_utf8_lossy(t).lines().map(String::from).collect()
                    },
                    ..Default::default()
                }
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
unsafe fn child(check: &Check, a: &Arena, source: Source, detail: bool, thorough: bool) -> ! {
    limits(CPU_SECONDS, WALL_SECONDS);
    silence();
    install_panic_hook();
    if detail {
        LIVE.store(a.live.p, std::sync::atomic::Ordering::Relaxed);
    }
    let record = a.choices.p as *mut u32;
    let c = match source {
        Source::Seed(s) => Choices::from_rng(Rng::new(s), record),
        Source::List(l) => Choices::from_list(l, record),
    };
    set_entropy(0x5EED);
    let mut case = Case {
        c,
        detail,
        notes: vec![],
        counters: BTreeMap::new(),
        violations: vec![],
        trace: 0,
        nontrivial: false,
        ticks: 0,
        executions: 0,
        thorough,
    };
    // a thread of its own: the hash keys of `std` belong to threads
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || (check.run)(&mut case))
            .expect("thread")
            .join()
    });
    if r.is_err() {
        // a panic of the code under test is caught by the checks
        store(a.result, format!("panic in the harness: {}", last_panic()).as_bytes());
        libc::_exit(3);
    }
    let mut o = Out::default();
    o.u(case.trace);
    o.u(case.nontrivial as u64);
    o.u(case.ticks);
    o.u(case.executions);
    o.u(case.counters.len() as u64);
    for (k, v) in &case.counters {
        o.s(k);
        o.u(*v);
    }
    o.u(case.violations.len() as u64);
    for (k, v) in &case.violations {
        o.s(k);
        o.s(v);
    }
    o.u(case.notes.len() as u64);
    for n in &case.notes {
        o.s(n);
    }
    if !store(a.result, &o.0) {
        store(a.result, b"result does not fit");
        libc::_exit(3);
    }
    libc::_exit(0)
}

/// Runs a part of a scenario in a process of its own. The status is returned.
pub fn in_process(f: impl FnOnce()) -> i32 {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            limits(CPU_SECONDS, WALL_SECONDS);
            let r = catch_unwind(AssertUnwindSafe(f));
            libc::_exit(if r.is_ok() { 0 } else { 101 });
        }
        wait(pid)
    }
}

// ---- search ----

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    mix(mix(hash_bytes(1, id.as_bytes()), seed), index)
}

#[derive(Default)]
struct Stats {
    runs: u64,
    executions: u64,
    nontrivial: u64,
    ticks: u64,
    counters: BTreeMap<String, u64>,
    traces: HashSet<u64>,
    found: Option<(u64, Vec<u32>, String, String)>,
    error: Option<String>,
    log_hash: u64,
    /// milliseconds of the run that took longest
    slowest: u64,
}

const HANG: &str = "abnormal end: hang";

pub struct Config {
    pub seed: u64,
    pub tier: String,
    pub workers: u64,
    pub runs: u64,
    pub wall: Duration,
    pub verif: String,
}

fn worker(check: &Check, cfg: &Config, k: u64, min: *const AtomicU64, start: Instant) -> Stats {
    let a = Arena::new();
    let mut s = Stats::default();
    let mut i = k;
    while i < cfg.runs && start.elapsed() < cfg.wall {
        if unsafe { (*min).load(Ordering::SeqCst) } < i {
            break;
        }
        let seed = case_seed(cfg.seed, check.id, i);
        let before = Instant::now();
        let mut r = run_case(check, &a, Source::Seed(seed), false, cfg.tier == "thorough");
        if r.violations.iter().any(|v| v.0 == HANG) {
            FACTOR.store(PATIENCE, Ordering::Relaxed);
            r = run_case(check, &a, Source::Seed(seed), false, cfg.tier == "thorough");
            FACTOR.store(1, Ordering::Relaxed);
        }
        s.slowest = s.slowest.max(before.elapsed().as_millis() as u64);
        s.runs += 1;
        s.executions += r.executions;
        s.ticks += r.ticks;
        if let Some(e) = r.harness_error {
            s.error = Some(format!("run {i}: {e}"));
            break;
        }
        for (k, v) in &r.counters {
            *s.counters.entry(k.clone()).or_default() += v;
        }
        s.log_hash = s.log_hash.wrapping_add(mix(r.trace, i));
        if r.nontrivial && s.traces.insert(r.trace) {
            s.nontrivial += 1;
        }
        if let Some((class, msg)) = r.violations.first() {
            unsafe { (*min).fetch_min(i, Ordering::SeqCst) };
            s.found = Some((i, r.choices, class.clone(), msg.clone()));
            break;
        }
        i += cfg.workers;
    }
    s
}

fn save_stats(s: &Stats) -> Vec<u8> {
    let mut o = Out::default();
    o.u(s.runs);
    o.u(s.executions);
    o.u(s.ticks);
    o.u(s.log_hash);
    o.u(s.slowest);
    o.u(s.counters.len() as u64);
    for (k, v) in &s.counters {
        o.s(k);
        o.u(*v);
    }
    o.u(s.traces.len() as u64);
    for t in &s.traces {
        o.u(*t);
    }
    match &s.error {
        None => o.u(0),
        Some(e) => {
            o.u(1);
            o.s(e);
        }
    }
    match &s.found {
        None => o.u(0),
        Some((i, c, k, m)) => {
            o.u(1);
            o.u(*i);
            o.s(k);
            o.s(m);
            o.u(c.len() as u64);
            for x in c {
                o.u(*x as u64);
            }
        }
    }
    o.0
}

fn add_stats(t: &mut Stats, data: &[u8]) {
    let mut i = In(data);
    t.runs += i.u();
    t.executions += i.u();
    t.ticks += i.u();
    t.log_hash = t.log_hash.wrapping_add(i.u());
    t.slowest = t.slowest.max(i.u());
    for _ in 0..i.u() {
        let k = i.s();
        *t.counters.entry(k).or_default() += i.u();
    }
    for _ in 0..i.u() {
        let x = i.u();
        t.traces.insert(x);
    }
    if i.u() == 1 {
        t.error = Some(i.s());
    }
    if i.u() == 1 {
        let index = i.u();
        let k = i.s();
        let m = i.s();
        let c = (0..i.u()).map(|_| i.u() as u32).collect();
        if t.found.as_ref().map_or(true, |f| index < f.0) {
            t.found = Some((index, c, k, m));
        }
    }
}

fn search(check: &Check, cfg: &Config) -> (Stats, f64) {
    let start = Instant::now();
    let min = shm(4096);
    let min = min.p as *const AtomicU64;
    unsafe { (*min).store(u64::MAX, Ordering::SeqCst) };
    let mut procs = vec![];
    for k in 0..cfg.workers {
        let m = shm(256 << 20);
        let _ = std::io::stdout().flush();
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let r = catch_unwind(AssertUnwindSafe(|| worker(check, cfg, k, min, start)));
            let s = r.unwrap_or_else(|_| Stats {
                error: Some(format!("worker: {}", last_panic())),
                ..Default::default()
            });
            let ok = store(m, &save_stats(&s));
            unsafe { libc::_exit(if ok { 0 } else { 4 }) };
        }
        procs.push((pid, m));
    }
    let mut t = Stats::default();
    for (pid, m) in procs {
        let status = wait(pid);
        match load(m) {
            Some(d) if status == 0 => add_stats(&mut t, &d),
            _ => t.error = Some(format!("worker ended with {}", describe_status(status))),
        }
        unsafe { libc::munmap(m.p as *mut _, m.len) };
    }
    t.nontrivial = t.traces.len() as u64;
    (t, start.elapsed().as_secs_f64())
}

// ---- minimisation ----

struct Shrinker<'a> {
    check: &'a Check,
    a: &'a Arena,
    class: String,
    best: Vec<u32>,
    runs: usize,
    max_runs: usize,
    deadline: Instant,
    thorough: bool,
}

impl Shrinker<'_> {
    fn try_list(&mut self, l: Vec<u32>) -> bool {
        if self.runs >= self.max_runs || Instant::now() > self.deadline {
            return false;
        }
        self.runs += 1;
        let r = run_case(self.check, self.a, Source::List(l), false, self.thorough);
        if r.violations.iter().any(|v| v.0 == self.class) {
            // what was used is at most what was given
            let mut used = r.choices;
            while used.last() == Some(&0) {
                used.pop();
            }
            let smaller = used.len() < self.best.len()
                || (used.len() == self.best.len() && used < self.best);
            if smaller {
                self.best = used;
                return true;
            }
        }
        false
    }
    fn run(&mut self) {
        while self.best.last() == Some(&0) {
            self.best.pop();
        }
        loop {
            let before = self.best.clone();
            // drop blocks
            let mut size = (self.best.len() / 2).max(1);
            while size >= 1 {
                let mut at = self.best.len();
                while at > 0 {
                    let lo = at.saturating_sub(size);
                    if lo < self.best.len() {
                        let hi = at.min(self.best.len());
                        let mut l = self.best.clone();
                        l.drain(lo..hi);
                        if !self.try_list(l) {
                            let mut l = self.best.clone();
                            let hi = hi.min(l.len());
                            if l[lo..hi].iter().any(|x| *x != 0) {
                                l[lo..hi].iter_mut().for_each(|x| *x = 0);
                                self.try_list(l);
                            }
                        }
                    }
                    at = lo;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            // smaller values
            for i in 0..self.best.len() {
                let Some(&v) = self.best.get(i) else { break };
                let mut lo = 0;
                let mut hi = v;
                while lo < hi {
                    let mid = lo + (hi - lo) / 2;
                    let mut l = self.best.clone();
                    if i >= l.len() {
                        break;
                    }
                    l[i] = mid;
                    if self.try_list(l) {
                        hi = mid;
                    } else {
                        lo = mid + 1;
                    }
                }
            }
            if self.best == before || self.runs >= self.max_runs || Instant::now() > self.deadline {
                break;
            }
        }
    }
}

fn lines(v: &[String]) -> J {
    J::Arr(v.iter().map(|x| json::s(x.clone())).collect())
}

// ---- commands ----

pub fn check_command(check: &Check, cfg: &Config) -> i32 {
    let start = Instant::now();
    let (t, wall) = search(check, cfg);
    let thorough = cfg.tier == "thorough";
    if let (Some(e), None) = (&t.error, &t.found) {
        eprintln!("harness error: {e}");
        return 2;
    }
    let a = Arena::new();
    let mut code = 0;
    if let Some((index, choices, class, msg)) = &t.found {
        let mut sh = Shrinker {
            check,
            a: &a,
            class: class.clone(),
            best: choices.clone(),
            runs: 0,
            max_runs: 4000,
            deadline: Instant::now() + Duration::from_secs(if thorough { 120 } else { 25 }),
            thorough,
        };
        sh.run();
        let best = sh.best.clone();
        let tried = sh.runs;
        let mut list = best;
        let mut r = run_case(check, &a, Source::List(list.clone()), true, thorough);
        if !r.violations.iter().any(|v| v.0 == *class) {
            list = choices.clone();
            r = run_case(check, &a, Source::List(list.clone()), true, thorough);
        }
        let message = r
            .violations
            .iter()
            .find(|v| v.0 == *class)
            .map_or(msg.clone(), |v| v.1.clone());
        let dir = format!("{}/replays", cfg.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{}.json", check.id, cfg.seed, index);
        let doc = json::o(vec![
            ("property", json::s(check.id)),
            ("seed", J::Int(cfg.seed as i64)),
            ("tier", json::s(cfg.tier.clone())),
            ("run", J::Int(*index as i64)),
            ("class", json::s(class.clone())),
            ("violation", json::s(message.clone())),
            (
                "choices",
                J::Arr(list.iter().map(|x| J::Int(*x as i64)).collect()),
            ),
            ("trace_hash", json::s(format!("{:016x}", r.trace))),
            ("original_choices", J::Int(choices.len() as i64)),
            ("minimisation_runs", J::Int(tried as i64)),
            ("scenario_and_trace", lines(&r.notes)),
        ]);
        std::fs::write(&path, doc.text()).expect("replay file");
        println!("{}: {class}: {}", check.id, short(&message));
        for n in r.notes.iter().take(60) {
            println!("  {}", short(n));
        }
        println!("VIOLATION property={} replay={path}", check.id);
        code = 1;
    }
    if code == 0 && !crate::known::check(check.id, &cfg.verif) {
        code = 1;
    }
    let mut weak = crate::weak::Report::default();
    if code == 0 {
        let limit = Duration::from_secs(if thorough { 600 } else { 150 });
        weak = crate::weak::search(check.id, cfg.seed, &cfg.tier, &cfg.verif, limit);
        if weak.found.is_some() {
            code = 1;
        }
    }
    // samples
    let mut samples = vec![];
    for i in [0, cfg.runs / 3, cfg.runs / 2] {
        let seed = case_seed(cfg.seed, check.id, i);
        let r = run_case(check, &a, Source::Seed(seed), true, thorough);
        samples.push(json::o(vec![
            ("run", J::Int(i as i64)),
            ("trace_hash", json::s(format!("{:016x}", r.trace))),
            (
                "scenario_and_trace",
                lines(&r.notes[..r.notes.len().min(60)]),
            ),
        ]));
    }
    let mut faults = BTreeMap::new();
    let mut probes = BTreeMap::new();
    for (k, v) in &t.counters {
        match k.strip_prefix("fault: ") {
            Some(k) => faults.insert(k.to_string(), *v),
            None => probes.insert(k.clone(), *v),
        };
    }
    let missing: Vec<&&str> = check
        .probes
        .iter()
        .filter(|p| t.counters.get(**p).copied().unwrap_or(0) == 0)
        .collect();
    // Which conditions come up can depend on how the code is written (an error of one
    // allocation may be an abort or an error), so this is told and recorded, no failure.
    if code == 0 && !missing.is_empty() {
        println!("NOTE: {}: conditions not reached: {missing:?}", check.id);
    }
    if code == 0 && t.nontrivial == 0 && t.runs > 0 {
        eprintln!("harness error: every run was trivial");
        return 2;
    }
    let evidence = json::o(vec![
        ("property", json::s(check.id)),
        ("tier", json::s(cfg.tier.clone())),
        ("seed", J::Int(cfg.seed as i64)),
        ("level", json::s("exploration")),
        (
            "coverage",
            json::o(vec![
                ("evaluations", J::Int(t.runs as i64)),
                ("distinct_nontrivial", J::Int(t.nontrivial as i64)),
                ("rule", json::s(check.rule)),
                ("samples", J::Arr(samples)),
                ("executions_of_code_under_test", J::Int(t.executions as i64)),
                ("runs_per_hour", J::Int((t.runs as f64 / wall * 3600.0) as i64)),
                ("seeds", json::s("every run has a seed of its own, derived from `seed`, the property and the number of the run")),
                ("slowest_run_milliseconds", J::Int(t.slowest as i64)),
                ("simulated_events", J::Int(t.ticks as i64)),
                (
                    "simulated_time",
                    json::s("The code under test has no clock or timer; simulated time is counted in events (I/O calls, steps of clients, requests to the allocator): simulated_events."),
                ),
                ("faults_fired", json::counts(&faults)),
                ("conditions_reached", json::counts(&probes)),
                ("conditions_not_reached", J::Arr(missing.iter().map(|x| json::s(x.to_string())).collect())),
                (
                    "distinct_measure",
                    json::s("distinct_nontrivial counts different hashes of the event trace (calls, positions, results, faults) together with the outcome, among the runs that `rule` calls non-trivial"),
                ),
                ("batch_log_hash", json::s(format!("{:016x}", t.log_hash))),
                ("workers", J::Int(cfg.workers as i64)),
                ("memory_model_simulation", if weak.evidence.is_empty() { json::s("none") } else { json::o(weak.evidence) }),
                ("real_code", json::s(check.real)),
                ("stubs", json::s(check.stub)),
                ("exhaustive", J::Bool(false)),
            ]),
        ),
        (
            "assumptions",
            J::Arr(check.assumptions.iter().map(|x| json::s(*x)).collect()),
        ),
        ("wall_s", J::Float(start.elapsed().as_secs_f64())),
        ("violations", J::Int(code as i64)),
    ]);
    let dir = format!("{}/evidence", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", check.id), evidence.text()).expect("evidence");
    println!(
        "{}: {} runs, {} distinct non-trivial, {} events, {:.1} s",
        check.id, t.runs, t.nontrivial, t.ticks, wall
    );
    code
}

/// For the terminal: the whole text is in the replay file.
fn short(s: &str) -> String {
    match s.char_indices().nth(1000) {
        Some((i, _)) => format!("{}… ({} bytes)", &s[..i], s.len()),
        None => s.to_string(),
    }
}

pub fn replay_command(checks: &[Check], path: &str) -> i32 {
    let Some(j) = std::fs::read_to_string(path).ok().and_then(|t| J::parse(&t)) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let id = j.get("property").and_then(J::str).unwrap_or("");
    if j.get("engine").and_then(J::str) == Some("probe") {
        return crate::known::replay(&j, path);
    }
    if j.get("engine").and_then(J::str) == Some("weak") {
        return crate::weak::replay(&j, path, &std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    }
    let Some(check) = checks.iter().find(|c| c.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let list = match j.get("choices") {
        Some(J::Arr(a)) => a.iter().map(|x| x.int().unwrap_or(0) as u32).collect(),
        _ => vec![],
    };
    let class = j.get("class").and_then(J::str).unwrap_or("").to_string();
    let thorough = j.get("tier").and_then(J::str) == Some("thorough");
    let a = Arena::new();
    let r = run_case(check, &a, Source::List(list), true, thorough);
    for n in &r.notes {
        println!("{n}");
    }
    if let Some(e) = r.harness_error {
        eprintln!("harness error: {e}");
        return 2;
    }
    println!("trace_hash {:016x}", r.trace);
    for v in &r.violations {
        println!("{}: {}", v.0, v.1);
    }
    if r.violations.iter().any(|v| v.0 == class) {
        println!("VIOLATION property={id} replay={path}");
        1
    } else {
        println!("the violation does not occur");
        0
    }
}

/// Shows one run of a search.
pub fn one_command(checks: &[Check], id: &str, seed: u64, index: u64) -> i32 {
    let Some(check) = checks.iter().find(|c| c.id == id) else { return 2 };
    let r = run_case(check, &Arena::new(), Source::Seed(case_seed(seed, id, index)), true, false);
    for n in &r.notes {
        println!("{n}");
    }
    println!("{:?} {:?} {:?}", r.counters, r.violations, r.harness_error);
    0
}

/// Runs every seed twice, in other processes, in another order and with another number of
/// workers, and compares the traces.
pub fn determinism_command(checks: &[Check], n: u64, seeds: &[u64]) -> i32 {
    let mut bad = 0;
    for check in checks {
        for &seed in seeds {
            let mut hashes = vec![];
            for workers in [8, 3, 1] {
                let cfg = Config {
                    seed,
                    tier: "quick".into(),
                    workers,
                    runs: n,
                    wall: Duration::from_secs(3600),
                    verif: String::new(),
                };
                let (t, _) = search(check, &cfg);
                hashes.push((t.log_hash, t.runs, t.counters, t.error));
            }
            let ok = hashes.windows(2).all(|w| w[0] == w[1]);
            println!(
                "{} seed {seed}: {} runs x 3, {:016x} {}",
                check.id,
                hashes[0].1,
                hashes[0].0,
                if ok { "same" } else { "DIFFERENT" }
            );
            if !ok {
                bad += 1;
                // name the runs
                let a = Arena::new();
                for i in 0..n {
                    let s = case_seed(seed, check.id, i);
                    let x = run_case(check, &a, Source::Seed(s), true, false);
                    let y = run_case(check, &a, Source::Seed(s), true, false);
                    if x.trace != y.trace || x.notes != y.notes {
                        println!("  run {i}");
                        for (p, q) in x.notes.iter().zip(&y.notes) {
                            if p != q {
                                println!("    {p}\n    {q}");
                            }
                        }
                        break;
                    }
                }
            }
        }
    }
    (bad > 0) as i32
}
