//! C03: the exit status of the command-line tool.
//!
//! The tool is compiled from /repo's main.rs; the crate io-impl, which gives it the operating
//! system, is replaced by the simulator. Both processes make the same scenario from the same
//! choices, and what the tool did to files comes back through shared memory.
use crate::{
    choices::{Choices, MAX_CHOICES},
    conv::{self, call, check_output, crash_at, describe_plan, expected, project, read_fault, soft, take, write_fault, Outcome},
    doc::{Eval, Kind},
    engine::{self, Case},
    io::{canon, Act, Fs, Journal, Node, Op, Plan, SimIo, Trigger},
    project::{Opts, Project},
};
use std::{
    ffi::CString,
    os::fd::RawFd,
    sync::OnceLock,
};

const ENV: &str = "NANOSIM_SCENARIO_FD";
const CHOICES: usize = (MAX_CHOICES + 1) * 4;
const JOURNAL: usize = 4 << 20;

pub struct Scenario {
    pub p: Project,
    pub e: Eval,
    pub plan: Plan,
    pub args: Vec<String>,
    pub bad_args: bool,
    pub hard: bool,
}

pub fn scenario(c: &mut Choices) -> Scenario {
    let opts = Opts {
        alias_output: true,
        cycles: c.chance(1, 5),
        values: 10,
        ..Default::default()
    };
    let (mut p, _) = project(c, &opts);
    let mut bad_args = false;
    let reach = p.reachable();
    match c.weighted(&[6, 2, 2, 1, 1]) {
        1 => {
            let i = *c.pick(&reach);
            let b = p.broken(c, i);
            let path = p.modules[i].path.clone();
            p.fs.put(&path, &b);
        }
        2 => {
            let i = *c.pick(&reach);
            let path = p.modules[i].path.clone();
            p.fs.nodes.remove(&path);
        }
        3 => {
            bad_args = true;
            p.output = c.pick(&["out", "out.txt", "out.d.js", "outd.cjs", "json", "out.json2", ""]).to_string();
            p.out_path = canon(&p.fs.cwd, &p.output);
        }
        _ => {}
    }
    let e = conv::eval_fs(&p.docs, &p.root().path.clone(), &p.fs);
    let mut args = vec!["nanvm".to_string(), p.input.clone(), p.output.clone()];
    if c.chance(1, 16) {
        bad_args = true;
        args.truncate(1 + c.below(2));
    }
    let mut plan = soft(c);
    let mut hard = false;
    match c.weighted(&[4, 2, 5, 1]) {
        1 => {
            let i = *c.pick(&reach);
            let m = &p.modules[i];
            let t = read_fault(c, &m.path, m.text.text.len());
            plan.triggers.push(t);
            hard = true;
        }
        2 => {
            // the length of the output is not known yet; most are short
            let len = *c.pick(&[10, 40, 150, 600]);
            let t = if c.chance(1, 3) {
                Trigger::new(Op::Write, Some(&p.out_path), 0, c.below(3), Act::Fail(conv::error(c, conv::WRITE_ERRORS)))
            } else {
                write_fault(c, &p.out_path, len)
            };
            plan.triggers.push(t);
            hard = true;
        }
        3 => {
            plan.triggers.push(crash_at(c, &p.out_path, 100));
            hard = true;
        }
        _ => {}
    }
    Scenario {
        p,
        e,
        plan,
        args,
        bad_args,
        hard,
    }
}

unsafe fn map(fd: RawFd) -> *mut u8 {
    let p = libc::mmap(
        std::ptr::null_mut(),
        CHOICES + JOURNAL,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED,
        fd,
        0,
    );
    assert!(p != libc::MAP_FAILED, "mmap");
    p as *mut u8
}

/// The operating system of the tool's process.
pub fn attach() -> SimIo {
    unsafe {
        let fd: RawFd = std::env::var(ENV).ok().and_then(|v| v.parse().ok()).expect(ENV);
        let m = map(fd);
        let n = (m as *const u32).read() as usize;
        let list = std::slice::from_raw_parts((m as *const u32).add(1), n).to_vec();
        let record = Box::leak(vec![0u32; MAX_CHOICES + 1].into_boxed_slice());
        let s = scenario(&mut Choices::from_list(list, record.as_mut_ptr()));
        let args: Vec<&str> = s.args.iter().map(|x| x.as_str()).collect();
        let io = SimIo::new(s.p.fs.clone(), s.plan, &args);
        io.client().journal = Some(Journal::attach(m.add(CHOICES), JOURNAL));
        io
    }
}

fn tool() -> &'static CString {
    static P: OnceLock<CString> = OnceLock::new();
    P.get_or_init(|| {
        let mut p = std::env::current_exe().expect("own path");
        p.set_file_name("nanvm");
        assert!(p.exists(), "{} is missing", p.display());
        CString::new(p.to_str().unwrap()).unwrap()
    })
}

/// Runs the tool; returns the status and what it did to files.
fn run_tool(list: &[u32], args: &[String]) -> (i32, Vec<(u8, Vec<u8>)>) {
    let tool = tool();
    let argv: Vec<CString> = args.iter().map(|a| CString::new(a.as_str()).unwrap()).collect();
    let mut argv_p: Vec<*const libc::c_char> = argv.iter().map(|a| a.as_ptr()).collect();
    argv_p.push(std::ptr::null());
    unsafe {
        let fd = libc::memfd_create(c"scenario".as_ptr(), 0);
        assert!(fd >= 0, "memfd");
        assert!(libc::ftruncate(fd, (CHOICES + JOURNAL) as i64) == 0);
        let m = map(fd);
        (m as *mut u32).write(list.len() as u32);
        (m as *mut u32).add(1).copy_from(list.as_ptr(), list.len());
        let j = Journal::new(m.add(CHOICES), JOURNAL);
        let env = CString::new(format!("{ENV}={fd}")).unwrap();
        let env_p = [env.as_ptr(), std::ptr::null()];
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            engine::limits(engine::CPU_SECONDS, engine::WALL_SECONDS);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            for i in 0..3 {
                libc::dup2(null, i);
            }
            libc::execve(tool.as_ptr(), argv_p.as_ptr(), env_p.as_ptr());
            libc::_exit(127);
        }
        let status = engine::wait(pid);
        let r = j.read();
        libc::munmap(m as *mut _, CHOICES + JOURNAL);
        libc::close(fd);
        (status, r)
    }
}

/// What the journal says about a file.
pub fn replay(fs: &Fs, path: &str, journal: &[(u8, Vec<u8>)]) -> (Option<Vec<u8>>, Vec<String>) {
    let mut file = match fs.nodes.get(path) {
        Some(Node::File(d)) => Some(d.to_vec()),
        _ => None,
    };
    let mut current = String::new();
    let mut created = vec![];
    for (t, d) in journal {
        match t {
            b'c' => {
                current = String::from_utf8_lossy(d).into_owned();
                created.push(current.clone());
                if current == path {
                    file = Some(vec![]);
                }
            }
            b'w' if current == path => {
                file.get_or_insert_with(Vec::new).extend_from_slice(d);
            }
            _ => {}
        }
    }
    (file, created)
}

pub fn c03(case: &mut Case) {
    conv::reset(case);
    let first = case.c.drawn();
    let s = scenario(&mut case.c);
    let list = case.c.recorded(first);
    s.p.describe(case);
    case.note(|| format!("arguments {:?}", s.args));
    describe_plan(case, &s.plan);
    // the same conversion here tells what was delivered
    let args: Vec<&str> = s.args.iter().map(|x| x.as_str()).collect();
    let io = SimIo::new(s.p.fs.clone(), s.plan.clone(), &args);
    let out = call(&io);
    let c = take(&io.client);
    conv::finish(case, &out, &c);
    let (status, journal) = run_tool(&list, &s.args);
    case.executions += 1;
    let text = engine::describe_status(status);
    case.note(|| format!("the tool ended with {text}"));
    case.trace(status as u64);
    if libc::WIFSIGNALED(status) {
        case.violation("killed by a signal", text);
        return;
    }
    let code = libc::WEXITSTATUS(status);
    assert!(code != 127, "the tool cannot be started");
    let (file, created) = replay(&s.p.fs, &s.p.out_path, &journal);
    case.nontrivial = true;
    if code == 0 {
        case.count("status 0");
        if s.bad_args {
            case.violation("status 0", format!("for the arguments {:?}", s.args));
            return;
        }
        if !created.contains(&s.p.out_path) {
            case.violation("status 0", format!("{} was not written", s.p.out_path));
            return;
        }
        match expected(&s.p.docs, &s.p.root().path, &s.p.fs, &c) {
            Eval::Ok(v) => {
                if s.p.out_kind == Kind::Json && v.has_bigint() {
                    case.violation("status 0", "for a bigint in JSON");
                } else if let Err(m) = check_output(file.as_deref().unwrap_or(b""), s.p.out_kind, &v) {
                    case.violation("status 0", format!("the output is not complete: {m}"));
                }
            }
            e => case.violation("status 0", format!("the conversion cannot succeed: {e:?}")),
        }
    } else {
        case.count("other status");
        let possible = match &s.e {
            Eval::Ok(v) => !(s.p.out_kind == Kind::Json && v.has_bigint()),
            _ => false,
        };
        if possible && !s.hard && !s.bad_args {
            case.violation("failure without a reason", format!("{text}; run() here: {out:?}"));
        } else if out == Outcome::Ok {
            case.violation("failure without a reason", format!("{text}, but run() succeeds"));
        }
    }
}

