//! Running conversions and what is common to their checks.
use crate::{
    alloc,
    doc::{same, Docs, Eval, Fail, Found, Kind, Model, V},
    engine::{last_panic, Case},
    preempt,
    io::{Act, Chunk, Client, KINDS, Crash, Fs, Node, Op, Plan, SimIo, Trigger},
    choices::Choices,
    project::{Opts, Project},
    refread,
};
use std::{
    collections::HashMap,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::Arc,
};

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    Err(String),
    Panic(String),
    Crash,
    /// too many events
    Budget,
}

impl Outcome {
    pub fn ok(&self) -> bool {
        *self == Outcome::Ok
    }
    pub fn class(&self) -> &'static str {
        match self {
            Outcome::Ok => "ok",
            Outcome::Err(_) => "error",
            Outcome::Panic(_) => "panic",
            Outcome::Crash => "crash",
            Outcome::Budget => "budget",
        }
    }
}

pub struct Ran {
    pub out: Outcome,
    pub fs: Fs,
    pub c: Client,
}

pub fn take<T: Default>(m: &std::sync::Mutex<T>) -> T {
    std::mem::take(&mut *m.lock().unwrap_or_else(|e| e.into_inner()))
}

/// An empty arena.
pub fn reset(case: &mut Case) {
    let gap = case.c.chance(1, 4);
    alloc::reset(alloc::Cfg {
        seed: if gap { 1 + case.c.below(1000) as u64 } else { 0 },
        ..Default::default()
    });
}

/// The call of the code under test.
pub fn call(io: &SimIo) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| preempt::lib(|| nanvm_lib::app::run(io))));
    let dead = io.client().budget_hit;
    match r {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(e)) => Outcome::Err(e.to_string()),
        Err(p) if p.is::<Crash>() => {
            if dead {
                Outcome::Budget
            } else {
                Outcome::Crash
            }
        }
        Err(_) => Outcome::Panic(last_panic()),
    }
}

/// One conversion of a simulated process.
pub fn convert(case: &mut Case, fs: &Fs, plan: Plan, args: &[&str]) -> Ran {
    let mut all = vec!["nanvm"];
    all.extend(args);
    let io = SimIo::new(fs.clone(), plan, &all);
    let out = call(&io);
    let fs = io.fs().clone();
    let c = take(&io.client);
    finish(case, &out, &c);
    Ran { out, fs, c }
}

pub fn finish(case: &mut Case, out: &Outcome, c: &Client) {
    case.executions += 1;
    case.ticks += c.events as u64;
    case.trace(c.trace);
    case.trace_str(out.class());
    for (k, v) in &c.fired {
        case.add(&format!("fault: {k}"), *v);
    }
    if case.detail {
        for e in &c.log {
            case.notes.push(format!("  {e}"));
        }
        if c.events > c.log.len() {
            case.notes.push(format!("  … {} events", c.events));
        }
        case.notes.push(format!("outcome: {out:?}"));
    }
}

impl Project {
    pub fn convert(&self, case: &mut Case, fs: &Fs, plan: Plan) -> Ran {
        convert(case, fs, plan, &[&self.input, &self.output])
    }
}

/// The value of the root, as it was delivered to a run: the first delivery of every module,
/// or what the file system holds for modules that were not opened.
pub fn expected(docs: &Docs, root: &str, fs: &Fs, c: &Client) -> Eval {
    eval(docs, root, &mut |p| {
        for d in &c.deliveries {
            if d.path == p {
                return if d.opened && !d.failed {
                    Found::Bytes(Arc::new(d.content.to_vec()))
                } else {
                    Found::Unreadable
                };
            }
        }
        stored(fs, p)
    })
}

pub fn stored(fs: &Fs, p: &str) -> Found {
    match fs.nodes.get(p) {
        Some(Node::File(d)) => Found::Bytes(Arc::new(d.to_vec())),
        _ => Found::Unreadable,
    }
}

pub fn eval(docs: &Docs, root: &str, read: &mut dyn FnMut(&str) -> Found) -> Eval {
    Model::new(docs, read).eval(root)
}

pub fn eval_fs(docs: &Docs, root: &str, fs: &Fs) -> Eval {
    eval(docs, root, &mut |p| stored(fs, p))
}

/// The size of a value as a JSON tree.
pub fn tree(v: &V) -> u64 {
    v.tree_size(&mut HashMap::new())
}

pub const MAX_TREE: u64 = 4000;

/// A project whose value can be written to any format in reasonable size.
pub fn project(c: &mut Choices, opts: &Opts) -> (Project, Eval) {
    let mut p = crate::project::generate(c, opts);
    let e = eval_fs(&p.docs, &p.root().path.clone(), &p.fs);
    if let Eval::Ok(v) = &e {
        if tree(v) > MAX_TREE && p.out_kind == Kind::Json {
            set_output(&mut p, Kind::Cjs);
        }
    }
    (p, e)
}

pub fn set_output(p: &mut Project, k: Kind) {
    p.out_kind = k;
    let cwd = p.fs.cwd.clone();
    p.out_path = crate::io::canon(&cwd, &format!("other{}", k.ext()));
    p.output = format!("other{}", k.ext());
}

/// Is the output well-formed and does it denote the value?
pub fn check_output(bytes: &[u8], kind: Kind, v: &V) -> Result<(), String> {
    let got = refread::read(bytes, kind).map_err(|e| format!("the output is not well-formed: {e}: {}", show(bytes)))?;
    same(v, &got, kind != Kind::Json).map_err(|e| format!("the output has another value: {e}: {}", show(bytes)))
}

pub fn show(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    let s: String = t.chars().take(400).collect();
    if s.len() < t.len() {
        format!("{s:?}… ({} bytes)", b.len())
    } else {
        format!("{s:?}")
    }
}

/// The output is compared with what was expected of an undisturbed conversion.
pub fn must_succeed(case: &mut Case, p: &Project, e: &Eval, ran: &Ran, what: &str) {
    let Eval::Ok(v) = e else { return };
    if p.out_kind == Kind::Json && v.has_bigint() {
        case.check(!ran.out.ok(), "bigint written as JSON", || {
            format!("{what}: a bigint has no representation in JSON")
        });
        return;
    }
    if !case.check(ran.out.ok(), "valid conversion failed", || {
        format!("{what}: {:?}", ran.out)
    }) {
        return;
    }
    check_ok(case, p, v, ran, what);
}

pub fn check_ok(case: &mut Case, p: &Project, v: &V, ran: &Ran, what: &str) {
    match ran.fs.file(&p.out_path) {
        None => case.violation("no output", format!("{what}: success without an output file")),
        Some(b) => {
            if let Err(m) = check_output(b, p.out_kind, v) {
                case.violation("wrong output", format!("{what}: {m}"));
            }
        }
    }
}

// ---- plans ----

pub fn chunk(c: &mut Choices) -> Chunk {
    match c.weighted(&[3, 2, 2, 1]) {
        0 => Chunk::Full,
        1 => Chunk::Fixed(1),
        2 => Chunk::Random(*c.pick(&[2, 3, 7, 40])),
        _ => Chunk::Fixed(*c.pick(&[2, 3, 5, 16, 31, 32, 33])),
    }
}

/// Soft disturbances: they must not change any outcome.
pub fn soft(c: &mut Choices) -> Plan {
    Plan {
        read: chunk(c),
        write: chunk(c),
        eintr: *c.pick(&[0, 0, 20, 100]),
        seed: c.seed(),
        ..Default::default()
    }
}

pub const READ_ERRORS: &[i32] = &[
    libc::EIO,
    libc::EACCES,
    libc::ESTALE,
    libc::EISDIR,
    libc::ETIMEDOUT,
    libc::EINVAL,
    libc::ENOMEM,
    libc::ENXIO,
    libc::ECONNRESET,
    libc::EWOULDBLOCK,
    libc::EBADF,
    libc::EREMOTEIO,
];
pub const OPEN_ERRORS: &[i32] = &[
    libc::ENOENT,
    libc::EACCES,
    libc::EMFILE,
    libc::EIO,
    libc::ELOOP,
    libc::ESTALE,
    libc::EPERM,
    libc::ENOTDIR,
    libc::ENAMETOOLONG,
    libc::ENOMEM,
    libc::ENODEV,
    libc::EBUSY,
    libc::EOVERFLOW,
];
pub const WRITE_ERRORS: &[i32] = &[
    libc::ENOSPC,
    libc::EIO,
    libc::EDQUOT,
    libc::EPIPE,
    libc::EFBIG,
    libc::EWOULDBLOCK,
    libc::ETIMEDOUT,
    libc::EPERM,
    libc::EINVAL,
    libc::ESTALE,
    libc::ENXIO,
];
pub const CREATE_ERRORS: &[i32] = &[
    libc::EACCES,
    libc::EROFS,
    libc::ENOSPC,
    libc::EIO,
    libc::EMFILE,
    libc::EISDIR,
    libc::ETXTBSY,
    libc::EPERM,
    libc::ENOENT,
    libc::EBUSY,
    libc::ENOLCK,
];

/// An error of the list, or of any kind.
pub fn error(c: &mut Choices, list: &[i32]) -> i32 {
    if c.chance(1, 4) {
        -1 - c.below(2 * KINDS.len()) as i32
    } else {
        *c.pick(list)
    }
}

/// A position in `0..=len`: borders are likely.
pub fn position(c: &mut Choices, len: usize) -> usize {
    match c.weighted(&[1, 1, 4]) {
        0 => 0,
        1 => len,
        _ => c.below(len + 1),
    }
}

pub fn write_fault(c: &mut Choices, out: &str, len: usize) -> Trigger {
    match c.weighted(&[1, 5, 2]) {
        0 => Trigger::new(Op::Create, Some(out), 0, 0, Act::Fail(error(c, CREATE_ERRORS))),
        1 => Trigger::new(Op::Write, Some(out), 0, position(c, len), Act::Fail(error(c, WRITE_ERRORS))),
        _ => Trigger::new(Op::Write, Some(out), 0, position(c, len), Act::Zero),
    }
}

pub fn read_fault(c: &mut Choices, path: &str, len: usize) -> Trigger {
    if c.chance(1, 4) {
        Trigger::new(Op::Open, Some(path), 0, 0, Act::Fail(error(c, OPEN_ERRORS)))
    } else {
        Trigger::new(Op::Read, Some(path), 0, position(c, len), Act::Fail(error(c, READ_ERRORS)))
    }
}

pub fn crash_at(c: &mut Choices, path: &str, len: usize) -> Trigger {
    let (op, at) = match c.weighted(&[4, 1, 1, 1, 1]) {
        0 => (Op::Write, position(c, len)),
        1 => (Op::Create, 0),
        2 => (Op::CloseWrite, 0),
        3 => (Op::Open, 0),
        _ => (Op::Read, 0),
    };
    let path = matches!(op, Op::Write | Op::Create | Op::CloseWrite).then_some(path);
    Trigger::new(op, path, 0, at, Act::Crash)
}

/// Everything except `path` is as it was.
pub fn only_changed(case: &mut Case, before: &Fs, after: &Fs, path: Option<&str>) {
    for (p, n) in &before.nodes {
        if Some(p.as_str()) != path && after.nodes.get(p) != Some(n) {
            case.violation("other file changed", format!("{p} was changed or removed"));
        }
    }
    for p in after.nodes.keys() {
        if Some(p.as_str()) != path && !before.nodes.contains_key(p) {
            case.violation("other file created", format!("{p} was created"));
        }
    }
}

pub fn untouched(case: &mut Case, p: &Project, before: &Fs, ran: &Ran, why: &str) {
    if ran.c.touched.contains(&p.out_path) || before.nodes.get(&p.out_path) != ran.fs.nodes.get(&p.out_path) {
        case.violation("output touched", format!("{} was created or changed although {why}", p.out_path));
    }
}

pub fn describe_plan(case: &mut Case, plan: &Plan) {
    case.note(|| {
        format!(
            "reads {:?}, writes {:?}, interrupted {}/256, triggers {:?}",
            plan.read,
            plan.write,
            plan.eintr,
            plan.triggers
                .iter()
                .map(|t| {
                    let a = match &t.act {
                        Act::Mutate(m) => format!(
                            "Mutate({:?})",
                            m.iter()
                                .map(|x| (x.0.clone(), x.1.as_ref().map(|d| show(d))))
                                .collect::<Vec<_>>()
                        ),
                        a => format!("{a:?}"),
                    };
                    format!("{:?} {:?} nth {} at {} {a}", t.op, t.path, t.nth, t.at)
                })
                .collect::<Vec<_>>()
        )
    });
}

pub fn fail_of(e: &Eval) -> Option<&Fail> {
    match e {
        Eval::Fail(f) => Some(f),
        _ => None,
    }
}
