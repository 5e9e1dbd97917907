//! M04: requests for memory that fail.
use crate::{
    alloc::{self, ErrKind},
    conv::{self, call, check_output, describe_plan, project, show},
    doc::{Eval, Kind},
    engine::{self, in_process, last_panic, load, shm, store, Case, Shm},
    exit::replay,
    io::{Fs, Journal, Node, Plan, SimIo},
    memory::{job, once, Job, REJECTED},
    project::{Opts, Project},
    streams::warm,
    values::{self, new_local},
    world::World,
};
use nanvm_lib::{
    js::{any::Any, any_cast::AnyCast, js_array::new_array, js_bigint::{new_bigint, Sign}, js_object::new_object, js_string::new_string, null::Null},
    mem::{global::GLOBAL, manager::{Dealloc, Manager}},
};
use std::{
    panic::{catch_unwind, AssertUnwindSafe},
    sync::Mutex,
};

const NOTHING: u64 = u64::MAX;

/// Memory errors, except that the arena is full.
fn errors() -> Vec<String> {
    alloc::take_errors()
        .iter()
        .filter(|e| e.kind != ErrKind::Exhausted)
        .map(|e| format!("memory error {e:?}"))
        .collect()
}

/// Runs a part in a process of its own, which reports something or is ended by a signal.
fn child(m: Shm, f: impl FnOnce() -> Vec<String>) -> (i32, Option<Vec<u8>>) {
    unsafe { (m.p as *mut u64).write(0) };
    let status = in_process(|| {
        let r = f();
        store(m, format!("reported\n{}", r.join("\n")).as_bytes());
    });
    (status, load(m))
}

/// What the process reported, or nothing if it aborted.
fn ended(case: &mut Case, (status, data): (i32, Option<Vec<u8>>)) -> Option<Vec<String>> {
    case.executions += 1;
    let text = engine::describe_status(status);
    case.trace(status as u64);
    match data {
        Some(r) if status == 0 => {
            let r = String::from_utf8_lossy(&r).into_owned();
            Some(r.lines().skip(1).map(String::from).collect())
        }
        _ if libc::WIFSIGNALED(status) && libc::WTERMSIG(status) == libc::SIGABRT => {
            case.count("ended by an abort");
            None
        }
        _ if libc::WIFEXITED(status) => panic!("harness: {text}"),
        _ => {
            case.violation("no orderly end", text);
            None
        }
    }
}

fn mode(case: &mut Case, requests: u64) -> (u64, bool) {
    let n = match case.c.weighted(&[5, 1, 1]) {
        0 => case.c.draw(requests.max(1)),
        1 => case.c.draw(8),
        _ => requests.saturating_sub(1 + case.c.draw(8)),
    };
    (n, case.c.chance(1, 3))
}

fn what(on: bool) -> &'static str {
    if on {
        "fault: all requests fail"
    } else {
        "fault: one request fails"
    }
}

// ---- conversions ----

fn same_file(before: &Fs, path: &str, file: &Option<Vec<u8>>) -> bool {
    match (before.nodes.get(path), file) {
        (Some(Node::File(d)), Some(f)) => **d == *f,
        (Some(Node::File(_)), None) => false,
        (_, f) => f.is_none(),
    }
}

fn conversion(case: &mut Case, m: Shm) {
    let opts = Opts {
        alias_output: true,
        cycles: case.c.chance(1, 8),
        max_modules: 5,
        values: 16,
        ..Default::default()
    };
    let (mut p, mut e) = project(&mut case.c, &opts);
    if case.c.chance(1, 8) {
        let i = case.c.below(p.modules.len());
        let path = p.modules[i].path.clone();
        let b = p.broken(&mut case.c, i);
        p.fs.put(&path, &b);
        e = conv::eval_fs(&p.docs, &p.root().path, &p.fs);
    }
    p.describe(case);
    let plan = if case.c.chance(1, 2) { conv::soft(&mut case.c) } else { Plan::default() };
    describe_plan(case, &plan);
    // what it needs if nothing fails
    let r = child(m, || {
        alloc::fail_at(NOTHING, false);
        let io = SimIo::new(p.fs.clone(), plan.clone(), &["nanvm", &p.input, &p.output]);
        let out = call(&io);
        let n = alloc::info().requests;
        let file = io.fs().file(&p.out_path).map(|d| d.to_vec());
        vec![format!("{n}"), out.class().into(), file.map_or("none".into(), |d| hex(&d))]
    });
    let Some(r) = ended(case, r) else {
        case.violation("no orderly end", "an undisturbed conversion aborts");
        return;
    };
    let requests: u64 = r[0].parse().unwrap();
    let good = if r[1] == "ok" { Some(unhex(&r[2])) } else { None };
    let valid = match &e {
        Eval::Ok(v) if p.out_kind == Kind::Json && v.has_bigint() => None,
        Eval::Ok(v) => Some(v),
        _ => None,
    };
    match (valid, &good) {
        (Some(v), Some(b)) => {
            if let Err(m) = check_output(b, p.out_kind, v) {
                case.violation("wrong output", format!("without a fault: {m}"));
                return;
            }
        }
        (a, b) if a.is_some() != b.is_some() && !matches!(e, Eval::Unknown(_)) => {
            case.violation("wrong output", format!("without a fault: {}, {e:?}", r[1]));
            return;
        }
        _ => {}
    }
    for _ in 0..if case.thorough { 12 } else { 4 } {
        let (n, on) = mode(case, requests);
        if n >= requests {
            continue;
        }
        failing(case, &p, &plan, m, (n, on), good.as_deref());
        if !case.violations.is_empty() {
            return;
        }
    }
    case.nontrivial = true;
}

fn failing(case: &mut Case, p: &Project, plan: &Plan, m: Shm, (n, on): (u64, bool), good: Option<&[u8]>) {
    case.note(|| format!("request {n} fails{}", if on { " and all later ones" } else { "" }));
    case.count(what(on));
    let size = 1 << 20;
    let j = shm(size);
    let journal = unsafe { Journal::new(j.p, size) };
    let r = child(m, || {
        let io = SimIo::new(p.fs.clone(), plan.clone(), &["nanvm", &p.input, &p.output]);
        io.client().journal = Some(unsafe { Journal::attach(j.p, size) });
        alloc::fail_at(n, on);
        let out = call(&io);
        let fired = alloc::info().failed > 0;
        alloc::fail_at(NOTHING, false);
        let mut l = vec![out.class().to_string(), format!("{fired} {out:?}").replace('\n', " ")];
        l.extend(errors());
        l
    });
    let records = journal.read();
    engine::unmap(j);
    case.ticks += records.len() as u64;
    let (file, created) = replay(&p.fs, &p.out_path, &records);
    case.trace(created.len() as u64);
    case.trace(file.as_ref().map_or(0, |f| f.len()) as u64);
    if let Some(x) = created.iter().find(|x| **x != p.out_path) {
        case.violation("other file created", x);
        return;
    }
    let tell = |f: &Option<Vec<u8>>| f.as_ref().map_or("no file".into(), |f| show(f));
    if created.is_empty() {
        case.check(same_file(&p.fs, &p.out_path, &file), "wrong output", || {
            format!("{} was not created again but is changed", p.out_path)
        });
    } else {
        let whole = good.unwrap_or(b"");
        let b = file.as_deref().unwrap_or(b"");
        case.check(good.is_some() && whole.starts_with(b), "wrong output", || {
            format!("request {n} fails: {} is no prefix of {}", show(b), show(whole))
        });
    }
    let Some(r) = ended(case, r) else {
        case.note(|| format!("abort; {}", tell(&file)));
        return;
    };
    case.note(|| format!("{r:?}"));
    if r.len() > 2 {
        case.violation("memory error", format!("request {n} fails: {}", r[2]));
    }
    case.count(match r[0].as_str() {
        "ok" => "reported success",
        "error" => "reported an error",
        _ => "panicked",
    });
    if r[0] == "ok" {
        case.check(!created.is_empty() && file.as_deref() == good, "success without the output", || {
            format!("request {n} fails, success is reported: {}", tell(&file))
        });
    }
    if r[0] == "budget" {
        case.violation("no end", "too many calls");
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    if s == "none" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

// ---- parsing and serializing ----

fn jobs<M: Manager + 'static>(case: &mut Case, man: M, m: Shm) {
    warm(man);
    let j = loop {
        let j = job(case);
        // conversions are examined by themselves
        if !matches!(j, Job::Convert(..)) {
            break j;
        }
    };
    case.note(|| j.show());
    if let Some(t) = j.text() {
        case.note(|| format!("  {t:?}"));
        case.trace_str(t);
    }
    let a = alloc::info().requests;
    once(case, man, &j);
    let requests = alloc::info().requests - a;
    if !case.violations.is_empty() {
        return;
    }
    for _ in 0..if case.thorough { 12 } else { 4 } {
        let (n, on) = mode(case, requests);
        if n >= requests {
            continue;
        }
        case.note(|| format!("request {n} of {requests} fails{}", if on { " and all later ones" } else { "" }));
        case.count(what(on));
        let r = child(m, || {
            alloc::fail_at(n, on);
            let r = catch_unwind(AssertUnwindSafe(|| once(case, man, &j)));
            alloc::fail_at(NOTHING, false);
            let mut l = errors();
            if r.is_err() {
                let p = last_panic();
                if p.contains("memory.rs") || p.contains("harness") {
                    panic!("{p}");
                }
            }
            // an operation may fail
            l.extend(
                case.violations
                    .iter()
                    .filter(|v| v.0 != REJECTED && v.0 != "panic")
                    .map(|v| format!("{}: {}", v.0, v.1).replace('\n', " ")),
            );
            l
        });
        if let Some(r) = ended(case, r) {
            case.count("carried on");
            if let Some(x) = r.first() {
                case.violation("wrong value", format!("request {n} of {requests} fails: {x}"));
                return;
            }
        }
    }
    case.nontrivial = true;
}

// ---- clients ----

fn clients<M: Manager + 'static>(case: &mut Case, man: M, m: Shm)
where
    M::Dealloc: 'static,
{
    let k = case.c.range(1, 2);
    let mut w = World::new(vec![man], k);
    let steps = case.c.range(2, if case.thorough { 50 } else { 24 });
    for s in 0..steps {
        let client = case.c.below(k);
        let on = case.c.chance(1, 3);
        // every request of the step
        for n in 0..8 {
            let counted = case.executions;
            let r = child(m, || {
                alloc::fail_at(n, on);
                let r = catch_unwind(AssertUnwindSafe(|| w.step(case, client)));
                let fired = alloc::info().failed > 0;
                alloc::fail_at(NOTHING, false);
                let mut l = vec![format!("{fired}")];
                match r {
                    Ok(name) if fired => {
                        w.check_counts(name);
                        w.check_all(name);
                        while let Some(i) = w.handles.len().checked_sub(1) {
                            w.drop_handle(i);
                            w.check_counts("drop");
                        }
                        l.extend(w.take_bad());
                        l.extend(errors());
                    }
                    _ => {}
                }
                l
            });
            match ended(case, r) {
                Some(r) if r[0] == "false" => {
                    case.executions = counted;
                    break;
                }
                Some(r) => {
                    case.count(what(on));
                    case.count("carried on");
                    if r.len() > 1 {
                        case.violation("wrong value", format!("step {s}, request {n} fails: {}", r[1]));
                    }
                }
                None => case.count(what(on)),
            }
            if !case.violations.is_empty() {
                return;
            }
        }
        let name = w.step(case, client);
        case.ticks += 1;
        case.trace_str(name);
        case.note(|| format!("{s}: client {client}: {name}; {}", w.show()));
        w.check_counts(name);
        if let Some(b) = w.take_bad() {
            case.violation("values", b);
            return;
        }
    }
    w.check_all("at the end");
    while let Some(i) = w.handles.len().checked_sub(1) {
        w.drop_handle(i);
    }
    w.check_counts("at the end");
    if let Some(b) = w.take_bad() {
        case.violation("values", b);
    }
    case.nontrivial = true;
}

// ---- more memory than there is ----

/// Claims to have many items.
struct Long<'a> {
    len: usize,
    taken: &'a Mutex<usize>,
}

impl Long<'_> {
    fn next(&mut self) -> Option<()> {
        self.len = self.len.checked_sub(1)?;
        let mut n = self.taken.lock().unwrap();
        *n += 1;
        if *n > 40 {
            drop(n);
            panic!("enough");
        }
        Some(())
    }
}

struct LongMap<'a, T>(Long<'a>, T);

impl<T: FnMut() -> U, U> Iterator for LongMap<'_, T> {
    type Item = U;
    fn next(&mut self) -> Option<U> {
        self.0.next()?;
        Some((self.1)())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.0.len, Some(self.0.len))
    }
}

impl<T: FnMut() -> U, U> ExactSizeIterator for LongMap<'_, T> {}

fn long<M: Manager + 'static>(case: &mut Case, man: M, m: Shm)
where
    M::Dealloc: Dealloc + 'static,
{
    #[repr(align(32))]
    struct Wide(#[allow(dead_code)] u8);
    let bits = case.c.range(0, 10);
    // sizes whose product with the size of an item is about a power of two
    let base = match case.c.weighted(&[3, 3, 1]) {
        0 => usize::MAX >> bits,
        1 => 1 << (63 - bits),
        _ => 1 << case.c.range(32, 62),
    };
    let near = case.c.below(80);
    let len = if case.c.chance(1, 2) { base.wrapping_add(near) } else { base.wrapping_sub(near) };
    if len < 1 << 30 {
        return;
    }
    let kind = case.c.below(7);
    case.note(|| format!("{len} items, kind {kind}"));
    case.count("fault: more memory than there is");
    let r = child(m, || {
        let taken = Mutex::new(0);
        let l = Long { len, taken: &taken };
        let r = catch_unwind(AssertUnwindSafe(|| {
            alloc::on(|| match kind {
                0 => drop(new_string(man, LongMap(l, || 1u16))),
                1 => drop(new_bigint(man, Sign::Positive, LongMap(l, || 1u64))),
                2 => drop(new_array(man, LongMap(l, || -> Any<M::Dealloc> { Null().move_to_any() }))),
                3 => {
                    let k = new_string(man, [1u16]).to_ref();
                    drop(new_object(man, LongMap(l, || (k.clone(), Null().move_to_any()))))
                }
                4 => drop(man.flexible_array_new::<u8, _>(LongMap(l, || 1u8))),
                5 => drop(man.flexible_array_new::<Wide, _>(LongMap(l, || Wide(1)))),
                _ => drop(man.flexible_array_new::<[u64; 3], _>(LongMap(l, || [1u64; 3]))),
            })
        }));
        let n = *taken.lock().unwrap_or_else(|e| e.into_inner());
        let mut l = errors();
        if r.is_ok() {
            l.push(format!("{len} items are stored"));
        }
        if n > 0 {
            l.push(format!("{n} of {len} items are stored in memory that cannot exist"));
        }
        l
    });
    if let Some(x) = ended(case, r).and_then(|l| l.first().cloned()) {
        case.violation("memory error", x);
    }
    case.trace(len as u64);
    case.trace(kind as u64);
    case.nontrivial = true;
}

pub fn m04(case: &mut Case) {
    values::reset(case);
    let m = shm(4 << 20);
    let local = case.c.chance(1, 2);
    case.note(|| format!("manager: {}", if local { "local" } else { "global" }));
    match case.c.weighted(&[5, 4, 3, 1]) {
        0 => conversion(case, m),
        1 if local => jobs(case, new_local(), m),
        1 => jobs(case, GLOBAL, m),
        2 if local => clients(case, new_local(), m),
        2 => clients(case, GLOBAL, m),
        _ if local => long(case, new_local(), m),
        _ => long(case, GLOBAL, m),
    }
    values::memory_errors(case);
}
