//! C13: conversions in one process, one after another and on several threads.
use crate::{
    alloc,
    conv::{self, call, crash_at, describe_plan, project, read_fault, soft, take, write_fault, Outcome},
    engine::{self, Case},
    io::{Fs, Node, Plan, SimIo},
    preempt,
    project::{Opts, Project},
    sched::Gate,
};
use std::sync::{Arc, Mutex};

#[derive(Clone)]
struct Job {
    fs: Fs,
    plan: Plan,
    args: Vec<String>,
}

impl Job {
    fn io(&self) -> SimIo {
        let args: Vec<&str> = self.args.iter().map(|x| x.as_str()).collect();
        SimIo::new(self.fs.clone(), self.plan.clone(), &args)
    }
}

/// The outcome and all files, as bytes.
fn result(out: &Outcome, fs: &Fs) -> Vec<u8> {
    let mut r = format!("{out:?}\n").into_bytes();
    for (p, n) in &fs.nodes {
        if let Node::File(d) = n {
            r.extend(format!("{p} {}\n", d.len()).as_bytes());
            r.extend_from_slice(d);
        }
    }
    r
}

fn first_line(r: &[u8]) -> String {
    String::from_utf8_lossy(r).lines().next().unwrap_or("").to_string()
}

fn diff(a: &[u8], b: &[u8]) -> String {
    if first_line(a) != first_line(b) {
        return format!("alone: {}, together: {}", first_line(a), first_line(b));
    }
    let n = a.iter().zip(b).position(|x| x.0 != x.1).unwrap_or(a.len().min(b.len()));
    let cut = |x: &[u8]| {
        let s = n.saturating_sub(60);
        conv::show(&x[s.min(x.len())..(n + 60).min(x.len())])
    };
    format!("both: {}, files alone: …{}, together: …{}", first_line(a), cut(a), cut(b))
}

/// Another project with the same paths.
fn variant(case: &mut Case, p: &Project) -> Project {
    let mut q = p.clone();
    for i in 0..q.modules.len() {
        if case.c.chance(2, 3) {
            let e = q.modules[i].edges.clone();
            q.rewrite(&mut case.c, i, e);
            q.store(i);
        }
        if case.c.chance(1, 12) {
            let b = q.broken(&mut case.c, i);
            let path = q.modules[i].path.clone();
            q.fs.put(&path, &b);
        }
    }
    q
}

pub fn c13(case: &mut Case) {
    conv::reset(case);
    // threads that are at the same place of their work, interrupted very often
    let together = case.c.chance(1, 16);
    let opts = Opts {
        max_modules: if together { 2 } else { 4 },
        values: if together { 12 } else { 8 },
        consts: if together { 10 } else { 3 },
        cycles: case.c.chance(1, 4),
        ..Default::default()
    };
    let (base, _) = project(&mut case.c, &opts);
    let threads = if together { 2 } else { case.c.range(1, 4) };
    let mut jobs: Vec<Vec<Job>> = vec![];
    for t in 0..threads {
        let n = match threads {
            _ if together => 1,
            1 => case.c.range(2, 4),
            _ => case.c.range(1, 3),
        };
        let mut list = vec![];
        for k in 0..n {
            let p = match case.c.below(4) {
                0 => base.clone(),
                1 => project(&mut case.c, &opts).0,
                _ => variant(case, &base),
            };
            let mut plan = if together { Plan::default() } else { soft(&mut case.c) };
            let faults = if together { 0 } else { 1 };
            match case.c.weighted(&[4, 3 * faults, 2 * faults, faults, faults]) {
                1 => {
                    let i = case.c.below(p.modules.len());
                    let m = &p.modules[i];
                    plan.triggers.push(read_fault(&mut case.c, &m.path, m.text.text.len()));
                }
                2 => plan.triggers.push(write_fault(&mut case.c, &p.out_path, 60)),
                3 => plan.triggers.push(crash_at(&mut case.c, &p.out_path, 60)),
                4 => {
                    plan.max_events = case.c.below(60);
                    plan.exact = true;
                }
                _ => {}
            }
            case.note(|| format!("thread {t}, conversion {k}:"));
            p.describe(case);
            describe_plan(case, &plan);
            list.push(Job {
                fs: p.fs.clone(),
                plan,
                args: ["nanvm", &p.input, &p.output].iter().map(|s| s.to_string()).collect(),
            });
        }
        jobs.push(list);
    }
    // every conversion in a process of its own
    let m = engine::shm(4 << 20);
    let mut alone: Vec<Vec<Vec<u8>>> = vec![];
    for list in &jobs {
        let mut l = vec![];
        for j in list {
            let status = engine::in_process(|| {
                let io = j.io();
                let out = call(&io);
                let r = result(&out, &io.fs());
                engine::store(m, &r);
            });
            case.executions += 1;
            match (status, engine::load(m)) {
                (0, Some(r)) => l.push(r),
                (s, _) => {
                    case.violation("abnormal end", format!("alone: {}", engine::describe_status(s)));
                    return;
                }
            }
        }
        alone.push(l);
    }
    engine::unmap(m);
    // all of them here
    let gate = Arc::new(Gate::new(threads));
    let got: Vec<Mutex<Vec<Vec<u8>>>> = (0..threads).map(|_| Mutex::default()).collect();
    let clients: Mutex<Vec<(usize, conv::Outcome, crate::io::Client)>> = Mutex::default();
    let mut order: Vec<usize> = vec![];
    let mut slices: Vec<(usize, usize, usize, usize)> = vec![];
    preempt::reset();
    std::thread::scope(|s| {
        for t in 0..threads {
            let (gate, list, got, clients) = (gate.clone(), &jobs[t], &got[t], &clients);
            std::thread::Builder::new()
                .stack_size(engine::STACK)
                .spawn_scoped(s, move || {
                    preempt::enter(&gate, t);
                    for j in list {
                        let mut io = j.io();
                        io.gate = Some((gate.clone(), t));
                        let out = call(&io);
                        let r = result(&out, &io.fs());
                        got.lock().unwrap().push(r);
                        clients.lock().unwrap().push((t, out, take(&io.client)));
                    }
                    preempt::leave(&gate, t);
                })
                .expect("thread");
        }
        let mut last = 0;
        // threads are interrupted inside the code under test, too
        let deep = threads > 1 && (together || case.c.chance(1, 2));
        let limit = if together { 8000 } else { 400 };
        let burst = *case.c.pick(&[1u64, 4, 16]);
        gate.run(|w| {
            // a thread often goes on for a while
            let t = if together && case.c.chance(7, 8) {
                *w.iter().min_by_key(|t| preempt::progress(**t)).unwrap()
            } else if w.contains(&last) && !case.c.chance(1, burst) {
                last
            } else {
                w[case.c.below(w.len())]
            };
            last = t;
            preempt::slice(preempt::FOREVER);
            if deep && order.len() < limit && (together || case.c.chance(1, 2)) {
                let calls = match case.c.below(3) {
                    0 => 0,
                    1 => case.c.below(12),
                    _ if together => case.c.below(20),
                    _ => case.c.below(250),
                };
                let n = match case.c.below(3) {
                    0 => 0,
                    1 => case.c.below(40),
                    _ if together => 0,
                    _ => case.c.below(600),
                };
                preempt::deep_slice(calls as u64, n as u64);
                slices.push((order.len(), t, calls, n));
            }
            order.push(t);
            t
        });
    });
    let mut switches = 0;
    for w in order.windows(2) {
        if w[0] != w[1] {
            switches += 1;
        }
    }
    for t in &order {
        case.trace(*t as u64);
    }
    case.note(|| format!("schedule: {order:?}"));
    case.note(|| format!("slices (step, thread, calls of the allocator, then instructions): {slices:?}"));
    let counts = preempt::counts();
    preempt::slice(preempt::FOREVER);
    case.trace(counts.instructions);
    case.add("interrupted in the library", counts.interruptions);
    case.add("instructions traced", counts.instructions);
    case.add("waited for a lock", counts.blocked);
    case.add("switches between threads", switches);
    let mut list = clients.into_inner().unwrap();
    list.sort_by_key(|x| x.0);
    for (t, out, c) in &list {
        case.note(|| format!("thread {t}:"));
        conv::finish(case, out, c);
    }
    for t in 0..threads {
        let g = got[t].lock().unwrap();
        for (k, (a, b)) in alone[t].iter().zip(g.iter()).enumerate() {
            if a != b {
                case.violation("other outcome", format!("thread {t}, conversion {k}: {}", diff(a, b)));
            }
        }
    }
    for e in alloc::take_errors() {
        case.violation("memory error", format!("{e:?}"));
    }
    case.nontrivial = threads == 1 || switches > 1;
    if together {
        case.count("threads side by side");
    }
    if threads > 1 {
        case.count("several threads");
    } else {
        case.count("one thread");
    }
}
