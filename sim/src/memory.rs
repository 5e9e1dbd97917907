//! M01: parsing and serializing, whatever happens, three times.
use crate::{
    alloc,
    anyv::{build, to_v, Built, Memo},
    conv::{self, describe_plan, project, take, tree, Outcome},
    doc::{same, Eval, V},
    engine::{last_panic, Case},
    io::{Act, Crash, Fs, Op, Plan, SimIo, Trigger},
    project::{Opts, Project},
    sinks::{write, At, Form, Sink, FORMS},
    streams::{no_imports, start, warm, Item, Texts},
    values::{self, memory_errors, new_local},
};
use nanvm_lib::{
    common::default::default,
    js::any::Any,
    mem::{
        global::GLOBAL,
        manager::{Dealloc, Manager},
    },
    parser::{
        analyzer::AnalyzerState,
        json_state::JsonState,
        parser::{parse, parse_with_tokens, Context},
        shared::{ModuleCache, ParseError},
    },
    tokenizer::{create_transition_maps, tokenize, TokenizerState, TokenizerStateIterator},
};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Valid input was not accepted.
pub const REJECTED: &str = "rejected";

pub enum Job {
    /// a conversion
    Convert(Box<Project>, Plan, Eval),
    /// parses that share a cache: roots, and the order in which all is dropped
    Parse(Box<Project>, Plan, Vec<usize>, Vec<usize>, Vec<Eval>),
    /// a token stream, up to some token
    Pull(Item, usize),
    /// characters pushed into a tokenizer, up to some character, and the end
    Push(Item, usize, bool),
    /// tokens pushed into a parser, up to some token, and the end
    State(Item, usize, bool),
    /// a parser with a token source
    Tokens(Item, usize),
    Analyze(Item, usize, bool),
    /// a value, a sink
    Write(V, Form, At, bool),
}

impl Job {
    pub fn show(&self) -> String {
        match self {
            Job::Convert(..) => "conversion".into(),
            Job::Parse(_, _, l, o, _) => format!("parse modules {l:?} with a cache, dropped in the order {o:?}"),
            Job::Pull(_, n) => format!("token stream, {n} tokens"),
            Job::Push(_, n, e) => format!("tokenizer, {n} characters, end: {e}"),
            Job::State(_, n, e) => format!("parser, {n} tokens, end: {e}"),
            Job::Tokens(_, n) => format!("parse {n} tokens"),
            Job::Analyze(_, n, e) => format!("analyzer, {n} characters, end: {e}"),
            Job::Write(v, f, at, _) => format!("write {} as {f:?}, the sink fails at {at:?}", v.show()),
        }
    }
    pub fn text(&self) -> Option<&str> {
        match self {
            Job::Pull(i, _) | Job::Push(i, _, _) | Job::State(i, _, _) | Job::Tokens(i, _) | Job::Analyze(i, _, _) => {
                Some(&i.text)
            }
            _ => None,
        }
    }
}

pub fn job(case: &mut Case) -> Job {
    match case.c.weighted(&[4, 4, 1, 1, 2, 2, 1, 3]) {
        w @ (0 | 1) => {
            let opts = Opts {
                cycles: case.c.chance(1, 4),
                max_modules: 5,
                values: 14,
                alias_output: true,
                ..Default::default()
            };
            let (mut p, mut e) = project(&mut case.c, &opts);
            if case.c.chance(1, 3) {
                let i = case.c.below(p.modules.len());
                let path = p.modules[i].path.clone();
                if case.c.chance(2, 3) {
                    let b = p.broken(&mut case.c, i);
                    p.fs.put(&path, &b);
                    case.count("fault: invalid module");
                } else {
                    p.fs.nodes.remove(&path);
                    case.count("fault: missing module");
                }
                e = conv::eval_fs(&p.docs, &p.root().path, &p.fs);
            }
            p.describe(case);
            let mut plan = if case.c.chance(1, 3) { Plan::default() } else { conv::soft(&mut case.c) };
            let reach = p.reachable();
            match case.c.weighted(&[3, 3, 2, 2]) {
                1 => {
                    let m = &p.modules[*case.c.pick(&reach)];
                    plan.triggers.push(conv::read_fault(&mut case.c, &m.path, m.text.text.len()));
                }
                2 => {
                    let n = case.c.below(80);
                    plan.triggers.push(conv::write_fault(&mut case.c, &p.out_path, n));
                }
                3 => {
                    let n = case.c.below(40);
                    plan.triggers.push(Trigger::new(Op::Any, None, 0, n, Act::Crash));
                }
                _ => {}
            }
            describe_plan(case, &plan);
            if w == 0 {
                return Job::Convert(Box::new(p), plan, e);
            }
            let n = case.c.range(1, 3);
            let roots: Vec<usize> = (0..n).map(|i| if i == 0 { 0 } else { case.c.below(p.modules.len()) }).collect();
            let order = (0..n + 1).map(|i| case.c.below(n + 1 - i)).collect();
            let evals = roots.iter().map(|i| conv::eval_fs(&p.docs, &p.modules[*i].path, &p.fs)).collect();
            Job::Parse(Box::new(p), plan, roots, order, evals)
        }
        w @ 2..=6 => {
            let i = Texts::item(case, 24);
            let n = i.text.chars().count();
            let k = case.c.below(n + 2);
            let end = case.c.chance(1, 2);
            match w {
                2 => Job::Pull(i, k),
                3 => Job::Push(i, k, end),
                4 => Job::State(i, k, end),
                5 => Job::Tokens(i, k),
                _ => Job::Analyze(i, k, end),
            }
        }
        _ => {
            let v = no_imports(case, 24).1;
            let f = *case.c.pick(&FORMS);
            let at = match case.c.below(3) {
                0 => At::Never,
                1 => At::Call(case.c.below(40)),
                _ => At::Byte(case.c.below(100)),
            };
            let once = case.c.chance(1, 2);
            Job::Write(v, f, at, once)
        }
    }
}

fn value<D: Dealloc>(case: &mut Case, a: &Any<D>, v: &V, what: &str) {
    if let Err(e) = same(v, &to_v(a, &mut Memo::new()), tree(v) < 1 << 40) {
        case.violation("value", format!("{what}: {e}"));
    }
}

fn parse_job<M: Manager + 'static>(
    case: &mut Case,
    m: M,
    (p, plan, roots, order, evals): (&Project, &Plan, &[usize], &[usize], &[Eval]),
) {
    enum Thing<D: Dealloc> {
        Cache(ModuleCache<D>),
        Value(Any<D>, Option<V>),
        Nothing,
    }
    let io = SimIo::new(p.fs.clone(), plan.clone(), &[]);
    let mut cache: ModuleCache<M::Dealloc> = default();
    let mut things = vec![];
    let calm = plan.triggers.is_empty();
    let mut failed = false;
    for (i, e) in roots.iter().zip(evals) {
        let path = p.modules[*i].path.clone();
        let r = catch_unwind(AssertUnwindSafe(|| {
            alloc::on(|| {
                let path = path.clone();
                parse(&mut Context::new(m, &io, path, &mut cache))
            })
        }));
        match r {
            Ok(Ok(r)) => {
                // the first is not influenced by others
                let v = match e {
                    Eval::Ok(v) if calm && !failed => Some(v.clone()),
                    Eval::Fail(f) if calm && !failed => {
                        case.violation("value", format!("{path} is accepted: {f:?}"));
                        None
                    }
                    _ => None,
                };
                if let Some(v) = &v {
                    value(case, &r.any, v, &path);
                }
                // a part may outlive the rest
                let mut part = None;
                alloc::on(|| {
                    let _ = r.any.for_each(|_, x| {
                        part = Some(x.clone());
                        Err(())
                    });
                });
                things.push(match part {
                    Some(x) if case.executions % 2 == 0 => {
                        alloc::on(|| drop(r));
                        Thing::Value(x, None)
                    }
                    x => {
                        alloc::on(|| drop(x));
                        Thing::Value(r.any, v)
                    }
                });
            }
            Ok(Err(e2)) => {
                if let (Eval::Ok(_), true, false) = (e, calm, failed) {
                    case.violation(REJECTED, format!("{path} is rejected: {e2}"));
                }
                failed = true;
                things.push(Thing::Nothing);
            }
            Err(b) if b.is::<Crash>() => {
                things.push(Thing::Nothing);
                break;
            }
            Err(_) => {
                case.violation("panic", last_panic());
                break;
            }
        }
    }
    let c = take(&io.client);
    conv::finish(case, &Outcome::Ok, &c);
    things.push(Thing::Cache(cache));
    let mut i = 0;
    while !things.is_empty() {
        let k = order.get(i).copied().unwrap_or(0).min(things.len() - 1);
        i += 1;
        match things.remove(k) {
            Thing::Cache(c) => alloc::on(|| drop(c)),
            Thing::Value(a, v) => {
                // still intact
                match v {
                    Some(v) => value(case, &a, &v, "later"),
                    None => {
                        to_v(&a, &mut Memo::new());
                    }
                }
                alloc::on(|| drop(a))
            }
            Thing::Nothing => {}
        }
    }
}

pub fn once<M: Manager + 'static>(case: &mut Case, m: M, j: &Job) {
    case.ticks += 1;
    match j {
        Job::Convert(p, plan, e) => {
            let ran = p.convert(case, &p.fs, plan.clone());
            if let Outcome::Panic(m) = &ran.out {
                case.violation("panic", m);
            }
            if plan.triggers.is_empty() {
                conv::must_succeed(case, p, e, &ran, "undisturbed");
            }
        }
        Job::Parse(p, plan, roots, order, evals) => parse_job(case, m, (p, plan, roots, order, evals)),
        Job::Pull(i, n) => alloc::on(|| {
            let mut it = TokenizerStateIterator::new(m, i.text.chars());
            for _ in 0..*n {
                if it.next().is_none() {
                    break;
                }
            }
        }),
        Job::Push(i, n, end) => alloc::on(|| {
            let maps = create_transition_maps();
            let mut s: TokenizerState<M::Dealloc> = default();
            for c in i.text.chars().take(*n) {
                drop(s.push_mut(m, c, &maps));
            }
            if *end {
                drop(s.push_mut(m, '\n', &maps));
            }
        }),
        Job::State(i, n, end) => {
            let r = alloc::on(|| {
                let mut s: JsonState<M> = start();
                for t in tokenize(m, i.text.clone()).into_iter().take(*n) {
                    s = s.push(m, t).0;
                }
                end.then(|| s.end())
            });
            if let (Some(Ok(r)), Some(v)) = (&r, &i.value) {
                value(case, &r.any, v, &i.text);
            }
            if let (Some(Err(e)), Some(_)) = (&r, &i.value) {
                case.check(*e == ParseError::UnexpectedEnd, "value", || format!("{e}: {:?}", i.text));
            }
            alloc::on(|| drop(r));
        }
        Job::Tokens(i, n) => {
            let io = SimIo::new(Fs::new("/"), Plan::default(), &[]);
            let r = alloc::on(|| {
                let mut cache: ModuleCache<M::Dealloc> = default();
                let l = tokenize(m, i.text.clone());
                parse_with_tokens(&mut Context::new(m, &io, String::new(), &mut cache), l.into_iter().take(*n))
            });
            if let (Ok(r), Some(v)) = (&r, &i.value) {
                value(case, &r.any, v, &i.text);
            }
            alloc::on(|| drop(r));
        }
        Job::Analyze(i, n, end) => alloc::on(|| {
            let mut s = AnalyzerState::<M>::new(default());
            for c in i.text.chars().take(*n) {
                s.push_mut(m, c);
            }
            if *end {
                drop(s.end());
            }
        }),
        Job::Write(v, f, at, once) => {
            let mut memo = Built::new();
            let a = build(m, v, &mut memo);
            memo.drain().for_each(|x| alloc::on(|| drop(x.1)));
            if tree(v) < 3000 {
                let mut s = Sink::new(*at, *once);
                let _ = write::<M>(&mut s, &a, *f);
                case.trace_str(&s.text);
            }
            value(case, &a, v, "written");
            alloc::on(|| drop(a));
        }
    }
}

fn jobs<M: Manager + 'static>(case: &mut Case, m: M) {
    warm(m);
    let n = case.c.range(1, 3);
    let list: Vec<Job> = (0..n).map(|_| job(case)).collect();
    // a value that is held all the time
    let v = no_imports(case, 10).1;
    let mut memo = Built::new();
    let other = build(m, &v, &mut memo);
    memo.drain().for_each(|x| alloc::on(|| drop(x.1)));
    for (k, j) in list.iter().enumerate() {
        case.note(|| format!("job {k}: {}", j.show()));
        if let Some(t) = j.text() {
            case.note(|| format!("  {t:?}"));
            case.trace_str(t);
        }
        let mut held = [0; 3];
        for (i, h) in held.iter_mut().enumerate() {
            // what depends on the count of executions is repeated, too
            case.executions = (case.executions + 1) / 2 * 2;
            let before = alloc::info();
            once(case, m, j);
            let after = alloc::info();
            *h = after.live_blocks as isize - before.live_blocks as isize;
            case.note(|| format!("  time {i}: {} requests, {h} blocks are held", after.requests - before.requests));
            case.trace(after.requests - before.requests);
            if !case.violations.is_empty() {
                return;
            }
        }
        // something may be kept from the first time on
        case.check(held[1] <= 0 || held[2] <= 0, "memory is held", || {
            format!("{}: {held:?} more blocks after each of three times", j.show())
        });
        value(case, &other, &v, "a value that is held by another client");
    }
    alloc::on(|| drop(other));
    case.nontrivial = true;
}

pub fn m01(case: &mut Case) {
    values::reset(case);
    let what = case.c.below(4);
    let r = catch_unwind(AssertUnwindSafe(|| match what {
        0 => jobs(case, GLOBAL),
        1 => {
            let l = new_local();
            jobs(case, l);
            let size = l.size();
            case.check(size == 0 || !case.violations.is_empty(), "memory is held", || format!("the manager reports {size} bytes"));
        }
        2 => jobs(case, values::Plain),
        _ => jobs(case, values::Atomic),
    }));
    if r.is_err() {
        let p = last_panic();
        if p.contains("/verif/") || p.contains("src/memory.rs") || p.contains("src/streams.rs") {
            panic!("{p}");
        }
        case.violation("panic", p);
    }
    memory_errors(case);
}
