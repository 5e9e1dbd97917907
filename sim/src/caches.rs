//! C08: sequences of parses that share a module cache.
use crate::{
    alloc,
    anyv::{to_v, Memo},
    conv::{self, describe_plan, finish, project, read_fault, soft, take, tree, Outcome},
    doc::{same, Content, Eval, Fail, Found, Kind, Model, V},
    engine::{last_panic, Case},
    io::{canon, parent, Crash, Plan, SimIo},
    project::{Opts, Project},
};
use nanvm_lib::{
    js::any::Any,
    mem::{
        global::GLOBAL,
        local::Local,
        manager::{Dealloc, Manager},
    },
    parser::{
        parser::{parse, Context},
        shared::{ModuleCache, ParseError},
    },
};
use std::{
    collections::{BTreeMap, BTreeSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::Arc,
};

const CIRCULAR: &str = "circular dependency";

/// Is there a cycle among the stored modules that can be reached?
fn has_cycle(p: &Project, path: &str, stack: &mut Vec<String>, seen: &mut BTreeSet<String>) -> bool {
    if stack.iter().any(|x| x == path) {
        return true;
    }
    if !seen.insert(path.to_string()) {
        return false;
    }
    let imports = match p.fs.file(path).and_then(|b| p.docs.0.get(&b[..])) {
        Some(Content::Valid(d)) => d.imports(),
        Some(Content::Invalid(l)) => l.clone(),
        None => vec![],
    };
    stack.push(path.to_string());
    let r = imports
        .iter()
        .any(|i| has_cycle(p, &canon(&parent(path), i), stack, seen));
    stack.pop();
    r
}

struct Attempt<D: Dealloc> {
    out: Outcome,
    value: Option<Any<D>>,
    /// files that were delivered up to its end
    deliveries: usize,
}

/// Parses with one context, repeatedly.
fn attempts<M: Manager + 'static>(
    m: M,
    io: &SimIo,
    path: &str,
    cache: &mut ModuleCache<M::Dealloc>,
    n: usize,
) -> Vec<Attempt<M::Dealloc>> {
    let mut context = alloc::on(|| Context::new(m, io, path.to_string(), cache));
    let mut list = vec![];
    for _ in 0..n {
        let r = catch_unwind(AssertUnwindSafe(|| alloc::on(|| parse(&mut context))));
        let (out, value) = match r {
            Ok(Ok(r)) => (Outcome::Ok, Some(r.any)),
            Ok(Err(ParseError::CircularDependency)) => (Outcome::Err(CIRCULAR.into()), None),
            Ok(Err(e)) => (Outcome::Err(e.to_string()), None),
            Err(p) if p.is::<Crash>() => (Outcome::Budget, None),
            Err(_) => (Outcome::Panic(last_panic()), None),
        };
        let end = matches!(out, Outcome::Budget | Outcome::Panic(_));
        let deliveries = io.client().deliveries.len();
        list.push(Attempt { out, value, deliveries });
        if end {
            break;
        }
    }
    alloc::on(|| drop(context));
    list
}

pub fn c08(case: &mut Case) {
    conv::reset(case);
    if case.c.chance(1, 2) {
        case.note(|| "manager: global".into());
        sequence(case, GLOBAL);
    } else {
        case.note(|| "manager: local".into());
        let l: &'static Local = Box::leak(Box::default());
        sequence(case, l);
    }
}

/// Another content, or none; `None` if nothing was chosen.
fn change(case: &mut Case, p: &mut Project, frozen: &BTreeSet<usize>) {
    let i = case.c.below(p.modules.len());
    if frozen.contains(&i) {
        return;
    }
    let path = p.modules[i].path.clone();
    match case.c.weighted(&[3, 2, 2, 2]) {
        0 if p.modules[i].kind != Kind::Json => {
            // a new version that may import anything, also itself
            let mut edges = vec![];
            for j in 0..p.modules.len() {
                if case.c.chance(1, if j > i { 2 } else { 6 }) {
                    edges.push(j);
                }
            }
            p.rewrite(&mut case.c, i, edges);
            p.store(i);
            case.count("fault: module rewritten");
            case.note(|| format!("rewritten: {path}"));
        }
        1 => {
            let b = p.broken(&mut case.c, i);
            p.fs.put(&path, &b);
            case.count("fault: module broken");
            case.note(|| format!("broken: {path}"));
        }
        2 => {
            p.fs.nodes.remove(&path);
            case.count("fault: module removed");
            case.note(|| format!("removed: {path}"));
        }
        _ => {
            p.store(i);
            case.note(|| format!("restored: {path}"));
        }
    }
    p.describe(case);
}

fn sequence<M: Manager + 'static>(case: &mut Case, m: M)
where
    M::Dealloc: Dealloc,
{
    let opts = Opts {
        cycles: true,
        max_modules: 6,
        min_modules: 2,
        values: 6,
        noise: 3,
        ..Default::default()
    };
    let (mut p, _) = project(&mut case.c, &opts);
    p.describe(case);
    let mut cache: ModuleCache<M::Dealloc> = alloc::on(ModuleCache::default);
    let mut done: BTreeMap<String, V> = BTreeMap::new();
    // modules that were parsed as roots keep their content
    let mut frozen: BTreeSet<usize> = BTreeSet::new();
    let mut results: Vec<(Any<M::Dealloc>, V)> = vec![];
    let steps = case.c.range(3, 7);
    let mut failures = 0;
    let mut after_failure = 0;
    // one step of some histories is repeated often
    let storm = if case.c.chance(1, 24) {
        case.c.below(steps - 1)
    } else {
        steps
    };
    let mut repeats = 0;
    let mut last: Option<(usize, String)> = None;
    let mut step = 0;
    while step < steps {
        let again = repeats > 0;
        if again {
            repeats -= 1;
        }
        if step == storm && !again && last.is_none() {
            repeats = case.c.range(100, 300);
            if case.c.chance(3, 4) {
                change(case, &mut p, &frozen);
            }
            case.count("one parse repeated often");
        }
        let this = step;
        if repeats == 0 {
            step += 1;
        }
        let step = this;
        if !again && step > 0 {
            for _ in 0..case.c.count(2) {
                change(case, &mut p, &frozen);
            }
        }
        if !again && case.c.chance(1, 4) {
            // everything is repaired
            for i in 0..p.modules.len() {
                p.store(i);
            }
            case.note(|| "all modules are restored".into());
        }
        let mut root = if let (true, Some((r, _))) = (again, &last) {
            *r
        } else if case.c.chance(1, 3) {
            0
        } else {
            case.c.below(p.modules.len())
        };
        // a module that was imported is used as a root only with the content it had then
        let known = |i: usize| done.contains_key(&p.modules[i].path);
        if known(root) && !frozen.contains(&root) {
            root = 0;
            if known(0) && !frozen.contains(&0) {
                continue;
            }
        }
        let mut plan = if !again && case.c.chance(1, 2) {
            soft(&mut case.c)
        } else {
            Plan::default()
        };
        if !again && case.c.chance(1, 3) {
            let i = case.c.below(p.modules.len());
            if !(i == root && frozen.contains(&root)) {
                let path = p.modules[i].path.clone();
                let len = p.fs.file(&path).map_or(0, |f| f.len());
                plan.triggers.push(read_fault(&mut case.c, &path, len));
            }
        }
        let target = p.modules[root].path.clone();
        let spelled = match &last {
            Some((r, s)) if again && *r == root => s.clone(),
            _ => {
                let absolute = case.c.chance(1, 4);
                let cwd = p.fs.cwd.clone();
                p.spell(&mut case.c, &cwd, &target, absolute)
            }
        };
        case.note(|| format!("step {step}: parse {spelled:?}{}", if again { " again" } else { "" }));
        describe_plan(case, &plan);
        last = (step == storm).then(|| (root, spelled.clone()));
        let io = SimIo::new(p.fs.clone(), plan, &[]);
        // sometimes with the same context once more
        let n = if !again && case.c.chance(1, 4) {
            case.c.range(2, 3)
        } else {
            1
        };
        let list = attempts(m, &io, &spelled, &mut cache, n);
        let c = take(&io.client);
        if n > 1 {
            case.note(|| format!("with one context {n} times"));
        }
        finish(case, &list[list.len() - 1].out, &c);
        let mut from = 0;
        for Attempt { out, value, deliveries } in list {
            let delivered = &c.deliveries[from..deliveries];
            from = deliveries;
            if let Outcome::Panic(s) = &out {
                case.violation("panic", s);
                return;
            }
            if out == Outcome::Budget {
                case.violation("no end", "too many calls");
                return;
            }
            // the model reads what was delivered
            let fs = &p.fs;
            let mut read = |q: &str| {
                for d in delivered {
                    if d.path == q {
                        return if d.opened && !d.failed {
                            Found::Bytes(Arc::new(d.content.to_vec()))
                        } else {
                            Found::Unreadable
                        };
                    }
                }
                conv::stored(fs, q)
            };
            let mut model = Model::new(&p.docs, &mut read);
            model.done = std::mem::take(&mut done);
            let e = model.eval(&target);
            let reads = std::mem::take(&mut model.reads);
            done = std::mem::take(&mut model.done);
            case.trace(done.len() as u64);
            match &e {
                Eval::Ok(v) => {
                    if failures > 0 {
                        after_failure += 1;
                    }
                    if !case.check(out.ok(), "valid parse failed", || {
                        format!("step {step}, {failures} failures before: {target}: {out:?}")
                    }) {
                        return;
                    }
                    let any = value.unwrap();
                    let got = to_v(&any, &mut Memo::new());
                    if let Err(m) = same(v, &got, tree(v) < 1 << 40) {
                        case.violation("wrong value", format!("step {step}: {target}: {m}"));
                        return;
                    }
                    if !again {
                        results.push((any, v.clone()));
                    }
                    frozen.insert(root);
                    // nothing is opened that the model does not need
                    for d in delivered {
                        if !reads.contains(&d.path) {
                            case.violation("other file opened", format!("step {step}: {} is not needed", d.path));
                        }
                    }
                }
                Eval::Fail(f) => {
                    failures += 1;
                    case.count(match f {
                        Fail::Read(_) => "failed: unreadable",
                        Fail::Invalid(_) => "failed: invalid",
                        Fail::Cycle(_) => "failed: cycle",
                    });
                    if !case.check(!out.ok(), "invalid parse accepted", || {
                        format!("step {step}: {target}: {f:?}")
                    }) {
                        return;
                    }
                    // a cycle is reported if and only if there is one
                    let circular = out == Outcome::Err(CIRCULAR.into());
                    if circular && !has_cycle(&p, &target, &mut vec![], &mut BTreeSet::new()) {
                        case.violation("false cycle", format!("step {step}: {target}: {out:?}, but {f:?}"));
                        return;
                    }
                }
                Eval::Unknown(_) => return,
            }
        }
    }
    for (i, (any, v)) in results.iter().enumerate() {
        if let Err(m) = same(v, &to_v(any, &mut Memo::new()), true) {
            case.violation("value changed", format!("result {i}: {m}"));
        }
    }
    if results.len() > 1 {
        case.count("several values from one cache");
    }
    if after_failure > 0 {
        case.count("success after a failure");
    }
    case.nontrivial = after_failure > 0;
    alloc::on(|| drop(cache));
    alloc::on(|| drop(results));
    for e in alloc::take_errors() {
        case.violation("memory error", format!("{e:?}"));
    }
}
