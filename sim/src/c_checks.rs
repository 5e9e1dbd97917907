//! The checks of conversions: C01, C02, C04, C05, C06, C07, C09, C10, C11, C12, C14.
use crate::{
    alloc,
    choices::Choices,
    conv::*,
    doc::{Content, Eval, Fail, Found, Kind, E},
    engine::{self, Case},
    io::{canon, parent, Act, Op, Plan, Trigger},
    project::{Opts, Project},
    refread,
};
use std::{collections::BTreeSet, sync::Arc};

fn clean(case: &mut Case, p: &Project) -> Ran {
    case.note(|| "undisturbed conversion".into());
    p.convert(case, &p.fs, Plan::default())
}

// ---- C01 ----

pub fn c01(case: &mut Case) {
    reset(case);
    let opts = Opts {
        alias_output: true,
        ..Default::default()
    };
    let (p, e) = project(&mut case.c, &opts);
    p.describe(case);
    let mut plan = soft(&mut case.c);
    let mut hard = false;
    if case.c.chance(1, 2) {
        // the length is that of an undisturbed run
        let len = clean(case, &p).fs.file(&p.out_path).map_or(0, |d| d.len());
        let t = write_fault(&mut case.c, &p.out_path, len + 3);
        plan.triggers.push(t);
        hard = true;
    }
    describe_plan(case, &plan);
    let ran = p.convert(case, &p.fs, plan);
    let Eval::Ok(v) = &e else {
        panic!("the model rejects a generated project: {e:?}");
    };
    case.nontrivial = p.modules.len() > 1 || !ran.c.fired.is_empty();
    if ran.out.ok() {
        case.count("reported success");
        let v = match expected(&p.docs, &p.root().path, &p.fs, &ran.c) {
            Eval::Ok(v) => v,
            e => {
                case.violation("success without a value", format!("{e:?}"));
                return;
            }
        };
        if p.out_kind == Kind::Json && v.has_bigint() {
            case.violation("wrong output", "a bigint was written as JSON");
        } else {
            check_ok(case, &p, &v, &ran, "reported success");
        }
    } else if !hard {
        must_succeed(case, &p, &e, &ran, "no hard I/O failure");
    } else {
        case.count("reported failure");
    }
    if p.out_kind != Kind::Json && v.has_bigint() {
        case.count("bigint in output");
    }
}

// ---- C02 ----

pub fn c02(case: &mut Case) {
    reset(case);
    let opts = Opts {
        alias_output: true,
        cycles: case.c.chance(1, 4),
        ..Default::default()
    };
    let (mut p, _) = project(&mut case.c, &opts);
    let reach = p.reachable();
    let mut bad_args = false;
    match case.c.weighted(&[6, 2, 2, 2, 1]) {
        1 => {
            let i = *case.c.pick(&reach);
            let b = p.broken(&mut case.c, i);
            let path = p.modules[i].path.clone();
            p.fs.put(&path, &b);
            case.count("invalid module");
        }
        2 => {
            let i = *case.c.pick(&reach);
            let path = p.modules[i].path.clone();
            p.fs.nodes.remove(&path);
            case.count("missing module");
        }
        3 => {
            // a value without representation
            if p.out_kind == Kind::Json {
                case.count("JSON output");
            }
        }
        4 => {
            bad_args = true;
            p.output = case.c.pick(&["out", "out.txt", "out.d.js", "outd.cjs", "json", "out.json2"]).to_string();
            p.out_path = canon(&p.fs.cwd, &p.output);
            if case.c.chance(1, 2) {
                let path = p.out_path.clone();
                p.fs.put(&path, b"old");
            }
        }
        _ => {}
    }
    p.describe(case);
    let base = clean(case, &p);
    let good = base.out.ok().then(|| base.fs.file(&p.out_path).cloned()).flatten();
    c02_verify(case, &p, &base, good.as_deref().map(|x| &x[..]), bad_args);
    let mut plan = soft(&mut case.c);
    let len = good.as_ref().map_or(20, |g| g.len());
    match case.c.weighted(&[3, 3, 3, 2]) {
        0 => {
            let t = write_fault(&mut case.c, &p.out_path, len);
            plan.triggers.push(t);
        }
        1 => {
            let t = crash_at(&mut case.c, &p.out_path, len);
            plan.triggers.push(t);
        }
        2 => {
            let at = case.c.below(base.c.events.max(1) * 2);
            plan.triggers.push(Trigger::new(Op::Any, None, 0, at, Act::Crash));
        }
        _ => {
            let i = *case.c.pick(&reach);
            let m = &p.modules[i];
            let t = read_fault(&mut case.c, &m.path, m.text.text.len());
            plan.triggers.push(t);
        }
    }
    describe_plan(case, &plan);
    let ran = p.convert(case, &p.fs, plan);
    case.nontrivial = !ran.c.fired.is_empty() || !base.out.ok();
    c02_verify(case, &p, &ran, good.as_deref().map(|x| &x[..]), bad_args);
}

fn c02_verify(case: &mut Case, p: &Project, ran: &Ran, good: Option<&[u8]>, bad_args: bool) {
    only_changed(case, &p.fs, &ran.fs, Some(&p.out_path));
    for t in &ran.c.touched {
        if *t != p.out_path {
            case.violation("other file touched", format!("{t} was created or written"));
        }
    }
    if bad_args {
        untouched(case, p, &p.fs, ran, "the format of the output is unknown");
        return;
    }
    let Some(n) = ran.c.at_create else {
        untouched(case, p, &p.fs, ran, "it was not created");
        case.count("ended before the output");
        return;
    };
    // what was known when the output was created
    let e = eval(&p.docs, &p.root().path, &mut |path| {
        for d in &ran.c.deliveries[..n] {
            if d.path == path {
                return if d.complete && !d.failed {
                    Found::Bytes(Arc::new(d.content.to_vec()))
                } else {
                    Found::Unreadable
                };
            }
        }
        Found::Unreadable
    });
    match &e {
        Eval::Fail(f) => case.violation("output touched too early", format!("when the output was created: {f:?}")),
        Eval::Ok(v) if p.out_kind == Kind::Json && v.has_bigint() => {
            case.violation("output touched too early", "the value has no representation in JSON")
        }
        _ => {}
    }
    if !ran.out.ok() {
        case.count("ended while writing");
        match (ran.fs.file(&p.out_path), good) {
            (Some(b), Some(g)) if g.starts_with(b) => {}
            (b, _) => case.violation(
                "not a prefix",
                format!(
                    "the output is not a prefix of the correct output: {}",
                    show(b.map_or(&[], |x| x))
                ),
            ),
        }
    }
}

// ---- C04 ----

pub fn c04(case: &mut Case) {
    reset(case);
    let opts = Opts {
        alias_output: true,
        cycles: case.c.chance(1, 5),
        ..Default::default()
    };
    let (mut p, _) = project(&mut case.c, &opts);
    if case.c.chance(1, 4) {
        let i = case.c.below(p.modules.len());
        let path = p.modules[i].path.clone();
        match case.c.below(3) {
            0 => {
                let b = p.broken(&mut case.c, i);
                p.fs.put(&path, &b);
            }
            1 => {
                p.fs.nodes.remove(&path);
            }
            _ => {
                let mut b = p.modules[i].bytes();
                break_utf8(&mut case.c, &mut b);
                p.fs.put(&path, &b);
            }
        }
    }
    p.describe(case);
    let base = clean(case, &p);
    for _ in 0..2 {
        let plan = soft(&mut case.c);
        describe_plan(case, &plan);
        let ran = p.convert(case, &p.fs, plan);
        if !ran.c.fired.is_empty() {
            case.nontrivial = true;
        }
        if ran.out.ok() != base.out.ok() {
            case.violation(
                "other outcome",
                format!("undisturbed: {:?}, disturbed: {:?}", base.out, ran.out),
            );
        } else if ran.fs.nodes != base.fs.nodes {
            case.violation(
                "other output",
                format!(
                    "undisturbed: {}, disturbed: {}",
                    show(base.fs.file(&p.out_path).map_or(&[], |x| x)),
                    show(ran.fs.file(&p.out_path).map_or(&[], |x| x))
                ),
            );
        }
    }
    case.count(if base.out.ok() { "success" } else { "failure" });
}

/// Makes a text invalid UTF-8.
pub fn break_utf8(c: &mut Choices, b: &mut Vec<u8>) {
    let at = if c.chance(1, 4) { b.len() } else { c.below(b.len() + 1) };
    // a boundary of characters
    let at = (at..=b.len())
        .find(|&i| i == b.len() || b[i] & 0xC0 != 0x80)
        .unwrap_or(b.len());
    let bad: &[u8] = match c.below(7) {
        0 => &[0xFF],
        1 => &[0x80],
        2 => &[0xC3],
        3 => &[0xE2, 0x82],
        4 => &[0xED, 0xA0, 0x80],
        5 => &[0xC0, 0xAF],
        _ => &[0xF4, 0x90, 0x80, 0x80],
    };
    b.splice(at..at, bad.iter().copied());
}

// ---- C05 ----

pub fn c05(case: &mut Case) {
    reset(case);
    let (p, e) = project(&mut case.c, &Opts::default());
    p.describe(case);
    let mut good = None;
    let before = case.c.chance(1, 2);
    if before {
        let ran = clean(case, &p);
        good = Some(ran);
    }
    let reach = p.reachable();
    let i = *case.c.pick(&reach);
    let m = &p.modules[i];
    let len = m.text.text.len();
    let mut fs = p.fs.clone();
    let mut plan = soft(&mut case.c);
    let mut sure = true;
    match case.c.weighted(&[5, 2, 2, 1]) {
        0 => {
            let t = read_fault(&mut case.c, &m.path, len);
            // an error in place of the end of the file may remain unseen
            sure = t.op == Op::Open || t.at < len;
            plan.triggers.push(t);
        }
        1 => {
            let mut b = m.bytes();
            break_utf8(&mut case.c, &mut b);
            fs.put(&m.path, &b);
            case.count("fault: invalid UTF-8");
        }
        2 => {
            fs.nodes.remove(&m.path);
            case.count("fault: missing file");
        }
        _ => {
            fs.nodes.insert(m.path.clone(), crate::io::Node::Dir);
            case.count("fault: directory in place of a file");
        }
    }
    case.note(|| format!("failing module: {}", m.path));
    describe_plan(case, &plan);
    let plan2 = plan.clone();
    let ran = p.convert(case, &fs, plan);
    case.nontrivial = true;
    let failed = sure || !ran.c.fired.is_empty() && ran.c.deliveries.iter().any(|d| d.failed);
    if failed {
        if ran.out.ok() {
            case.violation(
                "unreadable module accepted",
                format!("{} could not be read completely but the conversion succeeded", m.path),
            );
        }
        untouched(case, &p, &fs, &ran, "a module could not be read");
    }
    if case.c.chance(1, 3) {
        // again
        let ran = p.convert(case, &fs, plan2);
        if failed && ran.out.ok() {
            case.violation("unreadable module accepted", format!("{} at the second attempt", m.path));
        }
    }
    // the failure is gone
    let plan = soft(&mut case.c);
    case.note(|| "without the failure".into());
    let again = p.convert(case, &p.fs, plan);
    must_succeed(case, &p, &e, &again, "after the failure is gone");
    if let Some(g) = good {
        if g.out.ok() != again.out.ok() || g.fs.nodes != again.fs.nodes {
            case.violation("other result after a failure", "the result differs from that before the failure");
        }
    }
}

// ---- C06 ----

pub fn c06(case: &mut Case) {
    reset(case);
    let opts = Opts {
        min_modules: 3,
        max_modules: 6,
        noise: 6,
        ..Default::default()
    };
    let (mut p, _) = project(&mut case.c, &opts);
    let mut plan = soft(&mut case.c);
    let orig = p.clone();
    let reach = p.reachable();
    let n = case.c.range(1, 3);
    for _ in 0..n {
        let at = *case.c.pick(&reach);
        let what = *case.c.pick(&reach);
        let mut list = vec![];
        match case.c.weighted(&[5, 2, 2, 2]) {
            0 => {
                let edges = p.modules[what].edges.clone();
                p.rewrite(&mut case.c, what, edges);
                list.push((p.modules[what].path.clone(), Some(Arc::new(p.modules[what].bytes()))));
            }
            1 => list.push((p.modules[what].path.clone(), None)),
            2 => {
                let b = p.broken(&mut case.c, what);
                list.push((p.modules[what].path.clone(), Some(Arc::new(b))));
            }
            _ => {
                let path = p.modules[what].path.clone();
                let t = Trigger::new(Op::Open, Some(&path), 1, 0, Act::Fail(crate::conv::error(&mut case.c, OPEN_ERRORS)));
                plan.triggers.push(t);
                continue;
            }
        }
        let op = *case.c.pick(&[Op::CloseRead, Op::Open, Op::CloseRead, Op::Read]);
        let path = p.modules[at].path.clone();
        plan.triggers.push(Trigger::new(op, Some(&path), 0, 0, Act::Mutate(list)));
    }
    let mut q = orig;
    q.docs = p.docs.clone();
    let p = q;
    p.describe(case);
    describe_plan(case, &plan);
    let ran = p.convert(case, &p.fs, plan);
    case.nontrivial = true;
    for (path, n) in &ran.c.opens {
        if *n > 0 {
            case.violation("module read again", format!("{path} was opened {} times", n + 1));
        }
    }
    // the snapshot that was seen first
    let e = expected(&p.docs, &p.root().path, &ran.fs, &ran.c);
    match &e {
        Eval::Ok(v) => {
            if p.out_kind == Kind::Json && (v.has_bigint() || tree(v) > MAX_TREE * 4) {
                return;
            }
            case.count("snapshot is valid");
            if !case.check(ran.out.ok(), "consistent snapshot rejected", || {
                format!("all modules were delivered, but: {:?}", ran.out)
            }) {
                return;
            }
            check_ok(case, &p, v, &ran, "as first delivered");
        }
        Eval::Fail(f) => {
            case.count("snapshot is invalid");
            case.check(!ran.out.ok(), "mixed snapshot accepted", || format!("delivered was: {f:?}"));
        }
        Eval::Unknown(_) => {}
    }
}

// ---- C07 ----

pub fn c07(case: &mut Case) {
    reset(case);
    let opts = Opts {
        cycles: true,
        max_modules: 7,
        chains: true,
        noise: 5,
        values: 4,
        ..Default::default()
    };
    let (mut p, e) = project(&mut case.c, &opts);
    if matches!(e, Eval::Fail(Fail::Cycle(_))) && p.out_kind == Kind::Json {
        set_output(&mut p, Kind::Mjs);
    }
    let mut plan = soft(&mut case.c);
    let rewritten = case.c.chance(1, 2);
    if rewritten && p.modules.len() > 8 && p.out_kind == Kind::Json {
        // the tree may become too large
        set_output(&mut p, Kind::Mjs);
    }
    let orig = p.clone();
    if rewritten {
        for _ in 0..case.c.range(1, 4) {
            let at = case.c.below(p.modules.len());
            let what = case.c.below(p.modules.len());
            if p.modules[what].kind == Kind::Json {
                continue;
            }
            let mut edges = vec![];
            for j in 0..p.modules.len() {
                if case.c.chance(1, 3) {
                    edges.push(j);
                }
            }
            p.rewrite(&mut case.c, what, edges);
            let list = vec![(p.modules[what].path.clone(), Some(Arc::new(p.modules[what].bytes())))];
            let op = *case.c.pick(&[Op::Open, Op::CloseRead, Op::Read]);
            let path = p.modules[at].path.clone();
            plan.triggers.push(Trigger::new(op, Some(&path), 0, 0, Act::Mutate(list)));
        }
    }
    let mut q = orig;
    q.docs = p.docs.clone();
    let p = q;
    p.describe(case);
    describe_plan(case, &plan);
    plan.max_events = 100_000;
    let ran = p.convert(case, &p.fs, plan);
    case.nontrivial = p.modules.len() > 1;
    if ran.out == Outcome::Budget {
        case.violation("no end", "the conversion did not end after 100000 I/O calls");
        return;
    }
    let opens: u32 = ran.c.opens.values().map(|n| n + 1).sum();
    if opens as usize > p.modules.len() {
        case.violation(
            "too many reads",
            format!("{opens} files were opened, there are {} modules", p.modules.len()),
        );
    }
    let e = expected(&p.docs, &p.root().path, &ran.fs, &ran.c);
    match &e {
        Eval::Ok(v) => {
            case.count("acyclic");
            if p.out_kind == Kind::Json && (v.has_bigint() || tree(v) > MAX_TREE * 4) {
                return;
            }
            case.check(ran.out.ok(), "acyclic graph rejected", || format!("{:?}", ran.out));
        }
        Eval::Fail(Fail::Cycle(m)) => {
            case.count("cyclic");
            case.check(!ran.out.ok(), "cycle accepted", || format!("{m} imports itself"));
            untouched(case, &p, &p.fs, &ran, "the imports are circular");
        }
        Eval::Fail(_) => {}
        Eval::Unknown(m) => panic!("unknown content of {m}"),
    }
    if let Outcome::Panic(m) = &ran.out {
        case.violation("panic", m);
    }
}

// ---- C09 ----

pub fn c09(case: &mut Case) {
    reset(case);
    let opts = Opts {
        min_modules: 2,
        max_modules: 6,
        noise: 8,
        values: 3,
        decoys: true,
        ..Default::default()
    };
    let (mut p, _) = project(&mut case.c, &opts);
    let reach = p.reachable();
    let broken = case.c.chance(1, 3);
    if broken {
        // a neighbour fails
        let i = *case.c.pick(&reach);
        let path = p.modules[i].path.clone();
        if case.c.chance(1, 2) {
            let b = p.broken(&mut case.c, i);
            p.fs.put(&path, &b);
        } else {
            p.fs.nodes.remove(&path);
        }
    }
    p.describe(case);
    let mut plan = soft(&mut case.c);
    if case.c.chance(1, 6) {
        plan.no_cwd = true;
        case.count("fault: working directory is unknown");
        case.note(|| "the working directory cannot be determined".into());
    }
    let ran = p.convert(case, &p.fs, plan);
    case.nontrivial = p.modules.len() > 1;
    c09_opened(case, &p, &ran.c.deliveries.iter().map(|d| d.path.clone()).collect::<Vec<_>>());
    let e = eval_fs(&p.docs, &p.root().path, &p.fs);
    match &e {
        Eval::Ok(v) => {
            if p.out_kind == Kind::Json && v.has_bigint() {
                return;
            }
            if !case.check(ran.out.ok(), "import not resolved", || format!("{:?}", ran.out)) {
                return;
            }
            // trees: sharing is a matter of C06
            let out = ran.fs.file(&p.out_path).map_or(vec![], |x| x.to_vec());
            match refread::read(&out, p.out_kind) {
                Ok(got) => {
                    if let Err(m) = crate::doc::same(v, &got, false) {
                        case.violation("import resolved to another module", m);
                    }
                }
                Err(m) => case.violation("no value", m),
            }
        }
        _ => case.count("failing neighbour"),
    }
}

/// Only the root and what opened modules import may be opened.
pub fn c09_opened(case: &mut Case, p: &Project, opened: &[String]) {
    let mut allowed: BTreeSet<String> = [p.root().path.clone()].into();
    for path in opened {
        if !allowed.contains(path) {
            case.violation("other file opened", format!("{path} is not imported by the modules opened before"));
            return;
        }
        if let Some(b) = p.fs.file(path) {
            let imports = match p.docs.0.get(&b[..]) {
                Some(Content::Valid(d)) => d.imports(),
                Some(Content::Invalid(l)) => l.clone(),
                None => vec![],
            };
            for i in imports {
                allowed.insert(canon(&parent(path), &i));
            }
        }
    }
}

// ---- C10 ----

pub fn c10(case: &mut Case) {
    let opts = Opts {
        values: 40,
        consts: 8,
        max_modules: 4,
        ..Default::default()
    };
    let (p, _) = project(&mut case.c, &opts);
    let (other, _) = project(&mut case.c, &Opts::default());
    p.describe(case);
    let m = engine::shm(4 << 20);
    let mut first: Option<Vec<u8>> = None;
    let n = 3;
    for k in 0..n {
        let mode = if k == 0 {
            alloc::Mode::Reuse
        } else {
            *case.c.pick(&[alloc::Mode::Reuse, alloc::Mode::Up, alloc::Mode::Down])
        };
        let seed = if k == 0 { 0 } else { case.c.seed() };
        let hash = if k == 0 { 1 } else { case.c.seed() };
        let history = if k == 0 { 0 } else { case.c.below(4) };
        let plan = if k == 0 { Plan::default() } else { soft(&mut case.c) };
        case.note(|| format!("process {k}: allocator {mode:?} seed {seed}, hash seed {hash}, history {history}"));
        describe_plan(case, &plan);
        let status = engine::in_process(|| {
            engine::set_entropy(hash);
            alloc::reset(alloc::Cfg {
                mode,
                seed,
                ..Default::default()
            });
            // hash keys belong to threads
            let r = std::thread::scope(|s| {
                s.spawn(|| {
                    for h in 0..history {
                        let q = if h == 1 { &p } else { &other };
                        let io = crate::io::SimIo::new(q.fs.clone(), Plan::default(), &["nanvm", &q.input, &q.output]);
                        call(&io);
                    }
                    let io = crate::io::SimIo::new(p.fs.clone(), plan, &["nanvm", &p.input, &p.output]);
                    let o = call(&io);
                    let mut r = vec![o.ok() as u8];
                    if let Some(f) = io.fs().file(&p.out_path) {
                        r.extend_from_slice(f);
                    }
                    r
                })
                .join()
                .unwrap()
            });
            engine::store(m, &r);
        });
        case.executions += 1 + history as u64;
        let got = engine::load(m);
        let (0, Some(got)) = (status, got) else {
            case.violation("abnormal end", engine::describe_status(status));
            return;
        };
        case.count(&format!("allocator {mode:?}"));
        case.trace(crate::choices::hash_bytes(k, &got));
        case.trace(hash);
        if k > 0 {
            case.count("fault: other hash keys and addresses");
        }
        match &first {
            None => first = Some(got),
            Some(f) if *f == got => {}
            Some(f) => {
                case.violation(
                    "other bytes",
                    format!("first process: {}, process {k}: {}", show(f), show(&got)),
                );
            }
        }
    }
    engine::unmap(m);
    let shared = first.as_ref().map_or(false, |f| String::from_utf8_lossy(f).contains("const _1="));
    if shared {
        case.count("several shared values");
    }
    case.nontrivial = shared;
}

// ---- C11 ----

pub fn c11(case: &mut Case) {
    reset(case);
    let opts = Opts {
        compound: true,
        max_modules: 4,
        ..Default::default()
    };
    let (p, _) = project(&mut case.c, &opts);
    let reach = p.reachable();
    let i = *case.c.pick(&reach);
    let m = &p.modules[i];
    debug_assert!(matches!(m.doc.export, E::Arr(_) | E::Obj(_) | E::Str(_)));
    let end = m.text.end;
    // inside of or behind an escape sequence
    let escapes: Vec<usize> = m.text.text.as_bytes()[..end - 1]
        .iter()
        .enumerate()
        .filter(|x| *x.1 == b'\\')
        .map(|x| x.0)
        .collect();
    let cut = match case.c.weighted(&[1, 6, 2, if escapes.is_empty() { 0 } else { 3 }]) {
        0 => 0,
        1 => case.c.below(end),
        3 => (*case.c.pick(&escapes) + 1 + case.c.below(12)).min(end - 1),
        _ => end - 1 - case.c.below(end.min(4)),
    };
    let mut fs = p.fs.clone();
    let mut plan = soft(&mut case.c);
    if case.c.chance(1, 2) {
        fs.put(&m.path, &m.text.text.as_bytes()[..cut]);
        case.count("fault: torn file");
    } else {
        plan.triggers.push(Trigger::new(Op::Read, Some(&m.path), 0, cut, Act::Eof));
    }
    p.describe(case);
    case.note(|| format!("{} ends after {cut} of {} bytes", m.path, m.text.text.len()));
    describe_plan(case, &plan);
    let ran = p.convert(case, &fs, plan);
    case.nontrivial = true;
    if ran.out.ok() {
        case.violation(
            "torn module accepted",
            format!("{} was cut after {cut} bytes: {}", m.path, show(&m.text.text.as_bytes()[..cut])),
        );
    }
    untouched(case, &p, &fs, &ran, "a module is torn");
    // a longer tail: only white space and comments are lost
    let t = &m.text.text;
    if end < t.len() && case.c.chance(1, 3) {
        case.count("cut after the value");
    }
}

// ---- C12 ----

pub fn c12(case: &mut Case) {
    reset(case);
    let (p, e) = project(&mut case.c, &Opts::default());
    p.describe(case);
    let base = clean(case, &p);
    let Eval::Ok(v) = &e else { return };
    if !base.out.ok() {
        return;
    }
    let good = base.fs.file(&p.out_path).map_or(vec![], |x| x.to_vec());
    // killed or failed, then repeated
    let mut fs = p.fs.clone();
    let tries = case.c.range(1, 3);
    for _ in 0..tries {
        let mut plan = soft(&mut case.c);
        let t = match case.c.weighted(&[3, 3, 2]) {
            0 => crash_at(&mut case.c, &p.out_path, good.len()),
            1 => write_fault(&mut case.c, &p.out_path, good.len()),
            _ => {
                let at = case.c.below(base.c.events + 1);
                Trigger::new(Op::Any, None, 0, at, Act::Crash)
            }
        };
        plan.triggers.push(t);
        describe_plan(case, &plan);
        let ran = p.convert(case, &fs, plan);
        if !ran.c.fired.is_empty() {
            case.nontrivial = true;
        }
        if ran.out == Outcome::Crash {
            case.count("killed");
        }
        fs = ran.fs;
    }
    case.note(|| "repeated without faults".into());
    let again = p.convert(case, &fs, Plan::default());
    if !case.check(again.out.ok(), "repetition failed", || format!("{:?}", again.out)) {
        return;
    }
    let got = again.fs.file(&p.out_path).map_or(vec![], |x| x.to_vec());
    case.check(got == good, "repetition differs", || {
        format!("undisturbed: {}, repeated: {}", show(&good), show(&got))
    });
    // the output is an input
    let cwd = p.fs.cwd.clone();
    let big = v.has_bigint();
    let t = tree(v);
    for kind in [Kind::Json, Kind::Cjs, Kind::Mjs] {
        if kind == Kind::Json && t > MAX_TREE {
            continue;
        }
        let to = canon(&cwd, &format!("again{}", kind.ext()));
        let plan = soft(&mut case.c);
        case.note(|| format!("read back to {to}"));
        let ran = convert(case, &again.fs, plan, &[&p.output, &to]);
        if kind == Kind::Json && big {
            case.check(!ran.out.ok(), "bigint written as JSON", || show(ran.fs.file(&to).map_or(&[], |x| x)));
            continue;
        }
        if !case.check(ran.out.ok(), "output is not an input", || {
            format!("converting {} to {to}: {:?}", show(&good), ran.out)
        }) {
            continue;
        }
        case.count("read back");
        let b = ran.fs.file(&to).map_or(vec![], |x| x.to_vec());
        if kind == p.out_kind {
            case.check(b == good, "not the same bytes", || {
                format!("first: {}, second: {}", show(&good), show(&b))
            });
        }
        match (refread::read(&good, p.out_kind), refread::read(&b, kind)) {
            (Ok(x), Ok(y)) => {
                let sharing = kind != Kind::Json && p.out_kind != Kind::Json;
                if let Err(m) = crate::doc::same(&x, &y, sharing) {
                    case.violation("another value", m);
                }
            }
            (x, y) => case.violation("output is not well-formed", format!("{:?} {:?}", x.err(), y.err())),
        }
    }
}

// ---- C14 ----

fn corrupt(c: &mut Choices, b: &mut Vec<u8>, old: &[u8]) -> &'static str {
    let len = b.len();
    let at = c.below(len.max(1));
    let n = match c.weighted(&[4, 2, 1]) {
        0 => c.range(1, 4),
        1 => c.range(1, 32),
        _ => c.range(1, 512),
    };
    let end = (at + n).min(len);
    match c.below(10) {
        8 => {
            // much deeper nesting is a recorded finding
            let t = *c.pick(&["[", "]", "{\"\":", "}", "(", "[[],", "-", "0", "\"", "\\", ",", "/", "\n", "9", "a"]);
            let n = c.range(2, 700);
            b.splice(at.min(len)..at.min(len), t.repeat(n).bytes());
            "repeated piece"
        }
        0 => {
            if len > 0 {
                b[at] ^= 1 << c.below(8);
            }
            "bit flip"
        }
        1 => {
            b[at.min(len)..end].fill(0);
            "zeroed piece"
        }
        2 => {
            let piece = b[at.min(len)..end].to_vec();
            let to = c.below(len + 1);
            b.splice(to..to, piece);
            "duplicated piece"
        }
        3 => {
            b.drain(at.min(len)..end);
            "dropped piece"
        }
        4 => {
            let piece: Vec<u8> = b.drain(at.min(len)..end).collect();
            let to = c.below(b.len() + 1);
            b.splice(to..to, piece);
            "moved piece"
        }
        5 => {
            b.truncate(at);
            b.extend_from_slice(&old[at.min(old.len())..]);
            "older tail"
        }
        6 => {
            if len > 0 {
                b[at] = c.below(256) as u8;
            }
            "other byte"
        }
        7 => {
            // characters that matter
            let t = *c.pick(&[
                "\"", "\\", "{", "}", "[", "]", ",", ":", "n", "-", ".", "e9", "\\u", "\\ud800", "/*", "//", ";", "\n",
                "require(", "const ", "export default ", "module.exports=", "import ", "=", "(", ")", "1e999", "é", "0x",
                "null", "\r", "\u{feff}", "1e-400", "00",
            ]);
            let e = if c.chance(1, 2) { at.min(len) } else { end };
            b.splice(at.min(len)..e, t.bytes());
            "inserted text"
        }
        _ => {
            b.truncate(at);
            "lost tail"
        }
    }
}

pub fn c14(case: &mut Case) {
    reset(case);
    let opts = Opts {
        values: 12,
        cycles: case.c.chance(1, 8),
        ..Default::default()
    };
    let (p, _) = project(&mut case.c, &opts);
    let mut fs = p.fs.clone();
    let reach = p.reachable();
    let n = case.c.range(1, 4);
    for _ in 0..n {
        let i = *case.c.pick(&reach);
        let j = *case.c.pick(&reach);
        let path = &p.modules[i].path;
        let mut b = fs.file(path).map_or(vec![], |x| x.to_vec());
        let old = p.modules[j].bytes();
        let kind = corrupt(&mut case.c, &mut b, &old);
        case.count(&format!("fault: {kind}"));
        fs.put(path, &b);
    }
    let mut q = p.clone();
    q.fs = fs;
    q.describe(case);
    let plan = soft(&mut case.c);
    let ran = q.convert(case, &q.fs, plan);
    case.nontrivial = true;
    match &ran.out {
        Outcome::Ok => {
            case.count("accepted");
            let b = ran.fs.file(&q.out_path).map_or(vec![], |x| x.to_vec());
            if let Err(m) = refread::read(&b, q.out_kind) {
                case.violation("output is not well-formed", format!("{m}: {}", show(&b)));
            }
        }
        Outcome::Err(_) => case.count("rejected"),
        o => case.violation("no orderly end", format!("{o:?}")),
    }
    only_changed(case, &q.fs, &ran.fs, Some(&q.out_path));
}
