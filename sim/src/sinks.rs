//! W01: output sinks that fail, accept a part, or call back.
use crate::{
    alloc,
    anyv::{build, to_v, Built, Memo},
    choices::Choices,
    conv::{self, show},
    doc::{same, Kind, V},
    engine::{last_panic, Case},
    streams::no_imports,
    values::{self, memory_errors},
};
use nanvm_lib::{
    js::any::Any,
    mem::{global::GLOBAL, manager::Manager},
    serializer::{
        to_djs::{to_djs, WriteDjs},
        to_json::{to_json, WriteJson},
    },
};
use std::{
    fmt,
    panic::{catch_unwind, AssertUnwindSafe},
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Form {
    Json,
    Esm,
    Cjs,
}

pub const FORMS: [Form; 3] = [Form::Json, Form::Esm, Form::Cjs];

/// Where a sink fails.
#[derive(Clone, Copy, Debug)]
pub enum At {
    Never,
    /// the call, from 0
    Call(usize),
    /// after this many bytes; the bytes before are accepted
    Byte(usize),
}

pub struct Sink<'a> {
    /// what was accepted before a failure
    pub text: String,
    pub calls: usize,
    at: At,
    /// only one call fails
    once: bool,
    pub failed: bool,
    /// calls after the failure
    pub later: usize,
    /// is called in a call
    hook: Option<(usize, &'a mut dyn FnMut())>,
}

impl<'a> Sink<'a> {
    pub fn new(at: At, once: bool) -> Sink<'a> {
        Sink {
            text: String::new(),
            calls: 0,
            at,
            once,
            failed: false,
            later: 0,
            hook: None,
        }
    }
    fn call(&mut self, s: &str) -> fmt::Result {
        let n = self.calls;
        self.calls += 1;
        if let Some((at, f)) = &mut self.hook {
            if *at == n {
                f();
            }
        }
        if self.failed {
            self.later += 1;
            return if self.once { Ok(()) } else { Err(fmt::Error) };
        }
        match self.at {
            At::Call(k) if k == n => {
                self.failed = true;
                Err(fmt::Error)
            }
            At::Byte(k) if self.text.len() + s.len() > k => {
                let mut i = k - self.text.len();
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                self.text.push_str(&s[..i]);
                self.failed = true;
                Err(fmt::Error)
            }
            _ => {
                self.text.push_str(s);
                Ok(())
            }
        }
    }
}

impl fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        alloc::off(|| self.call(s))
    }
}

/// Serializes as a caller.
pub fn write<M: Manager>(s: &mut Sink, a: &Any<M::Dealloc>, f: Form) -> fmt::Result {
    alloc::on(|| {
        let a = a.clone();
        match f {
            Form::Json => s.write_json(a),
            Form::Esm => s.write_djs(a, false),
            Form::Cjs => s.write_djs(a, true),
        }
    })
}

fn kind(f: Form) -> Kind {
    match f {
        Form::Json => Kind::Json,
        Form::Esm => Kind::Mjs,
        Form::Cjs => Kind::Cjs,
    }
}

pub fn w01(case: &mut Case) {
    values::reset(case);
    let r = catch_unwind(AssertUnwindSafe(|| match case.c.below(3) {
        0 => steps(case, GLOBAL),
        1 => steps(case, values::new_local()),
        _ => steps(case, values::Plain),
    }));
    if r.is_err() {
        let p = last_panic();
        if p.contains("/verif/") || p.contains("src/sinks.rs") || p.contains("src/streams.rs") {
            panic!("{p}");
        }
        case.violation("panic", p);
    }
    memory_errors(case);
}

struct Value<M: Manager> {
    v: V,
    any: Any<M::Dealloc>,
    /// complete texts, and whether they are complete
    texts: Vec<(String, bool, usize)>,
}

fn intact<M: Manager>(case: &mut Case, x: &Value<M>, what: &str) {
    if let Err(e) = same(&to_v(&x.any, &mut Memo::new()), &x.v, true) {
        case.violation("value changed", format!("{what}: {e}"));
    }
}

fn reference<M: Manager>(case: &mut Case, a: &Any<M::Dealloc>, v: &V) -> Vec<(String, bool, usize)> {
    let mut r = vec![];
    for f in FORMS {
        let mut s = Sink::new(At::Never, false);
        let ok = write::<M>(&mut s, a, f).is_ok();
        case.executions += 1;
        let expected = f != Form::Json || !v.has_bigint();
        case.check(ok == expected, "result", || {
            format!("{f:?} of {} into a sink that does not fail: success is {ok}", v.show())
        });
        let whole = alloc::on(|| match f {
            Form::Json => to_json(a.clone()),
            f => to_djs(a.clone(), f == Form::Cjs),
        });
        case.check(whole.is_ok() == ok, "result", || format!("{f:?} into a string: {whole:?}"));
        if let Ok(w) = &whole {
            case.check(*w == s.text, "text", || {
                format!("{f:?}: a sink got {} and a string {}", show(s.text.as_bytes()), show(w.as_bytes()))
            });
        }
        alloc::on(|| drop(whole));
        if ok && expected {
            if let Err(e) = conv::check_output(s.text.as_bytes(), kind(f), v) {
                case.violation("text", format!("{f:?}: {e}"));
            }
        }
        r.push((s.text, ok, s.calls));
    }
    r
}

fn fault(c: &mut Choices, text: &(String, bool, usize)) -> At {
    match c.weighted(&[6, 6, 1]) {
        0 => At::Call(match c.weighted(&[4, 1, 1]) {
            0 => c.below(text.2 + 1),
            1 => 0,
            _ => text.2.saturating_sub(1),
        }),
        1 => At::Byte(c.below(text.0.len() + 1)),
        _ => At::Never,
    }
}

fn steps<M: Manager + 'static>(case: &mut Case, m: M) {
    // a list of values, some with common parts
    let n = case.c.range(1, 3);
    let mut list: Vec<Value<M>> = vec![];
    let mut memo: Built<M::Dealloc> = Built::new();
    let empty = alloc::info().live_blocks;
    for _ in 0..n {
        let size = if case.thorough { 60 } else { 30 };
        let v = match list.last() {
            // the same parts again
            Some(x) if case.c.chance(1, 3) => {
                let x = x.v.clone();
                V::Arr(vec![x.clone(), no_imports(case, 6).1, x].into())
            }
            _ => no_imports(case, size).1,
        };
        if v.tree_size(&mut Default::default()) > 3000 {
            continue;
        }
        case.note(|| format!("value {}: {}", list.len(), v.show()));
        let any = build(m, &v, &mut memo);
        let texts = reference::<M>(case, &any, &v);
        list.push(Value { v, any, texts });
    }
    // the parts belong to the values, or to other holders, too
    if case.c.chance(1, 2) {
        memo.drain().for_each(|x| alloc::on(|| drop(x.1)));
    }
    if list.is_empty() {
        return;
    }
    let held = alloc::info().live_blocks;
    let mut shared = false;
    let mut fired = 0;
    for s in 0..case.c.range(3, if case.thorough { 40 } else { 14 }) {
        let i = case.c.below(list.len());
        let f = *case.c.pick(&FORMS);
        let text = list[i].texts[f as usize].clone();
        let at = fault(&mut case.c, &text);
        let once = case.c.chance(1, 2);
        // in the sink: another serialization, or references that go away and come back
        let hook = if case.c.chance(1, 4) { Some((case.c.below(text.2.max(1)), case.c.below(list.len()), *case.c.pick(&FORMS))) } else { None };
        let mut inner: Option<(String, bool)> = None;
        let other = hook.map(|h| alloc::on(|| list[h.1].any.clone()));
        let mut held_by_hook = other;
        let mut f_hook = || {
            let (_, _, form) = hook.unwrap();
            let Some(a) = held_by_hook.take() else { return };
            let mut s = Sink::new(At::Never, false);
            let ok = write::<M>(&mut s, &a, form).is_ok();
            // the last use of this reference
            alloc::on(|| drop(a));
            inner = Some((s.text, ok));
        };
        let mut sink = Sink::new(at, once);
        if let Some(h) = hook {
            sink.hook = Some((h.0, &mut f_hook));
        }
        let r = write::<M>(&mut sink, &list[i].any, f);
        let (got, failed, later, calls) = (sink.text, sink.failed, sink.later, sink.calls);
        case.executions += 1;
        case.ticks += calls as u64;
        case.trace_str(&got);
        case.trace(calls as u64);
        let what = format!("{s}: {f:?} of value {i}, sink fails at {at:?}{}", if once { " once" } else { "" });
        case.note(|| format!("{what}: {r:?} after {calls} calls, accepted {}", show(got.as_bytes())));
        if failed {
            fired += 1;
            case.count(match at {
                At::Byte(_) => "fault: sink accepts a part",
                _ if once => "fault: sink fails once",
                _ => "fault: sink fails",
            });
            case.check(r.is_err(), "failure not reported", || what.clone());
            case.check(later == 0, "written after a failure", || format!("{what}: {later} more calls"));
            case.check(text.0.starts_with(&got), "not a prefix", || {
                format!("{what}: accepted {} of {}", show(got.as_bytes()), show(text.0.as_bytes()))
            });
        } else {
            case.check(r.is_ok() == text.1, "result", || format!("{what}: {r:?}"));
            case.check(got == text.0, "text", || {
                format!("{what}: {} instead of {}", show(got.as_bytes()), show(text.0.as_bytes()))
            });
        }
        if let (Some((t, ok)), Some(h)) = (inner, hook) {
            case.count("fault: sink serializes");
            let w = &list[h.1].texts[h.2 as usize];
            case.check((&t, ok) == (&w.0, w.1), "text", || {
                format!("{what}: in the sink {:?} of value {} is {} instead of {}", h.2, h.1, show(t.as_bytes()), show(w.0.as_bytes()))
            });
        }
        alloc::on(|| drop(held_by_hook));
        shared |= text.0.contains("const _");
        let now = alloc::info().live_blocks;
        case.check(now == held, "memory is held", || format!("{what}: {} blocks more", now as isize - held as isize));
        intact(case, &list[i], &what);
        if !case.violations.is_empty() {
            return;
        }
    }
    // complete texts afterwards
    for (i, x) in list.iter().enumerate() {
        for f in FORMS {
            let mut s = Sink::new(At::Never, false);
            let ok = write::<M>(&mut s, &x.any, f).is_ok();
            let w = &x.texts[f as usize];
            case.check((&s.text, ok) == (&w.0, w.1), "text", || {
                format!("{f:?} of value {i} at the end: {} instead of {}", show(s.text.as_bytes()), show(w.0.as_bytes()))
            });
        }
        intact(case, x, "at the end");
    }
    while !list.is_empty() {
        let k = case.c.below(list.len());
        let x = list.swap_remove(k);
        alloc::on(|| drop(x.any));
    }
    memo.drain().for_each(|x| alloc::on(|| drop(x.1)));
    let now = alloc::info().live_blocks;
    case.check(now == empty, "memory is held", || format!("{} blocks at the end", now as isize - empty as isize));
    if shared {
        case.count("shared values");
    }
    case.nontrivial = fired > 0;
}
