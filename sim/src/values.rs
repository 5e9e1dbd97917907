//! M02, M03: clients that share values.
use crate::{
    alloc::{self, Mode},
    engine::{last_panic, Case},
    world::World,
};
use nanvm_lib::mem::{
    global::GLOBAL,
    local::Local,
    manager::{Dealloc, Manager},
};
use std::{
    alloc::{handle_alloc_error, Layout},
    cell::Cell,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::atomic::{AtomicIsize, Ordering},
};

/// An allocator of a random mode.
pub fn reset(case: &mut Case) {
    let mode = [Mode::Reuse, Mode::Up, Mode::Down, Mode::Guard][case.c.weighted(&[4, 3, 2, 1])];
    let gap = case.c.chance(1, 4);
    alloc::reset(alloc::Cfg {
        mode,
        seed: if gap { 1 + case.c.below(1000) as u64 } else { 0 },
        ..Default::default()
    });
    case.note(|| format!("allocator: {mode:?}"));
    crate::streams::warm_thread();
}

pub fn memory_errors(case: &mut Case) {
    for e in alloc::take_errors() {
        case.violation("memory error", format!("{e:?}"));
    }
}

// ---- managers of a caller ----

pub static CALLS: [AtomicIsize; 2] = [AtomicIsize::new(0), AtomicIsize::new(0)];

macro_rules! manager {
    ($name:ident, $header:ty) => {
        #[derive(Debug, Clone, Copy)]
        pub struct $name;
        impl Dealloc for $name {
            type BlockHeader = $header;
            unsafe fn dealloc(p: *mut u8, l: Layout) {
                CALLS[1].fetch_add(1, Ordering::SeqCst);
                std::alloc::dealloc(p, l)
            }
        }
        impl Manager for $name {
            type Dealloc = $name;
            unsafe fn alloc(self, l: Layout) -> *mut u8 {
                CALLS[0].fetch_add(1, Ordering::SeqCst);
                let p = std::alloc::alloc(l);
                if p.is_null() {
                    handle_alloc_error(l)
                }
                p
            }
        }
    };
}

manager!(Atomic, AtomicIsize);
manager!(Plain, Cell<isize>);

pub fn new_local() -> &'static Local {
    Box::leak(Box::default())
}

pub fn m02(case: &mut Case) {
    reset(case);
    match case.c.below(4) {
        0 => {
            case.note(|| "manager: global".into());
            clients(case, vec![GLOBAL], |_, _| {})
        }
        1 => {
            case.note(|| "manager: local".into());
            clients(case, vec![new_local()], |_, _| {})
        }
        2 => {
            case.note(|| "manager: atomic counts".into());
            clients(case, vec![Atomic], |_, _| {})
        }
        _ => {
            case.note(|| "manager: plain counts".into());
            clients(case, vec![Plain], |_, _| {})
        }
    }
}

pub fn m03(case: &mut Case) {
    reset(case);
    let n = case.c.range(1, 4);
    case.note(|| format!("{n} local managers"));
    let l: Vec<&'static Local> = (0..n).map(|_| new_local()).collect();
    let before: Vec<usize> = l.iter().map(|l| l.size()).collect();
    if before.iter().any(|s| *s != 0) {
        case.violation("wrong size", format!("new managers hold {before:?}"));
    }
    let texts = crate::streams::Texts::new(case, l[0]);
    let mut opaque: Vec<(usize, nanvm_lib::js::any::Any<&'static Local>, usize)> = vec![];
    clients(case, l.clone(), |w, case| {
        // parses next to the clients
        if case.c.chance(1, 6) {
            let k = case.c.below(w.managers.len());
            if !opaque.is_empty() && case.c.chance(1, 2) {
                let (_, a, n) = opaque.swap_remove(case.c.below(opaque.len()));
                alloc::on(|| drop(a));
                case.note(|| "drop parsed value".to_string());
                let _ = n;
            } else {
                let before = alloc::info().live_bytes;
                let r = texts.parse(case, w.managers[k]);
                let n = alloc::info().live_bytes.wrapping_sub(before);
                case.count(if r.is_some() { "parsed" } else { "failed parse" });
                match r {
                    Some(a) => opaque.push((k, a, n)),
                    None => {
                        case.check(n == 0, "failed parse holds memory", || format!("{n} bytes"));
                    }
                }
            }
            w.rebase();
        }
        for k in 0..w.managers.len() {
            let want = w.held(k) + opaque.iter().filter(|x| x.0 == k).map(|x| x.2).sum::<usize>();
            let got = w.managers[k].size();
            case.check(want == got, "wrong size", || {
                format!("manager {k} reports {got} bytes and holds {want}")
            });
        }
        if w.handles.is_empty() && w.clients == 0 {
            opaque.drain(..).for_each(|x| alloc::on(|| drop(x.1)));
            w.rebase();
        }
    });
    for (k, l) in l.iter().enumerate() {
        case.check(l.size() == 0, "wrong size", || {
            format!("manager {k} reports {} bytes when all is released", l.size())
        });
    }
}

fn clients<M: Manager + 'static>(case: &mut Case, managers: Vec<M>, mut check: impl FnMut(&mut World<M>, &mut Case))
where
    M::Dealloc: 'static,
{
    let n = case.c.range(1, 4);
    let mut w = World::new(managers, n);
    let steps = case.c.range(4, if case.thorough { 160 } else { 70 });
    let calls = [0, 1].map(|i| CALLS[i].load(Ordering::SeqCst));
    let mut alive: Vec<usize> = (0..n).collect();
    let mut shared = false;
    for s in 0..steps {
        if alive.is_empty() {
            break;
        }
        let client = *case.c.pick(&alive);
        let gone = case.c.chance(1, 40);
        let r = catch_unwind(AssertUnwindSafe(|| {
            if gone {
                w.vanish(&mut case.c, client);
                "disappears"
            } else {
                w.step(case, client)
            }
        }));
        let name = match r {
            Ok(n) => n,
            Err(_) => {
                let m = last_panic();
                if m.contains("model") || m.contains("world.rs") {
                    panic!("{m}");
                }
                case.violation("panic", m);
                return;
            }
        };
        if gone {
            case.count("fault: client disappeared");
            alive.retain(|x| *x != client);
            w.clients = n;
        }
        shared |= w.nodes.iter().any(|n| n.rc > 1);
        case.ticks += 1;
        case.executions += 1;
        case.trace_str(name);
        case.trace(w.live as u64);
        case.note(|| format!("{s}: client {client}: {name}; {}", w.show()));
        w.check_counts(name);
        check(&mut w, case);
        if case.c.chance(1, 8) {
            w.check_all("all references");
        }
        if let Some(b) = w.take_bad() {
            case.violation("values", b);
            return;
        }
        if !case.violations.is_empty() {
            return;
        }
    }
    w.check_all("at the end");
    while !w.handles.is_empty() {
        let i = case.c.below(w.handles.len());
        w.drop_handle(i);
        w.check_counts("drop at the end");
    }
    w.clients = 0;
    check(&mut w, case);
    if let Some(b) = w.take_bad() {
        case.violation("values", b);
    }
    let now = [0, 1].map(|i| CALLS[i].load(Ordering::SeqCst));
    case.check(now[0] - calls[0] == now[1] - calls[1], "calls of the manager", || {
        format!("{} allocations and {} releases", now[0] - calls[0], now[1] - calls[1])
    });
    memory_errors(case);
    if shared {
        case.count("shared values");
    }
    case.nontrivial = shared;
}
