//! M06: values of the global manager, shared between threads.
use crate::{
    alloc,
    engine::{last_panic, Case},
    preempt::{self, lib, quiet},
    sched::Gate,
    values::{self, memory_errors},
    world::{Body, World, MV},
};
use nanvm_lib::{
    js::{
        any::Any,
        any_cast::AnyCast,
        js_array::{new_array, JsArrayRef},
        js_bigint::{new_bigint, JsBigintRef, Sign},
        js_object::{new_object, JsObjectRef},
        js_string::{new_string, JsStringRef},
        null::Null,
    },
    mem::global::{Global, GLOBAL},
    serializer::{to_djs::to_djs, to_json::to_json},
};
use std::{
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
};

type A = Any<Global>;

// what the language guarantees for the values that are shared here
fn shared<T: Send + Sync>(_: &T) {}

#[derive(Clone, Copy, Debug)]
enum Op {
    Clone,
    CloneRoot,
    Drop,
    Read,
    Exclusive,
    Parts,
    Array,
    Object,
    Text,
    Write,
    Send,
}

const OPS: [(Op, u64); 11] = [
    (Op::Clone, 6),
    (Op::Drop, 8),
    (Op::CloneRoot, 4),
    (Op::Exclusive, 6),
    (Op::Read, 3),
    (Op::Parts, 3),
    (Op::Array, 3),
    (Op::Object, 1),
    (Op::Text, 1),
    (Op::Write, 1),
    (Op::Send, 4),
];

/// The model: `rc` of a node is the number of references that surely exist. A reference counts
/// from the end of the operation that makes it to the begin of the operation that releases it.
struct Ledger(World<Global>);

// SAFETY: it is used by one thread at a time
unsafe impl Send for Ledger {}

struct Shared {
    ledger: Mutex<Ledger>,
    roots: Vec<(A, MV)>,
    inbox: Vec<Mutex<Vec<(A, MV)>>>,
    bad: Mutex<Option<String>>,
    log: Mutex<Vec<String>>,
    /// threads in an operation
    busy: AtomicUsize,
    switches: AtomicUsize,
    detail: bool,
}

impl Shared {
    fn led<R>(&self, f: impl FnOnce(&mut World<Global>) -> R) -> R {
        f(&mut self.ledger.lock().unwrap_or_else(|e| e.into_inner()).0)
    }
    fn bad(&self, s: String) {
        let mut b = self.bad.lock().unwrap();
        if b.is_none() {
            *b = Some(s);
        }
    }
    fn failed(&self) -> bool {
        self.bad.lock().unwrap().is_some()
    }
    fn log(&self, f: impl FnOnce() -> String) {
        if self.detail {
            self.log.lock().unwrap().push(f());
        }
    }
}

fn simple(k: usize) -> (A, MV) {
    match k % 4 {
        0 => (Null().move_to_any(), MV::Null),
        1 => (true.move_to_any(), MV::Bool(true)),
        _ => ((k as f64).move_to_any(), MV::Num((k as f64).to_bits())),
    }
}

struct Thread<'a> {
    me: usize,
    sh: &'a Shared,
    mine: Vec<(A, MV)>,
}

impl Thread<'_> {
    fn take(&mut self, i: usize) -> Option<(A, MV)> {
        if self.mine.is_empty() {
            return None;
        }
        let i = i % self.mine.len();
        Some(self.mine.swap_remove(i))
    }
    fn release(&mut self, (x, m): (A, MV)) {
        self.sh.led(|w| w.release(m));
        lib(|| drop(x));
    }
    /// A value for a container: it is moved or copied.
    fn item(&mut self, i: usize) -> (A, MV) {
        if self.mine.is_empty() || i % 5 == 0 {
            return simple(i);
        }
        if i % 2 == 0 {
            return self.take(i / 10).unwrap();
        }
        let k = i / 10 % self.mine.len();
        let m = self.mine[k].1;
        let x = lib(|| self.mine[k].0.clone());
        self.sh.led(|w| w.retain(m));
        (x, m)
    }
    fn read(&self, x: &A, m: MV, what: &str) {
        let r = self.sh.led(|w| w.any_ok(x, m, &mut Default::default()));
        if let Err(e) = r {
            self.sh.bad(format!("thread {}, {what}: {e}", self.me));
        }
    }
    fn exclusive(&mut self, a: usize, b: usize, c: usize) -> &'static str {
        let Some((x, m)) = self.take(a) else { return "" };
        let MV::Ref(n) = m else {
            self.mine.push((x, m));
            return "";
        };
        macro_rules! typed {
            ($t:ty, $modify:expr) => {{
                let Ok(r) = lib(|| x.try_move::<$t>()) else {
                    self.sh.bad(format!("value {n} has another type"));
                    return "";
                };
                let switches = self.sh.switches.load(Ordering::Relaxed);
                // nothing is in progress, and this is the only reference
                let alone = self.sh.busy.load(Ordering::Relaxed) == 1 && self.sh.led(|w| w.nodes[n].rc) == 1;
                match lib(|| r.try_to_mut_ref()) {
                    Ok(mut r) => {
                        let rc = self.sh.led(|w| w.nodes[n].rc);
                        if rc != 1 {
                            self.sh.bad(format!("exclusive access to value {n} is granted while {} other references exist", rc as isize - 1));
                            // it is not used
                            std::mem::forget(r);
                            return "";
                        }
                        #[allow(clippy::redundant_closure_call)]
                        ($modify)(&mut *self, &mut r);
                        let x = lib(|| r.to_ref().move_to_any());
                        self.mine.push((x, m));
                        "modify"
                    }
                    Err(r) => {
                        if alone && self.sh.switches.load(Ordering::Relaxed) == switches {
                            self.sh.bad(format!("exclusive access to value {n} is refused to its only reference"));
                        }
                        let x = lib(|| r.move_to_any());
                        self.mine.push((x, m));
                        "no exclusive access"
                    }
                }
            }};
        }
        let body = self.sh.led(|w| w.nodes[n].body.clone());
        match body {
            Body::Str(_) => typed!(JsStringRef<Global>, |t: &mut Self, r: &mut _| {
                let r: &mut nanvm_lib::js::js_string::JsStringMutRef<Global> = r;
                lib(|| r.items_mut().iter_mut().for_each(|x| *x = c as u16));
                t.sh.led(|w| {
                    let Body::Str(s) = &mut w.nodes[n].body else { unreachable!() };
                    s.iter_mut().for_each(|x| *x = c as u16);
                });
            }),
            Body::Big(..) => typed!(JsBigintRef<Global>, |t: &mut Self, r: &mut _| {
                let r: &mut nanvm_lib::js::js_bigint::JsBigintMutRef<Global> = r;
                lib(|| r.items_mut().iter_mut().for_each(|x| *x = c as u64 + 1));
                t.sh.led(|w| {
                    let Body::Big(_, s) = &mut w.nodes[n].body else { unreachable!() };
                    s.iter_mut().for_each(|x| *x = c as u64 + 1);
                });
            }),
            Body::Arr(l) => typed!(JsArrayRef<Global>, |t: &mut Self, r: &mut _| {
                let r: &mut nanvm_lib::js::js_array::JsArrayMutRef<Global> = r;
                if l.is_empty() {
                    return;
                }
                let k = b % l.len();
                let (x, v) = t.item(c);
                let old = lib(|| std::mem::replace(&mut r.items_mut()[k], x));
                let o = t.sh.led(|w| {
                    let Body::Arr(s) = &mut w.nodes[n].body else { unreachable!() };
                    std::mem::replace(&mut s[k], v)
                });
                t.mine.push((old, o));
            }),
            Body::Obj(l) => typed!(JsObjectRef<Global>, |t: &mut Self, r: &mut _| {
                let r: &mut nanvm_lib::js::js_object::JsObjectMutRef<Global> = r;
                if l.is_empty() {
                    return;
                }
                let k = b % l.len();
                let (x, v) = t.item(c);
                let old = lib(|| std::mem::replace(&mut r.items_mut()[k].1, x));
                let o = t.sh.led(|w| {
                    let Body::Obj(s) = &mut w.nodes[n].body else { unreachable!() };
                    std::mem::replace(&mut s[k].1, v)
                });
                t.mine.push((old, o));
            }),
            Body::Ext(..) => unreachable!(),
        }
    }
    fn parts(&mut self, a: usize, b: usize) -> &'static str {
        let sh = self.sh;
        if self.mine.len() + sh.roots.len() == 0 {
            return "";
        }
        let k = a % (self.mine.len() + sh.roots.len());
        let stop = if b % 3 == 0 { b / 3 % 3 } else { usize::MAX };
        let mut got: Vec<(A, A)> = vec![];
        let (x, m) = if k < self.mine.len() { &self.mine[k] } else { &sh.roots[k - self.mine.len()] };
        let m = *m;
        let _ = lib(|| {
            x.for_each(|k, v| {
                if quiet(|| got.len()) == stop {
                    return Err(());
                }
                let v = v.clone();
                quiet(|| alloc::off(|| got.push((k, v))));
                Ok(())
            })
        });
        let parts: Vec<(MV, MV)> = sh.led(|w| match m {
            MV::Ref(n) => match &w.nodes[n].body {
                Body::Arr(l) => l.iter().enumerate().map(|(i, v)| (MV::Num((i as f64).to_bits()), *v)).collect(),
                Body::Obj(l) => l.iter().map(|x| (MV::Ref(x.0), x.1)).collect(),
                _ => vec![],
            },
            _ => vec![],
        });
        if got.len() != parts.len().min(stop) {
            sh.bad(format!("for_each visited {} of {} parts, stopped at {stop}", got.len(), parts.len()));
        }
        for ((k, v), (km, vm)) in got.into_iter().zip(parts) {
            sh.led(|w| {
                w.retain(km);
                w.retain(vm);
            });
            self.mine.push((k, km));
            self.mine.push((v, vm));
        }
        "parts"
    }
    fn write(&mut self, a: usize, b: usize) -> &'static str {
        let sh = self.sh;
        if self.mine.len() + sh.roots.len() == 0 {
            return "";
        }
        let k = a % (self.mine.len() + sh.roots.len());
        let (x, m) = if k < self.mine.len() { &self.mine[k] } else { &sh.roots[k - self.mine.len()] };
        if sh.led(|w| w.tree(*m, &mut Default::default())) > 60 {
            return "";
        }
        let f = |x: A| match b % 3 {
            0 => to_json(x).map_err(drop),
            k => to_djs(x, k == 1).map_err(drop),
        };
        let one = alloc::on(|| f(x.clone()));
        let two = lib(|| f(x.clone()));
        if one != two {
            sh.bad(format!("an interrupted serialization gives {two:?} instead of {one:?}"));
        }
        alloc::on(|| drop((one, two)));
        "serialize"
    }
    fn op(&mut self, op: Op, a: usize, b: usize, c: usize) -> &'static str {
        let sh = self.sh;
        match op {
            Op::Clone => {
                if self.mine.is_empty() || self.mine.len() > 10 {
                    return "";
                }
                let k = a % self.mine.len();
                let m = self.mine[k].1;
                let x = lib(|| self.mine[k].0.clone());
                sh.led(|w| w.retain(m));
                self.mine.push((x, m));
                "clone"
            }
            Op::CloneRoot => {
                let Some((r, m)) = sh.roots.get(a % sh.roots.len().max(1)) else { return "" };
                let x = lib(|| r.clone());
                sh.led(|w| w.retain(*m));
                self.mine.push((x, *m));
                "clone a borrowed value"
            }
            Op::Drop => match self.take(a) {
                Some(x) => {
                    self.release(x);
                    "drop"
                }
                None => "",
            },
            Op::Read => {
                if self.mine.is_empty() {
                    return "";
                }
                let (x, m) = &self.mine[a % self.mine.len()];
                self.read(x, *m, "read");
                "read"
            }
            Op::Exclusive => self.exclusive(a, b, c),
            Op::Parts => self.parts(a, b),
            Op::Array => {
                let l: Vec<_> = (0..a % 3).map(|i| self.item(b / (i * 7 + 1))).collect();
                let (x, m): (Vec<_>, Vec<_>) = l.into_iter().unzip();
                let x = lib(|| new_array(GLOBAL, x).to_ref().move_to_any());
                let m = sh.led(|w| w.add(Body::Arr(m), 0, 0, 0));
                self.mine.push((x, m));
                "new array"
            }
            Op::Object => {
                let s = vec![c as u16; b % 3];
                let k = lib(|| new_string(GLOBAL, s.iter().copied()).to_ref());
                let km = sh.led(|w| w.add(Body::Str(s), 0, 0, 0));
                let (x, m) = self.item(b);
                let x = lib(|| new_object(GLOBAL, [(k, x)]).to_ref().move_to_any());
                let MV::Ref(kn) = km else { unreachable!() };
                let m = sh.led(|w| w.add(Body::Obj(vec![(kn, m)]), 0, 0, 0));
                self.mine.push((x, m));
                "new object"
            }
            Op::Text => {
                let (x, m) = if b % 2 == 0 {
                    let s = vec![c as u16; a % 5];
                    let x = lib(|| new_string(GLOBAL, s.iter().copied()).to_ref().move_to_any());
                    (x, Body::Str(s))
                } else {
                    let s = vec![c as u64 + 1; a % 3];
                    let x = lib(|| new_bigint(GLOBAL, Sign::Positive, s.iter().copied()).to_ref().move_to_any());
                    (x, Body::Big(s.len() as isize, s))
                };
                let m = sh.led(|w| w.add(m, 0, 0, 0));
                self.mine.push((x, m));
                "new string or bigint"
            }
            Op::Write => self.write(a, b),
            Op::Send => match self.take(a) {
                Some(x) => {
                    sh.inbox[b % sh.inbox.len()].lock().unwrap().push(x);
                    "send"
                }
                None => "",
            },
        }
    }
    fn run(&mut self, gate: &Arc<Gate>, script: &[(Op, usize, usize, usize)]) {
        for (i, (op, a, b, c)) in script.iter().enumerate() {
            gate.pause(self.me);
            if self.sh.failed() {
                break;
            }
            self.mine.append(&mut self.sh.inbox[self.me].lock().unwrap());
            self.sh.busy.fetch_add(1, Ordering::Relaxed);
            self.sh.log(|| format!("thread {}, {i}: {op:?} begins", self.me));
            let what = self.op(*op, *a, *b, *c);
            self.sh.log(|| format!("thread {}, {i}: {what} ends", self.me));
            self.sh.busy.fetch_sub(1, Ordering::Relaxed);
        }
        while !self.mine.is_empty() && !self.sh.failed() {
            gate.pause(self.me);
            self.sh.busy.fetch_add(1, Ordering::Relaxed);
            let x = self.mine.pop().unwrap();
            self.release(x);
            self.sh.busy.fetch_sub(1, Ordering::Relaxed);
        }
    }
}

/// Values that all threads share.
fn roots(case: &mut Case, w: &mut World<Global>) -> Vec<(A, MV)> {
    let mut l: Vec<(A, MV)> = vec![];
    for _ in 0..case.c.range(1, 4) {
        let kind = case.c.below(4);
        let n = case.c.below(4);
        let v = case.c.below(100);
        let mut copy = |w: &mut World<Global>, l: &[(A, MV)]| {
            if l.is_empty() || case.c.chance(1, 4) {
                return simple(v);
            }
            let (x, m) = &l[case.c.below(l.len())];
            w.retain(*m);
            (alloc::on(|| x.clone()), *m)
        };
        let x = match kind {
            0 => {
                let s = vec![v as u16; n];
                let x = alloc::on(|| new_string(GLOBAL, s.iter().copied()).to_ref().move_to_any());
                (x, w.add(Body::Str(s), 0, 0, 0))
            }
            1 => {
                let (x, m): (Vec<_>, Vec<_>) = (0..n).map(|_| copy(w, &l)).unzip();
                let x = alloc::on(|| new_array(GLOBAL, x).to_ref().move_to_any());
                (x, w.add(Body::Arr(m), 0, 0, 0))
            }
            2 => {
                let s = vec![97u16; n];
                let k = alloc::on(|| new_string(GLOBAL, s.iter().copied()).to_ref());
                let MV::Ref(kn) = w.add(Body::Str(s), 0, 0, 0) else { unreachable!() };
                let (x, m) = copy(w, &l);
                let x = alloc::on(|| new_object(GLOBAL, [(k, x)]).to_ref().move_to_any());
                (x, w.add(Body::Obj(vec![(kn, m)]), 0, 0, 0))
            }
            _ => {
                let s = vec![v as u64 + 1; n];
                let x = alloc::on(|| new_bigint(GLOBAL, Sign::Positive, s.iter().copied()).to_ref().move_to_any());
                (x, w.add(Body::Big(n as isize, s), 0, 0, 0))
            }
        };
        l.push(x);
    }
    l
}

pub fn m06(case: &mut Case) {
    values::reset(case);
    let n = case.c.range(2, 4);
    let mut w = World::new(vec![GLOBAL], n);
    let mut first = roots(case, &mut w);
    // some of them belong to threads from the start
    let inbox: Vec<Mutex<Vec<(A, MV)>>> = (0..n).map(|_| Mutex::default()).collect();
    let mut borrowed = vec![];
    for (x, m) in first.drain(..) {
        for i in &inbox {
            if case.c.chance(1, 2) {
                w.retain(m);
                i.lock().unwrap().push((alloc::on(|| x.clone()), m));
            }
        }
        match case.c.below(3) {
            0 => borrowed.push((x, m)),
            1 => inbox[case.c.below(n)].lock().unwrap().push((x, m)),
            _ => {
                w.release(m);
                alloc::on(|| drop(x));
            }
        }
    }
    // many references to one value, about a power of two, which nobody touches until the end
    let mut bulk: Vec<(A, MV)> = vec![];
    if case.c.chance(1, 40) {
        let all: Vec<(A, MV)> = borrowed
            .iter()
            .map(|(x, m)| (alloc::on(|| x.clone()), *m))
            .chain(inbox.iter().flat_map(|i| {
                let l = i.lock().unwrap();
                l.iter().map(|(x, m)| (alloc::on(|| x.clone()), *m)).collect::<Vec<_>>()
            }))
            .filter(|x| matches!(x.1, MV::Ref(_)))
            .collect();
        if !all.is_empty() {
            let (x, m) = &all[case.c.below(all.len())];
            let k = *case.c.pick(&[128, 256, 32768, 65536, 65536]) + 3 - case.c.below(10);
            for _ in 0..k {
                w.retain(*m);
                bulk.push((alloc::on(|| x.clone()), *m));
            }
            case.count("many references");
        }
        alloc::on(|| drop(all));
    }
    let scripts: Vec<Vec<(Op, usize, usize, usize)>> = (0..n)
        .map(|_| {
            let k = case.c.range(1, if case.thorough { 20 } else { 9 });
            (0..k)
                .map(|_| {
                    let k = case.c.weighted(&OPS.map(|x| x.1));
                    (OPS[k].0, case.c.below(60), case.c.below(60), case.c.below(1000))
                })
                .collect()
        })
        .collect();
    let sh = Shared {
        ledger: Mutex::new(Ledger(w)),
        roots: borrowed,
        inbox,
        bad: Mutex::default(),
        log: Mutex::default(),
        busy: AtomicUsize::new(0),
        switches: AtomicUsize::new(0),
        detail: case.detail,
    };
    sh.roots.iter().for_each(|r| shared(&r.0));
    let gate = Arc::new(Gate::new(n));
    preempt::reset();
    let entropy = case.c.below(1000) as u64;
    crate::engine::set_entropy(entropy);
    let max = if case.thorough { 400 } else { 120 };
    let mut order: Vec<(usize, u64)> = vec![];
    std::thread::scope(|s| {
        let mut running = vec![];
        for (t, script) in scripts.iter().enumerate() {
            let (gate, sh) = (gate.clone(), &sh);
            let mine = std::mem::take(&mut *sh.inbox[t].lock().unwrap());
            let thread = std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn_scoped(s, move || {
                    preempt::enter(&gate, t);
                    crate::streams::warm_thread();
                    let mut th = Thread { me: t, sh, mine };
                    let r = catch_unwind(AssertUnwindSafe(|| th.run(&gate, script)));
                    if r.is_err() {
                        sh.bad(format!("panic: {}", last_panic()));
                    }
                    if sh.failed() {
                        // the values cannot be trusted any more
                        std::mem::forget(std::mem::take(&mut th.mine));
                    }
                    preempt::leave(&gate, t);
                })
                .expect("thread");
            running.push(thread);
        }
        gate.run(|w| {
            sh.switches.fetch_add(1, Ordering::Relaxed);
            let t = w[case.c.below(w.len())];
            let n = if order.len() >= max {
                preempt::FOREVER
            } else {
                match case.c.weighted(&[3, 3, 3, 1]) {
                    0 => preempt::FOREVER,
                    1 => case.c.below(14) as u64,
                    2 => case.c.below(60) as u64,
                    _ => case.c.below(500) as u64,
                }
            };
            preempt::slice(n);
            order.push((t, n));
            t
        });
        // what belongs to the threads is released when they have ended
        for t in running {
            t.join().expect("thread");
        }
    });
    preempt::slice(preempt::FOREVER);
    let counts = preempt::counts();
    for l in sh.log.lock().unwrap().drain(..) {
        case.note(|| l);
    }
    case.note(|| format!("schedule (thread, instructions): {order:?}").replace("18446744073709551615", "-"));
    for (t, n) in &order {
        case.trace(*t as u64);
        case.trace(*n);
    }
    case.trace(counts.instructions);
    case.executions += 1;
    case.ticks += counts.instructions;
    case.add("interrupted in the library", counts.interruptions);
    case.add("instructions traced", counts.instructions);
    case.add("waited for a lock", counts.blocked);
    if let Some(b) = sh.bad.lock().unwrap().take() {
        case.violation(b.split(':').next().unwrap_or("").split(" value ").next().unwrap_or(""), &b);
        // the values cannot be trusted any more
        std::mem::forget(bulk);
    } else {
        let mut w = sh.ledger.into_inner().unwrap().0;
        for (x, m) in bulk {
            w.release(m);
            alloc::on(|| drop(x));
        }
        for (x, m) in sh.roots.into_iter().chain(sh.inbox.into_iter().flat_map(|i| i.into_inner().unwrap())) {
            if let Err(e) = w.any_ok(&x, m, &mut Default::default()) {
                w.bad(format!("at the end: {e}"));
                break;
            }
            w.release(m);
            alloc::on(|| drop(x));
        }
        w.check_counts("at the end");
        if let Some(b) = w.take_bad() {
            case.violation("values", b);
        }
    }
    memory_errors(case);
    case.nontrivial = counts.interruptions > 0;
}
