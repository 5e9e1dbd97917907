//! M05: code of callers that panics inside of the library.
use crate::{
    alloc,
    anyv::{to_v, Memo},
    conv::{self, project, take, Outcome},
    doc::same,
    engine::{describe_status, in_process, last_panic, Case},
    io::{Act, Crash, Fs, Op, Plan, SimIo, Trigger},
    project::Opts,
    sinks::{Form, FORMS},
    streams::{parse_text, warm, warm_thread, Item, Texts},
    values::{self, memory_errors, new_local},
    world::{Body, Token, World, MV, R},
};
use nanvm_lib::{
    common::{default::default, ref_mut::RefMut},
    js::{
        any::Any,
        js_array::{new_array, JsArrayMutRef},
        js_bigint::{new_bigint, JsBigintMutRef},
        js_object::{new_object, JsObjectMutRef},
        js_string::{new_string, JsStringMutRef, JsStringRef},
    },
    mem::{
        flexible_array::{header::FlexibleArrayHeader, FlexibleArray},
        global::GLOBAL,
        manager::{Dealloc, Manager},
        mut_ref::MutRef,
    },
    parser::{
        parser::{parse, parse_with_tokens, Context},
        shared::ModuleCache,
    },
    serializer::{to_djs::WriteDjs, to_json::WriteJson},
    tokenizer::{tokenize, JsonToken, TokenizerStateIterator},
};
use std::{
    alloc::Layout,
    cell::Cell,
    fmt,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    sync::atomic::{AtomicIsize, Ordering},
};

/// The panic of a caller.
pub struct Boom;

pub fn boom() -> ! {
    // SAFETY: the message has no size
    resume_unwind(Box::new(Boom))
}

enum End<T> {
    Done(T),
    Boom,
    Other(String),
}

fn guarded<T>(f: impl FnOnce() -> T) -> End<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => End::Done(t),
        Err(p) if p.is::<Boom>() => End::Boom,
        Err(_) => End::Other(last_panic()),
    }
}

// ---- iterators ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum Trouble {
    Never,
    IntoIter,
    Len,
    Next(usize),
    /// ends before its announced end
    Short(usize),
    /// has more items than announced
    Long(usize),
}

struct Items<T> {
    items: std::vec::IntoIter<T>,
    at: Trouble,
    n: usize,
}

impl<T> Iterator for Items<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let n = self.n;
        self.n += 1;
        match self.at {
            Trouble::Next(k) if k == n => boom(),
            Trouble::Short(k) if k <= n => None,
            _ => self.items.next(),
        }
    }
}

impl<T> ExactSizeIterator for Items<T> {
    fn len(&self) -> usize {
        match self.at {
            Trouble::Len => boom(),
            Trouble::Long(k) => self.items.len() - k,
            _ => self.items.len(),
        }
    }
}

struct Source<T>(Vec<T>, Trouble);

impl<T> IntoIterator for Source<T> {
    type Item = T;
    type IntoIter = Items<T>;
    fn into_iter(self) -> Items<T> {
        if self.1 == Trouble::IntoIter {
            boom()
        }
        Items {
            items: self.0.into_iter(),
            at: self.1,
            n: 0,
        }
    }
}

fn trouble(case: &mut Case, n: usize) -> Trouble {
    let k = case.c.below(n.max(1));
    let t = match case.c.weighted(&[1, 6, 1, 1, 2, 2]) {
        0 => Trouble::Never,
        1 if n > 0 => Trouble::Next(k),
        2 => Trouble::IntoIter,
        3 => Trouble::Len,
        4 if n > 0 => Trouble::Short(k),
        5 if n > 0 => Trouble::Long(1 + k),
        _ => Trouble::Len,
    };
    case.count(match t {
        Trouble::Never => "no fault",
        Trouble::Next(_) => "fault: iterator panics",
        Trouble::IntoIter => "fault: into_iter panics",
        Trouble::Len => "fault: len panics",
        Trouble::Short(_) => "fault: iterator ends early",
        Trouble::Long(_) => "fault: iterator ends late",
    });
    t
}

// ---- a manager that panics ----

thread_local! {
    static ARMED: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// Panics at an allocation.
#[derive(Debug, Clone, Copy)]
pub struct Moody;

impl Dealloc for Moody {
    type BlockHeader = AtomicIsize;
    unsafe fn dealloc(p: *mut u8, l: Layout) {
        values::CALLS[1].fetch_add(1, Ordering::SeqCst);
        std::alloc::dealloc(p, l)
    }
}

impl Manager for Moody {
    type Dealloc = Moody;
    unsafe fn alloc(self, l: Layout) -> *mut u8 {
        let n = ARMED.get();
        ARMED.set(n.wrapping_sub(1));
        if n == 0 {
            boom()
        }
        values::CALLS[0].fetch_add(1, Ordering::SeqCst);
        std::alloc::alloc(l)
    }
}

// ---- steps of the world ----

/// An array of tokens with a header of its own.
struct Header(#[allow(dead_code)] Token, usize);

impl FlexibleArrayHeader for Header {
    fn len(&self) -> usize {
        self.1
    }
}

struct Panicking {
    left: usize,
    text: String,
}

impl fmt::Write for Panicking {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.left == 0 {
            boom()
        }
        self.left -= 1;
        alloc::off(|| self.text.push_str(s));
        Ok(())
    }
}

type W<M> = World<M>;

fn release_all<M: Manager + 'static>(w: &mut W<M>, l: impl IntoIterator<Item = MV>)
where
    M::Dealloc: 'static,
{
    l.into_iter().for_each(|m| w.release(m));
}

enum Made<D: Dealloc> {
    Str(JsStringMutRef<D>, Vec<u16>),
    Big(JsBigintMutRef<D>, isize, Vec<u64>),
    Arr(JsArrayMutRef<D>, Vec<MV>),
    Obj(JsObjectMutRef<D>, Vec<(usize, MV)>),
}

fn construct<M: Manager + 'static>(w: &mut W<M>, case: &mut Case, client: usize) -> &'static str
where
    M::Dealloc: 'static,
{
    let k = case.c.below(w.managers.len());
    let m = w.managers[k];
    let before = alloc::info().live_bytes;
    let (end, all, name): (End<Made<M::Dealloc>>, Vec<MV>, &'static str) = match case.c.weighted(&[4, 4, 1, 1]) {
        0 => {
            let n = case.c.count(5);
            let (l, v): (Vec<_>, Vec<_>) = (0..n).map(|_| w.item(&mut case.c, client)).unzip();
            let t = trouble(case, n);
            let v2 = v.clone();
            let r = guarded(|| alloc::on(|| new_array(m, Source(l, t))));
            (
                match r {
                    End::Done(r) => End::Done(Made::Arr(r, v2)),
                    End::Boom => End::Boom,
                    End::Other(s) => End::Other(s),
                },
                v,
                "new array",
            )
        }
        1 => {
            let n = case.c.count(4);
            let mut l: Vec<(JsStringRef<M::Dealloc>, Any<M::Dealloc>)> = vec![];
            let mut v = vec![];
            let mut pairs = vec![];
            for _ in 0..n {
                let key = w.key(&mut case.c, client);
                let item = w.item(&mut case.c, client);
                v.push(MV::Ref(key.1));
                v.push(item.1);
                pairs.push((key.1, item.1));
                l.push((key.0, item.0));
            }
            let t = trouble(case, n);
            let r = guarded(|| alloc::on(|| new_object(m, Source(l, t))));
            (
                match r {
                    End::Done(r) => End::Done(Made::Obj(r, pairs)),
                    End::Boom => End::Boom,
                    End::Other(s) => End::Other(s),
                },
                v,
                "new object",
            )
        }
        2 => {
            let l = W::<M>::chars(&mut case.c);
            let t = trouble(case, l.len());
            let r = guarded(|| alloc::on(|| new_string(m, Source(l.clone(), t))));
            (
                match r {
                    End::Done(r) => End::Done(Made::Str(r, l)),
                    End::Boom => End::Boom,
                    End::Other(s) => End::Other(s),
                },
                vec![],
                "new string",
            )
        }
        _ => {
            let (s, l) = W::<M>::limbs(&mut case.c);
            let t = trouble(case, l.len());
            let r = guarded(|| alloc::on(|| new_bigint(m, s, Source(l.clone(), t))));
            (
                match r {
                    End::Done(r) => {
                        let n = r.items().len();
                        End::Done(Made::Big(r, n as isize * s as isize, l))
                    }
                    End::Boom => End::Boom,
                    End::Other(s) => End::Other(s),
                },
                vec![],
                "new bigint",
            )
        }
    };
    // an iterator that ends early makes the constructor panic
    match end {
        End::Boom | End::Other(_) => {
            release_all(w, all);
            name
        }
        End::Done(x) => {
            // an iterator may have announced fewer items
            let size = alloc::info().live_bytes.wrapping_sub(before);
            let (r, body, lost): (R<M::Dealloc>, Body, Vec<MV>) = match x {
                Made::Str(r, mut l) => {
                    l.truncate(r.items().len());
                    (R::MStr(r), Body::Str(l), vec![])
                }
                Made::Big(r, n, mut l) => {
                    l.truncate(r.items().len());
                    (R::MBig(r), Body::Big(n, l), vec![])
                }
                Made::Arr(r, mut l) => {
                    let lost = l.split_off(r.items().len());
                    (R::MArr(r), Body::Arr(l), lost)
                }
                Made::Obj(r, mut l) => {
                    let lost = l.split_off(r.items().len());
                    (
                        R::MObj(r),
                        Body::Obj(l),
                        lost.into_iter().flat_map(|x| [MV::Ref(x.0), x.1]).collect(),
                    )
                }
            };
            let v = w.add(body, k, 0, size);
            w.put(client, r, v);
            release_all(w, lost);
            name
        }
    }
}

/// Tokens in the constructor of a flexible array.
fn tokens<M: Manager + 'static>(w: &mut W<M>, case: &mut Case) -> &'static str
where
    M::Dealloc: 'static,
{
    let k = case.c.below(w.managers.len());
    let m = w.managers[k];
    let n = case.c.range(0, 5);
    let l: Vec<Token> = (0..n).map(|_| w.token()).collect();
    let ids: Vec<u64> = l.iter().map(|t| t.id).collect();
    let t = trouble(case, n);
    let head = case.c.chance(1, 2).then(|| w.token());
    let armed = case.c.chance(1, 3);
    w.expect(ids.iter().copied());
    w.expect(head.iter().map(|t| t.id));
    let armed = if armed && matches!(t, Trouble::Never) { Some(ids.iter().copied().chain(head.iter().map(|t| t.id)).collect::<Vec<_>>()) } else { None };
    // the object is built and dropped, whatever happens
    let arm = match armed {
        Some(l) if !l.is_empty() => l[case.c.below(l.len())],
        _ => 0,
    };
    if arm > 0 {
        case.count("fault: drop panics");
    }
    let armed = w.armed.clone();
    let r = guarded(|| {
        alloc::on(|| match head {
            None => {
                let r = m.flexible_array_new(Source(l, t));
                armed.set(arm);
                drop(r.to_ref());
            }
            Some(h) => {
                let i = Source(l, t).into_iter();
                let n = i.len();
                let r: MutRef<FlexibleArray<Token, Header>, M::Dealloc> = m.new(Header(h, n).constructor(i));
                armed.set(arm);
                drop(r);
            }
        })
    });
    if arm > 0 && !matches!(r, End::Boom) {
        w.bad("an object that panics when it is dropped was not dropped");
    }
    w.armed.set(0);
    "array of objects"
}

/// Drops a reference; the drop of an object of the caller panics.
fn armed_drop<M: Manager + 'static>(w: &mut W<M>, case: &mut Case, client: usize) -> &'static str
where
    M::Dealloc: 'static,
{
    let mine: Vec<usize> = w
        .mine(client)
        .into_iter()
        .filter(|i| matches!(w.handles[*i].r, R::Ext(_)))
        .collect();
    if mine.is_empty() {
        let k = case.c.below(w.managers.len());
        let (e, v) = w.new_ext(&mut case.c, k, client);
        w.put(client, R::Ext(e), v);
        return "new object of the caller";
    }
    let i = mine[case.c.below(mine.len())];
    let MV::Ref(n) = w.handles[i].m else { return "" };
    let Body::Ext(ids, _) = &w.nodes[n].body else { return "" };
    let (ids, last) = (ids.clone(), w.nodes[n].rc == 1);
    if ids.is_empty() {
        return "";
    }
    let id = ids[case.c.below(ids.len())];
    w.armed.set(id);
    let h = w.handles.swap_remove(i);
    let r = guarded(|| alloc::on(|| drop(h.r)));
    let fired = matches!(r, End::Boom);
    w.armed.set(0);
    w.release(h.m);
    if fired != last {
        w.bad(if last { "the last reference was dropped, but not its object" } else { "an object with references was dropped" });
    }
    if let End::Other(s) = r {
        w.bad(s);
    }
    if fired {
        case.count("fault: drop panics");
    }
    "drop of a reference that panics"
}

fn visitor<M: Manager + 'static>(w: &mut W<M>, case: &mut Case, i: usize) -> &'static str
where
    M::Dealloc: 'static,
{
    let R::Any(a) = &w.handles[i].r else { return "" };
    let at = case.c.below(3);
    let keep = case.c.chance(1, 2);
    let mut n = 0;
    let r = guarded(|| {
        alloc::on(|| {
            let mut kept: Vec<Any<M::Dealloc>> = alloc::off(|| Vec::with_capacity(8));
            a.for_each(|k, v| {
                if n == at {
                    boom()
                }
                n += 1;
                if keep {
                    kept.push(v.clone());
                    kept.push(k);
                    kept.truncate(4);
                }
                Ok::<(), ()>(())
            })
        })
    });
    match r {
        End::Boom => case.count("fault: visitor panics"),
        End::Done(_) => {}
        End::Other(s) => w.bad(s),
    }
    "visit parts"
}

fn sink<M: Manager + 'static>(w: &mut W<M>, case: &mut Case, i: usize) -> &'static str
where
    M::Dealloc: 'static,
{
    let R::Any(a) = &w.handles[i].r else { return "" };
    if w.tree(w.handles[i].m, &mut Default::default()) > 500 {
        return "";
    }
    let f = *case.c.pick(&FORMS);
    let left = case.c.below(12);
    let r = guarded(|| {
        alloc::on(|| {
            let mut s = Panicking {
                left,
                text: String::new(),
            };
            match f {
                Form::Json => s.write_json(a.clone()),
                Form::Esm => s.write_djs(a.clone(), false),
                Form::Cjs => s.write_djs(a.clone(), true),
            }
        })
    });
    match r {
        End::Boom => {
            case.count("fault: sink panics");
            // a buffer of the thread that was in use may be gone
            warm_thread();
        }
        End::Done(_) => {}
        End::Other(s) => w.bad(s),
    }
    "serialize"
}

/// A modification in place that panics, in a process of its own: it may abort.
fn modify<M: Manager + 'static>(w: &mut W<M>, case: &mut Case, i: usize) -> &'static str
where
    M::Dealloc: 'static,
{
    case.count("fault: modification panics");
    let before = alloc::info().live_blocks;
    let with_token = case.c.chance(1, 2);
    let status = in_process(|| {
        let r = if with_token {
            let mut t = w.token();
            let id = t.id;
            let r = guarded(|| alloc::on(|| t.modify(|_| boom())));
            // the value is gone or is still there, it is dropped once
            drop(t);
            let l = w.dropped();
            if l != [id] {
                unsafe { libc::_exit(4) }
            }
            r
        } else {
            let h = w.handles.swap_remove(i);
            let mut r = h.r;
            let e = guarded(|| alloc::on(|| r.modify(|_| boom())));
            alloc::on(|| drop(r));
            w.release(h.m);
            e
        };
        if !matches!(r, End::Boom) {
            unsafe { libc::_exit(5) }
        }
        w.check_all("after a modification that panicked");
        if w.take_bad().is_some() || !alloc::take_errors().is_empty() || alloc::info().live_blocks > before {
            unsafe { libc::_exit(6) }
        }
    });
    let ok = status == 0 || (libc::WIFSIGNALED(status) && libc::WTERMSIG(status) == libc::SIGABRT);
    if !ok {
        w.bad(format!("a modification that panics: {}", describe_status(status)));
    }
    "modify in place"
}

fn step<M: Manager + 'static>(w: &mut W<M>, case: &mut Case, client: usize, moody: bool) -> &'static str
where
    M::Dealloc: 'static,
{
    let mine = w.mine(client);
    if mine.is_empty() || mine.len() > 14 || case.c.chance(1, 2) {
        if moody && case.c.chance(1, 3) && mine.len() < 12 {
            return manager(w, case, client);
        }
        return w.step(case, client);
    }
    let what = case.c.weighted(&[6, 2, 4, 4, 5]);
    // most values to read are arrays and objects
    let parts: Vec<usize> = mine
        .iter()
        .copied()
        .filter(|i| match (&w.handles[*i].r, w.handles[*i].m) {
            (R::Any(_), MV::Ref(n)) => match &w.nodes[n].body {
                Body::Arr(l) => !l.is_empty(),
                Body::Obj(l) => !l.is_empty(),
                _ => false,
            },
            _ => false,
        })
        .collect();
    let from = if what >= 3 && !parts.is_empty() { &parts } else { &mine };
    let i = from[case.c.below(from.len())];
    if what >= 3 && parts.is_empty() {
        // a value with parts
        return container(w, case, client);
    }
    match what {
        0 => construct(w, case, client),
        1 => tokens(w, case),
        2 => armed_drop(w, case, client),
        3 => visitor(w, case, i),
        _ if case.c.chance(1, 12) => modify(w, case, i),
        _ => sink(w, case, i),
    }
}

/// A new array of values.
fn container<M: Manager + 'static>(w: &mut W<M>, case: &mut Case, client: usize) -> &'static str
where
    M::Dealloc: 'static,
{
    let k = case.c.below(w.managers.len());
    let n = case.c.range(1, 3);
    let mut l: Vec<_> = (0..n).map(|_| w.item(&mut case.c, client)).collect();
    if case.c.chance(1, 2) {
        // the same part again
        w.retain(l[0].1);
        let a = alloc::on(|| l[0].0.clone());
        l.push((a, l[0].1));
    }
    let (r, v) = w.new_arr(k, l);
    let a = alloc::on(|| Any::move_from(r.to_ref()));
    w.put(client, R::Any(a), v);
    "new value"
}

/// The allocation panics; what was to be stored is released.
fn manager<M: Manager + 'static>(w: &mut W<M>, case: &mut Case, client: usize) -> &'static str
where
    M::Dealloc: 'static,
{
    let m = w.managers[0];
    case.count("fault: manager panics");
    let n = case.c.count(4);
    let which = case.c.below(4);
    let (l, v): (Vec<_>, Vec<_>) = (0..n).map(|_| w.item(&mut case.c, client)).unzip();
    let t = w.token();
    let id = t.id;
    let mut keys = vec![];
    let mut names = vec![];
    for _ in 0..n {
        let k = w.key(&mut case.c, client);
        keys.push(MV::Ref(k.1));
        names.push(k.0);
    }
    let r = guarded(|| {
        alloc::on(|| {
            ARMED.set(0);
            match which {
                0 => drop((new_array(m, l), names, t)),
                1 => drop((new_object(m, names.into_iter().zip(l).collect::<Vec<_>>()), t)),
                2 => drop((m.fixed_new((t, l, names)),)),
                _ => drop((m.flexible_array_new([(t, l, names)]),)),
            }
        })
    });
    ARMED.set(u64::MAX);
    if !matches!(r, End::Boom) {
        w.bad("a value was created without the manager");
    }
    w.expect([id]);
    release_all(w, v);
    release_all(w, keys);
    "the manager panics"
}

fn world<M: Manager + 'static>(case: &mut Case, managers: Vec<M>, moody: bool)
where
    M::Dealloc: 'static,
{
    let n = case.c.range(1, 3);
    let calls = [0, 1].map(|i| values::CALLS[i].load(Ordering::SeqCst));
    let mut w = World::new(managers, n);
    for s in 0..case.c.range(4, if case.thorough { 160 } else { 60 }) {
        let client = case.c.below(n);
        let name = match guarded(|| step(&mut w, case, client, moody)) {
            End::Done(n) => n,
            End::Boom => {
                case.violation("panic", "a panic of a caller was not caught where it was raised");
                return;
            }
            End::Other(m) => {
                if m.contains("world.rs") || m.contains("panics.rs") {
                    panic!("{m}");
                }
                case.violation("panic", m);
                return;
            }
        };
        case.ticks += 1;
        case.executions += 1;
        case.trace_str(name);
        case.trace(w.live as u64);
        case.note(|| format!("{s}: client {client}: {name}; {}", w.show()));
        w.check_counts(name);
        if case.c.chance(1, 4) {
            w.check_all("all references");
        }
        if let Some(b) = w.take_bad() {
            case.violation("values", b);
            return;
        }
    }
    w.check_all("at the end");
    while !w.handles.is_empty() {
        let i = case.c.below(w.handles.len());
        w.drop_handle(i);
        w.check_counts("drop at the end");
    }
    if let Some(b) = w.take_bad() {
        case.violation("values", b);
    }
    let now = [0, 1].map(|i| values::CALLS[i].load(Ordering::SeqCst));
    case.check(now[0] - calls[0] == now[1] - calls[1], "calls of the manager", || {
        format!("{} allocations and {} releases", now[0] - calls[0], now[1] - calls[1])
    });
}

// ---- text ----

struct Chars {
    text: Vec<char>,
    at: usize,
    boom: usize,
}

impl Iterator for Chars {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let i = self.at;
        self.at += 1;
        if i == self.boom {
            boom()
        }
        self.text.get(i).copied()
    }
}

struct Toks<D: Dealloc> {
    items: std::vec::IntoIter<JsonToken<D>>,
    left: usize,
}

impl<D: Dealloc> Iterator for Toks<D> {
    type Item = JsonToken<D>;
    fn next(&mut self) -> Option<JsonToken<D>> {
        if self.left == 0 {
            boom()
        }
        self.left -= 1;
        self.items.next()
    }
}

fn text<M: Manager + 'static>(case: &mut Case, m: M) {
    warm(m);
    let n = case.c.range(1, 3);
    let items: Vec<Item> = (0..n).map(|_| Texts::item(case, 20)).collect();
    for (i, x) in items.iter().enumerate() {
        case.note(|| format!("text {i}: {:?}", x.text));
        case.trace_str(&x.text);
    }
    let before = alloc::info().live_blocks;
    for s in 0..case.c.range(2, 10) {
        let x = &items[case.c.below(n)];
        let chars: Vec<char> = x.text.chars().collect();
        case.executions += 1;
        case.ticks += 1;
        let what = match case.c.below(3) {
            0 => {
                let b = case.c.below(chars.len() + 1);
                let again = case.c.below(4);
                let got: Cell<usize> = Cell::new(0);
                let mut it = alloc::on(|| {
                    TokenizerStateIterator::new(
                        m,
                        Chars {
                            text: alloc::off(|| chars.clone()),
                            at: 0,
                            boom: b,
                        },
                    )
                });
                let mut r = guarded(|| {
                    alloc::on(|| {
                        for t in it.by_ref() {
                            got.set(got.get() + 1);
                            drop(t);
                        }
                    })
                });
                if matches!(r, End::Boom) {
                    case.count("fault: character source panics");
                    // whatever it gives, memory is sound
                    for _ in 0..again {
                        if let End::Other(s) = guarded(|| alloc::on(|| drop(it.next()))) {
                            r = End::Other(s);
                        }
                    }
                }
                alloc::on(|| drop(it));
                case.trace(got.get() as u64);
                if let End::Other(s) = r {
                    case.violation("panic", s);
                }
                format!("tokens of text up to character {b}, then a panic")
            }
            1 => {
                let l = alloc::on(|| tokenize(m, x.text.clone()));
                let left = case.c.below(l.len() + 1);
                let io = SimIo::new(Fs::new("/"), Plan::default(), &[]);
                let mut cache: ModuleCache<M::Dealloc> = default();
                let r = guarded(|| {
                    alloc::on(|| {
                        let t = Toks {
                            items: l.into_iter(),
                            left,
                        };
                        parse_with_tokens(&mut Context::new(m, &io, String::new(), &mut cache), t)
                    })
                });
                match r {
                    End::Boom => case.count("fault: token source panics"),
                    End::Done(r) => alloc::on(|| drop(r)),
                    End::Other(s) => case.violation("panic", s),
                }
                alloc::on(|| drop(cache));
                format!("parse, a panic after {left} tokens")
            }
            _ => {
                // it works normally
                let r = alloc::on(|| parse_text(m, &x.text));
                match (&r, &x.value) {
                    (Ok(r), Some(v)) => {
                        if let Err(e) = same(&to_v(&r.any, &mut Memo::new()), v, true) {
                            case.violation("value", e);
                        }
                    }
                    (Err(e), Some(_)) => case.violation("value", format!("after a panic: {e}: {:?}", x.text)),
                    _ => {}
                }
                alloc::on(|| drop(r));
                "parse".into()
            }
        };
        case.note(|| format!("{s}: {what}"));
        let now = alloc::info().live_blocks;
        case.check(now == before, "memory is held", || format!("{what}: {} blocks", now as isize - before as isize));
        if !case.violations.is_empty() {
            return;
        }
    }
}

// ---- Io ----

fn io<M: Manager + 'static>(case: &mut Case, m: M) {
    let opts = Opts {
        max_modules: 4,
        values: 12,
        ..Default::default()
    };
    let (p, e) = project(&mut case.c, &opts);
    p.describe(case);
    // what is set up on first use
    warm(m);
    let base = p.convert(case, &p.fs, Plan::default());
    conv::must_succeed(case, &p, &e, &base, "at first");
    let before = alloc::info().live_blocks;
    for s in 0..case.c.range(2, 6) {
        let at = case.c.below(base.c.events.max(1) + 1);
        let mut plan = conv::soft(&mut case.c);
        plan.triggers.push(Trigger::new(Op::Any, None, 0, at, Act::Crash));
        let what = if case.c.chance(1, 2) {
            let ran = p.convert(case, &p.fs, plan);
            if ran.out == Outcome::Crash {
                case.count("fault: Io panics");
            } else if let Outcome::Panic(m) = &ran.out {
                case.violation("panic", m);
            }
            format!("conversion, the Io panics at call {at}")
        } else {
            let io = SimIo::new(p.fs.clone(), plan, &[]);
            let mut cache: ModuleCache<M::Dealloc> = default();
            let path = p.root().path.clone();
            let r = catch_unwind(AssertUnwindSafe(|| {
                alloc::on(|| parse(&mut Context::new(m, &io, path, &mut cache)))
            }));
            match r {
                Ok(r) => alloc::on(|| drop(r)),
                Err(p) if p.is::<Crash>() => {
                    // the cache was in use
                    case.count("fault: Io panics");
                    drop(p);
                }
                Err(_) => case.violation("panic", last_panic()),
            }
            alloc::on(|| drop(cache));
            let c = take(&io.client);
            case.ticks += c.events as u64;
            case.executions += 1;
            case.trace(c.trace);
            format!("parse, the Io panics at call {at}")
        };
        case.note(|| format!("{s}: {what}"));
        let now = alloc::info().live_blocks;
        case.check(now == before, "memory is held", || {
            format!("{what}: {} blocks, {:?}", now as isize - before as isize, alloc::live_sizes())
        });
        if case.c.chance(1, 3) {
            let ran = p.convert(case, &p.fs, Plan::default());
            conv::must_succeed(case, &p, &e, &ran, "after a panic");
            if ran.out.ok() != base.out.ok() || ran.fs.file(&p.out_path) != base.fs.file(&p.out_path) {
                case.violation("works otherwise", format!("after a panic: {:?}", ran.out));
            }
        }
        if !case.violations.is_empty() {
            return;
        }
    }
}

pub fn m05(case: &mut Case) {
    values::reset(case);
    let what = case.c.weighted(&[6, 2, 2]);
    let m = case.c.below(4);
    case.note(|| format!("scenario {what}, manager {m}"));
    let r = guarded(|| match what {
        0 => match m {
            0 => world(case, vec![GLOBAL], false),
            1 => world(case, vec![new_local(), new_local()], false),
            2 => world(case, vec![values::Plain], false),
            _ => world(case, vec![Moody], true),
        },
        1 => match m {
            0 => text(case, GLOBAL),
            1 => text(case, new_local()),
            2 => text(case, values::Plain),
            _ => text(case, values::Atomic),
        },
        _ => match m {
            0 | 1 => io(case, GLOBAL),
            _ => io(case, new_local()),
        },
    });
    match r {
        End::Done(()) => {}
        End::Boom => case.violation("panic", "a panic was not caught where it was raised"),
        End::Other(s) => {
            if s.contains("panics.rs") || s.contains("world.rs") || s.contains("/verif/") {
                panic!("{s}");
            }
            case.violation("panic", s)
        }
    }
    memory_errors(case);
    case.nontrivial = case.counters.keys().any(|k| k.starts_with("fault: "));
}
