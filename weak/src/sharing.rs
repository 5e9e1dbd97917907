//! M06: threads share values.
use crate::{
    rng::{mix, Rng},
    tree::{check, container, simple, text, A, T},
};
use nanvm_lib::{
    js::{any_cast::AnyCast, js_array::JsArrayRef, js_bigint::JsBigintRef, js_object::JsObjectRef, js_string::JsStringRef},
    mem::global::Global,
    serializer::{to_djs::to_djs, to_json::to_json},
};
use std::sync::{
    atomic::{AtomicU64, Ordering},
    Mutex,
};

fn shared<T: Send + Sync>(_: &T) {}

struct Env<'a> {
    roots: &'a [(A, T)],
    inbox: &'a [Mutex<Vec<(A, T)>>],
    clock: &'a AtomicU64,
}

struct Thread<'a> {
    me: usize,
    env: &'a Env<'a>,
    mine: Vec<(A, T)>,
    hash: u64,
}

impl Thread<'_> {
    fn take(&mut self, r: &mut Rng) -> Option<(A, T)> {
        if self.mine.is_empty() {
            return None;
        }
        let i = r.below(self.mine.len());
        Some(self.mine.swap_remove(i))
    }
    fn item(&mut self, r: &mut Rng) -> (A, T) {
        match r.below(4) {
            0 => simple(r.below(100)),
            1 => self.take(r).unwrap_or_else(|| simple(1)),
            2 if !self.mine.is_empty() => self.mine[r.below(self.mine.len())].clone(),
            _ if !self.env.roots.is_empty() => self.env.roots[r.below(self.env.roots.len())].clone(),
            _ => simple(0),
        }
    }
    fn some(&self, r: &mut Rng) -> Option<&(A, T)> {
        let n = self.mine.len();
        let k = n + self.env.roots.len();
        if k == 0 {
            return None;
        }
        let i = r.below(k);
        Some(if i < n { &self.mine[i] } else { &self.env.roots[i - n] })
    }
    /// Modifies a value if it is granted exclusive access.
    fn exclusive(&mut self, r: &mut Rng) -> &'static str {
        let Some((a, mut t)) = self.take(r) else { return "" };
        macro_rules! typed {
            ($t:ty, $f:expr) => {{
                let Ok(x) = a.try_move::<$t>() else { panic!("a value does not have the type of {t:?}") };
                match x.try_to_mut_ref() {
                    Ok(mut x) => {
                        #[allow(clippy::redundant_closure_call)]
                        ($f)(&mut x);
                        self.mine.push((x.to_ref().move_to_any(), t));
                        "modify"
                    }
                    Err(x) => {
                        self.mine.push((x.move_to_any(), t));
                        "no exclusive access"
                    }
                }
            }};
        }
        let n = r.next();
        match &mut t {
            T::Str(s) => typed!(JsStringRef<Global>, |x: &mut nanvm_lib::js::js_string::JsStringMutRef<Global>| {
                x.items_mut().iter_mut().for_each(|x| *x = n as u16);
                s.iter_mut().for_each(|x| *x = n as u16);
            }),
            T::Big(_, s) => typed!(JsBigintRef<Global>, |x: &mut nanvm_lib::js::js_bigint::JsBigintMutRef<Global>| {
                x.items_mut().iter_mut().for_each(|x| *x = n);
                s.iter_mut().for_each(|x| *x = n);
            }),
            T::Arr(l) if !l.is_empty() => {
                let k = n as usize % l.len();
                let (y, v) = self.item(r);
                typed!(JsArrayRef<Global>, |x: &mut nanvm_lib::js::js_array::JsArrayMutRef<Global>| {
                    x.items_mut()[k] = y;
                    l[k] = v;
                })
            }
            T::Obj(l) if !l.is_empty() => {
                let k = n as usize % l.len();
                let (y, v) = self.item(r);
                typed!(JsObjectRef<Global>, |x: &mut nanvm_lib::js::js_object::JsObjectMutRef<Global>| {
                    x.items_mut()[k].1 = y;
                    l[k].1 = v;
                })
            }
            _ => {
                self.mine.push((a, t));
                ""
            }
        }
    }
    fn parts(&mut self, r: &mut Rng) -> &'static str {
        let stop = if r.chance(1, 3) { r.below(3) } else { usize::MAX };
        let Some((a, t)) = self.some(r) else { return "" };
        let mut got: Vec<(A, A)> = vec![];
        let _ = a.for_each(|k, v| {
            if got.len() == stop {
                return Err(());
            }
            got.push((k, v.clone()));
            Ok(())
        });
        let want: Vec<(T, T)> = match t {
            T::Arr(l) => l.iter().enumerate().map(|(i, t)| (T::Num(i as f64), t.clone())).collect(),
            T::Obj(l) => l.iter().map(|(k, t)| (T::Str(k.clone()), t.clone())).collect(),
            _ => vec![],
        };
        assert_eq!(got.len(), want.len().min(stop), "number of parts visited");
        for ((k, v), (kt, vt)) in got.into_iter().zip(want) {
            check(&k, &kt);
            self.mine.push((v, vt));
        }
        "parts"
    }
    fn write(&mut self, r: &mut Rng) -> &'static str {
        let n = r.below(3);
        let Some((a, _)) = self.some(r) else { return "" };
        let f = || match n {
            0 => to_json(a.clone()).map_err(drop),
            k => to_djs(a.clone(), k == 1).map_err(drop),
        };
        assert_eq!(f(), f(), "serialized twice");
        "serialize"
    }
    fn op(&mut self, r: &mut Rng) -> &'static str {
        match r.below(KINDS) {
            0..=7 => match (self.mine.len() < 8).then(|| self.item(r)) {
                Some(x) => {
                    self.mine.push(x);
                    "new reference"
                }
                None => "",
            },
            8..=19 => match self.take(r) {
                Some(x) => {
                    drop(x);
                    "drop"
                }
                None => "",
            },
            20..=25 => match self.some(r) {
                Some((a, t)) => {
                    check(a, t);
                    "read"
                }
                None => "",
            },
            26..=33 => self.exclusive(r),
            34..=36 => self.parts(r),
            37..=40 => {
                let l = (0..r.below(3)).map(|_| self.item(r)).collect();
                self.mine.push(container(r, l));
                "new container"
            }
            41..=42 => {
                self.mine.push(text(r));
                "new string or bigint"
            }
            43 => self.write(r),
            _ if self.env.inbox.is_empty() => "",
            _ => match self.take(r) {
                Some(x) => {
                    self.env.inbox[r.below(self.env.inbox.len())].lock().unwrap().push(x);
                    "send"
                }
                None => "",
            },
        }
    }
    // a clock that does not synchronize threads
    fn tick(&mut self) {
        let t = self.env.clock.fetch_add(1, Ordering::Relaxed);
        self.hash = mix(self.hash, t);
    }
    fn run(&mut self, mut r: Rng, n: usize, skip: &[usize], base: usize) -> usize {
        let mut count = 0;
        for i in 0..n {
            let mut q = numbers(&mut r);
            if skip.contains(&(base + i)) {
                continue;
            }
            if let Some(b) = self.env.inbox.get(self.me) {
                if i % 3 == 2 {
                    self.mine.append(&mut b.lock().unwrap());
                }
            }
            self.tick();
            let what = self.op(&mut q);
            self.tick();
            count += !what.is_empty() as usize;
        }
        let keep = r.chance(1, 3);
        while let Some(x) = self.mine.pop() {
            self.tick();
            if keep {
                check(&x.0, &x.1);
            }
            drop(x);
        }
        count
    }
}

const KINDS: usize = 46;

/// The numbers of an operation: skipping one does not change others.
fn numbers(r: &mut Rng) -> Rng {
    Rng::from(r.next())
}

fn name(kind: usize) -> &'static str {
    match kind {
        0..=7 => "new reference",
        8..=19 => "drop",
        20..=25 => "read",
        26..=33 => "modify if exclusive",
        34..=36 => "parts",
        37..=40 => "new container",
        41..=42 => "new string or bigint",
        43 => "serialize",
        _ => "send",
    }
}

/// Returns the number of operations and a hash of their order.
pub fn m06(mut r: Rng, plan: bool, first: usize, skip: &[usize]) -> (usize, u64) {
    let mut ops = 0;
    let mut hash = 0;
    let n = 2 + r.below(2);
    let mut roots: Vec<(A, T)> = vec![];
    for _ in 0..1 + r.below(3) {
        let x = if r.chance(1, 2) {
            text(&mut r)
        } else {
            let l = (0..r.below(3))
                .map(|_| match r.below(roots.len() + 1) {
                    0 => simple(r.below(100)),
                    i => roots[i - 1].clone(),
                })
                .collect();
            container(&mut r, l)
        };
        roots.push(x);
    }
    let inbox: Vec<Mutex<Vec<(A, T)>>> =
        if r.chance(1, 3) { (0..n).map(|_| Mutex::default()).collect() } else { vec![] };
    let mut mine: Vec<Vec<(A, T)>> = (0..n).map(|_| vec![]).collect();
    let mut borrowed = vec![];
    for x in roots {
        for m in &mut mine {
            if r.chance(2, 3) {
                m.push(x.clone());
            }
        }
        match r.below(3) {
            0 => borrowed.push(x),
            1 => mine[r.below(n)].push(x),
            _ => drop(x),
        }
    }
    shared(&borrowed);
    let clock = AtomicU64::new(0);
    let env = Env { roots: &borrowed, inbox: &inbox, clock: &clock };
    let scripts: Vec<(Rng, usize)> =
        (0..n).map(|_| (Rng::from(r.next()), 1 + r.below(7))).collect();
    if plan {
        println!("values shared by reference: {:?}", borrowed.iter().map(|x| &x.1).collect::<Vec<_>>());
        let mut base = first;
        for (i, (r, n)) in scripts.iter().enumerate() {
            println!("thread {i} starts with {:?}", mine[i].iter().map(|x| &x.1).collect::<Vec<_>>());
            let mut r = r.clone();
            for k in base..base + n {
                let kind = numbers(&mut r).below(KINDS);
                if !skip.contains(&k) {
                    println!("thread {i}, operation {k}: {}", name(kind));
                }
            }
            base += n;
        }
        return (0, 0);
    }
    std::thread::scope(|s| {
        let env = &env;
        let mut base = first;
        let l: Vec<_> = mine
            .drain(..)
            .zip(scripts)
            .enumerate()
            .map(|(me, (mine, (rng, n)))| {
                let b = base;
                base += n;
                s.spawn(move || {
                    let mut t = Thread { me, env, mine, hash: me as u64 };
                    let k = t.run(rng, n, skip, b);
                    (k, t.hash)
                })
            })
            .collect();
        for t in l {
            let (k, h) = t.join().unwrap();
            ops += k;
            hash = mix(hash, h);
        }
    });
    for (a, t) in borrowed.into_iter().chain(inbox.into_iter().flat_map(|i| i.into_inner().unwrap())) {
        check(&a, &t);
    }
    (ops, hash)
}
