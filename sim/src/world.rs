//! A model of values shared by clients, next to the real values of a memory manager.
use crate::{alloc, choices::Choices, engine::Case};
use nanvm_lib::{
    js::{
        any::Any,
        any_cast::AnyCast,
        js_array::{new_array, JsArray, JsArrayMutRef, JsArrayRef},
        js_bigint::{self as big, new_bigint, JsBigint, JsBigintMutRef, JsBigintRef, Sign},
        js_object::{new_object, JsObject, JsObjectMutRef, JsObjectRef},
        js_string::{new_string, JsString, JsStringMutRef, JsStringRef},
        null::Null,
        type_::Type,
        visitor::{to_visitor, Visitor},
    },
    mem::{
        manager::{Dealloc, Manager},
        mut_ref::MutRef,
        object::Object,
        ref_::Ref,
    },
    serializer::{to_djs::to_djs, to_json::to_json},
};
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeSet, HashSet},
    rc::Rc,
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MV {
    Null,
    Bool(bool),
    /// bits
    Num(u64),
    Ref(usize),
}

#[derive(Clone, Debug)]
pub enum Body {
    Str(Vec<u16>),
    Big(isize, Vec<u64>),
    Arr(Vec<MV>),
    Obj(Vec<(usize, MV)>),
    /// objects of a caller: tokens and a value
    Ext(Vec<u64>, Option<MV>),
}

pub struct Node {
    pub body: Body,
    pub rc: usize,
    pub addr: usize,
    pub manager: usize,
    /// bytes taken from the system
    pub size: usize,
}

pub type Drops = Rc<RefCell<Vec<u64>>>;

/// An object of a caller that reports when it is dropped.
pub struct Token {
    pub id: u64,
    log: Drops,
    /// the token that panics when it is dropped
    armed: Rc<Cell<u64>>,
}

impl Drop for Token {
    fn drop(&mut self) {
        alloc::off(|| self.log.borrow_mut().push(self.id));
        if self.armed.get() == self.id {
            self.armed.set(0);
            crate::panics::boom();
        }
    }
}

/// A reference to an object of a type of the caller.
pub trait Ext {
    fn another(&self) -> Box<dyn Ext>;
    fn ids(&self) -> Vec<u64>;
    fn addr(&self) -> usize;
    /// Exclusive access, and back.
    fn exclusive(self: Box<Self>) -> (bool, Box<dyn Ext>);
}

struct Held<T: Object, D: Dealloc>(Ref<T, D>, fn(&T) -> Vec<u64>);

impl<T: Object + 'static, D: Dealloc + 'static> Ext for Held<T, D> {
    fn another(&self) -> Box<dyn Ext> {
        Box::new(Held(alloc::on(|| self.0.clone()), self.1))
    }
    fn ids(&self) -> Vec<u64> {
        (self.1)(&self.0)
    }
    fn addr(&self) -> usize {
        &*self.0 as *const T as usize
    }
    fn exclusive(self: Box<Self>) -> (bool, Box<dyn Ext>) {
        let Held(r, f) = *self;
        match alloc::on(|| r.try_to_mut_ref().map(MutRef::to_ref)) {
            Ok(r) => (true, Box::new(Held(r, f))),
            Err(r) => (false, Box::new(Held(r, f))),
        }
    }
}

fn hold<T: Object + 'static, D: Dealloc + 'static>(r: Ref<T, D>, f: fn(&T) -> Vec<u64>) -> Box<dyn Ext> {
    Box::new(Held(r, f))
}

pub enum R<D: Dealloc> {
    Any(Any<D>),
    Str(JsStringRef<D>),
    Obj(JsObjectRef<D>),
    Arr(JsArrayRef<D>),
    Big(JsBigintRef<D>),
    MStr(JsStringMutRef<D>),
    MObj(JsObjectMutRef<D>),
    MArr(JsArrayMutRef<D>),
    MBig(JsBigintMutRef<D>),
    Ext(Box<dyn Ext>),
}

pub struct H<D: Dealloc> {
    pub client: usize,
    pub r: R<D>,
    pub m: MV,
}

pub struct World<M: Manager> {
    pub managers: Vec<M>,
    pub nodes: Vec<Node>,
    pub handles: Vec<H<M::Dealloc>>,
    pub live: usize,
    pub clients: usize,
    base_blocks: usize,
    drops: Drops,
    pub armed: Rc<Cell<u64>>,
    expect_drops: Vec<u64>,
    next_token: u64,
    bad: Option<String>,
    /// values have only been used through the API; every block is one value
    pub count_blocks: bool,
}

const EMPTY: &str = "";

macro_rules! block_addr {
    ($a:expr, $t:ty) => {
        $a.try_ref::<$t>().map_or(0, |b| b as *const _ as usize)
    };
}

impl<M: Manager + 'static> World<M>
where
    M::Dealloc: 'static,
{
    pub fn new(managers: Vec<M>, clients: usize) -> Self {
        World {
            managers,
            nodes: vec![],
            handles: vec![],
            live: 0,
            clients,
            base_blocks: alloc::info().live_blocks,
            drops: Rc::default(),
            armed: Rc::default(),
            expect_drops: vec![],
            next_token: 1,
            bad: None,
            count_blocks: true,
        }
    }
    pub fn bad(&mut self, s: impl Into<String>) {
        if self.bad.is_none() {
            self.bad = Some(s.into());
        }
    }
    pub fn rebase(&mut self) {
        self.base_blocks = alloc::info().live_blocks - self.live;
    }
    // ---- the model ----
    pub fn add(&mut self, body: Body, manager: usize, addr: usize, size: usize) -> MV {
        self.nodes.push(Node {
            body,
            rc: 1,
            addr,
            manager,
            size,
        });
        self.live += 1;
        MV::Ref(self.nodes.len() - 1)
    }
    pub fn retain(&mut self, v: MV) {
        if let MV::Ref(n) = v {
            assert!(self.nodes[n].rc > 0, "model");
            self.nodes[n].rc += 1;
        }
    }
    pub fn release(&mut self, v: MV) {
        let MV::Ref(n) = v else { return };
        let x = &mut self.nodes[n];
        assert!(x.rc > 0, "model");
        x.rc -= 1;
        if x.rc > 0 {
            return;
        }
        self.live -= 1;
        match x.body.clone() {
            Body::Str(_) | Body::Big(..) => {}
            Body::Arr(l) => l.into_iter().for_each(|v| self.release(v)),
            Body::Obj(l) => l.into_iter().for_each(|(k, v)| {
                self.release(MV::Ref(k));
                self.release(v)
            }),
            Body::Ext(ids, v) => {
                self.expect_drops.extend(ids);
                if let Some(v) = v {
                    self.release(v)
                }
            }
        }
    }
    pub fn put(&mut self, client: usize, r: R<M::Dealloc>, m: MV) {
        self.handles.push(H { client, r, m });
    }
    // ---- checks ----
    /// Counts of blocks and drops after a step.
    pub fn check_counts(&mut self, what: &str) {
        let live = alloc::info().live_blocks as isize - self.base_blocks as isize;
        if self.count_blocks && live != self.live as isize {
            self.bad(format!("{what}: {live} blocks are allocated for {} live values", self.live));
        }
        let mut a = std::mem::take(&mut *self.drops.borrow_mut());
        a.sort();
        self.expect_drops.sort();
        if a != self.expect_drops {
            self.bad(format!("{what}: dropped objects {a:?}, expected {:?}", self.expect_drops));
        }
        self.expect_drops.clear();
    }
    /// Objects that are dropped in this step.
    pub fn expect(&mut self, ids: impl IntoIterator<Item = u64>) {
        self.expect_drops.extend(ids);
    }
    pub fn dropped(&self) -> Vec<u64> {
        self.drops.borrow().clone()
    }
    pub fn take_bad(&mut self) -> Option<String> {
        self.bad.take()
    }
    pub fn any_ok(&self, a: &Any<M::Dealloc>, m: MV, seen: &mut BTreeSet<usize>) -> Result<(), String> {
        let t = a.get_type();
        let n = match m {
            MV::Null => return if t == Type::Null { Ok(()) } else { Err(format!("{t:?} instead of null")) },
            MV::Bool(b) => {
                return match a.clone().try_move::<bool>() {
                    Ok(x) if x == b && t == Type::Bool => Ok(()),
                    _ => Err(format!("{t:?} instead of {b}")),
                }
            }
            MV::Num(b) => {
                return match a.clone().try_move::<f64>() {
                    Ok(x) if (x.to_bits() == b || (x.is_nan() && f64::from_bits(b).is_nan())) && t == Type::Number => {
                        Ok(())
                    }
                    _ => Err(format!("{t:?} instead of the number {:?}", f64::from_bits(b))),
                }
            }
            MV::Ref(n) => n,
        };
        match (&self.nodes[n].body, t) {
            (Body::Str(_), Type::String) => {
                let b = a.try_ref::<JsString>().map_err(|_| "no string")?;
                self.node_ok(n, b as *const _ as usize, Some(b.object().items()), None, None, None, seen)
            }
            (Body::Big(..), Type::Bigint) => {
                let b = a.try_ref::<JsBigint>().map_err(|_| "no bigint")?;
                self.node_ok(n, b as *const _ as usize, None, Some(b.object()), None, None, seen)
            }
            (Body::Arr(_), Type::Array) => {
                let b = a.try_ref::<JsArray<M::Dealloc>>().map_err(|_| "no array")?;
                self.node_ok(n, b as *const _ as usize, None, None, Some(b.object().items()), None, seen)
            }
            (Body::Obj(_), Type::Object) => {
                let b = a.try_ref::<JsObject<M::Dealloc>>().map_err(|_| "no object")?;
                self.node_ok(n, b as *const _ as usize, None, None, None, Some(b.object()), seen)
            }
            (b, t) => Err(format!("{t:?} instead of {b:?}")),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn node_ok(
        &self,
        n: usize,
        addr: usize,
        s: Option<&[u16]>,
        b: Option<&JsBigint>,
        l: Option<&[Any<M::Dealloc>]>,
        o: Option<&JsObject<M::Dealloc>>,
        seen: &mut BTreeSet<usize>,
    ) -> Result<(), String> {
        let x = &self.nodes[n];
        if x.addr != 0 && addr != 0 && x.addr != addr {
            return Err(format!("value {n} is another object"));
        }
        if !seen.insert(n) {
            return Ok(());
        }
        match &x.body {
            Body::Str(m) => {
                if s != Some(&m[..]) {
                    return Err(format!("string {n} reads {s:?} instead of {m:?}"));
                }
            }
            Body::Big(len, m) => {
                let b = b.ok_or("no bigint")?;
                if b.items() != &m[..] || b.header_len() != *len {
                    return Err(format!("bigint {n} reads {} {:?} instead of {len} {m:?}", b.header_len(), b.items()));
                }
            }
            Body::Arr(m) => {
                let l = l.ok_or("no array")?;
                if l.len() != m.len() {
                    return Err(format!("array {n} has {} items instead of {}", l.len(), m.len()));
                }
                for (a, m) in l.iter().zip(m) {
                    self.any_ok(a, *m, seen)?;
                }
            }
            Body::Obj(m) => {
                let l = o.ok_or("no object")?.items();
                if l.len() != m.len() {
                    return Err(format!("object {n} has {} properties instead of {}", l.len(), m.len()));
                }
                for (a, m) in l.iter().zip(m) {
                    let k: &JsString = &a.0;
                    self.node_ok(m.0, 0, Some(k.items()), None, None, None, seen)?;
                    self.any_ok(&a.1, m.1, seen)?;
                }
            }
            Body::Ext(..) => {}
        }
        Ok(())
    }
    pub fn handle_ok(&self, h: &H<M::Dealloc>) -> Result<(), String> {
        let seen = &mut BTreeSet::new();
        let n = match h.m {
            MV::Ref(n) => n,
            _ => usize::MAX,
        };
        match &h.r {
            R::Any(a) => self.any_ok(a, h.m, seen),
            R::Str(r) => self.node_ok(n, 0, Some(r.items()), None, None, None, seen),
            R::MStr(r) => self.node_ok(n, 0, Some(r.items()), None, None, None, seen),
            R::Big(r) => self.node_ok(n, 0, None, Some(r), None, None, seen),
            R::MBig(r) => self.node_ok(n, 0, None, Some(r), None, None, seen),
            R::Arr(r) => self.node_ok(n, 0, None, None, Some(r.items()), None, seen),
            R::MArr(r) => self.node_ok(n, 0, None, None, Some(r.items()), None, seen),
            R::Obj(r) => self.node_ok(n, 0, None, None, None, Some(r), seen),
            R::MObj(r) => self.node_ok(n, 0, None, None, None, Some(r), seen),
            R::Ext(e) => match &self.nodes[n].body {
                Body::Ext(ids, _) if *ids == e.ids() && self.nodes[n].addr == e.addr() => Ok(()),
                b => Err(format!("{:?} instead of {b:?}", e.ids())),
            },
        }
    }
    pub fn check_all(&mut self, what: &str) {
        for i in 0..self.handles.len() {
            if let Err(e) = self.handle_ok(&self.handles[i]) {
                self.bad(format!("{what}: {e}"));
            }
        }
    }
    // ---- clients ----
    pub fn mine(&self, client: usize) -> Vec<usize> {
        (0..self.handles.len()).filter(|i| self.handles[*i].client == client).collect()
    }
    fn some(&self, c: &mut Choices, client: usize, f: impl Fn(&R<M::Dealloc>) -> bool) -> Option<usize> {
        let l: Vec<usize> = self.mine(client).into_iter().filter(|i| f(&self.handles[*i].r)).collect();
        if l.is_empty() {
            None
        } else {
            Some(l[c.below(l.len())])
        }
    }
    fn pick_manager(&self, c: &mut Choices) -> usize {
        c.below(self.managers.len())
    }
    fn simple(c: &mut Choices) -> MV {
        match c.below(6) {
            0 => MV::Null,
            1 => MV::Bool(c.chance(1, 2)),
            2 => MV::Num((c.below(100) as f64).to_bits()),
            3 => MV::Num((-0.0f64).to_bits()),
            4 => MV::Num(
                [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, 5e-324][c.below(5)].to_bits(),
            ),
            // a NaN with another sign and payload
            _ => MV::Num(c.seed() | 0xFFF0_0000_0000_0001),
        }
    }
    fn simple_any(v: MV) -> Any<M::Dealloc> {
        match v {
            MV::Bool(b) => b.move_to_any(),
            MV::Num(b) => f64::from_bits(b).move_to_any(),
            _ => Null().move_to_any(),
        }
    }
    pub fn limbs(c: &mut Choices) -> (Sign, Vec<u64>) {
        let n = if c.chance(1, 60) { c.range(4, 40) } else { c.count(3) };
        let l: Vec<u64> = (0..n).map(|_| if c.chance(1, 3) { u64::MAX } else { 1 + c.seed() % 1000 }).collect();
        (if n > 0 && c.chance(1, 2) { Sign::Negative } else { Sign::Positive }, l)
    }
    pub fn chars(c: &mut Choices) -> Vec<u16> {
        if c.chance(1, 400) {
            let n = *c.pick(&[255, 256, 1023, 4096, 32767, 32768, 65535, 65536, 65537]);
            return (0..n).map(|i| 97 + (i % 26) as u16).collect();
        }
        let n = if c.chance(1, 20) { 200 } else { c.count(8) };
        (0..n).map(|_| *c.pick(&[97, 98, 0, 0xD800, 0xFFFF, 34, 92, 0x20AC])).collect()
    }
    pub fn token(&mut self) -> Token {
        self.next_token += 1;
        Token {
            id: self.next_token,
            log: self.drops.clone(),
            armed: self.armed.clone(),
        }
    }
    /// A value that goes into a container: a handle is moved or copied.
    pub fn item(&mut self, c: &mut Choices, client: usize) -> (Any<M::Dealloc>, MV) {
        if c.chance(1, 4) {
            let v = Self::simple(c);
            return (alloc::on(|| Self::simple_any(v)), v);
        }
        let Some(i) = self.some(c, client, |r| matches!(r, R::Any(_))) else {
            let v = Self::simple(c);
            return (alloc::on(|| Self::simple_any(v)), v);
        };
        if c.chance(1, 2) {
            let h = self.handles.swap_remove(i);
            let R::Any(a) = h.r else { unreachable!() };
            (a, h.m)
        } else {
            let m = self.handles[i].m;
            self.retain(m);
            let R::Any(a) = &self.handles[i].r else { unreachable!() };
            (alloc::on(|| a.clone()), m)
        }
    }
    pub fn key(&mut self, c: &mut Choices, client: usize) -> (JsStringRef<M::Dealloc>, usize) {
        let old = if c.chance(1, 2) { self.some(c, client, |r| matches!(r, R::Str(_))) } else { None };
        if let Some(i) = old {
            let m = self.handles[i].m;
            let MV::Ref(n) = m else { unreachable!() };
            self.retain(m);
            let R::Str(s) = &self.handles[i].r else { unreachable!() };
            return (alloc::on(|| s.clone()), n);
        }
        let m = self.pick_manager(c);
        let (s, v) = self.new_str(m, Self::chars(c));
        let MV::Ref(n) = v else { unreachable!() };
        (alloc::on(|| s.to_ref()), n)
    }
    fn measured<T>(f: impl FnOnce() -> T) -> (T, usize) {
        let a = alloc::info().live_bytes;
        let r = alloc::on(f);
        (r, alloc::info().live_bytes.wrapping_sub(a))
    }
    pub fn new_str(&mut self, k: usize, s: Vec<u16>) -> (JsStringMutRef<M::Dealloc>, MV) {
        let m = self.managers[k];
        let (r, size) = Self::measured(|| new_string(m, s.iter().copied()));
        let v = self.add(Body::Str(s), k, 0, size);
        (r, v)
    }
    pub fn new_big(&mut self, k: usize, sign: Sign, l: Vec<u64>) -> (JsBigintMutRef<M::Dealloc>, MV) {
        let m = self.managers[k];
        let (r, size) = Self::measured(|| new_bigint(m, sign, l.iter().copied()));
        let len = l.len() as isize * sign as isize;
        let v = self.add(Body::Big(len, l), k, 0, size);
        (r, v)
    }
    pub fn new_arr(&mut self, k: usize, l: Vec<(Any<M::Dealloc>, MV)>) -> (JsArrayMutRef<M::Dealloc>, MV) {
        let m = self.managers[k];
        let (a, b): (Vec<_>, Vec<_>) = l.into_iter().unzip();
        let (r, size) = Self::measured(|| new_array(m, a));
        let v = self.add(Body::Arr(b), k, 0, size);
        (r, v)
    }
    pub fn new_obj(
        &mut self,
        k: usize,
        l: Vec<((JsStringRef<M::Dealloc>, usize), (Any<M::Dealloc>, MV))>,
    ) -> (JsObjectMutRef<M::Dealloc>, MV) {
        let m = self.managers[k];
        let (a, b): (Vec<_>, Vec<_>) = l.into_iter().map(|(k, v)| ((k.0, v.0), (k.1, v.1))).unzip();
        let (r, size) = Self::measured(|| new_object(m, a));
        let v = self.add(Body::Obj(b), k, 0, size);
        (r, v)
    }
    /// An object of a type of the caller.
    pub fn new_ext(&mut self, c: &mut Choices, k: usize, client: usize) -> (Box<dyn Ext>, MV) {
        let m = self.managers[k];
        match c.below(4) {
            0 => {
                let t = self.token();
                let id = t.id;
                let (r, size) = Self::measured(|| m.fixed_new(t).to_ref());
                let e = hold(r, |t| vec![t.0.id]);
                let a = e.addr();
                let v = self.add(Body::Ext(vec![id], None), k, a, size);
                (e, v)
            }
            1 => {
                let n = c.count(5);
                let l: Vec<Token> = (0..n).map(|_| self.token()).collect();
                let ids: Vec<u64> = l.iter().map(|t| t.id).collect();
                let (r, size) = Self::measured(|| m.flexible_array_new(l).to_ref());
                let e = hold(r, |t| t.items().iter().map(|t| t.id).collect());
                let a = e.addr();
                let v = self.add(Body::Ext(ids, None), k, a, size);
                (e, v)
            }
            2 => {
                // aligned to more than a pointer
                #[repr(align(32))]
                struct Wide(Token, u8);
                let t = self.token();
                let id = t.id;
                let (r, size) = Self::measured(|| m.fixed_new(Wide(t, 7)).to_ref());
                let e = hold(r, |t| if t.0 .1 == 7 { vec![t.0 .0.id] } else { vec![] });
                let a = e.addr();
                if a % 32 != 0 {
                    self.bad("an object is not aligned");
                }
                let v = self.add(Body::Ext(vec![id], None), k, a, size);
                (e, v)
            }
            _ => {
                let t = self.token();
                let id = t.id;
                let (x, xm) = self.item(c, client);
                let (r, size) = Self::measured(|| m.fixed_new((1u8, x, t)).to_ref());
                let e = hold(r, |t| if t.0 .0 == 1 { vec![t.0 .2.id] } else { vec![] });
                let a = e.addr();
                let v = self.add(Body::Ext(vec![id], Some(xm)), k, a, size);
                (e, v)
            }
        }
    }
    pub fn drop_handle(&mut self, i: usize) {
        let h = self.handles.swap_remove(i);
        alloc::on(|| drop(h.r));
        self.release(h.m);
    }
    /// The client disappears; its references go away in some order.
    pub fn vanish(&mut self, c: &mut Choices, client: usize) {
        loop {
            let l = self.mine(client);
            if l.is_empty() {
                break;
            }
            self.drop_handle(l[c.below(l.len())]);
        }
    }
    fn create(&mut self, case: &mut Case, client: usize) -> &'static str {
        let c = &mut case.c;
        let k = self.pick_manager(c);
        match c.weighted(&[3, 2, 4, 3, 2, 1]) {
            0 => {
                let (r, v) = self.new_str(k, Self::chars(c));
                self.put(client, R::MStr(r), v);
                "new string"
            }
            1 => {
                let (s, l) = Self::limbs(c);
                let (r, v) = self.new_big(k, s, l);
                self.put(client, R::MBig(r), v);
                "new bigint"
            }
            2 => {
                let n = if c.chance(1, 50) { c.range(6, 40) } else { c.count(5) };
                let mut l: Vec<_> = (0..n).map(|_| self.item(c, client)).collect();
                if c.chance(1, 300) {
                    // many items
                    let n = *c.pick(&[255, 256, 1024, 5000, 65536]);
                    let shared = l.iter().position(|x| matches!(x.1, MV::Ref(_)));
                    match shared {
                        // many references to one value, about a power of two
                        Some(i) if c.chance(2, 3) => {
                            let v = l[i].1;
                            let n = *c.pick(&[128, 256, 32768, 65536, 65536, 131072]) + 3 - c.below(10);
                            for _ in 0..n {
                                self.retain(v);
                                let x = alloc::on(|| l[i].0.clone());
                                l.push((x, v));
                            }
                        }
                        _ => {
                            let v = Self::simple(c);
                            l.extend((0..n).map(|_| (alloc::on(|| Self::simple_any(v)), v)));
                        }
                    }
                }
                let (r, v) = self.new_arr(k, l);
                self.put(client, R::MArr(r), v);
                "new array"
            }
            3 => {
                let n = if c.chance(1, 50) { c.range(5, 20) } else { c.count(4) };
                let l = (0..n).map(|_| (self.key(c, client), self.item(c, client))).collect();
                let (r, v) = self.new_obj(k, l);
                self.put(client, R::MObj(r), v);
                "new object"
            }
            4 => {
                let (e, v) = self.new_ext(c, k, client);
                self.put(client, R::Ext(e), v);
                "new object of the caller"
            }
            _ => {
                let v = Self::simple(c);
                let a = alloc::on(|| Self::simple_any(v));
                self.put(client, R::Any(a), v);
                "new number"
            }
        }
    }
    /// One step of a client. The name of the step is returned.
    pub fn step(&mut self, case: &mut Case, client: usize) -> &'static str {
        let mine = self.mine(client);
        if mine.is_empty() || (mine.len() < 12 && case.c.chance(1, 4)) {
            return self.create(case, client);
        }
        let i = mine[case.c.below(mine.len())];
        match case.c.weighted(&[4, 4, 5, 3, 3, 2, 2, 2, 1, 1]) {
            0 => self.copy(i, client),
            1 => {
                self.drop_handle(i);
                "drop"
            }
            2 => self.convert(case, i),
            3 => self.exclusive(case, i, client),
            4 => {
                if let Err(e) = self.handle_ok(&self.handles[i]) {
                    self.bad(format!("read: {e}"));
                }
                "read"
            }
            5 => {
                self.handles[i].client = case.c.below(self.clients);
                "send"
            }
            6 => self.children(case, i, client),
            7 => self.write(case, i),
            8 => self.as_key(i, client),
            _ => self.arithmetic(case, client),
        }
    }
    fn copy(&mut self, i: usize, client: usize) -> &'static str {
        let m = self.handles[i].m;
        let r = alloc::on(|| match &self.handles[i].r {
            R::Any(a) => Some(R::Any(a.clone())),
            R::Str(a) => Some(R::Str(a.clone())),
            R::Obj(a) => Some(R::Obj(a.clone())),
            R::Arr(a) => Some(R::Arr(a.clone())),
            R::Big(a) => Some(R::Big(a.clone())),
            R::Ext(a) => Some(R::Ext(alloc::off(|| a.another()))),
            _ => None,
        });
        let Some(r) = r else { return EMPTY };
        self.retain(m);
        self.put(client, r, m);
        "copy"
    }
    fn set_addr(&mut self, m: MV, a: &Any<M::Dealloc>) {
        let MV::Ref(n) = m else { return };
        let addr = match self.nodes[n].body {
            Body::Str(_) => block_addr!(a, JsString),
            Body::Big(..) => block_addr!(a, JsBigint),
            Body::Arr(_) => block_addr!(a, JsArray<M::Dealloc>),
            Body::Obj(_) => block_addr!(a, JsObject<M::Dealloc>),
            Body::Ext(..) => return,
        };
        if addr == 0 || (self.nodes[n].addr != 0 && self.nodes[n].addr != addr) {
            self.bad(format!("value {n} became another object"));
        }
        self.nodes[n].addr = addr;
    }
    /// Changes the type of a reference.
    fn convert(&mut self, case: &mut Case, i: usize) -> &'static str {
        let h = self.handles.swap_remove(i);
        let (client, m) = (h.client, h.m);
        let wrong = case.c.chance(1, 6);
        let visitor = case.c.chance(1, 4);
        let r = match h.r {
            R::MStr(r) => R::Str(alloc::on(|| r.to_ref())),
            R::MObj(r) => R::Obj(alloc::on(|| r.to_ref())),
            R::MArr(r) => R::Arr(alloc::on(|| r.to_ref())),
            R::MBig(r) => R::Big(alloc::on(|| r.to_ref())),
            R::Str(r) => R::Any(alloc::on(|| Any::move_from(r))),
            R::Obj(r) => R::Any(alloc::on(|| r.move_to_any())),
            R::Arr(r) => R::Any(alloc::on(|| Any::move_from(r))),
            R::Big(r) => R::Any(alloc::on(|| r.move_to_any())),
            R::Ext(r) => R::Ext(r),
            R::Any(a) if visitor => alloc::on(|| match to_visitor(a) {
                Visitor::Number(n) => R::Any(n.move_to_any()),
                Visitor::Null => R::Any(Null().move_to_any()),
                Visitor::Bool(b) => R::Any(b.move_to_any()),
                Visitor::String(s) => R::Str(s),
                Visitor::Object(o) => R::Obj(o),
                Visitor::Array(a) => R::Arr(a),
                Visitor::Bigint(b) => R::Big(b),
            }),
            R::Any(a) if wrong => {
                // a refused conversion takes the reference
                let refused = alloc::on(|| match a.get_type() {
                    Type::Array => a.try_move::<JsObjectRef<M::Dealloc>>().is_err(),
                    Type::Object => a.try_move::<JsStringRef<M::Dealloc>>().is_err(),
                    Type::String => a.try_move::<JsBigintRef<M::Dealloc>>().is_err(),
                    Type::Bigint => a.try_move::<f64>().is_err(),
                    _ => a.try_move::<JsArrayRef<M::Dealloc>>().is_err(),
                });
                if !refused {
                    self.bad("a value was converted to another type");
                }
                self.release(m);
                return "refused conversion";
            }
            R::Any(a) => alloc::on(|| match a.get_type() {
                Type::String => a.try_move().map(R::Str),
                Type::Object => a.try_move().map(R::Obj),
                Type::Array => a.try_move().map(R::Arr),
                Type::Bigint => a.try_move().map(R::Big),
                _ => Ok(R::Any(a)),
            })
            .unwrap_or_else(|_| {
                self.bad("a conversion to the type of the value failed");
                R::Any(Null().move_to_any())
            }),
        };
        if let R::Any(a) = &r {
            // SAFETY: only read
            let a: *const Any<M::Dealloc> = a;
            self.set_addr(m, unsafe { &*a });
        }
        self.put(client, r, m);
        "convert"
    }
    /// Asks for exclusive access, and uses it.
    fn exclusive(&mut self, case: &mut Case, i: usize, client: usize) -> &'static str {
        let MV::Ref(n) = self.handles[i].m else { return EMPTY };
        // very many references at the same time
        let extra = if case.c.chance(1, 150) {
            let total = (1usize << *case.c.pick(&[7, 8, 8, 15, 16, 16])) + case.c.below(3);
            case.count("very many references");
            total.saturating_sub(self.nodes[n].rc)
        } else {
            0
        };
        let crowd: Vec<R<M::Dealloc>> = {
            let r = &self.handles[i].r;
            (0..extra)
                .map_while(|_| {
                    alloc::on(|| match r {
                        R::Any(r) => Some(R::Any(r.clone())),
                        R::Str(r) => Some(R::Str(r.clone())),
                        R::Obj(r) => Some(R::Obj(r.clone())),
                        R::Arr(r) => Some(R::Arr(r.clone())),
                        R::Big(r) => Some(R::Big(r.clone())),
                        _ => None,
                    })
                })
                .collect()
        };
        let alone = self.nodes[n].rc == 1 && crowd.is_empty();
        let h = self.handles.swap_remove(i);
        let m = h.m;
        let (granted, r) = match h.r {
            R::Str(r) => match alloc::on(|| r.try_to_mut_ref()) {
                Ok(r) => (true, R::MStr(r)),
                Err(r) => (false, R::Str(r)),
            },
            R::Obj(r) => match alloc::on(|| r.try_to_mut_ref()) {
                Ok(r) => (true, R::MObj(r)),
                Err(r) => (false, R::Obj(r)),
            },
            R::Arr(r) => match alloc::on(|| r.try_to_mut_ref()) {
                Ok(r) => (true, R::MArr(r)),
                Err(r) => (false, R::Arr(r)),
            },
            R::Big(r) => match alloc::on(|| r.try_to_mut_ref()) {
                Ok(r) => (true, R::MBig(r)),
                Err(r) => (false, R::Big(r)),
            },
            R::Ext(e) => {
                let (g, e) = e.exclusive();
                (g, R::Ext(e))
            }
            r @ (R::MStr(_) | R::MObj(_) | R::MArr(_) | R::MBig(_)) => (true, r),
            r => {
                self.put(h.client, r, m);
                for x in crowd {
                    alloc::on(|| drop(x));
                }
                return EMPTY;
            }
        };
        if granted != alone {
            self.bad(format!(
                "exclusive access to a value with {} references was {}",
                self.nodes[n].rc + crowd.len(),
                if granted { "granted" } else { "refused" }
            ));
        }
        self.put(client, r, m);
        for x in crowd {
            alloc::on(|| drop(x));
        }
        if granted && alone && case.c.chance(2, 3) {
            self.modify(case, client, n);
            return "modify";
        }
        if granted {
            "exclusive access"
        } else {
            "exclusive access refused"
        }
    }
    fn modify(&mut self, case: &mut Case, client: usize, n: usize) {
        let h = self.handles.len() - 1;
        let c = &mut case.c;
        let len = match &self.nodes[n].body {
            Body::Str(s) => s.len(),
            Body::Big(_, s) => s.len(),
            Body::Arr(s) => s.len(),
            Body::Obj(s) => s.len(),
            Body::Ext(..) => 0,
        };
        if len == 0 {
            return;
        }
        let k = c.below(len);
        // the modified handle is not an item itself
        let x = self.handles.swap_remove(h);
        let (r, m) = (x.r, x.m);
        let r = match r {
            R::MStr(mut r) => {
                let v = c.below(500) as u16;
                alloc::on(|| r.items_mut()[k] = v);
                let Body::Str(s) = &mut self.nodes[n].body else { unreachable!() };
                s[k] = v;
                R::MStr(r)
            }
            R::MBig(mut r) => {
                let v = 1 + c.below(500) as u64;
                alloc::on(|| r.items_mut()[k] = v);
                let Body::Big(_, s) = &mut self.nodes[n].body else { unreachable!() };
                s[k] = v;
                R::MBig(r)
            }
            R::MArr(mut r) => {
                let (a, v) = self.item(c, client);
                let old = alloc::on(|| std::mem::replace(&mut r.items_mut()[k], a));
                let Body::Arr(s) = &mut self.nodes[n].body else { unreachable!() };
                let o = std::mem::replace(&mut s[k], v);
                self.put(client, R::Any(old), o);
                R::MArr(r)
            }
            R::MObj(mut r) => {
                let (a, v) = self.item(c, client);
                let l = r.items_mut();
                alloc::on(|| l[k].1 = a);
                let Body::Obj(s) = &mut self.nodes[n].body else { unreachable!() };
                let o = std::mem::replace(&mut s[k].1, v);
                self.release(o);
                R::MObj(r)
            }
            r => r,
        };
        self.handles.push(H { client: x.client, r, m });
    }
    /// Takes references to parts of a value.
    fn children(&mut self, case: &mut Case, i: usize, client: usize) -> &'static str {
        let MV::Ref(n) = self.handles[i].m else { return EMPTY };
        let stop = if case.c.chance(1, 3) { case.c.below(3) } else { usize::MAX };
        let mut got: Vec<(Any<M::Dealloc>, Any<M::Dealloc>)> = vec![];
        let R::Any(a) = &self.handles[i].r else { return EMPTY };
        let r = alloc::on(|| {
            a.for_each(|k, v| {
                if alloc::off(|| got.len()) == stop {
                    return Err(());
                }
                let v = v.clone();
                alloc::off(|| got.push((k, v)));
                Ok(())
            })
        });
        let parts: Vec<(MV, MV)> = match &self.nodes[n].body {
            Body::Arr(l) => l.iter().enumerate().map(|(i, v)| (MV::Num((i as f64).to_bits()), *v)).collect(),
            Body::Obj(l) => l.iter().map(|x| (MV::Ref(x.0), x.1)).collect(),
            _ => vec![],
        };
        let n = parts.len().min(stop);
        if got.len() != n || r.is_ok() != (parts.len() <= stop) {
            self.bad(format!("for_each visited {} of {} parts, stopped at {stop}", got.len(), parts.len()));
        }
        for ((k, v), (km, vm)) in got.into_iter().zip(parts) {
            self.retain(km);
            self.retain(vm);
            for (x, m) in [(k, km), (v, vm)] {
                if self.mine(client).len() < 14 {
                    self.put(client, R::Any(x), m);
                } else {
                    alloc::on(|| drop(x));
                    self.release(m);
                }
            }
        }
        "visit parts"
    }
    pub fn tree(&self, m: MV, memo: &mut std::collections::HashMap<usize, u64>) -> u64 {
        let MV::Ref(n) = m else { return 1 };
        if let Some(x) = memo.get(&n) {
            return *x;
        }
        let r = match &self.nodes[n].body {
            Body::Arr(l) => l.iter().fold(1u64, |s, v| s.saturating_add(self.tree(*v, memo))),
            Body::Obj(l) => l.iter().fold(1u64, |s, v| s.saturating_add(1).saturating_add(self.tree(v.1, memo))),
            _ => 1,
        };
        memo.insert(n, r);
        r
    }
    fn write(&mut self, case: &mut Case, i: usize) -> &'static str {
        let R::Any(a) = &self.handles[i].r else { return EMPTY };
        if self.tree(self.handles[i].m, &mut Default::default()) > 2000 {
            return EMPTY;
        }
        let json = case.c.chance(1, 2);
        let cjs = case.c.chance(1, 2);
        alloc::on(|| {
            let _ = if json { to_json(a.clone()) } else { to_djs(a.clone(), cjs) };
        });
        "serialize"
    }
    /// Values as keys of a set, and back.
    fn as_key(&mut self, i: usize, client: usize) -> &'static str {
        let R::Any(a) = &self.handles[i].r else { return EMPTY };
        let m = self.handles[i].m;
        let mut set = HashSet::new();
        let (x, y) = alloc::on(|| (a.clone(), a.clone()));
        set.insert(x);
        if set.replace(y).is_none() && !matches!(m, MV::Num(_)) {
            self.bad("a copy of a value is not equal to it");
        }
        let mut l: Vec<_> = set.into_iter().collect();
        while l.len() > 1 {
            alloc::on(|| drop(l.pop()));
        }
        let a = l.pop().unwrap();
        self.retain(m);
        self.put(client, R::Any(a), m);
        "set of values"
    }
    fn arithmetic(&mut self, case: &mut Case, client: usize) -> &'static str {
        let c = &mut case.c;
        let Some(i) = self.some(c, client, |r| matches!(r, R::Big(_) | R::MBig(_))) else { return EMPTY };
        let Some(j) = self.some(c, client, |r| matches!(r, R::Big(_) | R::MBig(_))) else { return EMPTY };
        let k = self.pick_manager(c);
        let m = self.managers[k];
        // results with the bytes of their blocks
        let mut results = vec![];
        {
            let get = |i: usize| -> &JsBigint {
                match &self.handles[i].r {
                    R::Big(b) => b,
                    R::MBig(b) => b,
                    _ => unreachable!(),
                }
            };
            let (a, b) = (get(i), get(j));
            if a.items().len() > 6 || b.items().len() > 6 {
                return EMPTY;
            }
            // the others expect a last word that is not zero
            let usual = |x: &JsBigint| x.items().last().is_some_and(|&x| x != 0);
            let n = if usual(a) && usual(b) { 11 } else { 5 };
            let op = c.below(n);
            let by = c.below(130) as u64;
            if op == 10 {
                let before = alloc::info().live_bytes;
                let (q, r) = alloc::on(|| big::div_mod(m, a, b));
                // the sizes of both follow from their words
                let both = alloc::info().live_bytes - before;
                let words = 8 * (q.items().len() as isize - r.items().len() as isize);
                let first = (both as isize + words) / 2;
                results.push((q, first as usize));
                results.push((r, both - first as usize));
            } else {
                results.push(Self::measured(|| match op {
                    0 => big::add(m, a, b),
                    1 => big::negative(m, a),
                    2 => big::not(m, a),
                    3 => big::sub(m, a, b),
                    4 => big::mul(m, a, b),
                    5 => big::and(m, a, b),
                    6 => big::or(m, a, b),
                    7 => big::xor(m, a, b),
                    8 => big::shl_on_u64(m, a, by),
                    _ => big::shr_on_u64(m, a, by),
                }));
            }
        }
        for (r, size) in results {
            let v = self.add(Body::Big(r.header_len(), r.items().to_vec()), k, 0, size);
            self.put(client, R::MBig(r), v);
        }
        "arithmetic"
    }
    /// The bytes a manager should hold.
    pub fn held(&self, manager: usize) -> usize {
        self.nodes.iter().filter(|n| n.rc > 0 && n.manager == manager).map(|n| n.size).sum()
    }
    /// The references in the model, for messages.
    pub fn show(&self) -> String {
        format!("{} values, {} handles", self.live, self.handles.len())
    }
}
