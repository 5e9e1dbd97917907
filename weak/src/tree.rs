//! What a value should contain.
use crate::rng::Rng;
use nanvm_lib::{
    js::{
        any::Any,
        any_cast::AnyCast,
        js_array::{new_array, JsArray},
        js_bigint::{new_bigint, JsBigint, Sign},
        js_object::{new_object, JsObject},
        js_string::{new_string, JsString},
        null::Null,
        type_::Type,
    },
    mem::global::{Global, GLOBAL},
};

pub type A = Any<Global>;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Null,
    Bool(bool),
    Num(f64),
    Str(Vec<u16>),
    Big(bool, Vec<u64>),
    Arr(Vec<T>),
    Obj(Vec<(Vec<u16>, T)>),
}

pub fn simple(n: usize) -> (A, T) {
    match n % 4 {
        0 => (Null().move_to_any(), T::Null),
        1 => (true.move_to_any(), T::Bool(true)),
        _ => ((n as f64).move_to_any(), T::Num(n as f64)),
    }
}

pub fn text(r: &mut Rng) -> (A, T) {
    let n = r.below(3);
    if r.chance(1, 2) {
        let s = vec![r.below(100) as u16; n];
        (new_string(GLOBAL, s.iter().copied()).to_ref().move_to_any(), T::Str(s))
    } else {
        let s = vec![r.next() | 1; n];
        let sign = r.chance(1, 2) || n == 0;
        let v = new_bigint(GLOBAL, if sign { Sign::Positive } else { Sign::Negative }, s.iter().copied());
        (v.to_ref().move_to_any(), T::Big(sign, s))
    }
}

/// A container of these items.
pub fn container(r: &mut Rng, l: Vec<(A, T)>) -> (A, T) {
    let (a, t): (Vec<A>, Vec<T>) = l.into_iter().unzip();
    if r.chance(2, 3) {
        return (new_array(GLOBAL, a).to_ref().move_to_any(), T::Arr(t));
    }
    let keys: Vec<Vec<u16>> = (0..a.len()).map(|i| vec![i as u16; r.below(2)]).collect();
    let l: Vec<_> =
        a.into_iter().zip(&keys).map(|(a, k)| (new_string(GLOBAL, k.iter().copied()).to_ref(), a)).collect();
    (new_object(GLOBAL, l).to_ref().move_to_any(), T::Obj(keys.into_iter().zip(t).collect()))
}

pub fn check(a: &A, t: &T) {
    if !same(a, t) {
        panic!("a value does not read {t:?}");
    }
}

fn same(a: &A, t: &T) -> bool {
    match t {
        T::Null => a.get_type() == Type::Null,
        T::Bool(b) => matches!(a.clone().try_move::<bool>(), Ok(x) if x == *b),
        T::Num(b) => matches!(a.clone().try_move::<f64>(), Ok(x) if x.to_bits() == b.to_bits()),
        T::Str(s) => matches!(a.try_ref::<JsString>(), Ok(x) if x.object().items() == s),
        T::Big(sign, s) => match a.try_ref::<JsBigint>() {
            Ok(x) => {
                let x: &JsBigint = x.object();
                x.items() == s && (x.header_len() >= 0) == *sign
            }
            _ => false,
        },
        T::Arr(l) => match a.try_ref::<JsArray<Global>>() {
            Ok(x) => {
                let x = x.object().items();
                x.len() == l.len() && x.iter().zip(l).all(|(a, t)| same(a, t))
            }
            _ => false,
        },
        T::Obj(l) => match a.try_ref::<JsObject<Global>>() {
            Ok(x) => {
                let x: &JsObject<Global> = x.object();
                let x = x.items();
                x.len() == l.len() && x.iter().zip(l).all(|(a, t)| a.0.items() == t.0 && same(&a.1, &t.1))
            }
            _ => false,
        },
    }
}
