//! Values of the code under test as values of the model.
use crate::{alloc, doc::V};
use nanvm_lib::{
    js::{
        any::Any,
        any_cast::AnyCast,
        js_array::{new_array, JsArray},
        js_bigint::{new_bigint, JsBigint, Sign},
        js_object::{new_object, JsObject},
        js_string::{new_string, JsString},
        null::Null,
        type_::Type,
    },
    mem::manager::{Dealloc, Manager},
};
use std::{collections::HashMap, sync::Arc};

pub type Memo = HashMap<usize, V>;

/// The number as decimal digits, from limbs of 64 bits.
pub fn decimal(limbs: &[u64]) -> String {
    let mut l = limbs.to_vec();
    let mut parts = vec![];
    loop {
        while l.last() == Some(&0) {
            l.pop();
        }
        if l.is_empty() {
            break;
        }
        let mut rem = 0u128;
        for x in l.iter_mut().rev() {
            let v = rem << 64 | *x as u128;
            *x = (v / 10_000_000_000_000_000_000) as u64;
            rem = v % 10_000_000_000_000_000_000;
        }
        parts.push(rem as u64);
    }
    match parts.pop() {
        None => "0".into(),
        Some(first) => {
            let mut s = first.to_string();
            for p in parts.iter().rev() {
                s.push_str(&format!("{p:019}"));
            }
            s
        }
    }
}

/// Reads a value; arrays and objects keep their sharing.
pub fn to_v<D: Dealloc>(a: &Any<D>, memo: &mut Memo) -> V {
    match a.get_type() {
        Type::Null => V::Null,
        Type::Bool => V::Bool(a.clone().try_move().unwrap()),
        Type::Number => V::Num(a.clone().try_move().unwrap()),
        Type::String => V::Str(Arc::new(a.try_ref::<JsString>().unwrap().object().items().to_vec())),
        Type::Bigint => {
            let b = a.try_ref::<JsBigint>().unwrap().object();
            let s = decimal(b.items());
            V::Big(b.header_len() < 0 && s != "0", Arc::new(s))
        }
        Type::Array => {
            let b = a.try_ref::<JsArray<D>>().unwrap();
            let id = b as *const _ as usize;
            if let Some(v) = memo.get(&id) {
                return v.clone();
            }
            let v = V::Arr(Arc::new(b.object().items().iter().map(|x| to_v(x, memo)).collect()));
            memo.insert(id, v.clone());
            v
        }
        Type::Object => {
            let b = a.try_ref::<JsObject<D>>().unwrap();
            let id = b as *const _ as usize;
            if let Some(v) = memo.get(&id) {
                return v.clone();
            }
            let mut l: Vec<_> = b
                .object()
                .items()
                .iter()
                .map(|x| (x.0.items().to_vec(), to_v(&x.1, memo)))
                .collect();
            l.sort_by(|a, b| a.0.cmp(&b.0));
            let v = V::Obj(Arc::new(l));
            memo.insert(id, v.clone());
            v
        }
    }
}

pub type Built<D> = HashMap<usize, Any<D>>;

/// The limbs of decimal digits.
pub fn limbs(digits: &str) -> Vec<u64> {
    let mut l: Vec<u64> = vec![];
    for d in digits.bytes() {
        let mut carry = (d - b'0') as u128;
        for x in l.iter_mut() {
            let v = *x as u128 * 10 + carry;
            *x = v as u64;
            carry = v >> 64;
        }
        if carry > 0 {
            l.push(carry as u64);
        }
    }
    l
}

/// Builds a value with the sharing of the model.
pub fn build<M: Manager + 'static>(m: M, v: &V, memo: &mut Built<M::Dealloc>) -> Any<M::Dealloc> {
    if let Some(a) = v.id().and_then(|i| memo.get(&i)) {
        return alloc::on(|| a.clone());
    }
    let r = match v {
        V::Null => Null().move_to_any(),
        V::Bool(b) => b.move_to_any(),
        V::Num(n) => n.move_to_any(),
        V::Str(s) => alloc::on(|| new_string(m, s.iter().copied()).to_ref().move_to_any()),
        V::Big(neg, d) => {
            let l = limbs(d);
            let sign = if *neg { Sign::Negative } else { Sign::Positive };
            alloc::on(|| new_bigint(m, sign, l.iter().copied()).to_ref().move_to_any())
        }
        V::Arr(l) => {
            let l: Vec<_> = l.iter().map(|x| build(m, x, memo)).collect();
            alloc::on(|| new_array(m, l).to_ref().move_to_any())
        }
        V::Obj(l) => {
            let l: Vec<_> = l
                .iter()
                .map(|(k, x)| {
                    let k = alloc::on(|| new_string(m, k.iter().copied()).to_ref());
                    (k, build(m, x, memo))
                })
                .collect();
            alloc::on(|| new_object(m, l).to_ref().move_to_any())
        }
    };
    if let Some(i) = v.id() {
        memo.insert(i, alloc::on(|| r.clone()));
    }
    r
}
