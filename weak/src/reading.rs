//! M01: texts are read and values are written; every access to memory is examined.
use crate::rng::{mix, Rng};
use nanvm_lib::{
    common::default::default,
    js::{any::Any, any_cast::AnyCast, js_string::JsString, type_::Type},
    mem::{
        global::GLOBAL,
        local::Local,
        manager::{Dealloc, Manager},
    },
    parser::{
        json_state::JsonState,
        root_state::{RootState, RootStatus},
        shared::to_js_string,
    },
    serializer::{to_djs::WriteDjs, to_json::WriteJson},
    tokenizer::{create_transition_maps, TokenizerState, TransitionMaps},
};
use std::fmt::{Error, Write};

const NUMBERS: [&str; 22] = [
    "0", "-0", "1", "-7", "42", "1.5", "-0.125", "1e3", "2.5E-7", "12", "-3", "0.5", "12345678901234567890",
    "0n", "-1n", "9n", "18446744073709551615n", "18446744073709551616n", "-340282366920938463463374607431768211456n", "null", "true", "false",
];
const CHARS: [&str; 14] =
    ["a", "b", " ", "0", "\\\"", "\\\\", "\\n", "\\u0041", "\\u001f", "é", "😀", "\\ud83d\\ude00", "\u{7f}", "/"];

fn string(r: &mut Rng, t: &mut String) {
    t.push('"');
    // sizes about those of words and lines of a cache
    let n = match r.below(6) {
        0 => 0,
        1 => 13 + r.below(8),
        _ => r.below(10),
    };
    for _ in 0..n {
        t.push_str(CHARS[if r.chance(2, 3) { r.below(2) } else { r.below(CHARS.len()) }]);
    }
    t.push('"');
}

fn space(r: &mut Rng, t: &mut String) {
    match r.below(12) {
        0 => t.push(' '),
        1 => t.push('\n'),
        2 => t.push_str("/* \" */"),
        _ => {}
    }
}

/// A value; names of constants, the first of which are known.
fn value(r: &mut Rng, t: &mut String, depth: usize, known: usize) {
    match r.below(if depth == 0 { 5 } else { 9 }) {
        0 | 1 => t.push_str(NUMBERS[r.below(NUMBERS.len())]),
        2 => string(r, t),
        3 | 4 if known > 0 => {
            let _ = write!(t, "c{}", r.below(known));
        }
        3 | 4 => string(r, t),
        n => {
            let object = n > 6;
            t.push_str(if object { "{" } else { "[" });
            let n = r.below(5);
            for i in 0..n {
                space(r, t);
                if object {
                    string(r, t);
                    space(r, t);
                    t.push(':');
                }
                value(r, t, depth - 1, known);
                space(r, t);
                if i + 1 < n || r.chance(1, 5) {
                    t.push(',');
                }
            }
            t.push_str(if object { "}" } else { "]" });
        }
    }
}

fn module(r: &mut Rng) -> String {
    let mut t = String::new();
    let kind = r.below(3);
    let mut n = 0;
    if kind > 0 {
        n = r.below(3);
        for i in 0..n {
            let _ = write!(t, "const c{i} =");
            value(r, &mut t, 2, i);
            t.push('\n');
        }
        t.push_str(if kind == 1 { "module.exports=" } else { "export default " });
    }
    value(r, &mut t, 3, n);
    t
}

fn damage(r: &mut Rng, t: &str) -> String {
    let mut l: Vec<char> = t.chars().collect();
    for _ in 0..1 + r.below(2) {
        let i = r.below(l.len().max(1));
        match r.below(4) {
            0 => l.truncate(i),
            1 if i < l.len() => {
                l.remove(i);
            }
            2 => l.insert(i.min(l.len()), ['"', '\\', ',', '}', ']', '-', 'e', 'n', '\u{0}', '\u{10ffff}'][r.below(10)]),
            _ => {
                if i < l.len() {
                    l[i] = ['"', '1', '[', '{', ':', '.', 'u', '\n'][r.below(8)]
                }
            }
        }
    }
    l.into_iter().collect()
}

struct Sink {
    text: String,
    left: usize,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> Result<(), Error> {
        match self.left.checked_sub(1) {
            Some(n) => self.left = n,
            None => return Err(Error),
        }
        self.text.push_str(s);
        Ok(())
    }
}

fn read<M: Manager + 'static>(m: M, maps: &TransitionMaps<M>, t: &str, stop: usize) -> Option<Any<M::Dealloc>> {
    let mut z = TokenizerState::default();
    let mut p = JsonState::ParseRoot(RootState { status: RootStatus::Initial, state: default(), new_line: true });
    // an end of the line ends all tokens
    for c in t.chars().chain(['\n']).take(stop) {
        for x in z.push_mut(m, c, maps) {
            p = p.push(m, x).0;
        }
    }
    if stop <= t.chars().count() {
        return None;
    }
    p.end().ok().map(|r| r.any)
}

/// Sum of what a value contains.
fn visit<D: Dealloc>(a: &Any<D>) -> u64 {
    let mut h = 0;
    if a.get_type() == Type::String {
        for x in a.try_ref::<JsString>().unwrap().object().items() {
            h = mix(h, *x as u64);
        }
    }
    let _ = a.for_each(|k, v| {
        h = mix(h, visit(&k));
        h = mix(h, visit(v));
        Ok::<(), ()>(())
    });
    h
}

fn one<M: Manager + 'static>(r: &mut Rng, m: M, maps: &TransitionMaps<M>, t: &str) -> u64 {
    let n = t.chars().count();
    let stop = if r.chance(1, 4) { r.below(n + 1) } else { usize::MAX };
    let left = if r.chance(1, 3) { r.below(20) } else { usize::MAX };
    let form = r.below(3);
    let Some(a) = read(m, maps, t, stop) else { return 1 };
    let h = visit(&a);
    let mut s = Sink { text: String::new(), left };
    let ok = match form {
        0 => s.write_json(a.clone()),
        1 => s.write_djs(a.clone(), true),
        _ => s.write_djs(a.clone(), false),
    };
    let part = to_js_string(m, t.chars().take(5).collect()).move_to_any();
    drop(a);
    visit(&part);
    if ok.is_ok() && r.chance(1, 2) {
        let again = read(m, maps, &s.text, usize::MAX).map(|a| visit(&a));
        if again != Some(h) {
            panic!("{t:?} was written as {:?}", s.text);
        }
    }
    h
}

pub fn m01(mut r: Rng, plan: bool, first: usize, skip: &[usize]) -> (usize, u64) {
    // the tables of a tokenizer take most of the time
    let which = r.chance(1, 2);
    let ops: Vec<(usize, u64, String)> = (0..8)
        .map(|i| {
            let t = module(&mut r);
            let t = if r.chance(1, 3) { damage(&mut r, &t) } else { t };
            (first + i, r.next(), t)
        })
        .filter(|x| !skip.contains(&x.0))
        .collect();
    if plan {
        println!("{} manager", if which { "a local" } else { "the global" });
        for (k, _, t) in &ops {
            println!("operation {k}: {t:?}");
        }
        return (0, 0);
    }
    if !which {
        return (ops.len(), all(GLOBAL, &ops));
    }
    // a local manager lives as long as the tables that refer to it
    let local: &'static Local = Box::leak(Box::default());
    let p = local as *const Local as *mut Local;
    let h = all(local, &ops);
    if local.size() != 0 {
        panic!("{} bytes are held", local.size());
    }
    drop(unsafe { Box::from_raw(p) });
    (ops.len(), h)
}

fn all<M: Manager + 'static>(m: M, ops: &[(usize, u64, String)]) -> u64 {
    let maps = create_transition_maps();
    ops.iter().fold(0, |h, (_, seed, t)| mix(h, one(&mut Rng::from(*seed), m, &maps, t)))
}
