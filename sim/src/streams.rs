//! T01, T02: token streams and incremental parsers, interleaved and abandoned.
use crate::{
    alloc,
    anyv::{to_v, Memo},
    conv,
    doc::{same, Content, Doc, Docs, Eval, Found, Gen, Kind, Stmt, E, V},
    engine::{self, last_panic, Case},
    io::{Fs, Plan, SimIo},
    values::{self, memory_errors},
};
use nanvm_lib::{
    common::default::default,
    js::{any::Any, any_cast::AnyCast, js_array::new_array, js_object::new_object, js_string::new_string},
    mem::{global::{Global, GLOBAL}, manager::Manager},
    parser::{
        json_state::JsonState,
        parser::{parse_with_tokens, Context},
        root_state::{RootState, RootStatus},
        shared::{DataType, ModuleCache, ParseError, ParseResult},
    },
    serializer::{to_djs::to_djs, to_json::to_json},
    tokenizer::{create_transition_maps, tokenize, JsonToken, TokenizerState, TokenizerStateIterator, TransitionMaps},
};
use std::{
    cell::Cell,
    collections::HashMap,
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
};

pub struct Item {
    pub text: String,
    pub kind: Kind,
    /// the value, if the text is a module
    pub value: Option<V>,
    /// the value is an array, an object or a string
    pub closed: bool,
}

/// Modules without imports, valid and not.
pub struct Texts {
    pub items: Vec<Item>,
}

/// Uses everything that is set up on first use, so that it is not counted as held.
const WARM: &str = "// c\nconst a = [1, -2.5e3, 12n, \"\\u20AC\\n\\u0001\", null, true, {x: 1, \"y\": 0}, ]; /* d */\r\nmodule.exports = [a, a, -0, 0.5, 7e1,]\n";
pub fn warm<M: Manager + 'static>(m: M) {
    alloc::on(|| first(m))
}
/// As `warm`, without simulated memory: once, before there are simulated runs.
pub fn warm_process() {
    let f = || {
        let _ = catch_unwind(|| alloc::off(|| first(GLOBAL)));
    };
    // not if it is not possible
    if engine::in_process(f) == 0 {
        f()
    }
}
/// What belongs to a thread, without simulated memory: serializers.
pub fn warm_thread() {
    alloc::off(|| {
        let s = new_string(GLOBAL, [97, 10, 1, 0x20AC]).to_ref();
        let l = new_array(GLOBAL, [1.0f64.move_to_any(), (-0.5f64).move_to_any(), Any::move_from(s.clone())]).to_ref();
        let a: Any<Global> = Any::move_from(l);
        let o = new_object(GLOBAL, [(s, a.clone())]).to_ref();
        let a: Any<Global> = new_array(GLOBAL, [Any::move_from(o), a]).to_ref().move_to_any();
        let _ = to_djs(a.clone(), true);
        let _ = to_djs(a.clone(), false);
        let _ = to_json(a);
    })
}

fn first<M: Manager + 'static>(m: M) {
        if let Ok(r) = parse_text(m, WARM) {
            let _ = to_djs(r.any.clone(), true);
            let _ = to_djs(r.any.clone(), false);
            let _ = to_json(r.any);
        }
        if let Err(e) = parse_text(m, "[1") {
            let _ = e.to_string();
        }
}

pub fn parse_text<M: Manager + 'static>(m: M, text: &str) -> Result<ParseResult<M::Dealloc>, ParseError> {
    // without imports the Io is not used for reading
    let io = alloc::off(|| SimIo::new(Fs::new("/"), Plan::default(), &[]));
    let mut cache: ModuleCache<M::Dealloc> = default();
    let r = parse_with_tokens(
        &mut Context::new(m, &io, String::new(), &mut cache),
        tokenize(m, text.to_string()).into_iter(),
    );
    alloc::off(|| drop(io));
    r
}

pub fn start<M: Manager>() -> JsonState<M> {
    JsonState::ParseRoot(RootState {
        status: RootStatus::Initial,
        state: default(),
        new_line: true,
    })
}

pub fn no_imports(case: &mut Case, values: usize) -> (Doc, V) {
    let c = &mut case.c;
    let kind = *c.pick(&[Kind::Cjs, Kind::Json, Kind::Mjs]);
    let mut g = Gen {
        bigint: kind != Kind::Json,
        max_depth: 5,
        budget: 3 + c.below(values),
        long: true,
    };
    let mut stmts = vec![];
    let mut names: Vec<String> = vec![];
    if kind != Kind::Json {
        for _ in 0..c.count(4) {
            let name = format!("{}{}", ["a", "_x", "$", "const_", "c0"][c.below(5)], names.len());
            let known = names.clone();
            let e = g.value(c, 1, &mut |c| {
                (!known.is_empty() && c.chance(1, 4)).then(|| E::Ref(c.pick(&known).clone()))
            });
            // the value of a const is an array or an object
            let e = match e {
                e @ (E::Arr(_) | E::Obj(_)) => e,
                e => E::Arr(vec![e]),
            };
            stmts.push(Stmt::Const(name.clone(), e));
            names.push(name);
        }
    }
    g.budget += 6;
    let export = g.value(c, 0, &mut |c| {
        (!names.is_empty() && c.chance(1, 3)).then(|| E::Ref(c.pick(&names).clone()))
    });
    let export = if values >= 20 && c.chance(1, 60) {
        // lengths of texts about powers of two
        let pad = E::Str(c.pad());
        match c.below(3) {
            0 => pad,
            1 => E::Arr(vec![pad]),
            _ => E::Arr(vec![pad, export]),
        }
    } else {
        export
    };
    let style = if c.chance(1, 4) { 0 } else { c.seed() | 1 };
    let doc = Doc {
        kind,
        stmts,
        export,
        style,
    };
    let mut docs = Docs(HashMap::new());
    let text = doc.render().text.into_bytes();
    docs.0.insert(text.clone(), Content::Valid(doc.clone().into()));
    let e = conv::eval(&docs, "/m", &mut |_| Found::Bytes(text.clone().into()));
    let Eval::Ok(v) = e else { panic!("a module without imports has no value: {e:?}") };
    (doc, v)
}

/// Edits of a text.
pub fn damage(case: &mut Case, text: &str) -> String {
    let mut t: Vec<char> = text.chars().collect();
    let c = &mut case.c;
    for _ in 0..c.range(1, 3) {
        let n = t.len();
        let i = c.below(n + 1);
        match c.weighted(&[3, 2, 2, 3, 2]) {
            0 => t.truncate(i),
            1 => {
                if i < n {
                    t.remove(i);
                }
            }
            2 => {
                let k = (i + 1 + c.below(6)).min(n);
                let part = t[i.min(k)..k].to_vec();
                t.splice(i..i, part);
            }
            3 => {
                let x = *c.pick(&[
                    "\"", "\\", "{", "}", "[", "]", ",", ":", "\n", "/", "*", "-", ".", "e", "n", "0", "#", "\u{0}",
                    "=", ";", "const ", "1.", "\\u", "\\uD800", "// ", "/*", "é", "null", "module", "export ", "(", "_",
                ]);
                t.splice(i..i, x.chars());
            }
            _ => {
                if i < n {
                    t[i] = *c.pick(&['"', ' ', '\n', 'x', '5', '{', '\u{7f}', '/']);
                }
            }
        }
    }
    t.into_iter().collect()
}

impl Texts {
    pub fn new<M: Manager + 'static>(case: &mut Case, m: M) -> Texts {
        warm(m);
        let n = case.c.range(1, 4);
        Texts {
            items: (0..n).map(|_| Self::item(case, 24)).collect(),
        }
    }
    pub fn item(case: &mut Case, values: usize) -> Item {
        let (doc, v) = no_imports(case, values);
        let text = doc.render().text;
        let kind = doc.kind;
        if case.c.chance(1, 3) {
            // an import in a parser without a loader is not part of these scenarios
            let t = damage(case, &text);
            if !t.contains("import") && !t.contains("require") {
                case.count("damaged text");
                return Item {
                    text: t,
                    kind,
                    value: None,
                    closed: false,
                };
            }
        }
        Item {
            closed: matches!(v, V::Arr(_) | V::Obj(_) | V::Str(_)),
            text,
            kind,
            value: Some(v),
        }
    }
    pub fn parse<M: Manager + 'static>(&self, case: &mut Case, m: M) -> Option<Any<M::Dealloc>> {
        let i = case.c.below(self.items.len());
        let item = &self.items[i];
        case.note(|| format!("parse {:?}", item.text));
        let r = catch_unwind(AssertUnwindSafe(|| alloc::on(|| parse_text(m, &item.text))));
        let r = match r {
            Ok(r) => r,
            Err(_) => {
                case.violation("panic", last_panic());
                return None;
            }
        };
        match (r, &item.value) {
            (Ok(r), Some(v)) => {
                if let Err(e) = same(&to_v(&r.any, &mut Memo::new()), v, true) {
                    case.violation("value", e);
                }
                Some(r.any)
            }
            (Ok(r), None) => Some(r.any),
            (Err(e), Some(_)) => {
                case.violation("value", format!("a valid module is rejected: {e}"));
                None
            }
            (Err(_), None) => None,
        }
    }
}

// ---- tokens ----

pub fn show<D: nanvm_lib::mem::manager::Dealloc>(t: &JsonToken<D>) -> String {
    match t {
        JsonToken::String(s) => format!("{s:?}"),
        JsonToken::Number(n) => format!("number {:016x}", n.to_bits()),
        JsonToken::BigInt(b) => format!("bigint {} {:?}", b.header_len(), b.items()),
        JsonToken::Id(s) => format!("id {s}"),
        JsonToken::ErrorToken(e) => format!("error {e:?}"),
        JsonToken::ObjectBegin => "{".into(),
        JsonToken::ObjectEnd => "}".into(),
        JsonToken::ArrayBegin => "[".into(),
        JsonToken::ArrayEnd => "]".into(),
        JsonToken::Colon => ":".into(),
        JsonToken::Comma => ",".into(),
        JsonToken::Equals => "=".into(),
        JsonToken::Dot => ".".into(),
        JsonToken::NewLine => "new line".into(),
        JsonToken::Semicolon => ";".into(),
        JsonToken::OpeningParenthesis => "(".into(),
        JsonToken::ClosingParenthesis => ")".into(),
    }
}

/// Tokens of a rendered module: their kind, the position after their last character, and whether
/// that character ends them.
fn lex(t: &[char]) -> Vec<(String, usize, bool)> {
    let mut r = vec![];
    let mut i = 0;
    while i < t.len() {
        let s = i;
        match t[i] {
            ' ' | '\t' | '\r' | '\n' => i += 1,
            '/' if t[i + 1] == '/' => {
                while i < t.len() && t[i] != '\n' {
                    i += 1;
                }
            }
            '/' => {
                i += 2;
                while !(t[i] == '*' && t[i + 1] == '/') {
                    i += 1;
                }
                i += 2;
            }
            '"' => {
                i += 1;
                while t[i] != '"' {
                    i += if t[i] == '\\' { 2 } else { 1 };
                }
                i += 1;
                r.push(("string".into(), i, true));
            }
            x if "{}[]:,.;()=".contains(x) => {
                i += 1;
                r.push((x.to_string(), i, false));
            }
            x if x == '-' || x.is_ascii_digit() => {
                while i < t.len() && (t[i].is_ascii_alphanumeric() || "+-.".contains(t[i])) {
                    i += 1;
                }
                r.push(("number".into(), i, false));
            }
            _ => {
                while i < t.len() && (t[i].is_ascii_alphanumeric() || t[i] == '_' || t[i] == '$') {
                    i += 1;
                }
                assert!(i > s, "lexer at {s}: {:?}", t[s]);
                r.push((format!("id {}", t[s..i].iter().collect::<String>()), i, false));
            }
        }
    }
    r
}

fn kind_of(shown: &str) -> String {
    if shown.starts_with('"') {
        "string".into()
    } else if shown.starts_with("number") || shown.starts_with("bigint") {
        "number".into()
    } else {
        shown.into()
    }
}

struct Source {
    text: Rc<Vec<char>>,
    pos: Rc<Cell<usize>>,
    ends: Rc<Cell<usize>>,
    /// continues after its end
    unfused: bool,
}

impl Iterator for Source {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let p = self.pos.get();
        if p < self.text.len() {
            self.pos.set(p + 1);
            return Some(self.text[p]);
        }
        self.ends.set(self.ends.get() + 1);
        if self.unfused && self.ends.get() > 1 {
            Some('5')
        } else {
            None
        }
    }
}

/// What the text should give.
struct Expected {
    text: Rc<Vec<char>>,
    tokens: Vec<String>,
    /// characters that determine the token; `None`: the end of the text
    at: Vec<Option<usize>>,
    /// with a new line after the text
    pushed: Vec<String>,
}

enum Client<M: Manager> {
    Pull(Box<TokenizerStateIterator<Source, M>>, Rc<Cell<usize>>, Rc<Cell<usize>>, usize),
    Push(TokenizerState<M::Dealloc>, usize, Vec<String>),
    Whole,
    Gone,
}

pub fn t01(case: &mut Case) {
    values::reset(case);
    match case.c.below(4) {
        0 => t01_with(case, GLOBAL),
        1 => t01_with(case, values::new_local()),
        2 => t01_with(case, values::Atomic),
        _ => t01_with(case, values::Plain),
    }
    memory_errors(case);
}

fn shown<D: nanvm_lib::mem::manager::Dealloc>(l: &[JsonToken<D>]) -> Vec<String> {
    l.iter().map(show).collect()
}

fn t01_with<M: Manager + 'static>(case: &mut Case, m: M) {
    let r = catch_unwind(AssertUnwindSafe(|| t01_steps(case, m)));
    if r.is_err() {
        let p = last_panic();
        if p.contains("harness") || p.contains("/verif/") || p.contains("src/streams.rs") || p.contains("lexer") {
            panic!("{p}");
        }
        case.violation("panic", p);
    }
}

fn whole<M: Manager + 'static>(m: M, t: &str) -> Vec<String> {
    let l = alloc::on(|| tokenize(m, t.to_string()));
    let s = shown(&l);
    alloc::on(|| drop(l));
    s
}

fn expected<M: Manager + 'static>(case: &mut Case, m: M, maps: &TransitionMaps<M>, item: &Item) -> Expected {
    let text: Vec<char> = item.text.chars().collect();
    let tokens = whole(m, &item.text);
    let pushed = whole(m, &format!("{}\n", item.text));
    let mut at = vec![];
    let mut s: TokenizerState<M::Dealloc> = default();
    let mut got = vec![];
    for (i, c) in text.iter().enumerate() {
        let l = alloc::on(|| s.push_mut(m, *c, maps));
        got.extend(shown(&l));
        at.resize(got.len(), Some(i + 1));
        alloc::on(|| drop(l));
    }
    alloc::on(|| drop(s));
    case.executions += 3;
    case.check(tokens.len() >= got.len() && tokens[..got.len()] == got[..], "tokens differ", || {
        format!("{:?}: at once {tokens:?}, pushed {got:?}", item.text)
    });
    at.resize(tokens.len(), None);
    if item.value.is_some() {
        // as soon as the text determines them
        let l = lex(&text);
        let real: Vec<(String, usize)> = tokens
            .iter()
            .zip(&at)
            .filter(|x| *x.0 != "new line")
            .map(|x| (kind_of(x.0), x.1.unwrap_or(text.len() + 1)))
            .collect();
        let same = l.len() == real.len() && l.iter().zip(&real).all(|(a, b)| a.0 == b.0);
        case.check(same, "tokens differ from the text", || {
            format!("{:?}: {:?} instead of {:?}", item.text, real, l)
        });
        for (a, b) in l.iter().zip(&real) {
            let latest = if a.2 { a.1 } else { a.1 + 1 };
            case.check(!same || b.1 <= latest, "late token", || {
                format!("{:?}: {} ends at {} and is delivered after {} characters", item.text, a.0, a.1, b.1)
            });
        }
    }
    Expected {
        text: Rc::new(text),
        tokens,
        at,
        pushed,
    }
}

fn t01_steps<M: Manager + 'static>(case: &mut Case, m: M) {
    warm(m);
    let maps: TransitionMaps<M> = alloc::on(create_transition_maps);
    let before = alloc::info().live_blocks;
    let n = case.c.range(1, 5);
    let items: Vec<Item> = (0..n).map(|_| Texts::item(case, 16)).collect();
    let exp: Vec<Expected> = items.iter().map(|i| expected(case, m, &maps, i)).collect();
    for (i, x) in items.iter().enumerate() {
        case.note(|| format!("text {i}: {:?}", x.text));
        case.trace_str(&x.text);
    }
    let mut clients: Vec<(usize, Client<M>)> = vec![];
    let steps = case.c.range(4, if case.thorough { 400 } else { 120 });
    let mut switches = 0;
    let mut last = usize::MAX;
    // a new client takes the place of one that is done
    for step in 0..steps {
        let live: Vec<usize> = (0..clients.len()).filter(|i| !matches!(clients[*i].1, Client::Gone)).collect();
        if live.is_empty() || (live.len() < 5 && case.c.chance(1, 8)) {
            let t = case.c.below(n);
            let c = match case.c.weighted(&[5, 4, 1]) {
                0 => {
                    let (pos, ends) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
                    let unfused = case.c.chance(1, 4);
                    let s = Source {
                        text: exp[t].text.clone(),
                        pos: pos.clone(),
                        ends: ends.clone(),
                        unfused,
                    };
                    let it = alloc::on(|| TokenizerStateIterator::new(m, s));
                    case.note(|| format!("{step}: client {} pulls text {t}{}", clients.len(), if unfused { " (continues after its end)" } else { "" }));
                    Client::Pull(alloc::off(|| Box::new(it)), pos, ends, 0)
                }
                1 => {
                    case.note(|| format!("{step}: client {} pushes text {t}", clients.len()));
                    Client::Push(default(), 0, vec![])
                }
                _ => Client::Whole,
            };
            clients.push((t, c));
            continue;
        }
        let i = *case.c.pick(&live);
        if last != i {
            switches += 1;
            last = i;
        }
        let abandon = case.c.chance(1, 40);
        let some = 1 + case.c.count(9);
        let (t, client) = &mut clients[i];
        let e = &exp[*t];
        case.ticks += 1;
        if abandon {
            case.count("fault: stream abandoned");
            case.note(|| format!("{step}: client {i} is abandoned"));
            let c = std::mem::replace(client, Client::Gone);
            alloc::on(|| drop(c));
            continue;
        }
        case.executions += 1;
        match client {
            Client::Pull(it, pos, ends, k) => {
                for _ in 0..some {
                    let r = alloc::on(|| it.next());
                    let s = r.as_ref().map(show);
                    alloc::on(|| drop(r));
                    let (p, q) = (pos.get(), ends.get());
                    case.note(|| format!("{step}: client {i} pulled {s:?} after {p} characters"));
                    case.trace(p as u64);
                    if s.as_ref() != e.tokens.get(*k) {
                        case.violation("tokens differ", format!("pulled {s:?} as token {k} of {:?}, expected {:?}", items[*t].text, e.tokens.get(*k)));
                        return;
                    }
                    let (wp, wq) = match e.at.get(*k) {
                        Some(Some(a)) => (*a, 0),
                        _ => (e.text.len(), 1),
                    };
                    if p != wp || q != wq {
                        case.violation(
                            if q > 1 { "source touched after its end" } else { "reads ahead" },
                            format!("token {k} of {:?} was returned after {p} characters and {q} ends, it was determined by {wp} and {wq}", items[*t].text),
                        );
                        return;
                    }
                    if s.is_none() {
                        case.count("asked after the end");
                    } else {
                        *k += 1;
                    }
                }
            }
            Client::Push(s, p, got) => {
                for _ in 0..some {
                    if *p > e.text.len() {
                        break;
                    }
                    let c = e.text.get(*p).copied().unwrap_or('\n');
                    let l = alloc::on(|| s.push_mut(m, c, &maps));
                    *p += 1;
                    got.extend(shown(&l));
                    alloc::on(|| drop(l));
                    let want = if *p <= e.text.len() {
                        e.at.iter().filter(|a| a.is_some_and(|a| a <= *p)).count()
                    } else {
                        e.pushed.len()
                    };
                    case.trace(got.len() as u64);
                    // an unfinished text may end otherwise than at a new line
                    let ok = if *p > e.text.len() && items[*t].value.is_none() {
                        e.pushed.starts_with(got)
                    } else {
                        got.len() == want && got[..] == e.pushed[..want]
                    };
                    if !ok {
                        case.violation("tokens differ", format!("{:?}: pushed {p} characters and got {got:?} instead of {:?}", items[*t].text, &e.pushed[..want.min(e.pushed.len())]));
                        return;
                    }
                }
                case.note(|| format!("{step}: client {i} pushed up to {p}, {} tokens", got.len()));
                if *p > e.text.len() {
                    let c = std::mem::replace(client, Client::Gone);
                    alloc::on(|| drop(c));
                    case.count("pushed to the end");
                }
            }
            Client::Whole => {
                let l = whole(m, &items[*t].text);
                case.note(|| format!("{step}: client {i} tokenized text {t}"));
                case.check(l == e.tokens, "tokens differ", || {
                    format!("{:?} gives {l:?} after {:?}", items[*t].text, e.tokens)
                });
                *client = Client::Gone;
            }
            Client::Gone => {}
        }
    }
    for (_, c) in clients {
        alloc::on(|| drop(c));
    }
    let now = alloc::info().live_blocks;
    case.check(now == before, "memory is held", || {
        format!("{} blocks are held after all streams are gone", now as isize - before as isize)
    });
    if switches > 2 {
        case.count("interleaved");
    }
    case.nontrivial = switches > 2;
}

// ---- incremental parsers ----

fn outcome<D: nanvm_lib::mem::manager::Dealloc>(r: &Result<ParseResult<D>, ParseError>) -> Result<(&DataType, V), &ParseError> {
    match r {
        Ok(r) => Ok((&r.data_type, to_v(&r.any, &mut Memo::new()))),
        Err(e) => Err(e),
    }
}

fn equal<D: nanvm_lib::mem::manager::Dealloc>(
    a: &Result<ParseResult<D>, ParseError>,
    b: &Result<ParseResult<D>, ParseError>,
) -> Result<(), String> {
    match (outcome(a), outcome(b)) {
        (Err(a), Err(b)) if a == b => Ok(()),
        (Ok(a), Ok(b)) if a.0 == b.0 => same(&a.1, &b.1, true),
        (a, b) => Err(format!("{a:?} instead of {b:?}")),
    }
}

/// The whole-module parser on the first tokens.
fn reference<M: Manager + 'static>(m: M, text: &str, n: usize) -> Result<ParseResult<M::Dealloc>, ParseError> {
    let io = SimIo::new(Fs::new("/"), Plan::default(), &[]);
    let mut cache: ModuleCache<M::Dealloc> = default();
    alloc::on(|| {
        let l = tokenize(m, text.to_string());
        parse_with_tokens(
            &mut Context::new(m, &io, String::new(), &mut cache),
            l.into_iter().take(n),
        )
    })
}

struct Inc<M: Manager> {
    item: usize,
    state: Option<JsonState<M>>,
    tokens: std::vec::IntoIter<JsonToken<M::Dealloc>>,
    pushed: usize,
    total: usize,
    error: Option<String>,
}

pub fn t02(case: &mut Case) {
    values::reset(case);
    let r = catch_unwind(AssertUnwindSafe(|| match case.c.below(4) {
        0 => t02_with(case, GLOBAL),
        1 => t02_with(case, values::new_local()),
        2 => t02_with(case, values::Atomic),
        _ => t02_with(case, values::Plain),
    }));
    if r.is_err() {
        let p = last_panic();
        if p.contains("src/streams.rs") || p.contains("a module without imports") {
            panic!("{p}");
        }
        case.violation("panic", p);
    }
    memory_errors(case);
}

fn t02_with<M: Manager + 'static>(case: &mut Case, m: M) {
    warm(m);
    let before = alloc::info().live_blocks;
    let n = case.c.range(1, 4);
    let items: Vec<Item> = (0..n).map(|_| Texts::item(case, 16)).collect();
    for (i, x) in items.iter().enumerate() {
        case.note(|| format!("text {i}: {:?}", x.text));
        case.trace_str(&x.text);
    }
    // the last token that belongs to the value
    let ends: Vec<usize> = items
        .iter()
        .map(|x| {
            let l = whole(m, &x.text);
            l.iter().rposition(|t| t != "new line").map_or(0, |i| i + 1)
        })
        .collect();
    let mut live: Vec<Inc<M>> = vec![];
    let steps = case.c.range(3, if case.thorough { 300 } else { 80 });
    let mut last = usize::MAX;
    let mut switches = 0;
    for step in 0..steps {
        if live.is_empty() || (live.len() < 4 && case.c.chance(1, 8)) {
            let item = case.c.below(n);
            let l = alloc::on(|| tokenize(m, items[item].text.clone()));
            live.push(Inc {
                item,
                state: Some(start()),
                total: l.len(),
                tokens: l.into_iter(),
                pushed: 0,
                error: None,
            });
            case.note(|| format!("{step}: parser {} starts with text {item}", live.len() - 1));
            continue;
        }
        let i = case.c.below(live.len());
        if last != i {
            switches += 1;
            last = i;
        }
        case.ticks += 1;
        case.executions += 1;
        match case.c.weighted(&[10, 2, 1]) {
            0 => {
                let some = 1 + case.c.count(12);
                let x = &mut live[i];
                for _ in 0..some {
                    let Some(t) = x.tokens.next() else { break };
                    let s = x.state.take().unwrap();
                    let shown = show(&t);
                    let (s, import) = alloc::on(|| s.push(m, t));
                    x.pushed += 1;
                    case.trace(x.pushed as u64);
                    case.check(import.is_none(), "import without an import", || format!("{import:?}"));
                    let e = match &s {
                        JsonState::Error(e) => Some(format!("{e:?}")),
                        _ => None,
                    };
                    if x.error.is_some() {
                        case.count("token after an error");
                        case.check(x.error == e, "error does not stay", || {
                            format!("{:?}, then {shown} gives {e:?}", x.error)
                        });
                    }
                    x.error = e;
                    x.state = Some(s);
                }
                case.note(|| format!("{step}: parser {i} has {} of {} tokens, error {:?}", x.pushed, x.total, x.error));
            }
            1 => {
                // the end, early or not
                let x = live.swap_remove(i);
                let item = &items[x.item];
                let r = alloc::on(|| x.state.unwrap().end());
                let w = reference(m, &item.text, x.pushed);
                case.note(|| format!("{step}: parser {i} ends after {} of {} tokens: {:?}", x.pushed, x.total, outcome(&r).map(|x| x.1.show())));
                if let Err(e) = equal(&r, &w) {
                    case.violation("parsers differ", format!("{:?} cut after {} tokens: {e}", item.text, x.pushed));
                }
                if let Some(v) = &item.value {
                    let end = ends[x.item];
                    if x.pushed >= end {
                        case.count("complete");
                        match &r {
                            Ok(r) => {
                                if let Err(e) = same(&to_v(&r.any, &mut Memo::new()), v, true) {
                                    case.violation("value", format!("{:?}: {e}", item.text));
                                }
                                let is = match item.kind {
                                    Kind::Json => r.data_type == DataType::Json,
                                    Kind::Cjs => r.data_type == DataType::Cjs,
                                    Kind::Mjs => r.data_type == DataType::Mjs,
                                };
                                case.check(is, "module type", || format!("{:?} of {:?}", r.data_type, item.text));
                            }
                            Err(e) => case.violation("value", format!("{:?}: {e}", item.text)),
                        }
                    } else {
                        case.count("cut");
                        // the value ends with its last token
                        case.check(r.as_ref().err() == Some(&ParseError::UnexpectedEnd), "cut accepted", || {
                            format!("{:?} cut after {} of {end} tokens: {:?}", item.text, x.pushed, outcome(&r))
                        });
                    }
                }
                alloc::on(|| drop((r, w, x.tokens)));
            }
            _ => {
                case.count("fault: parser abandoned");
                case.note(|| format!("{step}: parser {i} is abandoned"));
                let x = live.swap_remove(i);
                alloc::on(|| drop((x.state, x.tokens)));
            }
        }
        if !case.violations.is_empty() {
            return;
        }
    }
    for x in live {
        alloc::on(|| drop((x.state, x.tokens)));
    }
    let now = alloc::info().live_blocks;
    case.check(now == before, "memory is held", || {
        format!("{} blocks are held after all parsers are gone", now as isize - before as isize)
    });
    if switches > 2 {
        case.count("interleaved");
    }
    case.nontrivial = switches > 2;
}
