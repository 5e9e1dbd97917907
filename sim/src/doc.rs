//! Values, modules as syntax trees, their rendering, and the reference evaluation.
use crate::{
    choices::{Choices, Rng},
    io::{canon, parent},
};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    sync::Arc,
};

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Bool(bool),
    Num(f64),
    Str(Arc<Vec<u16>>),
    /// sign and decimal digits without leading zeros
    Big(bool, Arc<String>),
    Arr(Arc<Vec<V>>),
    /// sorted by key, without duplicates
    Obj(Arc<Vec<(Vec<u16>, V)>>),
}

impl V {
    pub fn id(&self) -> Option<usize> {
        match self {
            V::Arr(a) => Some(Arc::as_ptr(a) as usize),
            V::Obj(a) => Some(Arc::as_ptr(a) as *const u8 as usize),
            _ => None,
        }
    }
    /// The number of nodes as a tree.
    pub fn tree_size(&self, memo: &mut HashMap<usize, u64>) -> u64 {
        if let Some(n) = self.id().and_then(|i| memo.get(&i)) {
            return *n;
        }
        let n = match self {
            V::Arr(a) => a
                .iter()
                .fold(1u64, |n, x| n.saturating_add(x.tree_size(memo))),
            V::Obj(a) => a
                .iter()
                .fold(1u64, |n, x| n.saturating_add(1).saturating_add(x.1.tree_size(memo))),
            _ => 1,
        };
        if let Some(i) = self.id() {
            memo.insert(i, n);
        }
        n
    }
    pub fn has_bigint(&self) -> bool {
        fn go(v: &V, seen: &mut HashSet<usize>) -> bool {
            if v.id().map_or(false, |i| !seen.insert(i)) {
                return false;
            }
            match v {
                V::Big(..) => true,
                V::Arr(a) => a.iter().any(|x| go(x, seen)),
                V::Obj(a) => a.iter().any(|x| go(&x.1, seen)),
                _ => false,
            }
        }
        go(self, &mut HashSet::new())
    }
    pub fn show(&self) -> String {
        let s = self.show_rec();
        if s.chars().count() > 300 {
            s.chars().take(300).collect::<String>() + "…"
        } else {
            s
        }
    }
    fn show_rec(&self) -> String {
        match self {
            V::Null => "null".into(),
            V::Bool(b) => b.to_string(),
            V::Num(f) => format!("{f:?}"),
            V::Str(s) => format!("{:?}", String::from_utf16_lossy(s)),
            V::Big(n, d) => format!("{}{d}n", if *n { "-" } else { "" }),
            V::Arr(a) => format!(
                "[{}]",
                a.iter().map(|x| x.show_rec()).collect::<Vec<_>>().join(",")
            ),
            V::Obj(a) => format!(
                "{{{}}}",
                a.iter()
                    .map(|x| format!("{:?}:{}", String::from_utf16_lossy(&x.0), x.1.show_rec()))
                    .collect::<Vec<_>>()
                    .join(",")
            ),
        }
    }
}

/// Compares values; with `sharing`, equal sharing of arrays and objects is required, too.
pub struct Same {
    pub sharing: bool,
    ab: HashMap<usize, usize>,
    ba: HashMap<usize, usize>,
    done: BTreeSet<(usize, usize)>,
}

pub fn same(a: &V, b: &V, sharing: bool) -> Result<(), String> {
    Same {
        sharing,
        ab: HashMap::new(),
        ba: HashMap::new(),
        done: BTreeSet::new(),
    }
    .cmp(a, b, "$")
}

impl Same {
    fn cmp(&mut self, a: &V, b: &V, at: &str) -> Result<(), String> {
        if let (Some(x), Some(y)) = (a.id(), b.id()) {
            if self.sharing {
                let p = self.ab.insert(x, y);
                let q = self.ba.insert(y, x);
                if p.map_or(false, |p| p != y) || q.map_or(false, |q| q != x) {
                    return Err(format!("other sharing at {at}"));
                }
            }
            if !self.done.insert((x, y)) {
                return Ok(());
            }
        }
        match (a, b) {
            (V::Null, V::Null) => Ok(()),
            (V::Bool(x), V::Bool(y)) if x == y => Ok(()),
            (V::Num(x), V::Num(y)) if x.to_bits() == y.to_bits() => Ok(()),
            (V::Str(x), V::Str(y)) if x == y => Ok(()),
            (V::Big(n, x), V::Big(m, y)) if n == m && x == y => Ok(()),
            (V::Arr(x), V::Arr(y)) if x.len() == y.len() => {
                for (i, (p, q)) in x.iter().zip(y.iter()).enumerate() {
                    self.cmp(p, q, &format!("{at}[{i}]"))?;
                }
                Ok(())
            }
            (V::Obj(x), V::Obj(y)) if x.len() == y.len() => {
                for (p, q) in x.iter().zip(y.iter()) {
                    if p.0 != q.0 {
                        return Err(format!(
                            "at {at}: key {:?} instead of {:?}",
                            String::from_utf16_lossy(&q.0),
                            String::from_utf16_lossy(&p.0)
                        ));
                    }
                    self.cmp(&p.1, &q.1, &format!("{at}.{}", String::from_utf16_lossy(&p.0)))?;
                }
                Ok(())
            }
            _ => Err(format!("at {at}: {} instead of {}", b.show(), a.show())),
        }
    }
}

// ---- modules ----

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Json,
    Cjs,
    Mjs,
}

impl Kind {
    pub fn ext(self) -> &'static str {
        match self {
            Kind::Json => ".json",
            Kind::Cjs => ".d.cjs",
            Kind::Mjs => ".d.mjs",
        }
    }
}

#[derive(Clone, Debug)]
pub enum E {
    Null,
    Bool(bool),
    /// a literal
    Num(String),
    Str(String),
    /// a literal without the suffix
    Big(String),
    Arr(Vec<E>),
    Obj(Vec<(String, E)>),
    Ref(String),
    Require(String),
}

#[derive(Clone, Debug)]
pub enum Stmt {
    Const(String, E),
    Import(String, String),
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub kind: Kind,
    pub stmts: Vec<Stmt>,
    pub export: E,
    pub style: u64,
}

struct Render {
    out: String,
    rng: Option<Rng>,
    kind: Kind,
    nl: &'static str,
    comments: bool,
    semi: bool,
}

impl Render {
    fn roll(&mut self, n: u64) -> u64 {
        self.rng.as_mut().map_or(0, |r| r.below(n))
    }
    /// white space inside of a statement, without new lines
    fn space(&mut self, required: bool) {
        let n = match self.roll(6) {
            4 => 1,
            5 => 2,
            _ => 0,
        };
        for _ in 0..n {
            let c = if self.roll(4) == 3 { '\t' } else { ' ' };
            self.out.push(c);
        }
        if n == 0 && required {
            self.out.push(' ');
        }
        if self.comments && self.roll(20) == 19 {
            self.out.push_str("/* c, [{\"* **/");
        }
    }
    /// white space inside of a value
    fn gap(&mut self) {
        self.space(false);
        if self.roll(8) == 7 {
            if self.comments && self.roll(4) == 3 {
                self.out.push_str("// x ]}\"");
            }
            self.out.push_str(self.nl);
            self.space(false);
        }
    }
    fn string(&mut self, s: &str) {
        self.out.push('"');
        for c in s.chars() {
            let escape = self.roll(10);
            let short = match c {
                '"' => Some('"'),
                '\\' => Some('\\'),
                '\u{8}' => Some('b'),
                '\u{c}' => Some('f'),
                '\n' => Some('n'),
                '\r' => Some('r'),
                '\t' => Some('t'),
                '/' if escape == 8 => Some('/'),
                _ => None,
            };
            match short {
                Some(x) if escape != 9 => {
                    self.out.push('\\');
                    self.out.push(x);
                }
                _ if short.is_some() || escape == 9 || (c as u32) < 0x20 => {
                    let mut b = [0; 2];
                    let lower = self.roll(2) == 1;
                    for u in c.encode_utf16(&mut b) {
                        let h = format!("{u:04X}");
                        self.out.push_str("\\u");
                        self.out.push_str(&if lower { h.to_lowercase() } else { h });
                    }
                }
                _ => self.out.push(c),
            }
        }
        self.out.push('"');
    }
    fn value(&mut self, e: &E) {
        match e {
            E::Null => self.out.push_str("null"),
            E::Bool(b) => self.out.push_str(if *b { "true" } else { "false" }),
            E::Num(n) => self.out.push_str(n),
            E::Big(n) => {
                self.out.push_str(n);
                self.out.push('n');
            }
            E::Str(s) => self.string(s),
            E::Ref(n) => self.out.push_str(n),
            E::Require(p) => {
                self.out.push_str("require");
                self.space(false);
                self.out.push('(');
                self.space(false);
                self.string(p);
                self.space(false);
                self.out.push(')');
            }
            E::Arr(a) => {
                self.out.push('[');
                self.gap();
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                        self.gap();
                    }
                    self.value(x);
                    self.gap();
                }
                if self.kind != Kind::Json && !a.is_empty() && self.roll(8) == 7 {
                    self.out.push(',');
                    self.gap();
                }
                self.out.push(']');
            }
            E::Obj(a) => {
                self.out.push('{');
                self.gap();
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                        self.gap();
                    }
                    let id = self.kind != Kind::Json
                        && i == 0
                        && !k.is_empty()
                        && !k.starts_with(|c: char| c.is_ascii_digit())
                        && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '$');
                    if id && self.roll(4) == 3 {
                        self.out.push_str(k);
                    } else {
                        self.string(k);
                    }
                    self.gap();
                    self.out.push(':');
                    self.gap();
                    self.value(x);
                    self.gap();
                }
                if self.kind != Kind::Json && !a.is_empty() && self.roll(8) == 7 {
                    self.out.push(',');
                    self.gap();
                }
                self.out.push('}');
            }
        }
    }
    fn end_statement(&mut self) {
        self.space(false);
        if self.semi && self.roll(2) == 1 {
            self.out.push(';');
            if self.roll(2) == 1 {
                self.out.push_str(self.nl);
            }
        } else {
            if self.comments && self.roll(8) == 7 {
                self.out.push_str("// end");
            }
            self.out.push_str(self.nl);
            if self.roll(6) == 5 {
                self.out.push_str(self.nl);
            }
        }
    }
}

pub struct Text {
    pub text: String,
    /// the end of the exported value
    pub end: usize,
}

impl Doc {
    pub fn render(&self) -> Text {
        let mut r = Render {
            out: String::new(),
            rng: (self.style != 0).then(|| Rng::new(self.style)),
            kind: self.kind,
            nl: "\n",
            comments: false,
            semi: false,
        };
        if self.style != 0 {
            r.nl = ["\n", "\r\n"][r.roll(2) as usize];
            r.comments = self.kind != Kind::Json && r.roll(3) == 2;
            r.semi = r.roll(3) == 2;
            if r.roll(8) == 7 {
                r.out.push_str(r.nl);
            }
        }
        for s in &self.stmts {
            match s {
                Stmt::Const(n, e) => {
                    r.out.push_str("const");
                    r.space(true);
                    r.out.push_str(n);
                    r.space(false);
                    r.out.push('=');
                    r.gap();
                    r.value(e);
                }
                Stmt::Import(n, p) => {
                    r.out.push_str("import");
                    r.space(true);
                    r.out.push_str(n);
                    r.space(true);
                    r.out.push_str("from");
                    r.space(true);
                    r.string(p);
                }
            }
            r.end_statement();
        }
        match self.kind {
            Kind::Json => {
                r.gap();
            }
            Kind::Cjs => {
                r.out.push_str("module");
                r.space(false);
                r.out.push('.');
                r.space(false);
                r.out.push_str("exports");
                r.space(false);
                r.out.push('=');
                r.gap();
            }
            Kind::Mjs => {
                r.out.push_str("export");
                r.space(true);
                r.out.push_str("default");
                r.space(true);
                r.gap();
            }
        }
        r.value(&self.export);
        let end = r.out.len();
        if self.style != 0 {
            r.gap();
            if r.roll(2) == 1 {
                r.out.push_str(r.nl);
            }
        }
        Text { text: r.out, end }
    }
    /// All imports as written, in the order of evaluation.
    pub fn imports(&self) -> Vec<String> {
        fn expr(e: &E, r: &mut Vec<String>) {
            match e {
                E::Require(p) => r.push(p.clone()),
                E::Arr(a) => a.iter().for_each(|x| expr(x, r)),
                E::Obj(a) => a.iter().for_each(|x| expr(&x.1, r)),
                _ => {}
            }
        }
        let mut r = vec![];
        for s in &self.stmts {
            match s {
                Stmt::Const(_, e) => expr(e, &mut r),
                Stmt::Import(_, p) => r.push(p.clone()),
            }
        }
        expr(&self.export, &mut r);
        r
    }
}

#[derive(Clone, Debug)]
pub enum Content {
    Valid(Arc<Doc>),
    /// no reader may accept it; these may be imported before that is seen
    Invalid(Vec<String>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Read(String),
    Invalid(String),
    Cycle(String),
}

#[derive(Clone, Debug)]
pub enum Eval {
    Ok(V),
    Fail(Fail),
    /// the model does not know
    Unknown(String),
}

pub enum Found {
    Bytes(Arc<Vec<u8>>),
    Unreadable,
    Unknown,
}

#[derive(Clone, Default)]
pub struct Docs(pub HashMap<Vec<u8>, Content>);

/// The reference evaluation of a module and its imports.
pub struct Model<'a> {
    pub docs: &'a Docs,
    pub read: &'a mut dyn FnMut(&str) -> Found,
    /// completely evaluated imports
    pub done: BTreeMap<String, V>,
    pub progress: Vec<String>,
    pub reads: Vec<String>,
}

impl<'a> Model<'a> {
    pub fn new(docs: &'a Docs, read: &'a mut dyn FnMut(&str) -> Found) -> Model<'a> {
        Model {
            docs,
            read,
            done: BTreeMap::new(),
            progress: vec![],
            reads: vec![],
        }
    }
    pub fn eval(&mut self, path: &str) -> Eval {
        match self.module(path) {
            Ok(v) => Eval::Ok(v),
            Err(e) => e,
        }
    }
    fn module(&mut self, path: &str) -> Result<V, Eval> {
        self.progress.push(path.to_string());
        let r = self.module_body(path);
        self.progress.pop();
        r
    }
    fn module_body(&mut self, path: &str) -> Result<V, Eval> {
        self.reads.push(path.to_string());
        let bytes = match (self.read)(path) {
            Found::Bytes(b) => b,
            Found::Unreadable => return Err(Eval::Fail(Fail::Read(path.to_string()))),
            Found::Unknown => return Err(Eval::Unknown(path.to_string())),
        };
        if std::str::from_utf8(&bytes).is_err() {
            return Err(Eval::Fail(Fail::Read(path.to_string())));
        }
        match self.docs.0.get(&**bytes) {
            None => Err(Eval::Unknown(path.to_string())),
            Some(Content::Invalid(imports)) => {
                // errors of imports come first but it fails in any case
                for i in imports.clone() {
                    self.import(path, &i)?;
                }
                Err(Eval::Fail(Fail::Invalid(path.to_string())))
            }
            Some(Content::Valid(d)) => {
                let d = d.clone();
                let mut env = HashMap::new();
                for s in &d.stmts {
                    match s {
                        Stmt::Const(n, e) => {
                            let v = self.expr(path, &env, e)?;
                            env.insert(n.clone(), v);
                        }
                        Stmt::Import(n, p) => {
                            let v = self.import(path, p)?;
                            env.insert(n.clone(), v);
                        }
                    }
                }
                self.expr(path, &env, &d.export)
            }
        }
    }
    fn import(&mut self, from: &str, spelled: &str) -> Result<V, Eval> {
        let p = canon(&parent(from), spelled);
        if let Some(v) = self.done.get(&p) {
            return Ok(v.clone());
        }
        if self.progress.contains(&p) {
            return Err(Eval::Fail(Fail::Cycle(p)));
        }
        let v = self.module(&p)?;
        self.done.insert(p, v.clone());
        Ok(v)
    }
    fn expr(&mut self, path: &str, env: &HashMap<String, V>, e: &E) -> Result<V, Eval> {
        Ok(match e {
            E::Null => V::Null,
            E::Bool(b) => V::Bool(*b),
            E::Num(n) => V::Num(n.parse().expect("number")),
            E::Str(s) => V::Str(Arc::new(s.encode_utf16().collect())),
            E::Big(n) => big(n),
            E::Ref(n) => match env.get(n) {
                Some(v) => v.clone(),
                None => return Err(Eval::Fail(Fail::Invalid(path.to_string()))),
            },
            E::Require(p) => self.import(path, p)?,
            E::Arr(a) => {
                let mut r = vec![];
                for x in a {
                    r.push(self.expr(path, env, x)?);
                }
                V::Arr(Arc::new(r))
            }
            E::Obj(a) => {
                let mut r = BTreeMap::new();
                for (k, x) in a {
                    let v = self.expr(path, env, x)?;
                    r.insert(k.encode_utf16().collect::<Vec<_>>(), v);
                }
                V::Obj(Arc::new(r.into_iter().collect()))
            }
        })
    }
}

pub fn big(n: &str) -> V {
    let (neg, d) = match n.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, n),
    };
    let d = d.trim_start_matches('0');
    if d.is_empty() {
        V::Big(false, Arc::new("0".into()))
    } else {
        V::Big(neg, Arc::new(d.to_string()))
    }
}

// ---- generation of values ----

pub struct Gen {
    pub bigint: bool,
    pub max_depth: usize,
    /// remaining nodes
    pub budget: usize,
    pub long: bool,
}

const NUMBERS: [&str; 36] = [
    "0", "1", "-1", "-0", "0.1", "1.5", "42", "1e3", "123456789", "0.30000000000000004",
    "9007199254740993", "1e21", "1e-7", "5e-324", "-5e-324", "2.2250738585072014e-308",
    "1.7976931348623157e308", "4.9e-324", "3e-324", "1e-400", "1e400", "-1e400", "-0.0",
    "0.1e1", "1E2", "1e+2", "123.456e-10", "179769313486231570000000000000", "1e23",
    "8.41e21", "9.5367431640625e-7", "0.000001", "100000000000000000000000", "-2.5e-3", "2e-0",
    "6.02214076e23",
];

const CHARS: [char; 22] = [
    'a', 'b', ' ', '"', '\\', '/', '\n', '\t', '\r', '\u{0}', '\u{1f}', '\u{7f}', 'é', '€', '\u{2028}',
    '\u{ffff}', '😀', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '{', ',',
];

const KEYS: [&str; 28] = [
    "\u{8}", "\u{b}", "\u{c}", "\u{1b}", "-1", "01", "1.5", "4294967294", "4294967295", "constructor", "\\", "\n",
    "a", "b", "c", "id", "", "A", "0", "10", "key", "__proto__", "x y", "é", "😀", "\u{ffff}", "null", "\"",
];

/// Texts of strings and keys that mean something elsewhere in a module.
const WORDS: [&str; 40] = [
    "default", "import", "const", "export", "from", "require", "module", "exports", "module.exports", "true", "false",
    "undefined", "NaN", "Infinity", "-Infinity", "_0", "_1", "_", "$", "$a", "let", "//", "/*", "*/", "// x", "1n", "0n",
    "1e999", "0x10", "-0", "[]", "{}", "}", "]", ";", "export default ", "const _0=", "module.exports=", "\u{feff}", "toString",
];

/// The neighbourhood of a decimal number between two doubles.
fn halfway(c: &mut Choices) -> String {
    let e = match c.below(6) {
        // all exponents, subnormal numbers included
        0 => c.below(0x7ff) as u64,
        1 => c.below(3) as u64,
        _ => c.range(1023 - 20, 1023 + 70) as u64,
    };
    let m = match c.below(4) {
        0 => 0,
        1 => (1 << 52) - 1,
        _ => c.seed() & ((1 << 52) - 1),
    };
    let a = f64::from_bits(e << 52 | m);
    let b = f64::from_bits((e << 52 | m) + 1);
    if !b.is_finite() {
        return "0".into();
    }
    let digits = |f: f64| -> Vec<u8> { format!("{f:0>1500.1100}").into_bytes() };
    let (a, b) = (digits(a), digits(b));
    // the half of the sum
    let mut carry = 0;
    let mut sum = vec![0u8; a.len()];
    for i in (0..a.len()).rev() {
        if a[i] == b'.' {
            continue;
        }
        let d = a[i] - b'0' + b[i] - b'0' + carry;
        sum[i] = d % 10;
        carry = d / 10;
    }
    let mut s = String::new();
    let mut rest = 0;
    for i in 0..a.len() {
        if a[i] == b'.' {
            s.push('.');
            continue;
        }
        let d = rest * 10 + sum[i];
        s.push((b'0' + d / 2) as char);
        rest = d % 2;
    }
    let mut s = s.trim_start_matches('0').trim_end_matches('0').to_string();
    if s.starts_with('.') {
        s.insert(0, '0');
    }
    match c.below(4) {
        // a little more
        0 => {
            if s.ends_with('.') {
                s.push('0');
            }
            s.extend((0..c.below(30)).map(|_| '0'));
            s.push('1');
        }
        // a little less
        1 if !s.ends_with('.') && s.len() > 2 => {
            let l = s.pop().unwrap();
            s.push((l as u8 - 1) as char);
            s.extend((0..c.range(1, 30)).map(|_| '9'));
        }
        _ => {}
    }
    if s.ends_with('.') {
        s.pop();
    }
    if c.chance(1, 3) {
        s.insert(0, '-');
    }
    s
}

/// The digits of a number about a power of two or ten.
fn power(c: &mut Choices) -> String {
    let mut d = vec![1u8];
    if c.chance(1, 2) {
        d.extend(std::iter::repeat_n(0, *c.pick(&[18usize, 19, 20, 36, 37, 38, 39, 57, 76])));
    } else {
        let n = 64 * c.range(1, 4) + c.below(4) - 1;
        for _ in 0..n {
            let mut carry = 0;
            for x in d.iter_mut().rev() {
                let v = *x * 2 + carry;
                *x = v % 10;
                carry = v / 10;
            }
            if carry > 0 {
                d.insert(0, carry);
            }
        }
    }
    let n = d.len();
    match c.below(4) {
        0 => {
            // one less
            for x in d.iter_mut().rev() {
                if *x > 0 {
                    *x -= 1;
                    break;
                }
                *x = 9;
            }
        }
        1 if d[n - 1] < 9 => d[n - 1] += 1,
        2 => {
            let i = c.below(n);
            if d[i] < 9 {
                d[i] += 1;
            }
        }
        _ => {}
    }
    let s: String = d.iter().map(|x| (b'0' + x) as char).collect();
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}

impl Gen {
    pub fn number(&mut self, c: &mut Choices) -> String {
        match c.weighted(&[5, 3, 2, 1]) {
            0 => c.pick(&NUMBERS).to_string(),
            3 => halfway(c),
            1 => {
                // digits with a point and an exponent
                let neg = c.chance(1, 3);
                let mut s = if neg { "-".to_string() } else { String::new() };
                let n = c.range(1, 20);
                let mut digits = String::new();
                for i in 0..n {
                    let d = if i == 0 && n > 1 { c.range(1, 9) } else { c.below(10) };
                    digits.push((b'0' + d as u8) as char);
                }
                s += &digits;
                if c.chance(1, 2) {
                    s.push('.');
                    for _ in 0..c.range(1, 20) {
                        s.push((b'0' + c.below(10) as u8) as char);
                    }
                }
                if c.chance(1, 2) {
                    s.push_str(["e", "E", "e-", "e+"][c.below(4)]);
                    s.push_str(&c.below(330).to_string());
                }
                s
            }
            _ => {
                let f = f64::from_bits(c.seed());
                if f.is_finite() {
                    format!("{f:e}")
                } else {
                    "0".to_string()
                }
            }
        }
    }
    fn char(&mut self, c: &mut Choices) -> char {
        let r = |c: &mut Choices, a: u32, b: u32| a + c.below((b - a + 1) as usize) as u32;
        let n = match c.weighted(&[8, 3, 1, 1]) {
            0 => return *c.pick(&CHARS),
            1 => r(c, 0, 0x7f),
            2 => r(c, 0x80, 0xffff),
            _ => r(c, 0x10000, 0x10ffff),
        };
        // a surrogate is no character
        char::from_u32(n).unwrap_or('\u{fffd}')
    }
    pub fn string(&mut self, c: &mut Choices) -> String {
        if c.chance(1, 16) {
            return c.pick(&WORDS).to_string();
        }
        let n = if self.long && c.chance(1, 12) {
            match c.weighted(&[40, 2, 1]) {
                0 => c.range(30, 700),
                1 => c.range(700, 9000),
                _ => *c.pick(&[4096, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 70000]),
            }
        } else {
            c.count(9)
        };
        if n > 20 {
            // long strings: a repeated pattern
            let k = c.range(1, 4);
            let p: Vec<char> = (0..k).map(|_| self.char(c)).collect();
            return (0..n).map(|i| p[i % k]).collect();
        }
        (0..n).map(|_| self.char(c)).collect()
    }
    pub fn key(&mut self, c: &mut Choices) -> String {
        if c.chance(1, 8) {
            self.string(c)
        } else if c.chance(1, 8) {
            c.pick(&WORDS).to_string()
        } else {
            c.pick(&KEYS).to_string()
        }
    }
    fn bigint(&mut self, c: &mut Choices) -> String {
        let mut s = if c.chance(1, 3) { "-".to_string() } else { String::new() };
        let n = match c.weighted(&[4, 2, 1, 1]) {
            0 => c.range(1, 4),
            1 => c.range(15, 25),
            2 => c.range(26, 90),
            _ => {
                // about a power of two or ten
                s += &power(c);
                return s;
            }
        };
        for i in 0..n {
            let d = if i == 0 { c.range(1, 9) } else { c.below(10) };
            s.push((b'0' + d as u8) as char);
        }
        s
    }
    /// A value with many items or levels, or a number with many digits.
    fn large(&mut self, c: &mut Choices) -> E {
        match c.weighted(&[4, 4, 4, 1, 1]) {
            0 => {
                let n = c.range(10, 600);
                let k = c.range(0, 3);
                E::Arr(
                    (0..n)
                        .map(|i| match k {
                            0 => E::Null,
                            1 => E::Num(i.to_string()),
                            2 => E::Str(format!("s{i}")),
                            _ => E::Arr(vec![E::Num((i % 10).to_string())]),
                        })
                        .collect(),
                )
            }
            1 => {
                let n = c.range(10, 300);
                let step = c.range(1, 7);
                let name = ["k", "", "\u{e9}", "key with a long name "][c.below(4)];
                E::Obj(
                    (0..n)
                        .map(|i| (format!("{name}{}", i * step % 307), E::Num(i.to_string())))
                        .collect(),
                )
            }
            2 => {
                let n = c.range(20, 400);
                let k = c.below(3);
                let mut e = E::Arr(vec![]);
                for i in 0..n {
                    e = if k == 0 || (k == 1 && i % 2 == 0) {
                        E::Arr(vec![e])
                    } else {
                        E::Obj(vec![("a".to_string(), e)])
                    };
                }
                e
            }
            3 => {
                // many digits
                let n = c.range(300, 1200);
                let d = c.below(9) + 1;
                let z: String = std::iter::repeat_n((b'0' + d as u8) as char, n).collect();
                let e = ["", "e-5", "e-300", "e-1000", "e10", ".5"][c.below(6)];
                match c.below(3) {
                    0 => E::Num(format!("{z}{e}")),
                    1 => E::Num(format!("0.{}{d}{}", "0".repeat(n % 340), if e == ".5" { "" } else { e })),
                    _ if self.bigint => E::Big(z),
                    _ => E::Num(z),
                }
            }
            _ => {
                let n = *c.pick(&[4095, 4096, 4097, 20000]);
                E::Arr((0..n).map(|_| E::Null).collect())
            }
        }
    }
    /// `leaf` makes a reference to something or nothing.
    pub fn value(
        &mut self,
        c: &mut Choices,
        depth: usize,
        leaf: &mut dyn FnMut(&mut Choices) -> Option<E>,
    ) -> E {
        if self.budget == 0 {
            return E::Null;
        }
        self.budget -= 1;
        if let Some(e) = leaf(c) {
            return e;
        }
        if self.long && c.chance(1, 600) {
            return self.large(c);
        }
        let compound = if depth < self.max_depth { 6 } else { 0 };
        match c.weighted(&[2, 2, 5, 5, if self.bigint { 2 } else { 0 }, compound, compound]) {
            0 => E::Null,
            1 => E::Bool(c.chance(1, 2)),
            2 => E::Num(self.number(c)),
            3 => E::Str(self.string(c)),
            4 => E::Big(self.bigint(c)),
            5 => {
                let n = c.count(7);
                E::Arr((0..n).map(|_| self.value(c, depth + 1, leaf)).collect())
            }
            _ => {
                let n = c.count(6);
                E::Obj(
                    (0..n)
                        .map(|_| (self.key(c), self.value(c, depth + 1, leaf)))
                        .collect(),
                )
            }
        }
    }
}
