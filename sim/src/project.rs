//! Generates projects: directories, modules that import each other, spellings of paths.
use crate::{
    choices::Choices,
    doc::{Content, Doc, Docs, Gen, Kind, Stmt, Text, E},
    engine::Case,
    io::{parent, Fs, Node},
};
use std::sync::Arc;

#[derive(Clone)]
pub struct Opts {
    pub max_modules: usize,
    /// at least so many modules
    pub min_modules: usize,
    pub bigint: bool,
    /// back edges
    pub cycles: bool,
    /// every export is an array, an object or a string
    pub compound: bool,
    /// the output may replace the input or an import
    pub alias_output: bool,
    /// consts of a module, most of them shared arrays and objects
    pub consts: usize,
    /// nodes of a value
    pub values: usize,
    /// noise in paths, of 16
    pub noise: u64,
    /// more files with the same names
    pub decoys: bool,
    /// more long chains of imports
    pub chains: bool,
    /// JSON modules as root
    pub json_root: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            max_modules: 5,
            min_modules: 1,
            bigint: true,
            cycles: false,
            compound: false,
            alias_output: false,
            consts: 3,
            values: 20,
            noise: 2,
            decoys: false,
            chains: false,
            json_root: true,
        }
    }
}

#[derive(Clone)]
pub struct Module {
    pub path: String,
    pub zone: u8,
    pub kind: Kind,
    pub edges: Vec<usize>,
    pub doc: Arc<Doc>,
    pub text: Arc<Text>,
    pub version: u32,
}

impl Module {
    pub fn bytes(&self) -> Vec<u8> {
        self.text.text.as_bytes().to_vec()
    }
}

#[derive(Clone)]
pub struct Project {
    pub fs: Fs,
    pub docs: Docs,
    pub modules: Vec<Module>,
    pub input: String,
    pub output: String,
    pub out_path: String,
    pub out_kind: Kind,
    pub opts: Opts,
}

impl Project {
    pub fn root(&self) -> &Module {
        &self.modules[0]
    }
    /// Canonical paths of all modules.
    pub fn paths(&self) -> Vec<String> {
        self.modules.iter().map(|m| m.path.clone()).collect()
    }
    /// Modules that the root needs, in the order of indices.
    pub fn reachable(&self) -> Vec<usize> {
        let mut seen = vec![false; self.modules.len()];
        let mut todo = vec![0];
        while let Some(i) = todo.pop() {
            if !seen[i] {
                seen[i] = true;
                todo.extend(&self.modules[i].edges);
            }
        }
        (0..seen.len()).filter(|i| seen[*i]).collect()
    }
    pub fn describe(&self, case: &mut Case) {
        case.note(|| format!("cwd {}, input {:?}, output {:?}", self.fs.cwd, self.input, self.output));
        for (p, n) in &self.fs.nodes {
            if let Node::File(d) = n {
                let d = d.clone();
                case.note(|| {
                    let t: String = String::from_utf8_lossy(&d).chars().take(600).collect();
                    format!("file {p}: {t:?}")
                });
            }
        }
    }
    /// Another content for a module.
    pub fn rewrite(&mut self, c: &mut Choices, i: usize, edges: Vec<usize>) {
        let version = self.modules[i].version + 1;
        let (doc, text) = make_doc(c, self, i, &edges, version);
        self.docs
            .0
            .insert(text.text.as_bytes().to_vec(), Content::Valid(doc.clone()));
        let m = &mut self.modules[i];
        m.version = version;
        m.edges = edges;
        m.doc = doc;
        m.text = Arc::new(text);
    }
    pub fn store(&mut self, i: usize) {
        let (p, b) = (self.modules[i].path.clone(), self.modules[i].bytes());
        self.fs.put(&p, &b);
    }
    /// A content of a module that no reader may accept.
    pub fn broken(&mut self, c: &mut Choices, i: usize) -> Vec<u8> {
        let m = &self.modules[i];
        let t = &m.text.text;
        let (text, imports) = match c.below(4) {
            0 => (format!("{t}\n}}"), m.doc.imports()),
            1 => (format!("{t}\n]"), m.doc.imports()),
            2 => (format!("{t}\n\""), m.doc.imports()),
            _ => (format!("@ {t}"), vec![]),
        };
        let b = text.into_bytes();
        self.docs.0.insert(b.clone(), Content::Invalid(imports));
        b
    }
    /// A spelling of a path as seen from a directory.
    pub fn spell(&self, c: &mut Choices, from: &str, target: &str, absolute: bool) -> String {
        spell(c, &self.fs, from, target, absolute, self.opts.noise)
    }
}

fn comps(p: &str) -> Vec<&str> {
    p.split('/').filter(|c| !c.is_empty()).collect()
}

pub fn spell(c: &mut Choices, fs: &Fs, from: &str, target: &str, absolute: bool, noise: u64) -> String {
    let mut at: String;
    let mut steps: Vec<String> = vec![];
    let t = comps(target);
    let over = !absolute && noise > 0 && c.chance(1, 16);
    if over {
        // up to the root, or further
        at = from.to_string();
        let n = comps(from).len() + c.below(3);
        steps.extend((0..n).map(|_| "..".to_string()));
        steps.extend(t.iter().map(|x| x.to_string()));
    } else if absolute {
        at = "/".to_string();
        steps.extend(t.iter().map(|x| x.to_string()));
    } else {
        at = from.to_string();
        let f = comps(from);
        let mut common = 0;
        while common < f.len() && common + 1 < t.len() && f[common] == t[common] {
            common += 1;
        }
        steps.extend((common..f.len()).map(|_| "..".to_string()));
        steps.extend(t[common..].iter().map(|x| x.to_string()));
    }
    let mut r = if absolute { "/".to_string() } else { String::new() };
    let n = steps.len();
    if noise > 0 && !absolute && steps[0] != ".." && c.chance(1, 2) {
        r.push_str("./");
    }
    for (i, s) in steps.iter().enumerate() {
        if c.chance(noise, 16) {
            match c.below(4) {
                3 if at != "/" => {
                    r.push_str("../");
                    r.push_str(at.rsplit('/').next().unwrap());
                    r.push('/');
                }
                0 if !r.is_empty() => r.push('/'),
                1 => {
                    let d: Vec<&String> = fs
                        .nodes
                        .iter()
                        .filter(|(k, n)| **n == Node::Dir && k.as_str() != "/" && parent(k) == at)
                        .map(|x| x.0)
                        .collect();
                    if !d.is_empty() {
                        let d = c.pick(&d);
                        r.push_str(d.rsplit('/').next().unwrap());
                        r.push_str("/../");
                    }
                }
                _ => r.push_str("./"),
            }
        }
        r.push_str(s);
        if i + 1 < n {
            r.push('/');
        }
        if s == ".." {
            at = parent(&at);
        } else {
            at = if at == "/" { format!("/{s}") } else { format!("{at}/{s}") };
        }
    }
    r
}

fn make_doc(c: &mut Choices, p: &Project, i: usize, edges: &[usize], version: u32) -> (Arc<Doc>, Text) {
    let m = &p.modules[i];
    let dir = parent(&m.path);
    let mut stmts = vec![];
    let mut names: Vec<String> = vec![];
    let mut uses: Vec<E> = vec![];
    let mut gen = Gen {
        bigint: p.opts.bigint && m.kind != Kind::Json,
        max_depth: 4,
        budget: p.opts.values,
        long: true,
    };
    let mut consts = 0;
    for (k, &j) in edges.iter().enumerate() {
        let t = &p.modules[j];
        let absolute = c.chance(1, if m.zone == t.zone { 8 } else { 3 });
        let s = p.spell(c, &dir, &t.path, absolute);
        if m.kind == Kind::Mjs {
            let n = format!("i{k}");
            stmts.push(Stmt::Import(n.clone(), s));
            uses.push(E::Ref(n.clone()));
            names.push(n);
        } else if c.chance(1, 2) {
            uses.push(E::Require(s));
        } else {
            let n = format!("i{k}");
            stmts.push(Stmt::Const(n.clone(), E::Require(s)));
            uses.push(E::Ref(n.clone()));
            names.push(n);
        }
    }
    if m.kind != Kind::Json {
        let many = p.opts.consts > 3;
        if c.chance(1, 150) {
            // very many shared values
            let n = *c.pick(&[11, 27, 37, 63, 101, 257, 300]);
            for i in 0..n {
                let k = format!("k{consts}");
                consts += 1;
                let e = match i % 3 {
                    0 => E::Arr(vec![E::Num(i.to_string())]),
                    1 => E::Obj(vec![("a".to_string(), E::Num(i.to_string()))]),
                    _ => E::Arr(vec![E::Ref(format!("k{}", consts - 2)), E::Null]),
                };
                stmts.push(Stmt::Const(k.clone(), e));
                uses.push(E::Ref(k.clone()));
                uses.push(E::Arr(vec![E::Ref(k)]));
            }
        }
        for _ in 0..c.count(p.opts.consts) {
            let known = names.clone();
            let e = gen.value(c, 1, &mut |c| {
                if !known.is_empty() && c.chance(1, 4) {
                    Some(E::Ref(c.pick(&known).clone()))
                } else {
                    None
                }
            });
            let e = match e {
                E::Arr(_) | E::Obj(_) => e,
                e if many => E::Arr(vec![e]),
                e => e,
            };
            let n = format!("k{consts}");
            consts += 1;
            stmts.push(Stmt::Const(n.clone(), e));
            names.push(n);
        }
    }
    let marker = E::Str(format!("m{i} {} v{version}", m.path));
    let mut items = vec![marker];
    for u in uses {
        if c.chance(1, 5) {
            items.push(E::Arr(vec![u]));
        } else {
            items.push(u);
        }
    }
    let known = names.clone();
    if p.opts.consts > 3 {
        for n in &known {
            for _ in 0..c.below(3) {
                items.push(E::Ref(n.clone()));
            }
        }
    }
    let extra = c.count(4);
    for _ in 0..extra {
        let e = gen.value(c, 1, &mut |c| {
            if !known.is_empty() && c.chance(1, 3) {
                Some(E::Ref(c.pick(&known).clone()))
            } else {
                None
            }
        });
        items.push(e);
    }
    let export = match c.weighted(&[5, 4, if p.opts.compound { 0 } else { 1 }, 1]) {
        0 => E::Obj(
            items
                .into_iter()
                .enumerate()
                .map(|(n, e)| {
                    let k = if n == 0 { "id".to_string() } else { gen.key(c) };
                    (if n > 0 && k == "id" { "id2".into() } else { k }, e)
                })
                .collect(),
        ),
        1 => E::Arr(items),
        2 if edges.is_empty() => items.pop().unwrap(),
        3 if edges.is_empty() => items.swap_remove(0),
        _ => E::Arr(items),
    };
    let export = match export {
        E::Arr(_) | E::Obj(_) | E::Str(_) => export,
        e if p.opts.compound => E::Arr(vec![e]),
        e => e,
    };
    let export = if p.opts.compound && edges.is_empty() && c.chance(1, 8) {
        // a string with characters of two units
        let s = gen.string(c);
        let t = *c.pick(&["\u{1F600}", "\u{10FFFF}", "\\", "\"", "\u{7}"]);
        E::Str(format!("{s}{t}{t}"))
    } else {
        export
    };
    let export = if edges.is_empty() && c.chance(1, if i == 0 { 24 } else { 48 }) {
        // lengths of files and of outputs about powers of two, and characters
        // of several bytes across such offsets
        let pad = c.pad();
        if p.opts.compound || c.chance(1, 2) {
            E::Arr(vec![E::Str(pad)])
        } else {
            E::Str(pad)
        }
    } else {
        export
    };
    let doc = Doc {
        kind: m.kind,
        stmts,
        export,
        style: if c.chance(2, 3) { c.seed() } else { 0 },
    };
    let text = doc.render();
    (Arc::new(doc), text)
}

/// Names of files that look like something else.
const ODD_NAMES: &[&str] = &[
    "M", "Index", "X", "a\\b", "..\\m", "m\\", "a%20b", "%6d", "x?y#z", " m", "m ", "m.", "~", "e\u{301}", "\u{e9}",
    "file:", "C:", "m\n", "m'", "m\"", "$m", "\u{130}", "*", "..m", "m..",
];

/// The paths in existing directories that a careless reader could take for this one: other letter
/// case, another separator, another spelling of a character.
fn twins(path: &str) -> Vec<String> {
    let (dir, name) = path.rsplit_once('/').unwrap();
    let mut r: Vec<String> = vec![];
    let upper: String = {
        let mut i = name.chars();
        match i.next() {
            Some(f) => f.to_uppercase().chain(i).collect(),
            None => String::new(),
        }
    };
    for t in [
        name.to_lowercase(),
        upper,
        name.trim().to_string(),
        name.replace('\\', ""),
        name.replace("%6d", "m").replace("%20", " "),
        name.replace("e\u{301}", "\u{e9}"),
        name.split(['?', '#']).next().unwrap().to_string(),
        format!("{name}\\"),
    ] {
        if t != name && !t.is_empty() && t != "." && t != ".." {
            let t = format!("{dir}/{t}");
            if !r.contains(&t) {
                r.push(t);
            }
        }
    }
    // a separator of another system
    if let Some((d, n)) = name.split_once('\\') {
        if !d.is_empty() && d != "." && d != ".." && !n.is_empty() && !n.contains('\\') {
            r.push(format!("{dir}/{d}/{n}"));
        }
    }
    r
}

pub fn generate(c: &mut Choices, opts: &Opts) -> Project {
    let cwd = ["/w", "/w/p", "/home/u/p q", "/"][c.weighted(&[5, 5, 5, 2])];
    let mut fs = Fs::new(cwd);
    // the working directory as the start of a path
    let w = if cwd == "/" { "" } else { cwd };
    let up = parent(cwd);
    let up = if up == "/" { "" } else { &up };
    // names that look like steps, extensions or separators
    let mut name = |usual: &'static str| {
        if c.chance(1, 5) {
            *c.pick(&[
                "..data",
                "...",
                ".hidden",
                "a.json",
                "\u{e9}\u{20ac}",
                "\u{1F600}",
                "x y",
                "A",
                "B",
                "a\\b",
                "~",
                "C:",
                "%61",
            ])
        } else {
            usual
        }
    };
    let (a, b, lib) = (name("a"), name("b"), name("lib"));
    let dirs: [Vec<String>; 3] = [
        vec![
            cwd.to_string(),
            format!("{w}/{a}"),
            format!("{w}/{b}"),
            format!("{w}/{a}/{b}"),
            format!("{w}/{a}/{b}/c"),
            format!("{w}/{lib}"),
        ],
        vec![format!("{up}/ext"), format!("{up}/ext/{a}"), format!("{up}/{b}")],
        vec!["/abs".into(), format!("/abs/{a}"), format!("/abs/{a}/{b}"), "/".into()],
    ];
    for d in dirs.iter().flatten() {
        fs.mkdirs(d);
    }
    let mut n = opts.min_modules.max(1);
    while n < opts.max_modules && c.chance(3, 5) {
        n += 1;
    }
    let mut p = Project {
        fs,
        docs: Docs::default(),
        modules: vec![],
        input: String::new(),
        output: String::new(),
        out_path: String::new(),
        out_kind: Kind::Json,
        opts: opts.clone(),
    };
    // a long chain of imports
    let chain = n > 1 && opts.max_modules >= 5 && c.chance(1, if opts.chains { 25 } else { 80 });
    if chain {
        n = if c.chance(1, 6) { c.range(41, 140) } else { c.range(8, 40) };
    }
    let mut zone = 0u8;
    for i in 0..n {
        if i == 0 {
            zone = c.weighted(&[14, 2, 0]) as u8;
        }
        let z = if c.chance(1, 4) { c.below(3) as u8 } else { zone };
        let kind = if i == 0 && n > 1 {
            if c.chance(1, 2) {
                Kind::Mjs
            } else {
                Kind::Cjs
            }
        } else {
            let j = if (i == 0 && !opts.json_root) || (chain && i + 1 < n) { 0 } else { 2 };
            [Kind::Cjs, Kind::Mjs, Kind::Json][c.weighted(&[3, 3, j])]
        };
        let dir = c.pick(&dirs[z as usize]).clone();
        let name = if c.chance(1, 8) {
            *c.pick(ODD_NAMES)
        } else {
            *c.pick(&["m", "n", "index", "x"])
        };
        // the content decides about the type of a module
        let ext = if c.chance(1, 8) {
            *c.pick(&[".json", ".d.cjs", ".d.mjs", ".js", "", ".txt"])
        } else {
            kind.ext()
        };
        let start = if dir == "/" { "" } else { &dir };
        let mut path = format!("{start}/{name}{ext}");
        if i > 0 && c.chance(1, 12) {
            // a name that a file system could confuse with another one
            let t = c.pick(&p.modules).path.clone();
            let all = twins(&t);
            if !all.is_empty() {
                path = c.pick(&all).clone();
            }
        }
        let taken = |path: &str| {
            let within = |a: &str, b: &str| a.strip_prefix(b).is_some_and(|x| x.starts_with('/'));
            matches!(p.fs.nodes.get(path), Some(Node::Dir))
                || p
                    .modules
                    .iter()
                    .any(|m| m.path == path || within(&m.path, path) || within(path, &m.path))
        };
        if taken(&path) {
            path = format!("{start}/{name}{i}{ext}");
        }
        p.modules.push(Module {
            path,
            zone: z,
            kind,
            edges: vec![],
            doc: Arc::new(Doc {
                kind,
                stmts: vec![],
                export: E::Null,
                style: 0,
            }),
            text: Arc::new(Text {
                text: String::new(),
                end: 0,
            }),
            version: 0,
        });
    }
    // edges
    let branch = if chain { *c.pick(&[8, 100]) } else { 8 };
    for j in 1..n {
        let from: Vec<usize> = (0..j)
            .filter(|&i| p.modules[i].kind != Kind::Json)
            .collect();
        if from.is_empty() {
            continue;
        }
        let first = if chain && !c.chance(1, branch) { from[from.len() - 1] } else { *c.pick(&from) };
        p.modules[first].edges.push(j);
        for &i in &from {
            if i != first && c.chance(1, if chain { 40 } else { 3 }) {
                p.modules[i].edges.push(j);
            }
        }
        if c.chance(1, 5) {
            // twice by the same importer
            p.modules[first].edges.push(j);
        }
    }
    if opts.cycles && c.chance(1, 2) {
        for _ in 0..c.range(1, 2) {
            // in a long chain a long cycle
            let long = chain && c.chance(1, 2);
            let i = if long { (0..n).rev().find(|&i| p.modules[i].kind != Kind::Json).unwrap_or(0) } else { c.below(n) };
            let to: Vec<usize> = (0..=i)
                .filter(|_| p.modules[i].kind != Kind::Json)
                .collect();
            if !to.is_empty() {
                let j = if long { to[c.below(to.len().min(4))] } else { *c.pick(&to) };
                let at = c.below(p.modules[i].edges.len() + 1);
                p.modules[i].edges.insert(at, j);
            }
        }
    }
    for i in 0..n {
        let e = p.modules[i].edges.clone();
        let (doc, text) = make_doc(c, &p, i, &e, 0);
        p.docs
            .0
            .insert(text.text.as_bytes().to_vec(), Content::Valid(doc.clone()));
        p.modules[i].doc = doc;
        p.modules[i].text = Arc::new(text);
        p.store(i);
    }
    if opts.decoys {
        // names that could be confused with those of the modules
        for i in 0..n {
            for path in twins(&p.modules[i].path) {
                let free = !p.fs.nodes.contains_key(&path) && p.fs.file(&parent(&path)).is_none();
                if c.chance(1, 3) && free {
                    p.fs.put(&path, format!("export default [\"decoy {i}\"]").as_bytes());
                }
            }
        }
        // the same names in other directories
        for i in 0..n {
            let name = p.modules[i].path.rsplit('/').next().unwrap().to_string();
            for d in dirs.iter().flatten() {
                let path = format!("{}/{name}", if d == "/" { "" } else { d });
                if !p.fs.nodes.contains_key(&path) && c.chance(1, 3) {
                    let text = format!("\n[\"decoy {path}\"]");
                    let text = match p.modules[i].kind {
                        Kind::Json => text,
                        Kind::Cjs => format!("module.exports={text}"),
                        Kind::Mjs => format!("export default {text}"),
                    };
                    p.fs.put(&path, text.as_bytes());
                }
            }
        }
    }
    let root = p.modules[0].path.clone();
    let absolute = c.chance(1, 4);
    p.input = p.spell(c, cwd, &root, absolute);
    // the output
    p.out_kind = [Kind::Cjs, Kind::Mjs, Kind::Json][c.weighted(&[4, 4, 5])];
    let alias: Vec<String> = p
        .modules
        .iter()
        .filter(|m| m.path.ends_with(p.out_kind.ext()))
        .map(|m| m.path.clone())
        .collect();
    p.out_path = if opts.alias_output && !alias.is_empty() && c.chance(1, 3) {
        c.pick(&alias).clone()
    } else {
        let d = c.pick(&dirs[0]).clone();
        let path = format!("{}/out{}", if d == "/" { "" } else { &d }, p.out_kind.ext());
        if c.chance(1, 2) {
            let n = c.below(300);
            let old = format!("previous output {}", "#".repeat(n));
            p.fs.put(&path, old.as_bytes());
        }
        path
    };
    let abs_out = c.chance(1, 4);
    let out = p.out_path.clone();
    p.output = p.spell(c, cwd, &out, abs_out);
    p
}
