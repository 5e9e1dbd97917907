//! A small JSON writer and reader for replay files and evidence.
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}

pub fn o(x: Vec<(&str, J)>) -> J {
    J::Obj(x.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

pub fn counts(m: &BTreeMap<String, u64>) -> J {
    J::Obj(m.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect())
}

fn string(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                out.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

impl J {
    fn flat(&self) -> bool {
        match self {
            J::Arr(a) => a.iter().all(|x| !matches!(x, J::Arr(_) | J::Obj(_) | J::Str(_))),
            J::Obj(o) => o.is_empty(),
            _ => true,
        }
    }
    fn write(&self, out: &mut String, indent: usize) {
        let pad = |out: &mut String, n: usize| {
            out.push('\n');
            out.push_str(&"  ".repeat(n));
        };
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => out.push_str(&i.to_string()),
            J::Float(f) => out.push_str(&format!("{f:.3}")),
            J::Str(s) => string(out, s),
            J::Arr(a) if self.flat() => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out, indent);
                }
                out.push(']');
            }
            J::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    pad(out, indent + 1);
                    x.write(out, indent + 1);
                }
                pad(out, indent);
                out.push(']');
            }
            J::Obj(a) => {
                out.push('{');
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    pad(out, indent + 1);
                    string(out, k);
                    out.push_str(": ");
                    x.write(out, indent + 1);
                }
                if !a.is_empty() {
                    pad(out, indent);
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s.push('\n');
        s
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i64> {
        match self {
            J::Int(i) => Some(*i),
            _ => None,
        }
    }
    pub fn parse(text: &str) -> Option<J> {
        let c: Vec<char> = text.chars().collect();
        let mut p = 0;
        let r = value(&c, &mut p)?;
        ws(&c, &mut p);
        if p == c.len() {
            Some(r)
        } else {
            None
        }
    }
}

fn ws(c: &[char], p: &mut usize) {
    while *p < c.len() && c[*p].is_whitespace() {
        *p += 1;
    }
}

fn value(c: &[char], p: &mut usize) -> Option<J> {
    ws(c, p);
    match *c.get(*p)? {
        '{' => {
            *p += 1;
            let mut r = vec![];
            loop {
                ws(c, p);
                match *c.get(*p)? {
                    '}' => {
                        *p += 1;
                        return Some(J::Obj(r));
                    }
                    ',' => *p += 1,
                    _ => {
                        let J::Str(k) = value(c, p)? else { return None };
                        ws(c, p);
                        if *c.get(*p)? != ':' {
                            return None;
                        }
                        *p += 1;
                        r.push((k, value(c, p)?));
                    }
                }
            }
        }
        '[' => {
            *p += 1;
            let mut r = vec![];
            loop {
                ws(c, p);
                match *c.get(*p)? {
                    ']' => {
                        *p += 1;
                        return Some(J::Arr(r));
                    }
                    ',' => *p += 1,
                    _ => r.push(value(c, p)?),
                }
            }
        }
        '"' => {
            *p += 1;
            let mut r = String::new();
            loop {
                let x = *c.get(*p)?;
                *p += 1;
                match x {
                    '"' => return Some(J::Str(r)),
                    '\\' => {
                        let e = *c.get(*p)?;
                        *p += 1;
                        match e {
                            'n' => r.push('\n'),
                            'u' => {
                                let h: String = c.get(*p..*p + 4)?.iter().collect();
                                *p += 4;
                                r.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                            }
                            e => r.push(e),
                        }
                    }
                    x => r.push(x),
                }
            }
        }
        't' => {
            *p += 4;
            Some(J::Bool(true))
        }
        'f' => {
            *p += 5;
            Some(J::Bool(false))
        }
        'n' => {
            *p += 4;
            Some(J::Null)
        }
        _ => {
            let st = *p;
            while *p < c.len() && (c[*p].is_ascii_digit() || "+-.eE".contains(c[*p])) {
                *p += 1;
            }
            let t: String = c[st..*p].iter().collect();
            match t.parse::<i64>() {
                Ok(i) => Some(J::Int(i)),
                Err(_) => t.parse().ok().map(J::Float),
            }
        }
    }
}
