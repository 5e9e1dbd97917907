//! An independent reader of documents: JSON, and DJS as far as outputs use it.
use crate::doc::{big, Kind, V};
use std::{
    collections::{BTreeMap, HashMap},
    sync::Arc,
};

struct P<'a> {
    s: &'a [u8],
    i: usize,
    json: bool,
    env: HashMap<String, V>,
}

type R<T> = Result<T, String>;

/// Reads a complete document of a format.
pub fn read(bytes: &[u8], kind: Kind) -> R<V> {
    let text = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {e}"))?;
    let mut p = P {
        s: text.as_bytes(),
        i: 0,
        json: kind == Kind::Json,
        env: HashMap::new(),
    };
    p.ws();
    if kind != Kind::Json {
        while p.word("const") {
            p.ws();
            let n = p.ident()?;
            p.ws();
            p.expect(b'=')?;
            let v = p.value(0)?;
            if p.env.insert(n.clone(), v).is_some() {
                return Err(format!("const {n} is defined twice"));
            }
            let nl = p.ws();
            if p.peek() == Some(b';') {
                p.i += 1;
            } else if !nl {
                return Err(format!("end of a statement expected at {}", p.i));
            }
            p.ws();
        }
        if kind == Kind::Cjs {
            if !p.word("module") {
                return Err(format!("module.exports expected at {}", p.i));
            }
            p.ws();
            p.expect(b'.')?;
            p.ws();
            if !p.word("exports") {
                return Err(format!("module.exports expected at {}", p.i));
            }
            p.ws();
            p.expect(b'=')?;
        } else {
            if !p.word("export") {
                return Err(format!("export default expected at {}", p.i));
            }
            p.ws();
            if !p.word("default") {
                return Err(format!("export default expected at {}", p.i));
            }
        }
    }
    let v = p.value(0)?;
    p.ws();
    if !p.json && p.peek() == Some(b';') {
        p.i += 1;
        p.ws();
    }
    if p.i != p.s.len() {
        return Err(format!("text after the end at {}", p.i));
    }
    Ok(v)
}

impl P<'_> {
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    fn ws(&mut self) -> bool {
        let mut nl = false;
        while let Some(c) = self.peek() {
            match c {
                b'\n' | b'\r' => nl = true,
                b' ' | b'\t' => {}
                _ => break,
            }
            self.i += 1;
        }
        nl
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.peek() == Some(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("'{}' expected at {}", c as char, self.i))
        }
    }
    fn is_id(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'$'
    }
    fn word(&mut self, w: &str) -> bool {
        let e = self.i + w.len();
        if self.s[self.i..].starts_with(w.as_bytes()) && !self.s.get(e).map_or(false, |&c| Self::is_id(c)) {
            self.i = e;
            true
        } else {
            false
        }
    }
    fn ident(&mut self) -> R<String> {
        let st = self.i;
        while self.peek().map_or(false, Self::is_id) {
            self.i += 1;
        }
        if st == self.i || self.s[st].is_ascii_digit() {
            return Err(format!("identifier expected at {st}"));
        }
        Ok(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
    }
    fn value(&mut self, depth: usize) -> R<V> {
        if depth > 2000 {
            return Err("too deep".into());
        }
        self.ws();
        match self.peek() {
            None => Err("unexpected end".into()),
            Some(b'{') => {
                self.i += 1;
                let mut m = BTreeMap::new();
                self.ws();
                while self.peek() != Some(b'}') {
                    if !m.is_empty() {
                        self.expect(b',')?;
                        self.ws();
                        if !self.json && self.peek() == Some(b'}') {
                            break;
                        }
                    }
                    let k = if !self.json && self.peek() != Some(b'"') {
                        self.ident()?.encode_utf16().collect()
                    } else {
                        self.string()?
                    };
                    self.ws();
                    self.expect(b':')?;
                    let v = self.value(depth + 1)?;
                    if m.insert(k, v).is_some() {
                        return Err(format!("a key is repeated before {}", self.i));
                    }
                    self.ws();
                }
                self.i += 1;
                Ok(V::Obj(Arc::new(m.into_iter().collect())))
            }
            Some(b'[') => {
                self.i += 1;
                let mut a = vec![];
                self.ws();
                while self.peek() != Some(b']') {
                    if !a.is_empty() {
                        self.expect(b',')?;
                        self.ws();
                        if !self.json && self.peek() == Some(b']') {
                            break;
                        }
                    }
                    a.push(self.value(depth + 1)?);
                    self.ws();
                }
                self.i += 1;
                Ok(V::Arr(Arc::new(a)))
            }
            Some(b'"') => Ok(V::Str(Arc::new(self.string()?))),
            Some(c) if c == b'-' || c.is_ascii_digit() => self.number(),
            Some(_) => {
                if self.word("null") {
                    Ok(V::Null)
                } else if self.word("true") {
                    Ok(V::Bool(true))
                } else if self.word("false") {
                    Ok(V::Bool(false))
                } else {
                    let st = self.i;
                    let n = self.ident()?;
                    if self.json {
                        return Err(format!("unexpected {n} at {st}"));
                    }
                    self.env
                        .get(&n)
                        .cloned()
                        .ok_or_else(|| format!("{n} is used before its definition at {st}"))
                }
            }
        }
    }
    fn number(&mut self) -> R<V> {
        let st = self.i;
        if self.peek() == Some(b'-') {
            self.i += 1;
        }
        let d0 = self.i;
        let digits = |p: &mut Self| -> R<()> {
            let s = p.i;
            while p.peek().map_or(false, |c| c.is_ascii_digit()) {
                p.i += 1;
            }
            if s == p.i {
                Err(format!("digit expected at {s}"))
            } else {
                Ok(())
            }
        };
        digits(self)?;
        if self.s[d0] == b'0' && self.i > d0 + 1 {
            return Err(format!("leading zero at {d0}"));
        }
        if !self.json && self.peek() == Some(b'n') {
            let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
            self.i += 1;
            return Ok(big(t));
        }
        if self.peek() == Some(b'.') {
            self.i += 1;
            digits(self)?;
        }
        if matches!(self.peek(), Some(b'e' | b'E')) {
            self.i += 1;
            if matches!(self.peek(), Some(b'+' | b'-')) {
                self.i += 1;
            }
            digits(self)?;
        }
        if self.peek().map_or(false, Self::is_id) {
            return Err(format!("invalid number at {st}"));
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        t.parse()
            .map(V::Num)
            .map_err(|_| format!("invalid number at {st}"))
    }
    fn string(&mut self) -> R<Vec<u16>> {
        self.expect(b'"')?;
        let mut r = vec![];
        loop {
            let Some(c) = self.peek() else {
                return Err("unterminated string".into());
            };
            match c {
                b'"' => {
                    self.i += 1;
                    return Ok(r);
                }
                b'\\' => {
                    self.i += 1;
                    let e = self.peek().ok_or("unterminated string")?;
                    self.i += 1;
                    r.push(match e {
                        b'"' | b'\\' | b'/' => e as u16,
                        b'b' => 8,
                        b'f' => 12,
                        b'n' => 10,
                        b'r' => 13,
                        b't' => 9,
                        b'u' => {
                            let h = self.s.get(self.i..self.i + 4).ok_or("short escape")?;
                            self.i += 4;
                            if !h.iter().all(|c| c.is_ascii_hexdigit()) {
                                return Err(format!("invalid escape before {}", self.i));
                            }
                            u16::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap()
                        }
                        _ => return Err(format!("invalid escape before {}", self.i)),
                    });
                }
                c if c < 0x20 => return Err(format!("control character at {}", self.i)),
                _ => {
                    let end = self.s.len().min(self.i + 4);
                    let t = self.s[self.i..end].utf8_chunks().next().unwrap().valid();
                    let ch = t.chars().next().unwrap();
                    let mut b = [0; 2];
                    r.extend_from_slice(ch.encode_utf16(&mut b));
                    self.i += ch.len_utf8();
                }
            }
        }
    }
}
