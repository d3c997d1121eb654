//! JSON text, keeping order and duplicate keys, matched against tokens.
use crate::tok::{short, Tok};

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    B(bool),
    N(String),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
pub fn parse(s: &str) -> Result<J, String> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i != p.s.len() {
        return Err(format!("trailing text at {}", p.i));
    }
    Ok(v)
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && b" \n\r\t".contains(&self.s[self.i]) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        self.ws();
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {} at {}", c as char, self.i))
        }
    }
    fn lit(&mut self, l: &str, v: J) -> Result<J, String> {
        if self.s[self.i..].starts_with(l.as_bytes()) {
            self.i += l.len();
            Ok(v)
        } else {
            Err(format!("bad literal at {}", self.i))
        }
    }
    fn hex(&mut self) -> Result<u32, String> {
        let h = self.s.get(self.i..self.i + 4).ok_or("short escape")?;
        self.i += 4;
        u32::from_str_radix(std::str::from_utf8(h).map_err(|e| e.to_string())?, 16).map_err(|e| e.to_string())
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut out = vec![];
        loop {
            let c = *self.s.get(self.i).ok_or("unterminated string")?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|e| e.to_string()),
                b'\\' => {
                    let e = *self.s.get(self.i).ok_or("unterminated escape")?;
                    self.i += 1;
                    let ch = match e {
                        b'n' => '\n',
                        b't' => '\t',
                        b'r' => '\r',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'u' => {
                            let a = self.hex()?;
                            if (0xd800..0xdc00).contains(&a) {
                                self.i += 2;
                                let b = self.hex()?;
                                char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b.wrapping_sub(0xdc00))).ok_or("bad surrogates")?
                            } else {
                                char::from_u32(a).ok_or("bad escape")?
                            }
                        }
                        c => c as char,
                    };
                    out.extend(ch.to_string().bytes());
                }
                c if c < 0x20 => return Err("raw control character in string".into()),
                c => out.push(c),
            }
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.s.get(self.i) {
            Some(b'n') => self.lit("null", J::Null),
            Some(b't') => self.lit("true", J::B(true)),
            Some(b'f') => self.lit("false", J::B(false)),
            Some(b'"') => Ok(J::S(self.string()?)),
            Some(b'[') => {
                self.eat(b'[')?;
                let mut v = vec![];
                self.ws();
                if self.s.get(self.i) == Some(&b']') {
                    self.i += 1;
                    return Ok(J::A(v));
                }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    if self.s.get(self.i) == Some(&b',') {
                        self.i += 1
                    } else {
                        self.eat(b']')?;
                        return Ok(J::A(v));
                    }
                }
            }
            Some(b'{') => {
                self.eat(b'{')?;
                let mut v = vec![];
                self.ws();
                if self.s.get(self.i) == Some(&b'}') {
                    self.i += 1;
                    return Ok(J::O(v));
                }
                loop {
                    let k = self.string()?;
                    self.eat(b':')?;
                    v.push((k, self.value()?));
                    self.ws();
                    if self.s.get(self.i) == Some(&b',') {
                        self.i += 1
                    } else {
                        self.eat(b'}')?;
                        return Ok(J::O(v));
                    }
                }
            }
            Some(_) => {
                let b = self.i;
                while self.i < self.s.len() && b"+-.eE0123456789".contains(&self.s[self.i]) {
                    self.i += 1;
                }
                if b == self.i {
                    return Err(format!("unexpected character at {b}"));
                }
                Ok(J::N(String::from_utf8_lossy(&self.s[b..self.i]).into()))
            }
            None => Err("unexpected end".into()),
        }
    }
}

/// does the JSON value say what the tokens say?  Returns the index after the value's tokens.
pub fn matches(t: &[Tok], i: usize, j: &J, path: &mut Vec<String>) -> Result<usize, String> {
    let no = |what: &str, path: &[String]| {
        let js: String = format!("{j:?}").chars().take(200).collect();
        Err(format!("JSON at {}: {what} {:?}, got {js}", path.join("."), t.get(i).map(short)))
    };
    let Some(tok) = t.get(i) else { return no("nothing expected", path) };
    match (tok, j) {
        (Tok::H(_), _) => matches(t, i + 1, j, path),
        (Tok::Null, J::Null) => Ok(i + 1),
        (Tok::B(a), J::B(b)) if a == b => Ok(i + 1),
        (Tok::I(a), J::N(b)) if *b == a.to_string() => Ok(i + 1),
        (Tok::F(a), J::Null) if !f32::from_bits(*a).is_finite() => Ok(i + 1),
        (Tok::F(a), J::N(b)) => match b.parse::<f32>() {
            Ok(x) if x.to_bits() == *a => Ok(i + 1),
            _ => no("float", path),
        },
        (Tok::Cent(_), J::N(b)) => match b.parse::<f32>() {
            Ok(x) if crate::tok::tok_eq(tok, &Tok::F(x.to_bits())) => Ok(i + 1),
            _ => no("float", path),
        },
        (Tok::Q(a), J::S(b)) if *b == a.to_string() => Ok(i + 1),
        (Tok::QI(a), J::S(b)) if *b == a.to_string() => Ok(i + 1),
        (Tok::S(a), J::S(b)) if a == b => Ok(i + 1),
        (Tok::U(a), J::S(b)) if a == b => Ok(i + 1),
        (Tok::V(a), J::O(o)) if o.len() == 1 && o[0].0 == *a => {
            path.push(a.clone());
            let r = matches(t, i + 1, &o[0].1, path);
            path.pop();
            r
        }
        (Tok::Q4(..) | Tok::C3(..) | Tok::Quat(_), J::O(o)) if o.iter().map(|x| x.0.as_str()).collect::<Vec<_>>() == ["x", "y", "z", "w"] => {
            let mut q = [0f32; 4];
            for k in 0..4 {
                q[k] = match &o[k].1 {
                    J::N(s) => s.parse().unwrap_or(f32::NAN),
                    _ => f32::NAN,
                };
            }
            let same = match tok {
                Tok::Quat(r) => (0..4).all(|k| q[k] == r[k] || (!r[k].is_finite() && q[k].is_nan())),
                _ => crate::tok::tok_eq(tok, &Tok::Quat(q)),
            };
            if same {
                Ok(i + 1)
            } else {
                no("quaternion", path)
            }
        }
        (Tok::Arr, J::A(xs)) => {
            let mut k = i + 1;
            for (n, x) in xs.iter().enumerate() {
                if t.get(k) == Some(&Tok::EndArr) {
                    return no("array with fewer elements", path);
                }
                path.push(n.to_string());
                k = matches(t, k, x, path)?;
                path.pop();
            }
            if t.get(k) == Some(&Tok::EndArr) {
                Ok(k + 1)
            } else {
                no("array with more elements", path)
            }
        }
        (Tok::Open, J::O(xs)) => {
            let mut k = i + 1;
            for (name, x) in xs {
                match t.get(k) {
                    Some(Tok::K(n)) if n == name => {}
                    o => return Err(format!("JSON at {}: field {:?} expected, got {name:?}", path.join("."), o.map(short))),
                }
                path.push(name.clone());
                k = matches(t, k + 1, x, path)?;
                path.pop();
            }
            if t.get(k) == Some(&Tok::Close) {
                Ok(k + 1)
            } else {
                Err(format!("JSON at {}: further field {:?} expected", path.join("."), t.get(k).map(short)))
            }
        }
        _ => no("expected", path),
    }
}
