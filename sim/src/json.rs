//! Minimal JSON output and input (no external crates).
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl From<&str> for J {
    fn from(s: &str) -> J {
        J::Str(s.into())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::Str(s)
    }
}
impl From<u64> for J {
    fn from(s: u64) -> J {
        J::Int(s as i64)
    }
}
impl From<usize> for J {
    fn from(s: usize) -> J {
        J::Int(s as i64)
    }
}
impl From<bool> for J {
    fn from(s: bool) -> J {
        J::Bool(s)
    }
}
impl From<f64> for J {
    fn from(s: f64) -> J {
        J::Num(s)
    }
}

pub fn obj(v: Vec<(&str, J)>) -> J {
    J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[J]> {
        match self {
            J::Arr(a) => Some(a),
            _ => None,
        }
    }
    pub fn u64(&self) -> Option<u64> {
        match self {
            J::Int(i) => Some(*i as u64),
            J::Num(f) => Some(*f as u64),
            _ => None,
        }
    }
    pub fn render(&self, ind: usize) -> String {
        let mut s = String::new();
        self.w(&mut s, ind, true);
        s
    }
    fn w(&self, o: &mut String, ind: usize, pretty: bool) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => {
                let _ = write!(o, "{b}");
            }
            J::Num(f) => {
                let _ = write!(o, "{f:.6}");
            }
            J::Int(i) => {
                let _ = write!(o, "{i}");
            }
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 32 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(a) => {
                let scalar = a.iter().all(|x| matches!(x, J::Int(_) | J::Num(_) | J::Bool(_)));
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if !scalar && pretty {
                        o.push('\n');
                        o.push_str(&" ".repeat(ind + 1));
                    }
                    x.w(o, ind + 1, pretty);
                }
                if !scalar && pretty && !a.is_empty() {
                    o.push('\n');
                    o.push_str(&" ".repeat(ind));
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push('\n');
                    o.push_str(&" ".repeat(ind + 1));
                    J::Str(k.clone()).w(o, 0, false);
                    o.push_str(": ");
                    x.w(o, ind + 1, pretty);
                }
                if !v.is_empty() {
                    o.push('\n');
                    o.push_str(&" ".repeat(ind));
                }
                o.push('}');
            }
        }
    }
}

pub fn parse(s: &str) -> Option<J> {
    let b = s.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i)?;
    ws(b, &mut i);
    if i == b.len() { Some(v) } else { None }
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> Option<J> {
    ws(b, i);
    match *b.get(*i)? {
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match *b.get(*i)? {
                    b'}' => {
                        *i += 1;
                        return Some(J::Obj(v));
                    }
                    b',' => *i += 1,
                    _ => {
                        let k = match val(b, i)? {
                            J::Str(s) => s,
                            _ => return None,
                        };
                        ws(b, i);
                        if *b.get(*i)? != b':' {
                            return None;
                        }
                        *i += 1;
                        v.push((k, val(b, i)?));
                    }
                }
            }
        }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                match *b.get(*i)? {
                    b']' => {
                        *i += 1;
                        return Some(J::Arr(v));
                    }
                    b',' => *i += 1,
                    _ => v.push(val(b, i)?),
                }
            }
        }
        b'"' => {
            *i += 1;
            let mut o = vec![];
            loop {
                match *b.get(*i)? {
                    b'"' => {
                        *i += 1;
                        return Some(J::Str(String::from_utf8_lossy(&o).into_owned()));
                    }
                    b'\\' => {
                        *i += 1;
                        match *b.get(*i)? {
                            b'n' => o.push(b'\n'),
                            b't' => o.push(b'\t'),
                            b'u' => {
                                let h = std::str::from_utf8(b.get(*i + 1..*i + 5)?).ok()?;
                                let c = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                                let mut t = [0; 4];
                                o.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                                *i += 4;
                            }
                            c => o.push(c),
                        }
                        *i += 1;
                    }
                    c => {
                        o.push(c);
                        *i += 1;
                    }
                }
            }
        }
        b't' => {
            *i += 4;
            Some(J::Bool(true))
        }
        b'f' => {
            *i += 5;
            Some(J::Bool(false))
        }
        b'n' => {
            *i += 4;
            Some(J::Null)
        }
        _ => {
            let st = *i;
            while *i < b.len() && matches!(b[*i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *i += 1;
            }
            let t = std::str::from_utf8(&b[st..*i]).ok()?;
            if let Ok(n) = t.parse::<i64>() {
                Some(J::Int(n))
            } else if let Ok(n) = t.parse::<u64>() {
                Some(J::Int(n as i64))
            } else {
                t.parse::<f64>().ok().map(J::Num)
            }
        }
    }
}
