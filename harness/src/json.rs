//! Minimal JSON values: parser and writer (the sandbox is offline; no dependencies wanted).
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    B(bool),
    N(i64),
    S(String),
    A(Vec<J>),
    O(BTreeMap<String, J>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::O(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn has(&self, k: &str) -> bool {
        !matches!(self.get(k), J::Null)
    }
    pub fn s(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("json: string expected, got {self}"),
        }
    }
    pub fn n(&self) -> i64 {
        match self {
            J::N(n) => *n,
            _ => panic!("json: number expected, got {self}"),
        }
    }
    pub fn u(&self) -> usize {
        self.n() as usize
    }
    pub fn b(&self) -> bool {
        matches!(self, J::B(true))
    }
    pub fn a(&self) -> &[J] {
        match self {
            J::A(a) => a,
            _ => panic!("json: array expected, got {self}"),
        }
    }
    pub fn strs(&self) -> Vec<String> {
        self.a().iter().map(|x| x.s().to_string()).collect()
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::O(m) = self {
            m.insert(k.to_string(), v);
        }
    }
    pub fn from_strs(v: &[String]) -> J {
        J::A(v.iter().map(|s| J::S(s.clone())).collect())
    }
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut p = 0;
        let r = val(b, &mut p);
        ws(b, &mut p);
        assert!(p == b.len(), "json: trailing data");
        r
    }
}

pub fn js(s: impl ToString) -> J {
    J::S(s.to_string())
}

#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => {{
        #[allow(unused_mut)]
        let mut m = std::collections::BTreeMap::new();
        $( m.insert($k.to_string(), $v); )*
        $crate::json::J::O(m)
    }};
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_ascii_whitespace() {
        *p += 1;
    }
}

fn val(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            ws(b, p);
            if b[*p] == b'}' {
                *p += 1;
                return J::O(m);
            }
            loop {
                ws(b, p);
                let k = string(b, p);
                ws(b, p);
                assert!(b[*p] == b':');
                *p += 1;
                let v = val(b, p);
                m.insert(k, v);
                ws(b, p);
                *p += 1;
                match b[*p - 1] {
                    b',' => continue,
                    b'}' => return J::O(m),
                    _ => panic!("json: bad object"),
                }
            }
        }
        b'[' => {
            *p += 1;
            let mut a = vec![];
            ws(b, p);
            if b[*p] == b']' {
                *p += 1;
                return J::A(a);
            }
            loop {
                a.push(val(b, p));
                ws(b, p);
                *p += 1;
                match b[*p - 1] {
                    b',' => continue,
                    b']' => return J::A(a),
                    _ => panic!("json: bad array"),
                }
            }
        }
        b'"' => J::S(string(b, p)),
        b't' => {
            *p += 4;
            J::B(true)
        }
        b'f' => {
            *p += 5;
            J::B(false)
        }
        b'n' => {
            *p += 4;
            J::Null
        }
        _ => {
            let s = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) {
                *p += 1;
            }
            J::N(std::str::from_utf8(&b[s..*p]).unwrap().parse().unwrap())
        }
    }
}

fn string(b: &[u8], p: &mut usize) -> String {
    assert!(b[*p] == b'"');
    *p += 1;
    let mut out = vec![];
    loop {
        match b[*p] {
            b'"' => {
                *p += 1;
                return String::from_utf8(out).unwrap();
            }
            b'\\' => {
                *p += 1;
                match b[*p] {
                    b'n' => out.push(b'\n'),
                    b't' => out.push(b'\t'),
                    b'r' => out.push(b'\r'),
                    b'u' => {
                        let h = std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap();
                        let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap();
                        let mut buf = [0; 4];
                        out.extend_from_slice(c.encode_utf8(&mut buf).as_bytes());
                        *p += 4;
                    }
                    c => out.push(c),
                }
                *p += 1;
            }
            c => {
                out.push(c);
                *p += 1;
            }
        }
    }
}

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            J::Null => write!(f, "null"),
            J::B(b) => write!(f, "{b}"),
            J::N(n) => write!(f, "{n}"),
            J::S(s) => {
                f.write_str("\"")?;
                for c in s.chars() {
                    match c {
                        '"' => f.write_str("\\\"")?,
                        '\\' => f.write_str("\\\\")?,
                        '\n' => f.write_str("\\n")?,
                        '\t' => f.write_str("\\t")?,
                        '\r' => f.write_str("\\r")?,
                        c if (c as u32) < 32 => write!(f, "\\u{:04x}", c as u32)?,
                        c => write!(f, "{c}")?,
                    }
                }
                f.write_str("\"")
            }
            J::A(a) => {
                f.write_str("[")?;
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?;
                    }
                    write!(f, "{x}")?;
                }
                f.write_str("]")
            }
            J::O(m) => {
                f.write_str("{")?;
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        f.write_str(",")?;
                    }
                    write!(f, "\"{k}\":{v}")?;
                }
                f.write_str("}")
            }
        }
    }
}
