//! A small JSON reader and writer: integers, strings, booleans, arrays, objects.
use std::fmt::Write;

#[derive(Debug, Clone, PartialEq)]
pub enum J {
    B(bool),
    N(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn at(&self, k: &str) -> &J {
        self.get(k).unwrap_or_else(|| bad(&format!("no field {} in {:?}", k, self)))
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => bad("string expected"),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::N(n) => *n,
            _ => bad("integer expected"),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::B(b) => *b,
            _ => bad("boolean expected"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => bad("array expected"),
        }
    }
    pub fn opt(&self) -> Option<&J> {
        self.arr().first()
    }
}

/// A request the driver should not have made: not the fault of the code under test.
pub fn bad(msg: &str) -> ! {
    eprintln!("bad request: {}", msg);
    std::process::exit(3)
}

pub fn s(v: &str) -> J {
    J::S(v.to_string())
}
pub fn n(v: usize) -> J {
    J::N(v as i64)
}
pub fn opt(v: Option<J>) -> J {
    J::A(v.into_iter().collect())
}
pub fn obj(fields: Vec<(&str, J)>) -> J {
    J::O(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
#[macro_export]
macro_rules! o {
    ($($k:ident : $v:expr),* $(,)?) => { $crate::json::obj(vec![$((stringify!($k), $v)),*]) };
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && self.b[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.b.get(self.i).unwrap_or_else(|| bad("truncated JSON"))
    }
    fn value(&mut self) -> J {
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = Vec::new();
                while self.peek() != b'}' {
                    if self.peek() == b',' {
                        self.i += 1;
                        self.ws();
                    }
                    let k = self.string();
                    if self.peek() != b':' {
                        bad("colon expected")
                    }
                    self.i += 1;
                    v.push((k, self.value()));
                }
                self.i += 1;
                J::O(v)
            }
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                while self.peek() != b']' {
                    if self.peek() == b',' {
                        self.i += 1;
                    }
                    v.push(self.value());
                }
                self.i += 1;
                J::A(v)
            }
            b'"' => J::S(self.string()),
            b't' => {
                self.i += 4;
                J::B(true)
            }
            b'f' => {
                self.i += 5;
                J::B(false)
            }
            _ => {
                let start = self.i;
                while self.i < self.b.len()
                    && (self.b[self.i] == b'-' || self.b[self.i].is_ascii_digit())
                {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.b[start..self.i]).unwrap();
                J::N(t.parse().unwrap_or_else(|_| bad("number expected")))
            }
        }
    }
    fn hex(&mut self) -> u32 {
        let h = std::str::from_utf8(&self.b[self.i..self.i + 4]).unwrap();
        self.i += 4;
        u32::from_str_radix(h, 16).unwrap()
    }

    fn string(&mut self) -> String {
        if self.peek() != b'"' {
            bad("string expected")
        }
        self.i += 1;
        let mut out = Vec::new();
        loop {
            let c = *self.b.get(self.i).unwrap_or_else(|| bad("truncated string"));
            self.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    let e = self.b[self.i];
                    self.i += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'u' => {
                            let mut c = self.hex();
                            // Two halves of one character.
                            if c >> 10 == 0x36 && self.b[self.i..].starts_with(b"\\u") {
                                self.i += 2;
                                c = 0x10000 + ((c & 0x3FF) << 10) + (self.hex() & 0x3FF);
                            }
                            let c = std::char::from_u32(c).unwrap_or('\u{FFFD}');
                            let mut t = [0; 4];
                            out.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                        }
                        c => out.push(c),
                    }
                }
                c => out.push(c),
            }
        }
        String::from_utf8(out).unwrap_or_else(|_| bad("string is not UTF-8"))
    }
}

pub fn parse(t: &str) -> J {
    P { b: t.as_bytes(), i: 0 }.value()
}

pub fn write(j: &J, out: &mut String) {
    match j {
        J::B(b) => out.push_str(if *b { "true" } else { "false" }),
        J::N(n) => write!(out, "{}", n).unwrap(),
        J::S(s) => {
            out.push('"');
            for c in s.chars() {
                match c {
                    '"' => out.push_str("\\\""),
                    '\\' => out.push_str("\\\\"),
                    c if (c as u32) < 32 => write!(out, "\\u{:04x}", c as u32).unwrap(),
                    c => out.push(c),
                }
            }
            out.push('"');
        }
        J::A(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write(x, out);
            }
            out.push(']');
        }
        J::O(v) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write!(out, "\"{}\":", k).unwrap();
                write(x, out);
            }
            out.push('}');
        }
    }
}
