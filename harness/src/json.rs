//! Minimal JSON: integers, strings, arrays, objects.

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    N(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v)
                .unwrap_or_else(|| panic!("vh: no key {k}")),
            _ => panic!("vh: not an object"),
        }
    }
    pub fn int(&self) -> i64 {
        match self { J::N(v) => *v, _ => panic!("vh: not an int: {self:?}") }
    }
    pub fn str(&self) -> &str {
        match self { J::S(v) => v, _ => panic!("vh: not a string") }
    }
    pub fn arr(&self) -> &[J] {
        match self { J::A(v) => v, _ => panic!("vh: not an array: {self:?}") }
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|v| v.int()).collect()
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.arr().iter().map(|v| v.int() as u8).collect()
    }
    /// Sequence of code points.
    pub fn text(&self) -> String {
        self.arr().iter().map(|v| char::from_u32(v.int() as u32).unwrap()).collect()
    }
    pub fn from_ints(v: &[i64]) -> J {
        J::A(v.iter().map(|v| J::N(*v)).collect())
    }
    pub fn from_bytes(v: &[u8]) -> J {
        J::A(v.iter().map(|v| J::N(*v as i64)).collect())
    }
    pub fn from_text(v: &str) -> J {
        J::A(v.chars().map(|v| J::N(v as i64)).collect())
    }
    pub fn obj(v: Vec<(&str, J)>) -> J {
        J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::N(v) => o.push_str(&v.to_string()),
            J::S(v) => {
                o.push('"');
                for c in v.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 || (c as u32) > 126 =>
                            panic!("vh: strings are plain ASCII"),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, e) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    e.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, e)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    J::S(k.clone()).write(o);
                    o.push(':');
                    e.write(o);
                }
                o.push('}');
            }
        }
    }
    pub fn render(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o
    }
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut p = 0;
        let v = value(b, &mut p);
        ws(b, &mut p);
        assert!(p == b.len(), "vh: trailing data in JSON");
        v
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && b[*p].is_ascii_whitespace() { *p += 1; }
}

fn value(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'{' => {
            let mut v = Vec::new();
            *p += 1;
            loop {
                ws(b, p);
                match b[*p] {
                    b'}' => { *p += 1; break; }
                    b',' => { *p += 1; }
                    _ => {
                        let k = string(b, p);
                        ws(b, p);
                        assert!(b[*p] == b':');
                        *p += 1;
                        v.push((k, value(b, p)));
                    }
                }
            }
            J::O(v)
        }
        b'[' => {
            let mut v = Vec::new();
            *p += 1;
            loop {
                ws(b, p);
                match b[*p] {
                    b']' => { *p += 1; break; }
                    b',' => { *p += 1; }
                    _ => v.push(value(b, p)),
                }
            }
            J::A(v)
        }
        b'"' => J::S(string(b, p)),
        b't' => { *p += 4; J::N(1) }
        b'f' => { *p += 5; J::N(0) }
        _ => {
            let s = *p;
            while *p < b.len() && (b[*p] == b'-' || b[*p].is_ascii_digit()) { *p += 1; }
            J::N(core::str::from_utf8(&b[s..*p]).unwrap().parse().unwrap())
        }
    }
}

fn string(b: &[u8], p: &mut usize) -> String {
    assert!(b[*p] == b'"');
    *p += 1;
    let mut o = String::new();
    while b[*p] != b'"' {
        if b[*p] == b'\\' { *p += 1; }
        o.push(b[*p] as char);
        *p += 1;
    }
    *p += 1;
    o
}
