//! String helpers and platform strings: `osi::str`, `osi::compat`.

use crate::json::J;
use crate::rnd::Rnd;
use crate::{Sink, Sub};
use osi::compat::{OsStr, Write};
use std::fmt::Write as _;
use std::os::unix::ffi::OsStrExt;

pub const SUB: Sub = Sub { name: "str", gen, run };

/// Accepts `cap` bytes, some at a time, sometimes asking for another try.
struct Limited { have: Vec<u8>, cap: usize, piece: usize, calls: usize }

impl std::io::Write for Limited {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.piece > 0 && self.calls % 3 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = b.len().min(self.cap - self.have.len());
        if self.piece > 0 { n = n.min(self.piece); }
        if n == 0 && !b.is_empty() && self.piece > 1 { return Err(std::io::ErrorKind::StorageFull.into()); }
        self.have.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn class(c: char) -> i64 {
    if c.is_numeric() { 2 } else if c.is_alphabetic() { 1 } else { 0 }
}

fn any_char(r: &Rnd) -> char {
    match r.below(8) {
        0 | 1 => r.range(0x20, 0x7e) as u8 as char,
        2 => *r.pick(&['½', '٣', 'é', 'ß', '²', 'Ⅷ', '一', '_', '\u{301}', '\u{0}', '𝟘', '\u{10ffff}']),
        3 => char::from_u32(r.below(0x800) as u32).unwrap(),
        _ => char::from_u32(r.below(0x110000) as u32).unwrap_or('a'),
    }
}

fn number(r: &Rnd) -> String {
    let n = match r.below(5) { 0 => r.range(15, 45), 1 => r.range(19, 21), _ => r.range(1, 4) };
    let z = if r.one_in(3) { r.range(1, 3) } else { 0 };
    "0".repeat(z) + &(0..n).map(|_| *r.pick(&['0', '1', '9', '5'])).collect::<String>()
}

fn natural(r: &Rnd) -> String {
    let mut s = String::new();
    for _ in 0..r.below(5) {
        match r.below(7) {
            0..=2 => s += &number(r),
            3 | 4 => s += *r.pick(&["a", "b", "foo", "-", "A", "aa"]),
            5 => s += *r.pick(&["½", "٣", "é", "²", "９", ":", "/"]),
            _ => s.push(any_char(r)),
        }
    }
    s
}

fn near(r: &Rnd, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    match r.below(4) {
        0 => return s.into(),
        1 if !c.is_empty() => { let k = r.below(c.len()); c[k] = *r.pick(&['0', '1', '9', 'a', '½']); }
        2 => { let k = r.below(c.len() + 1); c.insert(k, *r.pick(&['0', '0', '1', 'a'])); }
        _ if !c.is_empty() => { let k = r.below(c.len()); c.remove(k); }
        _ => {}
    }
    c.into_iter().collect()
}

fn raw(r: &Rnd) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..r.below(6) {
        match r.below(4) {
            0 => v.push(r.range(0x80, 0xff) as u8),
            1 => {
                let mut b = [0; 4];
                let s = any_char(r).encode_utf8(&mut b).as_bytes().to_vec();
                let n = r.range(1, s.len());
                v.extend(&s[..n]);
            }
            2 => v.extend(*r.pick(&[&b"\xed\xa0\x80"[..], b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xe0\x80", b"\xf0\x9f\x92", b"\xe2\x82"])),
            _ => v.push(r.range(0x20, 0x7e) as u8),
        }
    }
    v
}

fn op(k: i64, a: J, b: Option<J>) -> J {
    let mut o = vec![("k", J::N(k)), ("a", a)];
    if let Some(b) = b { o.push(("b", b)); }
    J::obj(o)
}

fn symbol_op(s: &str) -> J {
    J::obj(vec![
        ("k", J::N(1)),
        ("a", J::from_text(s)),
        ("cls", J::from_ints(&s.chars().map(class).collect::<Vec<_>>())),
    ])
}

fn gen(r: &Rnd, idx: u64, prof: &str) -> J {
    let mut ops = Vec::new();
    let cap = if r.one_in(2) { r.below(40) } else { 100000 };
    match prof {
        // Long runs, different at their ends if at all.
        "bignatural" => {
            let unit = *r.pick(&["7", "0", "a", "9", "\u{e9}", "a1", "00001b"]);
            let n = r.big(if unit.ends_with(['1', 'b']) { 7 } else { 16 });
            let a = format!("{}{}{}", natural(r), unit.repeat(n), natural(r));
            let near_end = |r: &Rnd, s: &str| {
                let at = s.char_indices().rev().nth(r.below(4)).map_or(0, |v| v.0);
                format!("{}{}", &s[..at], near(r, &s[at..]))
            };
            let b = if r.one_in(2) { near_end(r, &a) } else { near(r, &a) };
            let c = if r.one_in(2) { near_end(r, &b) } else { near(r, &b) };
            for (x, y) in [(&a, &b), (&b, &c), (&a, &c), (&b, &a), (&a, &a)] {
                ops.push(op(0, J::from_text(x), Some(J::from_text(y))));
            }
        }
        "natural" => {
            // Triples, to exercise the laws of order.
            let a = natural(r);
            let b = if r.one_in(2) { near(r, &a) } else { natural(r) };
            let c = if r.one_in(2) { near(r, &b) } else { natural(r) };
            for (x, y) in [(&a, &b), (&b, &c), (&a, &c), (&b, &a), (&c, &b), (&c, &a), (&a, &a)] {
                ops.push(op(0, J::from_text(x), Some(J::from_text(y))));
            }
        }
        // Consecutive characters, as a whole and one by one.
        "chars" => {
            let all: Vec<char> = (idx as u32 % 4352 * 256..).take(256).filter_map(char::from_u32).collect();
            ops.push(symbol_op(&all.iter().collect::<String>()));
            for c in all.iter().filter(|c| class(**c) == 2 || r.one_in(40)) { ops.push(symbol_op(&c.to_string())); }
        }
        _ => {
            let big = prof == "big";
            let s: String = (0..if big { r.big(9) } else { r.below(8) }).map(|_| any_char(r)).collect();
            ops.push(symbol_op(&s));
            ops.push(op(2, J::from_text(&s), None));
            let (mut a, b) = (raw(r), raw(r));
            if big { a = [if r.one_in(2) { b"a".repeat(r.big(16)) } else { r.pick(&["\u{e9}", "\u{20ac}"]).as_bytes().repeat(r.big(8)) }, a].concat(); }
            for k in 3..=6 { ops.push(op(k, J::from_bytes(&a), None)); }
            ops.push(op(4, J::from_bytes(s.as_bytes()), None));
            let b = if r.one_in(3) { let mut c = a.clone(); c.push(0); c } else { b };
            ops.push(op(7, J::from_bytes(&a), Some(J::from_bytes(&b))));
            for _ in 0..r.below(4) {
                let s: String = (0..if big { r.big(10) } else { r.below(10) }).map(|_| any_char(r)).collect();
                ops.push(op(8 + r.below(2) as i64, J::from_bytes(s.as_bytes()), None));
            }
        }
    }
    J::obj(vec![("cap", J::N(cap as i64)), ("piece", J::N(r.below(4) as i64)), ("ops", J::A(ops))])
}

fn chars(s: &str) -> Vec<i64> { s.chars().map(|c| c as i64).collect() }
fn ints(s: &[u8]) -> Vec<i64> { s.iter().map(|c| *c as i64).collect() }

fn utf8(v: Result<&[u8], std::str::Utf8Error>) -> Vec<i64> {
    match v {
        Ok(v) => { let mut o = vec![1]; o.extend(ints(v)); o }
        Err(e) => vec![0, e.valid_up_to() as i64, e.error_len().unwrap_or(0) as i64],
    }
}

fn run(input: &J, sink: &mut Sink) {
    let mut w = Write(Limited {
        have: Vec::new(),
        cap: input.get("cap").int() as usize,
        piece: input.get("piece").int() as usize,
        calls: 0,
    });
    for op in input.get("ops").arr() {
        let k = op.get("k").int();
        let a = op.get("a");
        let obs = match k {
            0 => vec![osi::str::cmp_natural(&a.text(), &op.get("b").text()) as i64],
            1 => chars(&osi::str::symbolize(&a.text())),
            2 => {
                let s = a.text();
                match osi::str::some(&s) {
                    None => vec![0],
                    Some(v) => {
                        assert!(v.as_ptr() == s.as_ptr(), "another string");
                        let mut o = vec![1];
                        o.extend(chars(v));
                        o
                    }
                }
            }
            3 => utf8(OsStr::from_utf8(&a.bytes()).map(|v| v.as_encoded_bytes())),
            4..=7 => {
                let a = a.bytes();
                // Every way to make one of the bytes.
                let std = std::ffi::OsStr::from_bytes(&a);
                let mut made: Vec<&OsStr> = vec![
                    OsStr::from_osstr(std),
                    <&OsStr>::from(std),
                    unsafe { OsStr::from_encoded_bytes_unchecked(&a) },
                ];
                if let Ok(s) = std::str::from_utf8(&a) {
                    made.push(OsStr::from_str(s));
                    made.push(<&OsStr>::from(s));
                    made.push(OsStr::from_utf8(&a).unwrap());
                }
                let mut all: Vec<Vec<i64>> = made.iter().map(|m| match k {
                    4 => utf8(m.to_str().map(|v| v.as_bytes())),
                    5 => chars(&m.to_string_lossy()),
                    6 => {
                        let std: &std::ffi::OsStr = m.as_ref();
                        assert!(std == m.as_osstr() && std.as_bytes() == m.as_encoded_bytes(), "conversions");
                        ints(std.as_bytes())
                    }
                    _ => {
                        let b = op.get("b").bytes();
                        let b = OsStr::from_osstr(std::ffi::OsStr::from_bytes(&b));
                        let c = (*m).cmp(b);
                        assert!(m.partial_cmp(&b) == Some(c) && (*m == b) == c.is_eq(), "comparisons");
                        vec![c as i64]
                    }
                }).collect();
                assert!(all.iter().all(|v| *v == all[0]), "constructors");
                all.swap_remove(0)
            }
            8 | 9 => {
                let s = String::from_utf8(a.bytes()).unwrap();
                let r = if k == 8 { w.write_str(&s) } else {
                    let at = s.char_indices().nth(s.chars().count() / 2).map_or(s.len(), |v| v.0);
                    w.write_fmt(format_args!("{}{}", &s[..at], &s[at..]))
                };
                let mut o = vec![r.is_ok() as i64];
                o.extend(ints(&w.0.have));
                o
            }
            _ => panic!("vh: op"),
        };
        sink.push(obs);
    }
}
