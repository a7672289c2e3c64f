//! Push-based JSON tokenizer: `osi::json::token`.

use crate::json::J;
use crate::rnd::Rnd;
use crate::{Sink, Sub};
use osi::json::token::*;
use std::ops::ControlFlow;

pub const SUB: Sub = Sub { name: "jsontok", gen, run };

fn text(o: &mut Vec<i64>, s: &str) {
    o.push(s.chars().count() as i64);
    o.extend(s.chars().map(|c| c as i64));
}

fn digits(o: &mut Vec<i64>, s: &[u8]) {
    o.push(s.len() as i64);
    o.extend(s.iter().map(|c| *c as i64));
}

fn sign(s: Sign) -> i64 {
    match s { Sign::Plus => 0, Sign::Minus => 1 }
}

fn enc_token(t: &Token<'_>) -> Vec<i64> {
    let mut o = Vec::new();
    match t {
        Token::Colon => o.push(1),
        Token::Comma => o.push(2),
        Token::ArrayOpen => o.push(3),
        Token::ArrayClose => o.push(4),
        Token::ObjectOpen => o.push(5),
        Token::ObjectClose => o.push(6),
        Token::Null => o.push(7),
        Token::False => o.push(8),
        Token::True => o.push(9),
        Token::Whitespace { raw } => { o.push(10); text(&mut o, raw); }
        Token::Number { raw, integer, fraction, exponent, integer_sign, exponent_sign } => {
            o.extend([11, sign(*integer_sign), sign(*exponent_sign)]);
            text(&mut o, raw);
            digits(&mut o, integer);
            digits(&mut o, fraction);
            digits(&mut o, exponent);
        }
        Token::String { raw, chars } => { o.push(12); text(&mut o, raw); text(&mut o, chars); }
    }
    o
}

fn enc_error(e: &Error<'_>) -> Vec<i64> {
    let mut o = Vec::new();
    match e {
        Error::CharacterStray(c) => o.extend([21, *c as i64]),
        Error::KeywordUnknown(s) => { o.push(22); text(&mut o, s); }
        Error::NumberIncomplete => o.push(23),
        Error::StringIncomplete => o.push(24),
        Error::StringCharacterInvalid(c) => o.extend([25, *c as i64]),
        Error::StringEscapeInvalid(c) => o.extend([26, *c as i64]),
        Error::StringEscapeIncomplete => o.push(27),
        Error::StringSurrogateUnpaired => o.push(28),
        Error::Comment(s) => { o.push(29); text(&mut o, s); }
    }
    o
}

struct Rec { n: i64, brk: i64, o: Vec<i64> }

impl Rec {
    fn add(&mut self, a: Vec<i64>, owned: Vec<i64>) -> ControlFlow<i64> {
        self.n += 1;
        if a != owned { self.o.push(-998); }
        self.o.extend(a);
        if self.n == self.brk { ControlFlow::Break(self.n) } else { ControlFlow::Continue(()) }
    }
}

impl Report<i64> for Rec {
    fn report_error(&mut self, e: Error<'_>) -> ControlFlow<i64> {
        let a = enc_error(&e);
        self.add(a, enc_error(&e.own()))
    }
    fn report_token(&mut self, t: Token<'_>) -> ControlFlow<i64> {
        let a = enc_token(&t);
        self.add(a, enc_token(&t.own()))
    }
}

fn st(s: Status) -> i64 {
    match s { Status::Done => 0, Status::Busy => 1 }
}

fn run(input: &J, sink: &mut Sink) {
    let f = input.get("f").int();
    let mut t = if f == 0 { Tokenizer::new() } else { Tokenizer::with_flags(f as u32) };
    for op in input.get("ops").arr() {
        let mut rec = Rec { n: 0, brk: op.get("b").int(), o: Vec::new() };
        let v = op.get("v").text();
        let m = op.get("m").int();
        let r = match (op.get("k").int(), m) {
            (0, 0) => t.push_str(&mut rec, &v),
            (0, _) => {
                let mut r = ControlFlow::Continue(t.status());
                for c in v.chars() {
                    r = t.push(&mut rec, Some(c));
                    if r.is_break() { break; }
                }
                r
            }
            (1, _) => t.parse_str(&mut rec, &v),
            (2, _) => { t.reset(); ControlFlow::Continue(t.status()) }
            (3, _) => t.push(&mut rec, None),
            (4, _) => { t = t.clone(); ControlFlow::Continue(t.status()) }
            _ => panic!("vh: op"),
        };
        let ret = match r {
            ControlFlow::Continue(s) => st(s),
            // The receiver's own value has to come back.
            ControlFlow::Break(v) => if v == rec.brk { 2 } else { -997 },
        };
        let mut o = vec![ret, st(t.status()), rec.n];
        o.extend(rec.o);
        sink.push(o);
    }
}

const PIECES: &[&str] = &[
    "{", "}", "[", "]", ":", ",", " ", "\n", "\t", "\r", "  ", "\r\n", "\u{a0}", "\u{2003}", "\u{85}", "\x0b",
    "null", "true", "false", "nul", "nulll", "True", "a", "Z", "_", "abc", "\u{e9}", "\u{1f600}", "\x00", "\x1f", "\x7f",
    "0", "1", "9", "12", "007", "-", "+", "-0", "-1", "+5", "+0", ".", "0.5", "1.25", "1.", "1.0e5", "e", "E", "1e", "1e+",
    "2E-7", "3e+08", "-0.0e-0", "10", "100200", "1.x", "-x", "1e-x", "--1", "1-2", "1+2", "12a", "0x1f", "01.5",
    "\"", "\"\"", "\"a\"", "\"\\\"\"", "\"\\n\"", "\"\\u0041\"", "\"\\ud834\\udd1e\"", "\"x", "\\", "\"\\", "\"\\u", "\"\\u12",
    "\\u", "\\ud800", "\\udc00", "\\uD83D\\uDE00", "\\u00e9", "\\b\\f\\n\\r\\t\\/\\\\\\\"", "\\x", "\\u12G4", "\u{10ffff}", "\u{fffd}",
    "#", "# c\n", "//", "// c\n", "/", "/x", "/*", "/**/", "=", "=>", "==", "/ ", "#\"", "'", "'a'", ";", "`", "(", "@", "$", "\u{feff}",
    "{\"a\":[1,2,{\"b\":null}],\"c\":\"d\"}", "[true,false,-1.5e10]",
];

const STRPIECES: &[&str] = &[
    "a", "zZ", " ", "'", "/", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\a", "\\U", "\\0", "\\ ", "\\\u{e9}",
    "\\u0000", "\\u0041", "\\u00E9", "\\uFFFF", "\\ufffe", "\\uE000", "\\uD7FF", "\\ud800", "\\uDBFF", "\\udc00", "\\uDFFF",
    "\\ud800\\udc00", "\\uDBFF\\uDFFF", "\\ud834\\udd1e", "\\ud800\\ud800", "\\ud800\\u0041", "\\ud800\\n", "\\ud800\\q", "\\ud800x",
    "\\ud800\\uZ", "\\ud800\\ud8\\", "\\ud83d\\u", "\\u", "\\u1", "\\u12", "\\u123", "\\u123g", "\\uG", "\\u\\n", "\\u00\\u0041",
    "\n", "\t", "\x00", "\x1e", "\x1f", "\x20", "\x7f", "\u{80}", "\u{e9}", "\u{2028}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{1f600}",
    "0", "1", "f", "F", "u", "b", "n", "d800", "dc00",
];

fn number(r: &Rnd) -> String {
    let mut s = String::new();
    let digs = |r: &Rnd, s: &mut String, lo: usize| {
        let n = if r.one_in(12) { r.range(lo, 40) } else { r.range(lo, 4) };
        for _ in 0..n { s.push((b'0' + r.below(10) as u8) as char); }
    };
    match r.below(6) { 0 | 1 => s.push('-'), 2 => s.push('+'), _ => {} }
    match r.below(4) { 0 => s.push('0'), 1 => { s.push('0'); digs(r, &mut s, 0); } _ => digs(r, &mut s, if r.one_in(12) { 0 } else { 1 }) }
    if r.one_in(2) { s.push('.'); digs(r, &mut s, if r.one_in(6) { 0 } else { 1 }); }
    if r.one_in(2) {
        s.push(*r.pick(&['e', 'E']));
        match r.below(3) { 0 => s.push('+'), 1 => s.push('-'), _ => {} }
        digs(r, &mut s, if r.one_in(6) { 0 } else { 1 });
    }
    s
}

fn any_char(r: &Rnd) -> char {
    loop {
        let v = match r.below(6) {
            0 => r.below(0x20),
            1 | 2 => r.below(0x80),
            3 => r.below(0x300),
            4 => 0x2000 + r.below(0x70),
            _ => r.below(0x110000),
        };
        if let Some(c) = char::from_u32(v as u32) { return c; }
    }
}

fn string(r: &Rnd) -> String {
    let mut s = String::from("\"");
    for _ in 0..r.small(10) {
        match r.below(8) {
            0 => s.push(any_char(r)),
            1 => s.push_str(&format!("\\u{:04x}", r.below(65536))),
            2 => s.push_str(&format!("\\u{:04x}\\u{:04X}", 0xd800 + r.below(0x400), 0xdc00 + r.below(0x400))),
            _ => s.push_str(r.pick(STRPIECES)),
        }
    }
    if !r.one_in(10) { s.push('"'); }
    s
}

/// A well-formed value.
fn value(r: &Rnd, depth: usize, o: &mut String) {
    let sp = |r: &Rnd, o: &mut String| if r.one_in(4) { o.push_str(r.pick(&[" ", "\n", "\t ", "\r\n", "   "])) };
    sp(r, o);
    match r.below(if depth == 0 { 6 } else { 9 }) {
        0 => o.push_str("null"),
        1 => o.push_str("true"),
        2 => o.push_str("false"),
        3 => { let n = r.next() as i32; o.push_str(&n.to_string()) }
        4 => o.push_str(r.pick(&["0", "-0", "0.0", "-1.5e-3", "1E9", "12.5", "1e+10", "0e0", "123456789.987654321"])),
        5 => {
            o.push('"');
            for _ in 0..r.below(6) {
                match r.below(4) {
                    0 => o.push_str(r.pick(&["\\n", "\\u00e9", "\\ud834\\udd1e", "\\\\", "\\\"", "\\/"])),
                    1 => { let c = any_char(r); if c >= ' ' && c != '"' && c != '\\' { o.push(c) } }
                    _ => o.push((b'a' + r.below(26) as u8) as char),
                }
            }
            o.push('"');
        }
        6 | 7 => {
            o.push('[');
            for i in 0..r.below(4) { if i > 0 { o.push(','); } value(r, depth - 1, o); }
            sp(r, o);
            o.push(']');
        }
        _ => {
            o.push('{');
            for i in 0..r.below(4) {
                if i > 0 { o.push(','); }
                sp(r, o);
                o.push_str(&format!("\"k{i}\":"));
                value(r, depth - 1, o);
            }
            o.push('}');
        }
    }
    sp(r, o);
}

fn any_text(r: &Rnd, max: usize) -> String {
    let mut s = String::new();
    match r.below(8) {
        0 => value(r, 3, &mut s),
        1 => {
            // A well-formed text, damaged.
            value(r, 3, &mut s);
            let mut v: Vec<char> = s.chars().collect();
            for _ in 0..r.range(1, 3) {
                let at = r.below(v.len() + 1);
                match r.below(3) {
                    0 if at < v.len() => { v.remove(at); }
                    1 if at < v.len() => { v[at] = any_char(r); }
                    _ => v.insert(at, any_char(r)),
                }
            }
            s = v.into_iter().collect();
        }
        _ => for _ in 0..r.range(0, max) {
            match r.below(12) {
                0 => s.push(any_char(r)),
                1 => s.push_str(&number(r)),
                2 => s.push_str(&string(r)),
                _ => s.push_str(r.pick(PIECES)),
            }
        }
    }
    s
}

fn long(r: &Rnd) -> String {
    let n = r.range(4090, 4500);
    match r.below(5) {
        0 => format!("\"{}\\u0041{}\"", "a".repeat(n), "\u{e9}".repeat(9)),
        1 => format!("-{}.{}e{}", "9".repeat(n / 2), "01".repeat(n / 4), "7".repeat(n / 4)),
        2 => " ".repeat(n) + "x",
        3 => "k".repeat(n) + " true",
        _ => format!("# {}\nnull", "c".repeat(n)),
    }
}

/// Tokens larger than any buffer size one would think of, each followed by
/// others; and many tokens.
fn big(kind: u64, n: usize) -> String {
    match kind {
        0 => " \n".repeat(n / 2) + "true",
        1 => "k".repeat(n) + " true",
        2 => format!("# {}\nnull", "c".repeat(n)),
        3 => format!("//{}\nnull", "c".repeat(n)),
        4 => format!("-{} 1", "9".repeat(n)),
        5 => format!("0.{} 1", "120".repeat(n / 3)),
        6 => format!("1e-{} 1", "7".repeat(n)),
        7 => format!("-{}.{}E{}x", "98".repeat(n / 6), "01".repeat(n / 6), "7".repeat(n / 3)),
        8 => format!("\"{}\" 1", "a".repeat(n)),
        9 => format!("\"{}\\ud834\" 1", "\\u00e9".repeat(n / 6)),
        10 => format!("\"{}\" 1", "\\ud834\\udd1e\u{1f600}".repeat(n / 13)),
        11 => format!("\"{}", "\\n".repeat(n / 2)),
        12 => "[".repeat(n / 16) + &"]".repeat(n / 16),
        13 => "1,".repeat(n / 16),
        14 => "\u{a0}".repeat(n / 8) + "null",
        _ => "00".repeat(n / 2) + " \"\" +1",
    }
}

fn op(k: i64, v: &str, b: i64, m: i64) -> J {
    J::obj(vec![("k", J::N(k)), ("v", J::from_text(v)), ("b", J::N(b)), ("m", J::N(m))])
}

fn gen(r: &Rnd, idx: u64, prof: &str) -> J {
    let mut ops = Vec::new();
    let f = if r.one_in(2) { 0 } else { r.below(4) as i64 };
    match prof {
        "text" => {
            for _ in 0..3 {
                let s = any_text(r, 10);
                ops.push(op(1, &s, 0, 0));
            }
            if idx % 512 == 7 { ops = vec![op(1, &long(r), 0, 0), op(1, &any_text(r, 6), 0, 0)]; }
        }
        "hist" => {
            let s: Vec<char> = if idx % 512 == 7 { long(r) } else { any_text(r, 12) + &any_text(r, 4) }.chars().collect();
            let mut at = 0;
            while at < s.len() {
                let n = if idx % 512 == 7 { r.range(500, 3000) } else { r.range(0, if r.one_in(3) { 12 } else { 4 }) }.min(s.len() - at);
                let p: String = s[at..at + n].iter().collect();
                at += n;
                let brk = if r.one_in(6) { r.range(1, 3) as i64 } else { 0 };
                match r.below(24) {
                    0 => ops.push(op(2, "", 0, 0)),
                    1 => ops.push(op(3, "", brk, 0)),
                    2 => ops.push(op(4, "", 0, 0)),
                    3 => ops.push(op(1, &p, brk, 0)),
                    _ => ops.push(op(0, &p, brk, r.below(2) as i64)),
                }
            }
            ops.push(op(3, "", if r.one_in(8) { 1 } else { 0 }, 0));
        }
        "lit" => match idx % 4 {
            0 => for _ in 0..4 { ops.push(op(1, &(number(r) + r.pick(&["", " ", ",", "x", "]", "\""])), 0, 0)); },
            1 => for _ in 0..4 { ops.push(op(1, &string(r), 0, 0)); },
            2 => for _ in 0..4 {
                let v = match r.below(3) { 0 => r.range(0xd7f0, 0xe00f), _ => r.below(65536) };
                let w = match r.below(3) { 0 => r.below(65536), _ => r.range(0xdbf0, 0xe00f) };
                let s = if r.one_in(2) { format!("\"\\u{v:04x}\"") } else { format!("\"\\u{v:04X}\\u{w:04x}x\"") };
                ops.push(op(1, &s, 0, 0));
            },
            _ => for _ in 0..3 {
                let mut s = String::from("\"");
                for _ in 0..6 { s.push(any_char(r)); }
                s.push('"');
                ops.push(op(1, &s, 0, 0));
            },
        },
        "bigtok" | "biglit" => {
            let k = idx % 8;
            let k = if prof == "biglit" { k + 4 } else if k < 4 { k } else { k + 8 };
            let s = big(k, if idx < 8 { 4200 } else { 66000 });
            ops.push(op(1, &s, 0, 0));
            ops.push(op(1, &any_text(r, 6), 0, 0));
        }
        // All \u escapes, 64 in each case.
        "units" => for k in 0..64u64 {
            let v = idx * 64 + k;
            ops.push(op(1, &if r.one_in(2) { format!("\"\\u{v:04x}\"") } else { format!("\"\\u{v:04X}\"") }, 0, 0));
        },
        // Every character of the lower planes between others, 64 in each case.
        "chars" => for k in 0..64u64 {
            if let Some(c) = char::from_u32((idx * 64 + k) as u32) {
                ops.push(op(1, &format!("a{c}b {c}1{c}"), 0, 0));
            }
        },
        _ => panic!("vh: profile"),
    }
    J::obj(vec![("f", J::N(f)), ("ops", J::A(ops))])
}
