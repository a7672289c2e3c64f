//! JSON from streams: `tmp::fmt::json`.

use crate::buf::Arriving;
use crate::json::J;
use crate::rnd::Rnd;
use crate::{Sink, Sub};
use std::cell::Cell;
use std::ops::ControlFlow as Flow;
use tmp::fmt::json::{stream, token};
use tmp::io::stream::{More, Read};

pub const SUB: Sub = Sub { name: "tok", gen, run };

/// Lets the other side see and feed the stream while it is borrowed.
struct Source<'a> {
    inner: std::cell::UnsafeCell<Arriving>,
    slice: Option<&'a [u8]>,
    gone: Cell<usize>,
}

impl<'a> Source<'a> {
    fn arrive(&self, n: usize) {
        let a = unsafe { &mut *self.inner.get() };
        a.avail = (a.avail + n).min(a.data.len());
    }
    fn left(&self) -> usize {
        match self.slice {
            Some(v) => v.len() - self.gone.get(),
            None => unsafe { &*self.inner.get() }.avail,
        }
    }
}

struct Handle<'a, 'b>(&'b Source<'a>, &'a [u8]);

impl<'a, 'b> Read for Handle<'a, 'b> {
    fn advance(&mut self, len: usize) {
        self.0.gone.set(self.0.gone.get() + len);
        match self.0.slice {
            Some(_) => self.1.advance(len),
            None => unsafe { &mut *self.0.inner.get() }.advance(len),
        }
    }
    fn map(&self, min: usize, max: Option<usize>) -> Flow<More, &[u8]> {
        match self.0.slice {
            Some(_) => self.1.map(min, max),
            None => unsafe { &*self.0.inner.get() }.map(min, max),
        }
    }
}

fn text(o: &mut Vec<i64>, v: &[u8]) {
    o.push(v.len() as i64);
    o.extend(v.iter().map(|b| *b as i64));
}

fn wrong(o: &mut Vec<i64>, e: core::str::Utf8Error) {
    o.push(e.valid_up_to() as i64);
    o.push(e.error_len().unwrap_or(0) as i64);
}

fn sign(s: token::Sign) -> i64 {
    (s == token::Sign::Minus) as i64
}

fn token(t: token::Token) -> Vec<i64> {
    use token::{Error as E, Token as T};
    let mut o = Vec::new();
    let raw = |o: &mut Vec<i64>, v: &[u8]| o.extend(v.iter().map(|b| *b as i64));
    match t {
        T::Whitespace { raw: r, str } => {
            assert!(r == str.as_bytes(), "raw and text");
            o.push(1);
            raw(&mut o, r);
        }
        T::Colon => o.push(2),
        T::Comma => o.push(3),
        T::ArrayOpen => o.push(4),
        T::ArrayClose => o.push(5),
        T::ObjectOpen => o.push(6),
        T::ObjectClose => o.push(7),
        T::Null => o.push(8),
        T::False => o.push(9),
        T::True => o.push(10),
        T::Number(n) => {
            o.push(11);
            text(&mut o, n.raw);
            o.push(sign(n.sign));
            text(&mut o, n.integer.as_bytes());
            match n.fraction { None => o.push(-1), Some(f) => text(&mut o, f.as_bytes()) }
            match n.exponent { None => o.push(-1), Some((s, e)) => { o.push(sign(s)); text(&mut o, e.as_bytes()) } }
        }
        T::String { raw: r, str } => { o.push(12); text(&mut o, r); raw(&mut o, str.as_bytes()); }
        T::Error(e) => match e {
            E::BufferRemaining => o.push(20),
            E::BufferChanged => o.push(21),
            E::ItemNonUtf8 { raw: r, error } => { o.push(22); wrong(&mut o, error); raw(&mut o, r); }
            E::ItemUnknown { raw: r, str } => {
                assert!(r == str.as_bytes(), "raw and text");
                o.push(23);
                raw(&mut o, r);
            }
            E::NumberIncomplete => o.push(24),
            E::NumberLeadingPlus => o.push(25),
            E::NumberMultipleSigns => o.push(26),
            E::NumberRangeEmpty => o.push(27),
            E::StringIncomplete => o.push(28),
            E::StringNonUtf8 { raw: r, str, error } => { o.push(29); wrong(&mut o, error); text(&mut o, r); raw(&mut o, str); }
            E::StringUnescaped { code } => o.extend([30, code as i64]),
            E::StringEscapeUnknown { code } => o.extend([31, code as i64]),
            E::StringEscapeInvalid => o.push(32),
            E::StringEscapeUnpairedLeadSurrogate { lead } => o.extend([33, lead as i64]),
            E::StringEscapeUnpairedTrailSurrogate { trail } => o.extend([34, trail as i64]),
        },
    }
    o
}

fn item(i: stream::Item) -> Vec<i64> {
    use stream::Item as I;
    vec![match i {
        I::Error(_) => 1,
        I::Prim => 2,
        I::Key => 3,
        I::ArrayOpen => 4,
        I::ArrayClose => 5,
        I::ObjectOpen => 6,
        I::ObjectClose => 7,
    }]
}

enum Dec<'a> {
    Tok(token::Dec<'a>),
    Tree(stream::Dec<'a>),
}

fn run(input: &J, sink: &mut Sink) {
    let data = input.get("data").bytes();
    let source = Source {
        inner: Arriving { data: data.clone(), avail: 0, extra: input.get("chunk").int() as usize }.into(),
        slice: if input.get("kind").int() == 0 { Some(&data) } else { None },
        gone: Cell::new(0),
    };
    let mut handle = Handle(&source, &data);
    let mut dec = match input.get("m").int() {
        0 => Dec::Tok(token::Dec::with(&mut handle)),
        _ => Dec::Tree(stream::Dec::with(&mut handle)),
    };
    let mut pop = |dec: &mut Dec| -> Vec<i64> {
        let (more, o) = match dec {
            Dec::Tok(d) => match d.pop() { Flow::Break(m) => (Some(m), vec![0]), Flow::Continue(t) => (None, token(t)) },
            Dec::Tree(d) => match d.pop() { Flow::Break(m) => (Some(m), vec![0]), Flow::Continue(t) => (None, item(t)) },
        };
        if let Some(m) = more {
            assert!(m.min > source.left() && m.max.is_none_or(|x| x >= m.min), "asks for {:?} of {}", m.min, source.left());
        }
        o
    };
    let complete = |dec: &mut Dec| -> Vec<i64> {
        match dec {
            Dec::Tok(d) => match d.complete() { None => vec![-1, source.gone.get() as i64], Some(t) => token(t) },
            _ => panic!("vh: op"),
        }
    };
    for op in input.get("ops").arr() {
        let mut o = Vec::new();
        let mut all = |dec: &mut Dec, f: &mut dyn FnMut(&mut Dec) -> Vec<i64>, end: i64| {
            for _ in 0..4 * data.len() + 8 {
                let v = f(dec);
                let last = v[0] == end;
                o.extend(v);
                if last { return; }
                o.push(-9);
            }
            panic!("no end");
        };
        sink.push(match op.get("k").int() {
            0 => {
                if source.slice.is_none() { source.arrive(op.get("n").int() as usize); }
                vec![1]
            }
            1 => pop(&mut dec),
            2 => complete(&mut dec),
            3 => { all(&mut dec, &mut pop, 0); o }
            4 => { all(&mut dec, &mut |d| complete(d), -1); o }
            _ => panic!("vh: op"),
        });
    }
}

fn escape(r: &Rnd, d: &mut Vec<u8>) {
    let unit = |d: &mut Vec<u8>, v: usize| {
        let s = if r.one_in(2) { format!("\\u{v:04x}") } else { format!("\\u{v:04X}") };
        d.extend(s.bytes());
    };
    match r.below(10) {
        0 => d.extend([b'\\', *r.pick(b"\"\\/bfnrtu0z'")]),
        1 => d.extend([b'\\', r.below(256) as u8]),
        2 => unit(d, r.below(0x10000)),
        3 => unit(d, r.range(0xd7fe, 0xe001)),
        4 => unit(d, *r.pick(&[0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0, 0x7f, 0x80, 0x7ff, 0x800])),
        5 => { unit(d, r.range(0xd800, 0xdbff)); unit(d, r.range(0xdc00, 0xdfff)); }
        6 => { unit(d, r.range(0xd800, 0xdbff)); let n = d.len(); unit(d, r.range(0xdbff, 0xe000)); if r.one_in(2) { d.truncate(n + r.below(7)); } }
        7 => { let n = d.len(); unit(d, r.below(0x10000)); d.truncate(n + r.below(6)); }
        8 => d.push(r.below(0x24) as u8),
        _ => {
            if r.one_in(2) { d.push(r.below(256) as u8); }
            else { d.extend(r.pick(&["é", "€", "𝄞", "\u{fffd}", "ÿ"]).bytes()); }
        }
    }
}

fn tok(r: &Rnd, d: &mut Vec<u8>, plain: bool) {
    match r.below(12) {
        0 => for _ in 0..r.range(1, 3) { d.push(*r.pick(b" \t\n\r")); },
        1..=3 => d.push(*r.pick(b":,[]{}")),
        4..=5 => {
            // Long digits and signs now and then.
            let digits = |d: &mut Vec<u8>| for _ in 0..(if r.one_in(20) { r.below(80) } else { r.below(4) }) { d.push(b'0' + r.below(10) as u8); };
            let signs = |d: &mut Vec<u8>| for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2, 3]) { d.push(*r.pick(b"+-")); };
            signs(d);
            digits(d);
            if r.one_in(2) { d.push(b'.'); digits(d); }
            if r.one_in(2) { d.push(*r.pick(b"eE")); signs(d); digits(d); }
            if r.one_in(6) { d.push(*r.pick(b"+-.eE0x")); }
        }
        6..=8 => {
            d.push(b'"');
            for _ in 0..r.small(20) {
                if plain || r.one_in(3) { d.push(*r.pick(b"abcu0189{}[]:, dDfF")); } else { escape(r, d); }
            }
            if !r.one_in(8) { d.push(b'"'); }
        }
        9..=10 => d.extend(*r.pick(&[&b"null"[..], b"true", b"false", b"nul", b"nulll", b"True", b"x", b"a+1.e", b"null-", b"fals", b"tru"])),
        _ => d.push(r.below(256) as u8),
    }
}

fn value(r: &Rnd, d: &mut Vec<u8>, depth: usize) {
    let ws = |d: &mut Vec<u8>| if r.one_in(4) { d.push(*r.pick(b" \n\t\r")); };
    ws(d);
    match r.below(if depth == 0 { 3 } else { 7 }) {
        0 => d.extend(*r.pick(&[&b"null"[..], b"true", b"false"])),
        1 => d.extend(*r.pick(&[&b"0"[..], b"-1", b"1.5", b"12e7", b"-0.0E-10"])),
        2 => d.extend(*r.pick(&[&b"\"\""[..], b"\"a\"", b"\"\\\"]\"", b"\"\\u00e9\""])),
        3..=4 => {
            d.push(b'[');
            for i in 0..r.below(4) { if i > 0 { d.push(b','); } value(r, d, depth - 1); }
            ws(d);
            d.push(b']');
        }
        _ => {
            d.push(b'{');
            for i in 0..r.below(4) {
                if i > 0 { d.push(b','); }
                ws(d);
                d.extend(b"\"k\"");
                ws(d);
                d.push(b':');
                value(r, d, depth - 1);
            }
            ws(d);
            d.push(b'}');
        }
    }
    ws(d);
}

/// Long tokens, and many of them.
fn long(r: &Rnd, kind: u64, d: &mut Vec<u8>) {
    let n = r.big(16);
    let few = r.big(10);
    let mut rep = |s: &str, n: usize| d.extend(s.as_bytes().repeat(n));
    let tail = r.pick(&["\"", "\\n\"", "\\ud834\\udd1e\"", "\\ud834\"", "\\udd1e\"", "\\q\"", "\\u12\"", "\t\"", "\u{e9}\"", ""]);
    match kind % 16 {
        0 => rep(" ", n),
        1 => rep("7", n),
        2 => { rep("0.", 1); rep("5", n); rep("e1", 1); }
        3 => { rep("1E-", 1); rep("3", n); }
        4 => { rep("\"", 1); rep("a", n); rep(tail, 1); }
        5 => { rep("\"\\n", 1); rep("a", n); rep(tail, 1); }
        6 => { rep("\"", 1); rep("\\n", few); rep(tail, 1); }
        7 => { rep("\"", 1); rep("\\u00e9", few / 4); rep(tail, 1); }
        8 => { rep("\"", 1); rep("\u{e9}", few); rep(tail, 1); }
        9 => { rep("\"", 1); rep("\\ud834\\udd1e", few / 4); rep(tail, 1); }
        10 => rep("x", n),
        11 => { rep("\"", 1); rep("a", n); d.push(*r.pick(&[0xff, 0xc3, 0xed])); d.extend(b"b\""); }
        12 => { rep(r.pick(&["-", "+"]), 1 + few / 8); rep("1", 1); }
        13 => { rep("1e", 1); rep(r.pick(&["-", "+"]), 1 + few / 8); rep("1", 1); }
        14 => { rep("\"", 1); rep(r.pick(&["\t", "\\q", "\\ud800", "\\udc00", "\\u1"]), few / 8); rep(tail, 1); }
        _ => rep(r.pick(&["\u{e9}", ",", "[]", "null ", "1 ", "\"\" "]), few / 2),
    }
}

/// Deep and wide documents.
fn deep(r: &Rnd, kind: u64, d: &mut Vec<u8>) {
    let n = r.big(12);
    let mut rep = |s: &str, n: usize| d.extend(s.as_bytes().repeat(n));
    let less = n - r.below(3).min(n);
    match kind % 6 {
        0 => { rep("[", n); rep("]", less); }
        1 => { rep("{\"a\":", n); rep("1", 1); rep("}", less); }
        2 => { rep("[{\"a\":", n / 2); rep("[]", 1); rep("}]", less / 2); }
        3 => { rep("[", 1); rep("[1],", n); rep(r.pick(&["2]", "]", "{}]"]), 1); }
        4 => { rep("{", 1); rep("\"k\":{},", n); rep(r.pick(&["\"l\":2}", "}", "]"]), 1); }
        _ => { rep("[", n); rep("1", 1); rep("]", less); }
    }
    rep(r.pick(&["", "]", "}", ",", "1", " null"]), 1);
}

fn gen(r: &Rnd, idx: u64, prof: &str) -> J {
    let n = |v: usize| J::N(v as i64);
    let m = if prof.ends_with("tree") { 1 } else { 0 };
    let big = prof.starts_with("big");
    let mut d = Vec::new();
    if big {
        if m == 1 { deep(r, idx, &mut d); } else { if r.one_in(2) { tok(r, &mut d, false); } long(r, idx, &mut d); }
        if r.one_in(2) { tok(r, &mut d, false); }
    } else if m == 1 && r.one_in(2) {
        value(r, &mut d, *r.pick(&[1, 2, 3, 6]));
        if d.len() > 600 { d.truncate(600); }
        if r.one_in(10) { let k = r.range(30, 120); let mut e = vec![b'['; k]; e.extend(&d); e.extend(vec![b']'; k]); d = e; }
        if r.one_in(2) { let i = r.below(d.len() + 1); let mut x = Vec::new(); tok(r, &mut x, true); d.splice(i..i, x); }
        if r.one_in(3) { let i = r.below(d.len()); d.remove(i); }
    } else {
        for _ in 0..r.range(1, 8) { tok(r, &mut d, m == 1); }
    }
    if m == 1 { d.push(b' '); }
    // Arrivals: at once, byte by byte, in some portions.
    let kind = if prof.ends_with("arrive") { 1 } else { r.below(2) };
    let mut ops = Vec::new();
    let op = |k: usize, c: usize| J::obj(vec![("k", n(k)), ("n", n(c))]);
    if kind == 1 {
        let step = if big { d.len() / 2 + 2 } else { *r.pick(&[1, 1, 2, 7, 100]) };
        let mut at = 0;
        // Whether the end may be announced depends on the state; leave it to
        // the end of the data.
        while at < d.len() {
            let c = r.range(1, step);
            ops.push(op(0, c));
            at += c;
            match r.below(4) {
                0 => {}
                1 => for _ in 0..r.range(1, 3) { ops.push(op(1, 0)); },
                _ => ops.push(op(3, 0)),
            }
            // Stop somewhere.
            if r.one_in(60) { break; }
        }
    } else {
        for _ in 0..r.small(6) { ops.push(op(1, 0)); }
    }
    ops.push(op(3, 0));
    if m == 0 {
        for _ in 0..r.small(3) { ops.push(op(2, 0)); }
        ops.push(op(4, 0));
        ops.push(op(4, 0));
    }
    J::obj(vec![("m", n(m)), ("kind", n(kind)), ("data", J::from_bytes(&d)), ("chunk", n(r.below(4))), ("ops", J::A(ops))])
}
