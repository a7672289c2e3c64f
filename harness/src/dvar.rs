//! D-Bus wire format: `tmp::fmt::dbus::dvar`.

use crate::buf::{Limited, Pieces};
use crate::json::J;
use crate::rnd::Rnd;
use crate::{Sink, Sub};
use std::ops::ControlFlow as Flow;
use std::sync::Arc;
use tmp::fmt::dbus::dvar::{Dec, Enc, Format};
use tmp::fmt::dbus::{ende, Error, Sig};
use tmp::io::map;

pub const SUB: Sub = Sub { name: "dvar", gen, run };

type Mown<'a> = osi::mown::Mown<'a, Sig, Arc<Sig>>;

fn code(e: Option<Error>) -> i64 {
    match e {
        None => 8,
        Some(Error::Mismatch) => 2,
        Some(Error::Pending) => 3,
        Some(Error::DataOverflow) => 4,
        Some(Error::DataNonUtf8) => 5,
        Some(Error::Io(map::Error::Overflow)) => 6,
        Some(Error::Io(map::Error::Exceeded)) => 7,
    }
}

fn flow<T>(f: Flow<Option<Error>, T>) -> i64 {
    match f { Flow::Continue(_) => 1, Flow::Break(e) => code(e) }
}

fn done(r: Result<(), Error>) -> i64 {
    match r { Ok(()) => 1, Err(e) => code(Some(e)) }
}

/// Signatures that stay.
fn kept(s: &[u8]) -> &'static Sig {
    thread_local! { static ALL: std::cell::RefCell<std::collections::HashMap<Vec<u8>, &'static Sig>> = Default::default(); }
    ALL.with(|a| *a.borrow_mut().entry(s.to_vec()).or_insert_with(|| Box::leak(Sig::new(s).unwrap())))
}

fn maybe(s: &[u8], own: bool) -> Mown<'static> {
    if own { Mown::new_owned(Sig::arc(s).unwrap()) } else { Mown::new_borrowed(kept(s)) }
}

fn number<const N: usize>(op: &J) -> [u8; N] {
    op.get("v").bytes().try_into().unwrap_or_else(|_| panic!("vh: number"))
}

struct Calls<'a> { ops: &'a [J], at: usize }

impl<'a> Calls<'a> {
    fn next(&mut self) -> Option<&'a J> {
        let o = self.ops.get(self.at);
        self.at += 1;
        o
    }
}

/// Text of 2^32 bytes and `n`, never present in memory unless copied.
fn huge(n: usize) -> &'static str {
    const LEN: usize = (1 << 32) + 4096;
    static AT: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let at = *AT.get_or_init(|| {
        let m = unsafe { crate::mem::mmap(std::ptr::null_mut(), LEN, 1, 0x4022, -1, 0) };
        assert!(m.addr() != usize::MAX, "vh: no memory");
        m.expose_provenance()
    });
    let v = unsafe { std::slice::from_raw_parts(std::ptr::with_exposed_provenance::<u8>(at), (1 << 32) + n) };
    unsafe { std::str::from_utf8_unchecked(v) }
}

/// Performs calls until the encoder is to be dropped.
fn encode(e: &mut Enc, depth: usize, calls: &mut Calls, sink: &mut Sink) {
    while let Some(op) = calls.next() {
        let text = || String::from_utf8(op.get("v").bytes()).unwrap_or_else(|_| panic!("vh: text"));
        let r = match op.get("k").int() {
            1 => flow(e.u16(u16::from_be_bytes(number(op)))),
            2 => flow(e.u32(u32::from_be_bytes(number(op)))),
            3 => flow(e.u64(u64::from_be_bytes(number(op)))),
            4 => flow(e.string(&text())),
            5 => flow(e.object(&text())),
            6 => flow(e.signature(&text())),
            7 => match op.get("w").int() {
                0 => flow(e.variant(kept(&op.get("v").bytes()))),
                w => flow(e.variant_with(maybe(&op.get("v").bytes(), w == 1))),
            },
            8 => flow(e.array()),
            9 => flow(e.structure()),
            10 => flow(e.dict()),
            11 => flow(e.close()),
            12 => done(e.commit()),
            k @ 13..=14 => {
                let sub = if k == 13 { e.enc() } else { e.enc_with(maybe(&op.get("v").bytes(), op.get("w").int() == 1)) };
                match sub {
                    Err(e) => code(Some(e)),
                    Ok(mut sub) => {
                        sink.push(vec![1]);
                        encode(&mut sub, depth + 1, calls, sink);
                        continue;
                    }
                }
            }
            15 if depth == 0 => -5,
            15 => { sink.push(vec![1]); return; }
            16 => { calls.at -= 1; return; }
            18 => flow(e.string(huge(op.get("n").int() as usize))),
            19 => flow(e.object(huge(op.get("n").int() as usize))),
            20 => flow(e.signature(huge(op.get("n").int() as usize))),
            21 => { FAULTS.set(vec![op.get("n").int() as usize]); 1 }
            _ => panic!("vh: op"),
        };
        sink.push(vec![r]);
    }
}

/// Performs calls until the decoder is to be dropped.
fn decode(d: &mut Dec, depth: usize, wild: bool, limit: usize, calls: &mut Calls, sink: &mut Sink) {
    let mut arrays = 0;
    while let Some(op) = calls.next() {
        let k = op.get("k").int();
        crate::peak_reset();
        let skip = !wild && arrays > 0 && match k {
            11 => d.more(),
            1 | 4 | 6 | 8 | 13 | 14 => !d.more(),
            _ => false,
        };
        let note = |mut o: Vec<i64>, sink: &mut Sink| {
            if wild { o = vec![0]; }
            sink.push(o);
        };
        let o = match k {
            _ if skip => vec![-5],
            1 => {
                let mut v = 0;
                match d.u16(&mut v) {
                    Flow::Continue(_) => { let b = v.to_be_bytes(); vec![1, b[0] as i64, b[1] as i64] }
                    Flow::Break(e) => vec![code(e)],
                }
            }
            4 | 6 => {
                let mut v = String::from("before");
                match if k == 4 { d.string(&mut v) } else { d.signature(&mut v) } {
                    Flow::Continue(_) => [1].into_iter().chain(v.bytes().map(|b| b as i64)).collect(),
                    Flow::Break(e) => vec![code(e)],
                }
            }
            8 => { let r = flow(d.array()); if r == 1 { arrays += 1; } vec![r] }
            11 => { let r = flow(d.close()); if r == 1 { arrays -= 1; } vec![r] }
            12 => vec![done(d.commit())],
            13 | 14 => {
                let sub = if k == 13 { d.dec() } else { d.dec_with(maybe(&op.get("v").bytes(), op.get("w").int() == 1)) };
                match sub {
                    Err(e) => vec![code(Some(e))],
                    Ok(mut sub) => {
                        note(vec![1], sink);
                        decode(&mut sub, depth + 1, wild, limit, calls, sink);
                        continue;
                    }
                }
            }
            15 if depth == 0 => vec![-5],
            15 => { note(vec![1], sink); return; }
            16 => { calls.at -= 1; return; }
            17 => vec![d.more() as i64],
            _ => panic!("vh: op"),
        };
        assert!(crate::peak() <= limit, "memory");
        note(o, sink);
    }
}

/// The provided reader, which is not sized.
struct Whole(Vec<u8>);

impl map::Read for Whole {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<map::Error>, &[u8]> {
        self.0[..].map(idx, len)
    }
}

thread_local! { static FAULTS: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) }; }

/// Whether an access meets a fault, which then is over.
fn fails(idx: usize, len: usize) -> bool {
    FAULTS.with_borrow_mut(|f| f.iter().position(|p| *p >= idx && *p - idx < len).map(|k| f.remove(k))).is_some()
}

/// Buffers with places that cannot be accessed at first.
struct Failing<T>(T);

impl map::Write for Failing<&mut dyn map::Write> {
    unsafe fn commit(&mut self, len: usize) {
        unsafe { self.0.commit(len) }
    }
    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<map::Error>, &mut [std::mem::MaybeUninit<u8>]> {
        if fails(idx, len) { return Flow::Break(None); }
        self.0.map(idx, len)
    }
}

impl map::Read for Failing<&mut dyn map::Read> {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<map::Error>, &[u8]> {
        if fails(idx, len) { return Flow::Break(None); }
        self.0.map(idx, len)
    }
}

fn run(input: &J, sink: &mut Sink) {
    let faults: Vec<usize> = input.get("faults").arr().iter().map(|p| p.int() as usize).collect();
    let failing = !faults.is_empty() || input.get("ops").arr().iter().any(|o| o.get("k").int() == 21);
    FAULTS.set(faults);
    let sig = input.get("sig").bytes();
    let be = input.get("be").int() == 1;
    let way = input.get("way").int();
    let data = input.get("data").bytes();
    let ops = input.get("ops").arr();
    let chunk = input.get("chunk").int() as usize;
    let format = if be { Format::DVarBe } else { Format::DVarLe };
    let eformat = if be { ende::Format::DVarBe } else { ende::Format::DVarLe };
    let mut calls = Calls { ops, at: 0 };
    if input.get("m").int() == 0 {
        let limit = input.get("limit").int();
        let mut vec = data.clone();
        let mut lim = Limited::new(&data, limit.max(0) as usize, if chunk > 0 { Some(chunk) } else { None });
        while calls.at < ops.len() {
            let w: &mut dyn map::Write = if limit < 0 { &mut vec } else { &mut lim };
            let mut f = Failing(w);
            let w: &mut dyn map::Write = if failing { &mut f } else { &mut *f.0 };
            match way {
                0 if be => encode(&mut Enc::new_be(kept(&sig), w), 0, &mut calls, sink),
                0 => encode(&mut Enc::new_le(kept(&sig), w), 0, &mut calls, sink),
                3 => {
                    let ende::Enc::DVar(mut e) = ende::Enc::new(kept(&sig), eformat, w);
                    encode(&mut e, 0, &mut calls, sink)
                }
                n => encode(&mut Enc::with(maybe(&sig, n == 1), format, w), 0, &mut calls, sink),
            }
            if calls.next().is_some() {
                sink.push(if limit < 0 { vec.iter().map(|b| *b as i64).collect() } else { lim.committed() });
            }
        }
        return;
    }
    let wild = input.get("wild").int() == 1;
    let max = data.len() * 4 + 65536;
    let mut whole = Whole(data.clone());
    let mut pieces = Pieces(data, chunk.max(1));
    while calls.at < ops.len() {
        let r: &mut dyn map::Read = if chunk == 0 { &mut whole } else { &mut pieces };
        let mut f = Failing(r);
        let r: &mut dyn map::Read = if failing { &mut f } else { &mut *f.0 };
        match way {
            0 if be => decode(&mut Dec::new_be(kept(&sig), r), 0, wild, max, &mut calls, sink),
            0 => decode(&mut Dec::new_le(kept(&sig), r), 0, wild, max, &mut calls, sink),
            3 => {
                let ende::Dec::DVar(mut d) = ende::Dec::new(kept(&sig), eformat, r);
                decode(&mut d, 0, wild, max, &mut calls, sink)
            }
            n => decode(&mut Dec::with(maybe(&sig, n == 1), format, r), 0, wild, max, &mut calls, sink),
        }
        if calls.next().is_some() { sink.push(vec![if wild { 0 } else { 1 }]); }
    }
}

thread_local! { static BIG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

/// Number of elements of an array.
fn count(r: &Rnd) -> usize {
    if BIG.get() && r.one_in(2) { r.big(9) } else { r.small(4) }
}

fn words(r: &Rnd) -> Vec<u8> {
    let n = if BIG.get() && r.one_in(3) { r.big(16) } else if r.one_in(30) { r.range(250, 260) } else { r.small(12) };
    let mut t = "w".repeat(if n > 300 { n - r.below(20) } else { 0 });
    while t.len() < n {
        match r.below(8) {
            0 => t.push('\0'),
            1 => t.push('é'),
            2 => t.push('😀'),
            _ => t.push((b'a' + r.below(26) as u8) as char),
        }
    }
    t.into_bytes()
}

/// Calls that serve the type at `s[*i]`, now and then with a wrong one.
struct Plan<'a> { r: &'a Rnd, ops: Vec<J>, wrong: bool, budget: usize, dec: bool }

impl Plan<'_> {
    fn call(&mut self, k: i64, mut more: Vec<(&str, J)>) {
        if self.wrong && self.r.one_in(if BIG.get() { 400 } else { 12 }) {
            let o = self.stray();
            self.ops.push(o);
        }
        more.insert(0, ("k", J::N(k)));
        self.ops.push(J::obj(more));
    }

    fn stray(&self) -> J {
        let r = self.r;
        let k = if self.dec { *r.pick(&[1, 4, 6, 8, 11, 12, 17, 17, 14]) } else { r.range(1, 14) as i64 };
        let k = if k == 13 { 12 } else { k };
        // Something nested is hard to leave again, unless it is refused.
        let mut o = vec![("k", J::N(k))];
        match k {
            1 => o.push(("v", J::from_bytes(&r.bytes(2)))),
            2 => o.push(("v", J::from_bytes(&r.bytes(4)))),
            3 => o.push(("v", J::from_bytes(&r.bytes(8)))),
            4..=6 => o.push(("v", J::from_bytes(&words(r)))),
            7 => { o.push(("v", J::from_bytes(b"s"))); o.push(("w", J::N(0))); }
            14 => { o.push(("v", J::from_bytes(b"mmmmh"))); o.push(("w", J::N(r.below(2) as i64))); }
            _ => (),
        }
        J::obj(o)
    }

    fn serve(&mut self, s: &[u8]) -> usize {
        self.budget = self.budget.saturating_sub(1);
        let len = length(s);
        if self.r.one_in(10) {
            // Nested, sometimes given up and done again.
            let give_up = self.r.one_in(4);
            if self.r.one_in(2) { self.call(13, vec![]) }
            else { self.call(14, vec![("v", J::from_bytes(&s[..len])), ("w", J::N(self.r.below(2) as i64))]) }
            self.plain(s);
            if !give_up { self.call(12, vec![]); if self.r.one_in(6) { self.call(12, vec![]); } }
            self.ops.push(J::obj(vec![("k", J::N(15))]));
            if !give_up { return len; }
        }
        self.plain(s);
        len
    }

    fn plain(&mut self, s: &[u8]) {
        let r = self.r;
        match s[0] {
            // What cannot be decoded yet.
            b'u' | b't' | b'o' | b'v' | b'(' | b'{' if self.dec => self.call(17, vec![]),
            b's' | b'o' | b'g' if !self.dec && r.one_in(30) => {
                // Refused, then a short one.
                let (huge, short) = match s[0] { b's' => (18, 4), b'o' => (19, 5), _ => (20, 6) };
                let n = r.pick(&[0, 1, 3, 200]);
                self.call(huge, vec![("n", J::N(*n))]);
                self.call(short, vec![("v", J::from_bytes(b"x"))]);
            }
            b'q' => self.call(1, vec![("v", J::from_bytes(&r.bytes(2)))]),
            b'u' => self.call(2, vec![("v", J::from_bytes(&r.bytes(4)))]),
            b't' => self.call(3, vec![("v", J::from_bytes(&r.bytes(8)))]),
            b's' => self.call(4, vec![("v", J::from_bytes(&words(r)))]),
            b'o' => self.call(5, vec![("v", J::from_bytes(&words(r)))]),
            b'g' => {
                let t = words(r);
                self.call(6, vec![("v", J::from_bytes(&t))]);
                // Refused, so something else has to do.
                if t.len() > 255 && !self.dec { self.call(6, vec![("v", J::from_bytes(&t[..0]))]); }
            }
            b'v' => {
                let t = if r.one_in(40) { [vec![b'a'; r.range(250, 258)], b"s".to_vec()].concat() } else { types(r, self.budget.min(8), true) };
                self.call(7, vec![("v", J::from_bytes(&t)), ("w", J::N(r.below(3) as i64))]);
                if t.len() > 60 { return; }
                self.serve(&t);
                self.call(11, vec![]);
            }
            b'a' => {
                self.call(8, vec![]);
                let n = if self.budget == 0 { 0 } else { count(r) };
                for _ in 0..n {
                    if self.ops.len() > 400 { break; }
                    if self.dec { self.call(17, vec![]); }
                    self.serve(&s[1..]);
                }
                if self.dec { self.call(17, vec![]); }
                self.call(11, vec![]);
            }
            c @ (b'(' | b'{') => {
                self.call(if c == b'(' { 9 } else { 10 }, vec![]);
                let mut i = 1;
                while s[i] != b')' && s[i] != b'}' { i += self.serve(&s[i..]); }
                self.call(11, vec![]);
            }
            _ => (),
        }
    }
}

fn length(s: &[u8]) -> usize {
    match s[0] {
        b'a' | b'm' => 1 + length(&s[1..]),
        b'(' | b'{' => {
            let mut i = 1;
            while s[i] != b')' && s[i] != b'}' { i += length(&s[i..]); }
            i + 1
        }
        _ => 1,
    }
}

/// A type that can be encoded (mostly), or decoded.
fn types(r: &Rnd, size: usize, enc: bool) -> Vec<u8> {
    if !enc {
        let mut s = vec![b'a'; r.small(4)];
        s.extend(crate::sig::any(r, if r.one_in(5) { 4 } else { 1 }, b"qssgg"));
        return s;
    }
    let s = crate::sig::any(r, size.max(1), if r.one_in(8) { b"qutsogvvyh" } else { b"quttsogv" });
    if s.iter().any(|c| b"mynixdbh".contains(c)) && !r.one_in(10) { types(r, size, enc) } else { s }
}

/// The wire representation, to have something to decode, and the calls for it.
fn wire(r: &Rnd, be: bool, s: &[u8], o: &mut Vec<u8>, budget: &mut usize, calls: &mut Vec<i64>) {
    let num = |o: &mut Vec<u8>, n: usize| o.extend(if be { (n as u32).to_be_bytes() } else { (n as u32).to_le_bytes() });
    let align = |o: &mut Vec<u8>, a: usize| while o.len() % a != 0 { o.push(0) };
    *budget = budget.saturating_sub(1);
    match s[0] {
        b'q' => { calls.push(1); align(o, 2); o.extend(r.bytes(2)) }
        b's' => { calls.push(4); align(o, 4); let t = words(r); num(o, t.len()); o.extend(t); o.push(0) }
        b'g' => { calls.push(6); let t = words(r); let t = if t.len() > 255 { vec![] } else { t }; o.push(t.len() as u8); o.extend(t); o.push(0) }
        b'a' => {
            calls.push(8);
            align(o, 4);
            let at = o.len();
            num(o, 0);
            align(o, match s[1] { b'q' => 2, b's' | b'a' | b'm' => 4, b'(' | b'{' => 8, _ => 1 });
            let from = o.len();
            for _ in 0..if *budget == 0 { 0 } else { count(r) } {
                if o.len() > 200000 || calls.len() > 2000 { break; }
                calls.push(17);
                wire(r, be, &s[1..], o, budget, calls);
            }
            calls.extend([17, 11]);
            let n = (o.len() - from) as u32;
            o[at..at + 4].copy_from_slice(&if be { n.to_be_bytes() } else { n.to_le_bytes() });
        }
        _ => (),
    }
}

fn gen(r: &Rnd, _idx: u64, prof: &str) -> J {
    let n = |v: usize| J::N(v as i64);
    let big = prof.starts_with("big");
    BIG.set(big);
    let dec = !prof.ends_with("enc");
    let wild = prof == "wild";
    let be = r.one_in(2);
    let sig = if big && !dec && r.one_in(3) {
        // A long row of members, all of which can be encoded.
        let member = || loop {
            let t = crate::sig::any(r, r.small(3).max(1), b"quttsog");
            if !t.iter().any(|c| b"mynixdbh".contains(c)) { break t; }
        };
        let row = (0..r.big(7)).map(|_| member()).collect::<Vec<_>>().concat();
        [b"(", &row[..], b")"].concat()
    } else {
        types(r, if big && r.one_in(3) { r.big(8) } else { r.small(10) }, !dec)
    };
    let mut p = Plan { r, ops: Vec::new(), wrong: r.one_in(2), budget: 24, dec };
    let (mut data, mut limit) = (r.bytes(r.small(9)), -1);
    let mut right = Vec::new();
    if dec {
        data = Vec::new();
        wire(r, be, &sig, &mut data, &mut 16, &mut right);
        // Cut, changed, or something else altogether.
        match r.below(5) {
            0 => data.truncate(r.below(data.len() + 1)),
            1 if !data.is_empty() => {
                for _ in 0..r.range(1, 3) { let i = r.below(data.len()); data[i] = *r.pick(&[0, 1, 4, 128, 195, 255]); }
            }
            2 if r.one_in(3) => data = r.bytes(r.small(30)),
            _ => (),
        }
    } else if r.one_in(3) {
        limit = if big { r.big(17) } else { r.small(60) } as i64;
    }
    for _ in 0..r.range(1, 2) {
        if dec && r.one_in(2) {
            for k in &right { p.call(*k, vec![]); }
            p.call(12, vec![]);
        } else if dec {
            // The decoder knows when arrays end; ask for a lot.
            for _ in 0..r.range(1, 16) {
                match r.below(8) {
                    0 | 1 => { p.serve(&sig); }
                    2 => { let k = *r.pick(&[17, 11, 12]); p.call(k, vec![]); }
                    3 => {
                        let inner: Vec<u8> = sig.iter().copied().skip_while(|c| *c == b'a').collect();
                        p.serve(&inner);
                    }
                    4 => p.call(8, vec![]),
                    _ => {
                        let k = match *sig.last().unwrap() { b'q' => 1, b's' => 4, b'g' => 6, _ => 17 };
                        p.call(k, vec![]);
                    }
                }
            }
            p.call(11, vec![]);
            p.call(12, vec![]);
        } else {
            p.serve(&sig);
            if !r.one_in(12) { p.call(12, vec![]); }
            if r.one_in(6) { let o = p.stray(); p.ops.push(o); }
        }
        p.ops.push(J::obj(vec![("k", n(16))]));
    }
    let mut faults = Vec::new();
    if limit < 0 && !wild && r.one_in(4) {
        for _ in 0..r.range(1, 3) { faults.push(r.small(if big { 5000 } else { 60 })); }
        faults.sort();
        // Calls are repeated if need be.
        for i in (0..p.ops.len()).rev() {
            for _ in 0..faults.len() { if r.one_in(2) && ![13, 14, 15, 16].contains(&p.ops[i].get("k").int()) { let o = p.ops[i].clone(); p.ops.insert(i, o); } }
        }
    }
    J::obj(vec![
        ("faults", J::A(faults.into_iter().map(n).collect())), ("m", n(dec as usize)), ("sig", J::from_bytes(&sig)), ("be", n(be as usize)), ("way", n(r.below(4))),
        ("data", J::from_bytes(&data)), ("limit", J::N(limit)), ("chunk", n(if r.one_in(2) { 0 } else { r.range(1, if big { 999 } else { 9 }) })),
        ("wild", n(wild as usize)), ("ops", J::A(p.ops)),
    ])
}
