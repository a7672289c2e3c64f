//! D-Bus signatures: `tmp::fmt::dbus::{Sig, Cursor, Element}`.

use crate::json::J;
use crate::rnd::Rnd;
use crate::{Sink, Sub};
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use tmp::fmt::dbus::element::*;
use tmp::fmt::dbus::signature::{self, Cursor, Error, Sig};

pub const SUB: Sub = Sub { name: "sig", gen, run };

fn error(e: Error) -> Vec<i64> {
    match e {
        Error::DataExceeded => vec![1],
        Error::SignatureEmpty => vec![2],
        Error::SignatureSequence { break_idx } => vec![3, break_idx as i64],
        Error::SignatureIncomplete { container_idx } => vec![4, container_idx as i64],
        Error::ElementInvalid { idx, code } => vec![5, idx as i64, code as i64],
        Error::ElementUnknown { position, code } => vec![6, position as i64, code as i64],
        Error::ElementUnpaired { idx } => vec![7, idx as i64],
        Error::ElementMispaired { idx, pair_idx, expected } => {
            vec![8, idx as i64, pair_idx as i64, expected.map_or(-1, |e| e.code() as i64)]
        }
        Error::DictInvalid { position } => vec![9, position as i64],
    }
}

fn text(s: &Sig) -> Vec<i64> {
    let t = s.to_string();
    assert!(t == format!("{s}") && t == format!("{s:?}"), "printed");
    assert!(t.bytes().eq(s.into_iter().map(|e| e.code())), "iterated");
    assert!(s.into_iter().len() == s.len(), "remaining elements");
    t.bytes().map(|b| b as i64).collect()
}

fn made(s: &Sig) -> Vec<i64> {
    let mut o = vec![0, s.len() as i64];
    o.extend(text(s));
    o
}

/// A signature of exactly this many words.
struct Words<const N: usize>;
trait Fixed {
    fn make(&self, s: &[u8]) -> Result<Box<Sig>, Error>;
}
impl<const N: usize> Fixed for Words<N> {
    fn make(&self, s: &[u8]) -> Result<Box<Sig>, Error> {
        // There is no way to borrow it as `Sig` other than unsizing.
        Sig::<[u64; N]>::try_make(s).map(|v| { let v: &Sig = &v; v.clone() })
    }
}

macro_rules! words {
    ($n:expr, $($x:literal)*) => { match $n { $($x => Some(&Words::<$x> as &dyn Fixed),)* _ => None } }
}

fn fixed(n: usize) -> Option<&'static dyn Fixed> {
    words!(n,
        0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36
        186 187 190 191 192 193 194 195 197 198 199 200 204 205 210 211 216 222 228 240)
}

const LONG32: &[u8] = b"(ssssssssssssssssssssssssssssss)";
const LONG40: &[u8] = b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa{sv}";

#[cfg(not(feature = "consts"))]
fn literal(s: &[u8]) -> Option<&'static Sig> {
    match s {
        b"s" | b"a{sv}" | b"(sa{sv})" | b"ay" => panic!("refused by the compiler"),
        _ if s == LONG32 || s == LONG40 => panic!("refused by the compiler"),
        _ => None,
    }
}

#[cfg(feature = "consts")]
fn literal(s: &[u8]) -> Option<&'static Sig> {
    Some(match s {
        b"s" => signature::builtin::s,
        b"a{sv}" => signature::builtin::asv,
        b"(sa{sv})" => signature::sig!(b"(sa{sv})"),
        b"ay" => { static S: Sig<[u64; Sig::size_for_length(2)]> = Sig::make(b"ay"); &S }
        _ if s == LONG32 => signature::sig!(b"(ssssssssssssssssssssssssssssss)"),
        _ if s == LONG40 => signature::sig!(b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa{sv}"),
        _ => return None,
    })
}

fn make(s: &[u8], way: i64) -> Vec<i64> {
    let plain = || Sig::new(s);
    match way {
        0 => plain().map_or_else(error, |v| made(&v)),
        1 => Sig::arc(s).map_or_else(error, |v| made(&v)),
        2 => match fixed(Sig::size_for_length(s.len())) {
            Some(f) => f.make(s).map_or_else(error, |v| made(&v)),
            None => plain().map_or_else(error, |v| made(&v)),
        },
        3 => plain().map_or_else(error, |v| made(&v.clone())),
        4 => plain().map_or_else(error, |v| made(v.at(0).unwrap())),
        5 => plain().map_or_else(error, |_| {
            // Cut out of a larger one, which may have another representation.
            let outer = Sig::new(&[b"(y(", s, b"))"].concat()).unwrap();
            made(outer.at(3).unwrap())
        }),
        6 => {
            let mut buf = vec![std::mem::MaybeUninit::uninit(); Sig::size_for_length(s.len())];
            match Sig::parse(&mut buf, s) {
                Err(e) => error(e),
                Ok(()) => made(&*plain().unwrap()),
            }
        }
        7 => plain().map_or_else(error, |v| made(&*ToOwned::to_owned(&*v))),
        8 => match literal(s) { Some(v) => made(v), None => plain().map_or_else(error, |v| made(&v)) },
        _ => panic!("vh: way"),
    }
}

fn sized(s: &[u8], x: i64) -> i64 {
    let size = Sig::size_for_length(s.len()) as i64 + x;
    if size < 0 { return 0; }
    let size = size as usize;
    let good = Sig::new(s).is_ok();
    // More memory than asked for may be refused, but is never misread.
    let judge = |r: Result<bool, Error>| match r {
        Ok(fine) => { assert!(fine && x >= 0, "misread"); 1 }
        Err(Error::DataExceeded) if good && x > 0 => 1,
        Err(_) => 0,
    };
    let mut buf = vec![std::mem::MaybeUninit::new(0); size];
    let r = judge(Sig::parse(&mut buf, s).map(|_| true));
    if let Some(f) = fixed(size) {
        let q = judge(f.make(s).map(|v| v.len() == s.len() && text(&v).iter().eq(s.iter().map(|b| *b as i64).collect::<Vec<_>>().iter())));
        assert!(q == r, "memory of fixed size");
    }
    r
}

fn compare(a: &[u8], b: &[u8]) -> Vec<i64> {
    let (x, y) = (Sig::new(a).unwrap(), Sig::new(b).unwrap());
    // One of them cut out of a larger one.
    let outer = Sig::new(&[b"(", b, b")"].concat()).unwrap();
    let z = outer.at(1).unwrap();
    let c = x.cmp(&y);
    assert!(x.partial_cmp(&y) == Some(c) && (*x).cmp(z) == c && y.cmp(&x) == c.reverse(), "order");
    assert!((*x == *z) == (x == y), "equality");
    let hash = |s: &Sig| { let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h); h.finish() };
    assert!(x != y || (hash(&x) == hash(&y) && hash(&x) == hash(z)), "hash");
    vec![(x == y) as i64, c as i64]
}

fn element(code: u8) -> Vec<i64> {
    let Some(e) = Element::from_code(code) else { return vec![-1] };
    assert!(unsafe { Element::from_id(e.id()) } == e, "id");
    assert!(e.char() as u32 == code as u32 && e.str().as_bytes() == [e.code()], "text");
    let mut o = vec![
        e.code() as i64, e.pair().map_or(-1, |p| p.code() as i64),
        e.dvar_alignment_exp() as i64, e.dvar_size() as i64, e.gvar_alignment_exp() as i64, e.gvar_size() as i64,
    ];
    for f in [FLAG_PREFIX, FLAG_OPEN, FLAG_CLOSE, FLAG_BASIC, FLAG_DYNAMIC, FLAG_VARIANT, FLAG_HANDLE] {
        assert!(e.all(f) == e.any(f), "flags");
        o.push(e.all(f) as i64);
    }
    o
}

fn int(v: Option<usize>) -> i64 {
    v.map_or(-1, |v| v as i64)
}

fn ty(s: Option<&Sig>) -> Vec<i64> {
    s.map_or(vec![-1], |s| { let t = text(s); assert!(t.len() == s.len(), "length"); t })
}

fn look<'a, O: std::borrow::Borrow<Sig>>(c: &Cursor<'a, O>) -> Vec<i64> {
    let el = |e: Option<Element>| e.map_or(-1, |e| e.code() as i64);
    let mut o = vec![
        c.idx() as i64, el(c.element()), int(c.position()), int(c.length()), el(c.down()), el(c.up()),
        c.dvar_alignment_exp().map_or(-1, |v| v as i64), c.gvar_alignment_exp().map_or(-1, |v| v as i64),
        int(c.idx_next()), int(c.idx_prev()), int(c.idx_step()), int(c.idx_down()), int(c.idx_up()),
        c.size_hint().0 as i64,
    ];
    assert!(c.size_hint().1 == Some(c.size_hint().0), "size hint");
    assert!(c.idx() <= c.root().len(), "index");
    o.extend(ty(c.sig()));
    o
}

/// Performs the moves of the cursor, everything else as it comes.
fn walk<'a, O: std::borrow::Borrow<Sig>>(
    mut c: Cursor<'a, O>,
    again: &dyn Fn(usize) -> Cursor<'a, O>,
    sigs: &[Vec<u8>],
    ops: &[J],
    sink: &mut Sink,
) {
    for op in ops {
        let n = |k: &str| op.get(k).int() as usize;
        let o = match op.get("k").int() {
            11 => look(c.move_next()),
            12 => look(c.move_prev()),
            13 => look(c.move_step()),
            14 => look(c.move_down()),
            15 => look(c.move_up()),
            16 => look(c.move_to(n("i"))),
            17 => {
                let mut o = vec![c.next().map_or(-1, |e| e.code() as i64)];
                o.extend(look(&c));
                o
            }
            18 => {
                let i = n("i");
                let mut o = vec![c.element_at(i).map_or(-1, |e| e.code() as i64), int(c.position_at(i)), int(c.length_at(i))];
                o.extend(ty(c.sig_at(i)));
                o
            }
            19 => { c = again(n("i")); look(&c) }
            _ => other(sigs, op),
        };
        sink.push(o);
    }
}

fn other(sigs: &[Vec<u8>], op: &J) -> Vec<i64> {
    let s = |k: &str| &sigs[op.get(k).int() as usize - 1][..];
    match op.get("k").int() {
        1 => make(s("n"), op.get("w").int()),
        2 => compare(s("n"), s("o")),
        3 => vec![sized(s("n"), op.get("x").int())],
        4 => element(op.get("c").int() as u8),
        _ => panic!("vh: op"),
    }
}

fn run(input: &J, sink: &mut Sink) {
    let sigs: Vec<Vec<u8>> = input.get("sigs").arr().iter().map(|s| s.bytes()).collect();
    let ops = input.get("ops").arr();
    let cut = input.get("cut").int();
    if cut < 0 {
        for op in ops { sink.push(other(&sigs, op)); }
        return;
    }
    let root = Sig::arc(&sigs[0]).unwrap();
    let s = root.at(cut as usize).unwrap();
    if input.get("own").int() == 0 {
        let make = |i: usize| Cursor::<Arc<Sig>>::with(osi::mown::Mown::new_borrowed(s), i);
        walk(make(0), &make, &sigs, ops, sink);
    } else {
        let own: Arc<Sig> = Sig::arc(s.to_string().as_bytes()).unwrap();
        let make = |i: usize| {
            if i == 0 { Cursor::new_owned(own.clone()) } else { Cursor::with(osi::mown::Mown::new_owned(own.clone()), i) }
        };
        walk(make(0), &make, &sigs, ops, sink);
    }
}

const BASIC: &[u8] = b"yqnuitxdbsogh";

/// A type of about this many elements.
pub fn any(r: &Rnd, size: usize, set: &[u8]) -> Vec<u8> {
    if size <= 1 { return vec![*r.pick(set)]; }
    match r.below(9) {
        0..=2 => [b"a", &any(r, size - 1, set)[..]].concat(),
        3 => [b"m", &any(r, size - 1, set)[..]].concat(),
        4..=6 => {
            let mut o = b"(".to_vec();
            let mut left = size.saturating_sub(2);
            while left > 0 {
                let t = any(r, r.range(1, left), set);
                left = left.saturating_sub(t.len());
                o.extend(t);
            }
            o.push(b')');
            o
        }
        7 => [b"{", &[*r.pick(BASIC)][..], &any(r, size.saturating_sub(3), set), b"}"].concat(),
        _ => vec![*r.pick(set)],
    }
}

/// Long ones: wide, deep, or both.
fn draw_big(r: &Rnd) -> Vec<u8> {
    let n = r.big(11);
    let flat = |n: usize| -> Vec<u8> { (0..n).map(|_| *r.pick(b"yqnuitxdbsoghv")).collect() };
    match r.below(6) {
        0 => [b"(", &flat(n)[..], b")"].concat(),
        1 => [vec![b'a'; n], b"s".to_vec()].concat(),
        2 => [vec![b'('; n], b"s".to_vec(), vec![b')'; n]].concat(),
        3 => [b"{sv}".repeat(n / 4), b"a{sv}".to_vec()].concat().into_iter().fold(b"(".to_vec(), |mut o, c| { o.push(c); o }).into_iter().chain(*b")").collect(),
        4 => [b"(", &flat(n / 2)[..], b"(", &any(r, 60, b"ysgv"), &flat(n / 2), b"))"].concat(),
        _ => any(r, n, b"yqnuitxdbsoghv"),
    }
}

fn draw(r: &Rnd) -> Vec<u8> {
    let size = if r.one_in(6) { r.range(24, 40) } else if r.one_in(20) { r.range(40, 300) } else { r.small(24) };
    let mut s = any(r, size, b"yqnuitxdbsoghv");
    if r.one_in(6) {
        // To the limits of the representation.
        while s.len() < r.range(29, 33) { s.insert(0, *r.pick(b"am")); }
    }
    s
}

fn gen(r: &Rnd, _idx: u64, prof: &str) -> J {
    let big = prof.starts_with("big");
    let draw = |r: &Rnd| if big { draw_big(r) } else { draw(r) };
    let n = |v: usize| J::N(v as i64);
    let mut ops = Vec::new();
    if prof.ends_with("walk") {
        let s = draw(r);
        let mut cut = if r.one_in(2) { 0 } else { r.below(s.len()) };
        if s[cut] == b')' || s[cut] == b'}' { cut = 0; }
        for _ in 0..r.range(4, 24) {
            let i = if big && r.one_in(2) { s.len().saturating_sub(r.below(6)) } else { r.below(s.len() + 3) };
            ops.push(J::obj(match r.below(10) {
                k @ 0..=4 => vec![("k", n(11 + k))],
                5 | 6 => vec![("k", n(14))],
                7 => vec![("k", n(17))],
                8 => vec![("k", n(16)), ("i", n(i))],
                _ => vec![("k", n(*r.pick(&[18, 18, 19]))), ("i", n(i))],
            }));
        }
        return J::obj(vec![
            ("sigs", J::A(vec![J::from_bytes(&s)])), ("cut", n(cut)), ("own", n(r.below(2))), ("ops", J::A(ops)),
        ]);
    }
    let mut sigs: Vec<Vec<u8>> = Vec::new();
    let mut good = Vec::new();
    for _ in 0..r.range(1, 4) {
        let mut s = draw(r);
        if r.one_in(12) { s = r.pick(&[&b"s"[..], b"a{sv}", b"(sa{sv})", b"ay", LONG32, LONG40]).to_vec(); }
        let mut fine = true;
        if !sigs.is_empty() && r.one_in(3) {
            // Close to, or the same as, another one.
            let i = r.below(sigs.len());
            s = sigs[i].clone();
            fine = good.contains(&(i + 1));
        }
        let before = s.clone();
        if big && r.one_in(3) { let i = s.len() - r.below(s.len().min(4)); s.insert(i, *r.pick(b"yam(){}z")); }
        if !s.is_empty() { match r.below(8) {
            0 if s.len() > 1 => { s.remove(r.below(s.len())); }
            1 => s.insert(r.below(s.len() + 1), *r.pick(b"yqsvam(){}hz\x80 \0")),
            2 => { let i = r.below(s.len()); s[i] = *r.pick(b"yqsvam(){}gz\xffA"); }
            3 if r.one_in(2) => s.truncate(r.below(s.len() + 1)),
            4 if r.one_in(3) => { let i = r.below(s.len()); let j = r.below(s.len()); s.swap(i, j); }
            _ => (),
        } }
        fine &= s == before;
        sigs.push(s);
        // Only valid ones can be compared.
        if fine { good.push(sigs.len()); }
    }
    for _ in 0..r.range(3, 9) {
        let i = 1 + r.below(sigs.len());
        ops.push(J::obj(match r.below(6) {
            0 if !good.is_empty() => vec![("k", n(2)), ("n", n(*r.pick(&good))), ("o", n(*r.pick(&good)))],
            1 => vec![("k", n(3)), ("n", n(i)), ("x", J::N(r.range(0, 14) as i64 - 7))],
            2 if r.one_in(3) => vec![("k", n(4)), ("c", n(r.below(256)))],
            _ => vec![("k", n(1)), ("n", n(i)), ("w", n(r.below(9)))],
        }));
    }
    J::obj(vec![
        ("sigs", J::A(sigs.iter().map(|s| J::from_bytes(s)).collect())), ("cut", J::N(-1)), ("own", n(0)), ("ops", J::A(ops)),
    ])
}
