//! Endian-tagged numbers: `osi::ffi::{BigEndian, LittleEndian, NativeEndian}`,
//! plain and inside `Integer` and `Pointer`.

use crate::json::J;
use crate::rnd::Rnd;
use crate::{Sink, Sub};
use osi::align::AlignAs;
use osi::ffi::{self, BigEndian, Integer, LittleEndian, NativeEndian, Pointer};
use std::fmt::Display;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::num::NonZero;

pub const SUB: Sub = Sub { name: "endian", gen, run };

/// A number as its bytes, most significant first.
pub trait Num: Copy {
    fn take_be(v: &[u8]) -> Self;
    fn be_bytes(self) -> Vec<u8>;
}

macro_rules! num {
    ($($t:ty)*) => { $(
        impl Num for $t {
            fn take_be(v: &[u8]) -> Self { <$t>::from_be_bytes(v.try_into().expect("vh: width")) }
            fn be_bytes(self) -> Vec<u8> { self.to_be_bytes().to_vec() }
        }
        impl Num for NonZero<$t> {
            fn take_be(v: &[u8]) -> Self { NonZero::new(<$t as Num>::take_be(v)).expect("vh: zero") }
            fn be_bytes(self) -> Vec<u8> { self.get().be_bytes() }
        }
    )* };
}
num!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);

/// The inherent ways in and out.
struct Ways<E, R> {
    from_native: fn(R) -> E,
    to_native: fn(E) -> R,
    from_raw: fn(R) -> E,
    to_raw: fn(E) -> R,
    dflt: Option<fn() -> E>,
}

pub fn memory<T>(v: &T, n: usize) -> Vec<i64> {
    assert!(n <= size_of::<T>(), "size");
    (0..n).map(|i| unsafe { *(v as *const T as *const u8).add(i) } as i64).collect()
}

pub fn width(ty: i64) -> usize {
    [1, 2, 4, 8, 16, 8][ty as usize % 6]
}

pub fn number(r: &Rnd, w: usize) -> Vec<u8> {
    let mut v = r.bytes(w);
    match r.below(5) {
        0 => { v.fill(0); v[r.below(w)] = r.next() as u8; }
        1 => { v.fill(255); v[r.below(w)] = r.next() as u8; }
        2 => for b in v.iter_mut() { if r.one_in(2) { *b = 0; } },
        _ => (),
    }
    if v.iter().all(|b| *b == 0) { v[w - 1] = 1; }
    v
}

fn gen(r: &Rnd, idx: u64, _prof: &str) -> J {
    let ty = (idx % 24) as i64;
    let form = r.below(4) as i64;
    let w = width(ty);
    let mut ops = Vec::new();
    let mut last = number(r, w);
    for _ in 0..r.range(2, 12) {
        let k = match r.below(8) { 0..=2 => 0, 3 => 1, 4 => 2, 5 => 4, 6 => 5, _ => 3 };
        let k = if k == 3 && (ty >= 12 || form == 3) { 2 } else { k };
        let v = if r.one_in(3) { last.clone() } else { number(r, w) };
        last = v.clone();
        ops.push(J::obj(vec![
            ("k", J::N(k)),
            ("s", J::N(1 + r.below(2) as i64)),
            ("v", J::from_bytes(&v)),
            ("plus", J::N(r.below(2) as i64)),
            ("zero", J::N(r.below(2) as i64)),
            ("w", J::N(r.below(45) as i64)),
        ]));
    }
    J::obj(vec![
        ("ty", J::N(ty)),
        ("ord", J::N(r.below(3) as i64)),
        ("form", J::N(form)),
        ("via", J::N(r.below(4) as i64)),
        ("ops", J::A(ops)),
    ])
}

pub fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

pub fn text<T: Display>(v: &T, op: &J) -> Vec<i64> {
    let w = op.get("w").int() as usize;
    let t = match (op.get("plus").int() == 1, op.get("zero").int() == 1) {
        (false, false) => format!("{v:w$}"),
        (true, false) => format!("{v:+w$}"),
        (false, true) => format!("{v:0w$}"),
        (true, true) => format!("{v:+0w$}"),
    };
    t.chars().map(|c| c as i64).collect()
}

fn with<R, E>(input: &J, sink: &mut Sink, ways: Ways<E, R>)
where
    R: Num + Hash + PartialEq,
    E: NativeEndian<R> + Ord + Hash + Display,
{
    let via = input.get("via").int();
    let from_native = |r: R| match via {
        0 => (ways.from_native)(r),
        1 => <E as NativeEndian<R>>::from_native(r),
        2 => ffi::from_native(r),
        _ => ffi::abi::x86_sysv::num(r),
    };
    let to_native = |e: E| match via {
        0 => (ways.to_native)(e),
        1 => NativeEndian::to_native(e),
        _ => ffi::to_native(e),
    };
    let from_raw = |r: R| match via {
        0 => (ways.from_raw)(r),
        1 => <E as NativeEndian<R>>::from_raw(r),
        _ => ffi::from_raw(r),
    };
    let to_raw = |e: E| match via {
        0 => (ways.to_raw)(e),
        1 => NativeEndian::to_raw(e),
        _ => ffi::to_raw(e),
    };
    let w = size_of::<R>();
    let look = |e: &E| {
        let mut o = memory(e, w);
        o.push(-1);
        o.extend(to_native(*e).be_bytes().iter().map(|b| *b as i64));
        o.push(-1);
        o.extend(memory(&to_raw(*e), w));
        assert!(hash(e) == hash(&to_native(*e)), "hash");
        o
    };
    let mut one = vec![0; w];
    one[w - 1] = 1;
    let mut slots = [from_native(R::take_be(&one)); 2];
    for op in input.get("ops").arr() {
        let s = op.get("s").int() as usize - 1;
        match op.get("k").int() {
            0 => slots[s] = from_native(R::take_be(&op.get("v").bytes())),
            1 => {
                // The raw value with these bytes in memory.
                let mut v = op.get("v").bytes();
                v.reverse();
                slots[s] = from_raw(R::take_be(&v));
            }
            2 => {
                let (a, b) = (&slots[s], &slots[1 - s]);
                let c = a.cmp(b);
                assert!(a.partial_cmp(b) == Some(c), "partial order");
                assert!((a == b) == c.is_eq() && (a != b) == c.is_ne(), "equality");
                assert!((hash(a) == hash(b)) == c.is_eq(), "hash");
                sink.push(vec![c as i64]);
                continue;
            }
            3 => slots[s] = (ways.dflt.expect("vh: default"))(),
            4 => {
                sink.push(text(&slots[s], op));
                continue;
            }
            5 => slots[1 - s] = slots[s].clone(),
            _ => panic!("vh: op"),
        }
        sink.push(look(&slots[s]));
    }
}

macro_rules! ways {
    ($e:ty, $r:ty, $d:expr) => {
        Ways::<$e, $r> {
            from_native: |v| <$e>::from_native(v),
            to_native: |v| <$e>::to_native(v),
            from_raw: |v| <$e>::from_raw(v),
            to_raw: |v| <$e>::to_raw(v),
            dflt: $d,
        }
    };
}

macro_rules! forms {
    ($input:expr, $sink:expr, $e:ty, $r:ty, $d:expr, $di:expr) => {
        match $input.get("form").int() {
            0 => with($input, $sink, ways!($e, $r, $d)),
            1 => with($input, $sink, ways!(Integer<$e, AlignAs<1>>, $r, $di)),
            2 => with($input, $sink, ways!(Integer<$e, AlignAs<8>>, $r, $di)),
            _ => with($input, $sink, ways!(Pointer<$e, u16>, $r, None)),
        }
    };
}

macro_rules! orders {
    ($input:expr, $sink:expr, $r:ty, $d:expr) => {
        match $input.get("ord").int() {
            0 => forms!($input, $sink, BigEndian<$r>, $r, $d, $d),
            1 => forms!($input, $sink, LittleEndian<$r>, $r, $d, $d),
            _ => {
                use self::NativeEndian as _;
                forms!($input, $sink, $r, $r, $d, $d)
            }
        }
    };
}

fn run(input: &J, sink: &mut Sink) {
    macro_rules! types {
        ($($n:literal $t:ty),*) => {
            match input.get("ty").int() {
                $( $n => orders!(input, sink, $t, Some(Default::default)), )*
                t => match t - 12 {
                    $( $n => orders!(input, sink, NonZero<$t>, None), )*
                    _ => panic!("vh: type"),
                }
            }
        };
    }
    types!(0 i8, 1 i16, 2 i32, 3 i64, 4 i128, 5 isize, 6 u8, 7 u16, 8 u32, 9 u64, 10 u128, 11 usize)
}
