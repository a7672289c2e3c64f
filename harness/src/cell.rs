//! Fixed-layout containers: `osi::ffi::{Packed, Integer, Pointer}`, the ABI
//! modules and `osi::align`.

use crate::endian::{hash, memory, number, text};
use crate::json::J;
use crate::rnd::Rnd;
use crate::{Sink, Sub};
use osi::align::{self, AlignAs, AlignOf, Aligned};
use osi::ffi::{self, abi, BigEndian, Integer, NativeAddress, Packed, Pointer};
use std::cell::RefCell;
use std::fmt::Display;
use std::hash::Hash;
use std::mem::{offset_of, MaybeUninit};
use std::num::{NonZeroU64, NonZeroUsize};
use std::rc::Rc;

pub const SUB: Sub = Sub { name: "cell", gen, run };

fn run(input: &J, sink: &mut Sink) {
    match input.get("m").int() {
        0 => for op in input.get("ops").arr() { sink.push(layout(op)) },
        1 => cell(input, sink),
        2 => match input.get("kind").int() {
            0 => owner::<Packed<Noisy>>(input, sink),
            1 => owner::<Integer<Noisy, AlignAs<1>>>(input, sink),
            2 => owner::<Integer<Noisy, AlignAs<4>>>(input, sink),
            _ => owner::<Integer<Noisy, AlignAs<16>>>(input, sink),
        },
        _ => pointer(input, sink),
    }
}

// Layout

#[repr(C)]
struct Between<T>(u8, T, u8);

fn shape<T>(spare: i64) -> Vec<i64> {
    let spare = if spare == 1 && size_of::<Option<T>>() != size_of::<T>() { 0 } else { spare };
    [size_of::<T>(), align_of::<T>(), offset_of!(Between<T>, 1), size_of::<Between<T>>(), size_of::<[T; 3]>()]
        .iter().map(|v| *v as i64).chain([spare]).collect()
}

macro_rules! abi_shape {
    ($abi:ident, $t:expr) => {
        match $t {
            0 => shape::<abi::$abi::I8>(0), 1 => shape::<abi::$abi::I16>(0), 2 => shape::<abi::$abi::I32>(0),
            3 => shape::<abi::$abi::I64>(0), 4 => shape::<abi::$abi::I128>(0), 5 => shape::<abi::$abi::Isize>(0),
            6 => shape::<abi::$abi::U8>(0), 7 => shape::<abi::$abi::U16>(0), 8 => shape::<abi::$abi::U32>(0),
            9 => shape::<abi::$abi::U64>(0), 10 => shape::<abi::$abi::U128>(0), 11 => shape::<abi::$abi::Usize>(0),
            12 => shape::<abi::$abi::F32>(0), 13 => shape::<abi::$abi::F64>(0), 14 => shape::<abi::$abi::Addr>(1),
            _ => shape::<abi::$abi::Ptr<u32>>(1),
        }
    };
}

macro_rules! plain {
    ($t:expr, $f:ident) => {
        match $t {
            0 => $f!(i8), 1 => $f!(i16), 2 => $f!(i32), 3 => $f!(i64), 4 => $f!(i128), 5 => $f!(isize),
            6 => $f!(u8), 7 => $f!(u16), 8 => $f!(u32), 9 => $f!(u64), 10 => $f!(u128), 11 => $f!(usize),
            12 => $f!(f32), 13 => $f!(f64), 14 => $f!(char), 15 => $f!(bool), 16 => $f!(()), 17 => $f!(&'static u8),
            _ => $f!([u16; 3]),
        }
    };
}

fn layout(op: &J) -> Vec<i64> {
    let t = || op.get("t").int();
    let spare = || matches!(t(), 14 | 15) as i64;
    match op.get("k").int() {
        0 => match op.get("abi").int() {
            0 => abi_shape!(native, t()),
            1 => abi_shape!(aarch64_sysv, t()),
            2 => abi_shape!(x86_sysv, t()),
            3 => abi_shape!(x86_64_sysv, t()),
            _ => abi_shape!(target, t()),
        },
        1 if op.get("f").int() == 0 => match op.get("n").int() {
            1 => shape::<align::Align1>(0), 2 => shape::<align::Align2>(0), 4 => shape::<align::Align4>(0),
            8 => shape::<align::Align8>(0), 16 => shape::<align::Align16>(0), 32 => shape::<align::Align32>(0),
            64 => shape::<align::Align64>(0), _ => shape::<align::Align128>(0),
        },
        1 => {
            assert!(size_of::<align::AlignAny>() == 0 && align_of::<align::AlignAny>() == 1, "any alignment");
            assert!(size_of::<align::AlignNative>() == 0 && align_of::<align::AlignNative>() == 8, "native alignment");
            match op.get("n").int() {
                1 => shape::<AlignAs<1>>(0), 2 => shape::<AlignAs<2>>(0), 4 => shape::<AlignAs<4>>(0),
                8 => shape::<AlignAs<8>>(0), 16 => shape::<AlignAs<16>>(0), 32 => shape::<AlignAs<32>>(0),
                64 => shape::<AlignAs<64>>(0), _ => shape::<AlignAs<128>>(0),
            }
        }
        2 => {
            macro_rules! marker { ($t:ty) => { { let a = shape::<AlignOf<$t>>(0); assert!(a == shape::<AlignOf<[$t; 5]>>(0) && a == shape::<AlignOf<[$t]>>(0) && a == shape::<<$t as Aligned>::Align>(0), "arrays"); a } } }
            assert!(align_of::<AlignOf<str>>() == 1 && align_of::<AlignOf<*const u8>>() == 8
                && align_of::<AlignOf<*mut u8>>() == 8 && align_of::<AlignOf<&mut u8>>() == 8, "pointers");
            plain!(t(), marker)
        }
        3 => {
            macro_rules! packed { ($t:ty) => { shape::<Packed<$t>>(spare()) } }
            plain!(t(), packed)
        }
        _ => {
            let n = op.get("n").int();
            macro_rules! integer {
                ($t:ty) => {
                    match n {
                        1 => shape::<Integer<$t, AlignAs<1>>>(spare()), 2 => shape::<Integer<$t, AlignAs<2>>>(spare()),
                        4 => shape::<Integer<$t, AlignAs<4>>>(spare()), 8 => shape::<Integer<$t, AlignAs<8>>>(spare()),
                        16 => shape::<Integer<$t, AlignAs<16>>>(spare()), 32 => shape::<Integer<$t, AlignAs<32>>>(spare()),
                        64 => shape::<Integer<$t, AlignAs<64>>>(spare()), _ => shape::<Integer<$t, AlignAs<128>>>(spare()),
                    }
                };
            }
            plain!(t(), integer)
        }
    }
}

// Cells

trait Cell<V>: Sized {
    fn new(v: V) -> Self;
    fn set(&mut self, v: V);
    fn replace(&mut self, v: V) -> V;
    fn take(&mut self) -> V where V: Default;
    fn get(&self) -> V where V: Copy;
    fn into_inner(self) -> V;
    fn as_ptr(&self) -> *const V;
    fn as_mut_ptr(&mut self) -> *mut V;
}

macro_rules! is_cell {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Cell<V> for $t {
            fn new(v: V) -> Self { <$t>::new(v) }
            fn set(&mut self, v: V) { <$t>::set(self, v) }
            fn replace(&mut self, v: V) -> V { <$t>::replace(self, v) }
            fn take(&mut self) -> V where V: Default { <$t>::take(self) }
            fn get(&self) -> V where V: Copy { <$t>::get(self) }
            fn into_inner(self) -> V { <$t>::into_inner(self) }
            fn as_ptr(&self) -> *const V { <$t>::as_ptr(self) }
            fn as_mut_ptr(&mut self) -> *mut V { <$t>::as_mut_ptr(self) }
        }
    };
}
is_cell!([V] Packed<V>);
is_cell!([V, A: Aligned] Integer<V, A>);

#[repr(C, align(128))]
struct Room([MaybeUninit<u8>; 1024]);

/// Two places in a room of which all other bytes are 165.
struct Places<C> {
    room: Box<Room>,
    at: [usize; 2],
    _c: std::marker::PhantomData<C>,
}

impl<C> Places<C> {
    fn new(off: usize) -> Self {
        let a = align_of::<C>();
        Places {
            room: Box::new(Room([MaybeUninit::new(165); 1024])),
            at: [(16 + off).div_ceil(a) * a, (512 + off).div_ceil(a) * a],
            _c: std::marker::PhantomData,
        }
    }
    fn at(&mut self, s: usize) -> *mut C {
        unsafe { (self.room.0.as_mut_ptr() as *mut C).byte_add(self.at[s]) }
    }
    fn untouched(&self) -> bool {
        let n = size_of::<C>();
        (0..1024).all(|i| self.at.iter().any(|a| (*a..a + n).contains(&i)) || unsafe { self.room.0[i].assume_init() } == 165)
    }
}

struct Noisy(i64, Rc<RefCell<Vec<i64>>>);

impl Drop for Noisy {
    fn drop(&mut self) {
        self.1.borrow_mut().push(self.0);
    }
}

thread_local! {
    static LOG: RefCell<Rc<RefCell<Vec<i64>>>> = RefCell::default();
}

impl Default for Noisy {
    fn default() -> Self {
        Noisy(0, LOG.with(|l| l.borrow().clone()))
    }
}

fn owner<C: Cell<Noisy>>(input: &J, sink: &mut Sink) {
    let log = Rc::new(RefCell::new(Vec::new()));
    LOG.with(|l| *l.borrow_mut() = log.clone());
    let mut next = 1;
    let mut make = || { next += 1; Noisy(next - 1, log.clone()) };
    let mut p = Places::<C>::new(input.get("off").int() as usize);
    let c = p.at(0);
    unsafe { c.write(C::new(make())) };
    for op in input.get("ops").arr() {
        match op.get("k").int() {
            0 => unsafe { *c = C::new(make()) },
            1 => unsafe { (*c).set(make()) },
            2 => drop(unsafe { (*c).replace(make()) }),
            3 => drop(unsafe { (*c).take() }),
            5 => {
                let v = unsafe { c.read() }.into_inner();
                drop(v);
                unsafe { c.write(C::new(make())) };
            }
            7 => (),
            _ => panic!("vh: op"),
        }
        let v = std::mem::ManuallyDrop::new(unsafe { (*c).as_ptr().read_unaligned() });
        let mut o = vec![v.0, -1];
        o.extend(log.borrow().iter());
        assert!(p.untouched(), "neighbours");
        sink.push(o);
    }
    // What is inside is dropped with the cell, and once.
    let id = unsafe { std::mem::ManuallyDrop::new((*c).as_ptr().read_unaligned()).0 };
    let n = log.borrow().len();
    unsafe { c.drop_in_place() };
    if log.borrow()[n..] != [id] {
        sink.last_mut().expect("vh: no calls").push(-7);
    }
}

fn cells<V, C>(input: &J, sink: &mut Sink, make: &dyn Fn(&[u8]) -> V, show: Option<&dyn Fn(&C, &J) -> Vec<i64>>)
where
    V: Copy + Default + Ord + Hash + std::fmt::Debug,
    C: Cell<V> + Copy + Default + Ord + Hash + From<V>,
{
    let w = size_of::<V>();
    let mut p = Places::<C>::new(input.get("off").int() as usize);
    for s in 0..2 { unsafe { p.at(s).write(C::default()) } }
    for op in input.get("ops").arr() {
        let s = op.get("s").int() as usize - 1;
        let v = || make(&op.get("v").bytes());
        let c = unsafe { &mut *p.at(s) };
        let mut old = None;
        match op.get("k").int() {
            0 => *c = C::new(v()),
            1 => c.set(v()),
            2 => old = Some(c.replace(v())),
            3 => old = Some(c.take()),
            4 => old = Some(c.get()),
            5 => old = Some(c.into_inner()),
            6 => unsafe { c.as_mut_ptr().write_unaligned(v()) },
            7 => {
                assert!(c.as_ptr().addr() == (c as *const C).addr(), "address");
                old = Some(unsafe { c.as_ptr().read_unaligned() });
            }
            8 => {
                let d = unsafe { &*p.at(1 - s) };
                let c = &*c;
                let r = C::cmp(c, d);
                assert!(C::partial_cmp(c, d) == Some(r) && (*c == *d) == r.is_eq() && (*c != *d) == r.is_ne(), "order");
                assert!(hash(c) == hash(&c.get()), "hash");
                sink.push(vec![r as i64]);
                continue;
            }
            9 => {
                unsafe { p.at(1 - s).write(*c) };
                old = Some(unsafe { (*p.at(1 - s)).clone().get() });
            }
            10 => {
                sink.push(show.expect("vh: no text")(c, op));
                continue;
            }
            11 => *c = C::from(v()),
            12 => *c = C::default(),
            _ => panic!("vh: op"),
        }
        let mut o = old.map(|v| memory(&v, w)).unwrap_or_default();
        o.push(-1);
        o.extend(memory(unsafe { &*p.at(s) }, w));
        assert!(p.untouched(), "neighbours");
        sink.push(o);
    }
}

fn cell(input: &J, sink: &mut Sink) {
    macro_rules! kinds {
        ($v:ty, $make:expr, $show:expr) => {
            match input.get("kind").int() {
                0 => cells::<$v, Packed<$v>>(input, sink, &$make, $show),
                1 => cells::<$v, Integer<$v, AlignAs<1>>>(input, sink, &$make, $show),
                2 => cells::<$v, Integer<$v, AlignAs<4>>>(input, sink, &$make, $show),
                _ => cells::<$v, Integer<$v, AlignAs<16>>>(input, sink, &$make, $show),
            }
        };
    }
    macro_rules! number {
        ($v:ty) => { kinds!($v, |b: &[u8]| <$v>::from_le_bytes(b.try_into().expect("vh: width")), Some(&|c, op| text(c, op))) };
    }
    match input.get("ty").int() {
        0 => number!(i8), 1 => number!(i16), 2 => number!(i32), 3 => number!(i64), 4 => number!(i128),
        5 => number!(u8), 6 => number!(u16), 7 => number!(u32), 8 => number!(u64), 9 => number!(u128),
        10 => kinds!([u8; 3], |b: &[u8]| b.try_into().expect("vh: width"), None),
        _ => kinds!(BigEndian<u32>, |b: &[u8]| BigEndian::<u32>::from_native(u32::from_be_bytes(b.try_into().expect("vh: width"))), Some(&|c, op| text(c, op))),
    }
}

// Pointers

fn pointers<A, T>(input: &J, sink: &mut Sink, addr: &dyn Fn(usize) -> A, native: &dyn Fn(Pointer<A, T>) -> Pointer<A, T>)
where
    A: Copy + Ord + Hash + Display + NativeAddress<T> + NativeAddress<u8>,
    T: From<Tgt> + Into<Tgt> + Copy,
{
    let look = |p: &Pointer<A, T>| {
        let a = p.to_usize();
        let all = [
            p.into_usize(), p.as_ptr() as usize, p.as_mut_ptr() as usize,
            NativeAddress::<T>::to_usize(p.address()), NativeAddress::<T>::to_usize(&p.get()),
            NativeAddress::<T>::into_usize(p.into_inner()), NativeAddress::<T>::to_usize(p),
            NativeAddress::<T>::into_usize(*p), NativeAddress::<T>::as_ptr(p) as usize, NativeAddress::<T>::as_mut_ptr(p) as usize,
        ];
        assert!(all.iter().all(|v| *v == a), "address");
        assert!(hash(p) == hash(&p.get()), "hash");
        a.to_be_bytes().map(|b| b as i64)
    };
    let mut slots = [Pointer::<A, T>::new(addr(1)); 2];
    for op in input.get("ops").arr() {
        let s = op.get("s").int() as usize - 1;
        let v = || usize::from_be_bytes(op.get("v").bytes().try_into().expect("vh: width"));
        let p = slots[s];
        let mut first = vec![1];
        let made = |n: Option<Pointer<A, T>>| n.map_or((vec![0], p), |n| (vec![1], n));
        match op.get("k").int() {
            0 => {
                let n = Pointer::<A, T>::from_usize(v());
                assert!(n == <Pointer::<A, T> as NativeAddress<T>>::from_usize(v()), "trait");
                assert!(v() == 0 || n == Some(unsafe { Pointer::<A, T>::from_usize_unchecked(v()) }), "unchecked");
                (first, slots[s]) = made(n);
            }
            1 => (first, slots[s]) = made(v().try_into().ok()),
            2 => (first, slots[s]) = made((v() as *const T).try_into().ok()),
            3 => (first, slots[s]) = made((v() as *mut T).try_into().ok()),
            4 => slots[s] = Pointer::new(addr(v())),
            5 => slots[s].set(addr(v())),
            6 => first = NativeAddress::<T>::to_usize(&slots[s].replace(addr(v()))).to_be_bytes().map(|b| b as i64).to_vec(),
            7 => slots[s] = Pointer::dangling(),
            8 => {
                let q: Pointer<A, u8> = p.cast();
                assert!(q.as_ptr() as usize == p.to_usize() && p.cast_into::<u8>() == q, "cast");
                slots[s] = q.cast_into();
            }
            9 => {
                let q = slots[1 - s];
                let r = p.cmp(&q);
                assert!(p.partial_cmp(&q) == Some(r) && (p == q) == r.is_eq() && (p != q) == r.is_ne(), "order");
                sink.push(vec![r as i64]);
                continue;
            }
            10 => {
                sink.push(text(&p, op));
                continue;
            }
            11 => slots[1 - s] = slots[s].clone(),
            12 => slots[s] = native(slots[s]),
            13 => {
                let o = T::from(op.get("c").arr()[0].int() as Tgt);
                let q = Pointer::<A, T>::from(&o);
                assert!(q.as_ptr() == &o as *const T, "address");
                let r: Tgt = unsafe { *q.as_ref() }.into();
                assert!(r == unsafe { *NativeAddress::<T>::as_ref(&q) }.into(), "trait");
                sink.push(vec![1, r as i64]);
                continue;
            }
            14 => {
                let mut o = T::from(op.get("c").arr()[0].int() as Tgt);
                let q = Pointer::<A, T>::from(&mut o);
                let before: Tgt = unsafe { *q.as_ref() }.into();
                unsafe { *q.as_mut() = T::from(op.get("d").arr()[0].int() as Tgt) };
                assert!(q.as_mut_ptr().addr() == (&raw mut o).addr(), "address");
                let after: Tgt = unsafe { std::ptr::read_volatile(&o) }.into();
                sink.push(vec![1, before as i64, after as i64]);
                continue;
            }
            _ => panic!("vh: op"),
        }
        first.extend(look(&slots[s]));
        sink.push(first);
    }
}

type Tgt = u8;

macro_rules! targets {
    ($($n:ident $t:ty, $a:literal;)*) => { $(
        #[derive(Clone, Copy)]
        #[repr(C, align($a))]
        struct $n($t);
        impl From<Tgt> for $n { fn from(v: Tgt) -> Self { let mut n = $n([0; _]); n.0[0] = v; n } }
        impl From<$n> for Tgt { fn from(v: $n) -> Self { v.0[0] } }
    )* };
}
targets! {
    T1 [u8; 1], 1; T2 [u8; 2], 2; T4 [u8; 4], 4; T8 [u8; 8], 8; T16 [u8; 16], 16; T6 [u8; 6], 2; T3 [u8; 3], 1;
}

fn pointer(input: &J, sink: &mut Sink) {
    macro_rules! kinds {
        ($t:ty) => {{
            macro_rules! go {
                ($a:ty, $n:ty, $make:expr) => {
                    pointers::<$a, $t>(input, sink, &$make, &|p| {
                        let n: $n = p.to_native();
                        assert!(n == p.to_raw::<$n>(), "raw");
                        let q = Pointer::<$a, $t>::from_raw(n);
                        assert!(q == Pointer::<$a, $t>::from_native(n), "native");
                        ffi::abi::native::num(ffi::to_native::<_, $n>(q))
                    })
                };
            }
            let nz = |v| NonZeroUsize::new(v).expect("vh: null");
            let nz64 = |v| NonZeroU64::new(v as u64).expect("vh: null");
            match input.get("kind").int() {
                0 => go!(usize, usize, |v| v),
                1 => go!(NonZeroUsize, NonZeroUsize, nz),
                2 => go!(u64, u64, |v| v as u64),
                3 => go!(NonZeroU64, NonZeroU64, nz64),
                4 => go!(Integer<NonZeroUsize, AlignAs<1>>, NonZeroUsize, |v| Integer::new(nz(v))),
                _ => go!(Integer<u64, AlignAs<8>>, u64, |v| Integer::new(v as u64)),
            }
        }};
    }
    match input.get("target").int() {
        0 => kinds!(T1), 1 => kinds!(T2), 2 => kinds!(T4), 3 => kinds!(T8), 4 => kinds!(T16), 5 => kinds!(T6),
        _ => kinds!(T3),
    }
}

fn gen(r: &Rnd, _idx: u64, _prof: &str) -> J {
    let n = |v: usize| J::N(v as i64);
    let m = *r.pick(&[1, 1, 1, 2, 3, 3]);
    let mut o = vec![("m", n(m))];
    let mut ops = Vec::new();
    let fmt = |k: usize, s: usize| J::obj(vec![("k", n(k)), ("s", n(s)), ("plus", n(r.below(2))), ("zero", n(r.below(2))), ("w", n(r.below(42)))]);
    match m {
        1 => {
            let ty = r.below(12);
            let w = match ty { 10 => 3, 11 => 4, _ => [1, 2, 4, 8, 16][ty % 5] };
            o.extend([("kind", n(r.below(4))), ("ty", n(ty)), ("off", n(r.below(33)))]);
            for _ in 0..r.range(2, 16) {
                let (k, s) = (r.below(13), 1 + r.below(2));
                ops.push(match k {
                    10 if ty == 10 => J::obj(vec![("k", n(8)), ("s", n(s))]),
                    10 => fmt(k, s),
                    _ => J::obj(vec![("k", n(k)), ("s", n(s)), ("v", J::from_bytes(&number(r, w)))]),
                });
            }
        }
        2 => {
            o.extend([("kind", n(r.below(4))), ("off", n(r.below(33)))]);
            for _ in 0..r.range(2, 16) { ops.push(J::obj(vec![("k", n(*r.pick(&[0, 1, 2, 3, 5, 7])))])); }
        }
        _ => {
            o.extend([("kind", n(r.below(6))), ("target", n(r.below(7)))]);
            for _ in 0..r.range(2, 16) {
                let (k, s) = (r.below(15), 1 + r.below(2));
                let mut v = number(r, 8);
                if k < 4 && r.one_in(3) { v.fill(0); }
                ops.push(if k == 10 { fmt(k, s) } else {
                    J::obj(vec![("k", n(k)), ("s", n(s)), ("v", J::from_bytes(&v)),
                        ("c", J::from_ints(&[r.below(256) as i64])), ("d", J::from_ints(&[r.below(256) as i64]))])
                });
            }
        }
    }
    o.push(("ops", J::A(ops)));
    J::obj(o)
}
