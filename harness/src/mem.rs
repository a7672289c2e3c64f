//! Raw memory helpers and member projection: `osi::{mem, meta}`.

use crate::json::J;
use crate::rnd::Rnd;
use crate::{Sink, Sub};
use osi::mem::{self, typed_offset_of};
use osi::meta::{self, Field};
use std::mem::MaybeUninit;

pub const SUB: Sub = Sub { name: "mem", gen, run };

macro_rules! sized {
    ($n:expr, $f:ident, $($m:literal)*) => {
        match $n { $( $m => $f!($m), )* _ => panic!("vh: size") }
    };
}
macro_rules! sizes {
    ($n:expr, $f:ident) => {
        sized!($n, $f, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40
            63 64 65 127 128 129 255 256 257 1000 1023 1024 1025 4096 4099 16384 32768 65535 65536 65539)
    };
}
macro_rules! few {
    ($n:expr, $f:ident) => { sized!($n, $f, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 64 257 4096) };
}
macro_rules! prims {
    ($n:expr, $f:ident) => { match $n { 1 => $f!(u8), 2 => $f!(u16), 4 => $f!(u32), 8 => $f!(u64), 16 => $f!(u128), _ => panic!("vh: size") } };
}

const SIZES: &[usize] = &[63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 4099, 16384, 32768, 65535, 65536, 65539];

unsafe extern "C" {
    pub(crate) fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

const PAGE: usize = 4096;
/// Right at the end of the memory.
const EDGE: usize = usize::MAX;

/// An object of these bytes, at `off` behind an aligned address (rounded up
/// to what the type needs); all else is 165. What lies before and behind the
/// memory cannot be accessed.
struct Placed<T> {
    base: *mut u8,
    len: usize,
    at: usize,
    _t: std::marker::PhantomData<T>,
}

impl<T> Placed<T> {
    fn new(v: &[u8], off: usize) -> Self {
        assert!(v.len() == size_of::<T>(), "vh: size of object");
        let len = (v.len() + 64).div_ceil(PAGE) * PAGE;
        let at = if off == EDGE { len - v.len() } else { (16 + off).div_ceil(align_of::<T>()) * align_of::<T>() };
        let base = unsafe {
            let m = mmap(std::ptr::null_mut(), len + 2 * PAGE, 0, 0x22, -1, 0);
            assert!(m.addr() != usize::MAX && mprotect(m.add(PAGE), len, 3) == 0, "vh: no memory");
            m.add(PAGE)
        };
        let mut p = Placed { base, len, at, _t: Default::default() };
        p.all_mut().fill(165);
        p.all_mut()[at..at + v.len()].copy_from_slice(v);
        p
    }
    fn all_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base, self.len) }
    }
    fn ptr(&mut self) -> *mut T {
        unsafe { self.base.add(self.at).cast() }
    }
    /// Its bytes, after a look at those around.
    fn bytes(&self) -> Vec<i64> {
        let all = unsafe { std::slice::from_raw_parts(self.base, self.len) };
        let end = self.at + size_of::<T>();
        assert!(all[..self.at].iter().chain(&all[end..]).all(|b| *b == 165), "neighbours");
        ints(&all[self.at..end])
    }
}

impl<T> Drop for Placed<T> {
    fn drop(&mut self) {
        unsafe { munmap(self.base.sub(PAGE), self.len + 2 * PAGE) };
    }
}

fn ints(v: &[u8]) -> Vec<i64> {
    v.iter().map(|b| *b as i64).collect()
}

fn raw<T>(v: &T) -> Vec<i64> {
    (0..size_of::<T>()).map(|i| unsafe { *(v as *const T as *const u8).add(i) } as i64).collect()
}

fn swap<T>(v: &[u8], off: usize) -> Vec<i64> {
    let mut p = Placed::<T>::new(v, off);
    let r = raw(&unsafe { mem::bswap_copy(&*p.ptr()) });
    assert!(p.bytes() == ints(v), "source");
    r
}

fn copy<S, D>(v: &[u8], off: usize) -> Vec<i64> {
    let mut p = Placed::<S>::new(v, off);
    let d: MaybeUninit<D> = unsafe { mem::transmute_copy_uninit(&*p.ptr()) };
    assert!(p.bytes() == ints(v), "source");
    let n = size_of::<S>().min(size_of::<D>());
    (0..n).map(|i| unsafe { *(d.as_ptr() as *const u8).add(i) } as i64).collect()
}

fn view<T>(v: &[u8], off: usize) -> Vec<i64> {
    let mut p = Placed::<T>::new(v, off);
    let (a, b) = (p.ptr().addr(), unsafe { mem::as_bytes(&*p.ptr()) });
    assert!(b.as_ptr().addr() == a, "address");
    let r = ints(b);
    let b = unsafe { mem::as_bytes_mut(&mut *p.ptr()) };
    assert!(b.as_ptr().addr() == a && ints(b) == r, "mutable view");
    r
}

fn write<T>(v: &[u8], off: usize, j: usize, x: u8) -> Vec<i64> {
    let mut p = Placed::<T>::new(v, off);
    unsafe { mem::as_bytes_mut(&mut *p.ptr())[j] = x };
    p.bytes()
}

fn uninit(v: &[u8], j: usize, x: u8) -> Vec<i64> {
    // Single objects.
    for b in v {
        let u = mem::as_uninit(b);
        assert!(u.as_ptr() == b as *const u8, "as_uninit");
        assert!(std::ptr::eq(unsafe { mem::assume_init(u) }, b), "assume_init");
    }
    let mut one = MaybeUninit::new(v[j]);
    let at = one.as_mut_ptr().addr();
    let m = unsafe { mem::assume_init_mut(&mut one) };
    assert!((m as *mut u8).addr() == at && *m == v[j], "assume_init_mut");
    *m = x;
    assert!(unsafe { one.assume_init() } == x, "write");
    // Slices, of larger elements as well.
    let wide: Vec<u32> = v.iter().map(|b| *b as u32 * 0x01010101).collect();
    let u = mem::slice_as_uninit(&wide);
    assert!(u.len() == wide.len() && u.as_ptr().addr() == wide.as_ptr().addr(), "slice_as_uninit");
    let i = unsafe { mem::slice_assume_init(u) };
    assert!(i == &wide[..] && i.as_ptr() == wide.as_ptr(), "slice_assume_init");
    let mut vec: Vec<MaybeUninit<u8>> = v.iter().map(|b| MaybeUninit::new(*b)).collect();
    let (at, len) = (vec.as_ptr().addr(), vec.len());
    let s = unsafe { mem::slice_assume_init_mut(&mut vec) };
    assert!(s.as_ptr().addr() == at && s.len() == len, "slice_assume_init_mut");
    s[j] = x;
    vec.iter().map(|b| unsafe { b.assume_init() } as i64).collect()
}

macro_rules! structure {
    ([$($repr:tt)*] $n:ident, $($i:literal $f:ident $t:ty),*) => {
        #[repr(C, $($repr)*)]
        struct $n { $($f: $t),* }
        $( unsafe impl Field<{ typed_offset_of!($n, $f, $t) }, $t> for $n {} )*
        impl $n {
            fn project(f: i64, fill: &[u8], off: usize, x: u8) -> Vec<i64> {
                match f { $( $i => member::<{ typed_offset_of!($n, $f, $t) }, $t, $n>(fill, off, x, |c| unsafe { &raw mut (*c).$f }), )* _ => panic!("vh: member") }
            }
            const SIZE: usize = size_of::<$n>();
        }
    };
}
#[derive(Clone, Copy)]
#[repr(C)]
struct Inner { a: u16, b: [u8; 2] }
#[derive(Clone, Copy)]
#[repr(C, align(16))]
struct Void;
structure!([align(1)] S0, 0 a u8, 1 b u16, 2 c u8, 3 d u64, 4 e [u8; 3]);
structure!([packed] S1, 0 a u8, 1 b [u8; 4], 2 c [u8; 2], 3 d [u8; 16]);
structure!([align(1)] S2, 0 z (), 1 a u32, 2 b u8, 3 y Void);
structure!([align(1)] S3, 0 a [u8; 5], 1 b Inner, 2 c f32, 3 d u8);
structure!([align(1)] S5, 0 a [u8; 300], 1 b u16, 2 c [u8; 33001], 3 d u32, 4 e [u8; 33000], 5 f u8);

fn member<const O: usize, F: Copy, C: Field<O, F>>(fill: &[u8], off: usize, x: u8, place: fn(*mut C) -> *mut F) -> Vec<i64> {
    let mut p = Placed::<C>::new(fill, off);
    let c = p.ptr();
    let m: *mut F = meta::field_of_ptr::<O, F, C>(c);
    assert!(m == place(c), "member pointer");
    let back: *mut C = meta::container_of_ptr::<O, F, C>(m);
    let mut o = vec![O as i64, (back == c) as i64];
    let r = meta::field_of::<O, F, C>(unsafe { &*c });
    assert!((r as *const F).addr() == m.addr(), "member reference");
    o.extend(raw(r));
    o.push(-1);
    let v: Vec<u8> = (0..size_of::<F>()).map(|k| x.wrapping_add(k as u8)).collect();
    let w = meta::field_of_mut::<O, F, C>(unsafe { &mut *c });
    assert!((w as *const F).addr() == m.addr(), "mutable member reference");
    *w = unsafe { (v.as_ptr() as *const F).read_unaligned() };
    o.extend(p.bytes());
    o
}

#[repr(C)]
struct Open<T: ?Sized> { a: u32, b: u16, t: T }
unsafe impl<T: ?Sized> Field<0, u32> for Open<T> {}
unsafe impl<T: ?Sized> Field<4, u16> for Open<T> {}

fn open(f: i64, fill: &[u8], off: usize, x: u8) -> Vec<i64> {
    let mut p = Placed::<Open<[u8; 3]>>::new(fill, off);
    let c: *mut Open<[u8]> = p.ptr();
    let c = unsafe { &mut *c };
    assert!(c.t.len() == 3 && c.a == c.a && c.b == c.b, "vh: open");
    let mut o = vec![4 * f, 1];
    if f == 0 {
        o.extend(raw(meta::field_of::<0, u32, _>(c)));
        *meta::field_of_mut::<0, u32, _>(c) = u32::from_ne_bytes([0, 1, 2, 3].map(|k| x.wrapping_add(k)));
    } else {
        o.extend(raw(meta::field_of::<4, u16, _>(c)));
        *meta::field_of_mut::<4, u16, _>(c) = u16::from_ne_bytes([0, 1].map(|k| x.wrapping_add(k)));
    }
    o.push(-1);
    o.extend(p.bytes());
    o
}

fn one(op: &J, edge: bool) -> Vec<i64> {
    let off = || if edge { EDGE } else { op.get("o").int() as usize };
    let v = || op.get("v").bytes();
    let x = || op.get("x").int() as u8;
    match op.get("k").int() {
        1 | 3 => {
            let f = op.get("k").int() == 1;
            let (v, o) = (v(), off());
            macro_rules! go { ($t:ty) => { if f { swap::<$t>(&v, o) } else { view::<$t>(&v, o) } } }
            macro_rules! bytes { ($n:literal) => { go!([u8; $n]) } }
            macro_rules! pairs { ($n:literal) => { go!([u16; $n]) } }
            macro_rules! quads { ($n:literal) => { go!([u32; $n]) } }
            match op.get("ty").int() {
                0 => sizes!(v.len(), bytes),
                1 => prims!(v.len(), go),
                2 => sizes!(v.len() / 2, pairs),
                _ => sizes!(v.len() / 4, quads),
            }
        }
        2 => {
            let (v, o, m) = (v(), off(), op.get("m").int());
            macro_rules! from {
                ($n:literal) => {{
                    macro_rules! bytes { ($m:literal) => { copy::<[u8; $n], [u8; $m]>(&v, o) } }
                    macro_rules! prim { ($m:ty) => { copy::<[u8; $n], $m>(&v, o) } }
                    if op.get("ty").int() == 1 { prims!(m, prim) } else { few!(m, bytes) }
                }};
            }
            macro_rules! wide {
                ($n:ty) => {{
                    macro_rules! bytes { ($m:literal) => { copy::<$n, [u8; $m]>(&v, o) } }
                    few!(m, bytes)
                }};
            }
            if op.get("ty").int() == 2 { prims!(v.len(), wide) } else { few!(v.len(), from) }
        }
        4 => {
            let (v, o, j) = (v(), off(), op.get("j").int() as usize);
            macro_rules! bytes { ($n:literal) => { write::<[u8; $n]>(&v, o, j, x()) } }
            sizes!(v.len(), bytes)
        }
        5 => {
            let (v, u) = (v(), op.get("u").bytes());
            macro_rules! left {
                ($n:literal) => {{
                    macro_rules! right {
                        ($m:literal) => {{
                            let (mut a, mut b) = (Placed::<[u8; $n]>::new(&v, if edge { EDGE } else { 1 }), Placed::<[u8; $m]>::new(&u, if edge { EDGE } else { 2 }));
                            let e = unsafe { mem::eq(&*a.ptr(), &*b.ptr()) };
                            assert!(e == unsafe { mem::eq(&*b.ptr(), &*a.ptr()) }, "symmetric");
                            vec![e as i64]
                        }};
                    }
                    few!(u.len(), right)
                }};
            }
            few!(v.len(), left)
        }
        6 => uninit(&v(), op.get("j").int() as usize, x()),
        7 => {
            let (t, f, c) = (op.get("t").int(), op.get("f").int(), op.get("c").int() as u8);
            let size = match t { 0 => S0::SIZE, 1 => S1::SIZE, 2 => S2::SIZE, 3 => S3::SIZE, 5 => S5::SIZE, _ => size_of::<Open<[u8; 3]>>() };
            let fill: Vec<u8> = (0..size).map(|k| c.wrapping_add((7 * k) as u8)).collect();
            let off = if edge { EDGE } else { c as usize % 16 };
            match t {
                0 => S0::project(f, &fill, off, x()),
                1 if f == 0 => S1::project(f, &fill, off, x()),
                1 => S1::project(f, &fill, off, x()),
                2 => S2::project(f, &fill, off, x()),
                3 => S3::project(f, &fill, off, x()),
                5 => S5::project(f, &fill, off, x()),
                _ => open(f, &fill, off, x()),
            }
        }
        _ => panic!("vh: op"),
    }
}

fn run(input: &J, sink: &mut Sink) {
    for op in input.get("ops").arr() {
        let r = one(op, false);
        assert!(one(op, true) == r, "another place");
        sink.push(r);
    }
}

fn gen(r: &Rnd, _idx: u64, prof: &str) -> J {
    let big = prof == "big";
    let n = |v: usize| J::N(v as i64);
    let mut ops = Vec::new();
    for _ in 0..r.range(1, 12) {
        let k = r.range(1, 7);
        let mut o = vec![("k", n(k)), ("o", n(r.below(17))), ("x", n(r.below(256)))];
        match k {
            1 | 3 => {
                let ty = r.below(4);
                let len = match ty { 0 if big => *r.pick(SIZES), 2 if big => 2 * *r.pick(SIZES), 3 if big => 4 * *r.pick(SIZES), 0 => r.below(41), 1 => *r.pick(&[1, 2, 4, 8, 16]), 2 => 2 * r.below(21), _ => 4 * r.below(11) };
                o.extend([("ty", n(ty)), ("v", J::from_bytes(&r.bytes(len)))]);
            }
            2 => {
                let (mut ty, mut len, mut m) = (r.below(3), r.below(19), r.below(19));
                if big && r.one_in(2) { len = *r.pick(&[64, 257, 4096]); }
                if big && r.one_in(2) { m = *r.pick(&[64, 257, 4096]); }
                if ty == 1 { m = *r.pick(&[1, 2, 4, 8, 16]); if m > len { ty = 0; } }
                if ty == 2 { len = *r.pick(&[1, 2, 4, 8, 16]); }
                o.extend([("ty", n(ty)), ("v", J::from_bytes(&r.bytes(len))), ("m", n(m))]);
            }
            4 | 6 => {
                let len = if big { *r.pick(SIZES) } else { r.range(1, 40) };
                o.extend([("v", J::from_bytes(&r.bytes(len))), ("j", n(r.below(len)))]);
            }
            5 => {
                let len = if big { *r.pick(&[64, 257, 4096]) } else { r.below(19) };
                let v = r.bytes(len);
                let mut u = v.clone();
                match r.below(4) {
                    0 => u = r.bytes(r.below(19)),
                    1 if len > 0 => u[r.below(len)] ^= 1 << r.below(8),
                    2 if len > 0 && !big => { u.pop(); }
                    _ => (),
                }
                o.extend([("v", J::from_bytes(&v)), ("u", J::from_bytes(&u))]);
            }
            _ => {
                let t = if big && r.one_in(2) { 5 } else { r.below(5) };
                o.extend([("t", n(t)), ("f", n(r.below([5, 4, 4, 4, 2, 6][t]))), ("c", n(r.below(256)))]);
            }
        }
        ops.push(J::obj(o));
    }
    J::obj(vec![("ops", J::A(ops))])
}
