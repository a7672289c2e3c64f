//! Tagged pointers: `osi::ptr::NonNull4`.

use crate::json::J;
use crate::rnd::Rnd;
use crate::{Sink, Sub};
use osi::ptr::NonNull4;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::ptr::NonNull;

pub const SUB: Sub = Sub { name: "tagged", gen, run };

fn limbs(v: usize) -> [i64; 4] {
    [(v >> 48) as i64, (v >> 32 & 0xffff) as i64, (v >> 16 & 0xffff) as i64, (v & 0xffff) as i64]
}

fn word(v: &[i64]) -> usize {
    v.iter().fold(0, |a, l| a << 16 | *l as usize)
}

fn addr(r: &Rnd) -> usize {
    let v = match r.below(5) {
        0 => r.below(64),
        1 => usize::MAX - r.below(64),
        2 => 1 << r.below(64),
        3 => (1usize << 63) | r.below(16),
        _ => r.next() as usize,
    };
    v.max(4)
}

fn gen(r: &Rnd, _idx: u64, _prof: &str) -> J {
    let mut ops = Vec::new();
    for _ in 0..r.range(2, 14) {
        let k = *r.pick(&[0, 0, 1, 2, 2, 3, 3, 4, 4, 4, 5, 6, 7, 8]);
        let mut a = addr(r);
        if k == 1 || k == 2 { a = (a & !3).max(4); }
        if k == 3 && r.one_in(2) { a = r.below(4); }
        let b = if r.one_in(4) { r.below(64) } else { r.below(3) };
        ops.push(J::obj(vec![
            ("k", J::N(k)),
            ("s", J::N(1 + r.below(2) as i64)),
            ("a", J::from_ints(&limbs(a))),
            ("b", J::N(b as i64)),
            ("f", J::N(r.below(2) as i64)),
        ]));
    }
    J::obj(vec![("ty", J::N(r.below(3) as i64)), ("ops", J::A(ops))])
}

fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn look<T: ?Sized>(v: &NonNull4<T>) -> Vec<i64> {
    let mut o = limbs(v.ptr().addr().get()).to_vec();
    o.push(v.meta() as i64);
    o.extend([v.get0(), v.get1(), v.meta_bit(0), v.meta_bit(1), v.meta_bit(2)].map(|v| v as i64));
    o
}

#[allow(ambiguous_wide_pointer_comparisons)]
fn with<T: ?Sized + Ord + Hash>(input: &J, sink: &mut Sink, make: &dyn Fn(usize) -> NonNull<T>, whole: &dyn Fn(NonNull<T>) -> bool) {
    let first = || NonNull4::new(make(4)).expect("aligned");
    let mut slots = [first(), first()];
    for op in input.get("ops").arr() {
        let s = op.get("s").int() as usize - 1;
        let a = || word(&op.get("a").ints());
        let f = || op.get("f").int() == 1;
        let mut first = 1;
        match op.get("k").int() {
            0 => match NonNull4::new(make(a())) {
                Some(v) => slots[s] = v,
                None => first = 0,
            },
            1 => slots[s] = unsafe { NonNull4::new_unchecked(make(a())) },
            2 => unsafe { slots[s].set_ptr_unchecked(make(a())) },
            3 => slots[s].set_meta(a()),
            4 => slots[s].set_meta_bit(op.get("b").int() as u8, f()),
            5 => slots[s].set0(f()),
            6 => slots[s].set1(f()),
            7 => {
                let c = slots[s].cmp(&slots[1 - s]);
                assert!(slots[s].partial_cmp(&slots[1 - s]) == Some(c), "partial order");
                assert!((slots[s] == slots[1 - s]) == c.is_eq(), "equality");
                assert!((hash(&slots[s]) == hash(&slots[1 - s])) == c.is_eq(), "hash");
                first = c as i64;
            }
            // Copies are offered for some types only.
            8 => slots[1 - s] = unsafe { std::ptr::read(&slots[s]) },
            _ => panic!("vh: op"),
        }
        assert!(whole(slots[s].ptr()), "rest of the pointer");
        let mut o = look(&slots[s]);
        o.insert(0, first);
        sink.push(o);
    }
}

fn raw<T>(a: usize) -> NonNull<T> {
    NonNull::new(std::ptr::without_provenance_mut(a)).expect("vh: null")
}

fn run(input: &J, sink: &mut Sink) {
    match input.get("ty").int() {
        0 => with::<u32>(input, sink, &raw, &|_| true),
        1 => with::<u8>(input, sink, &raw, &|_| true),
        _ => with::<[u16]>(input, sink, &|a| NonNull::slice_from_raw_parts(raw(a), 7), &|p| p.len() == 7),
    }
}
