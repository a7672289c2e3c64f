//! Hash and MAC engines: `osi::hash`, `osi::hmac`.

use crate::json::J;
use crate::rnd::Rnd;
use crate::{Sink, Sub};
use osi::hash::{self, sha256, Engine, Hash};
use osi::hmac::{Hmac, HmacSha256};

pub const HASH: Sub = Sub { name: "hash", gen: gen_hash, run: run_hash };
pub const HMAC: Sub = Sub { name: "hmac", gen: gen_hmac, run: run_hmac };

/// Engine without the optional method of its own.
#[derive(Clone, Default)]
struct Plain(sha256::Engine);

impl Engine for Plain {
    type Hash = Hash<32>;
    fn is_reset(&self) -> bool { self.0.is_reset() }
    fn reset(&mut self) { self.0.reset() }
    fn push(&mut self, d: &[u8]) { self.0.push(d) }
    fn finalize(&mut self) -> Hash<32> { self.0.finalize() }
}

/// Lengths close to a multiple of the block size half of the time.
fn length(r: &Rnd) -> usize {
    match r.below(6) {
        0 => r.below(8),
        1 | 2 => (64 * r.below(4) + 70 - r.below(18)).saturating_sub(6),
        3 => 128 * r.below(3) + r.below(3),
        _ => r.below(150),
    }
}

fn content(r: &Rnd, n: usize) -> Vec<u8> {
    match r.below(6) {
        0 => vec![0; n],
        1 => vec![255; n],
        _ => r.bytes(n),
    }
}

fn op_push(v: &[u8]) -> J { J::obj(vec![("k", J::N(0)), ("v", J::from_bytes(v))]) }
fn op_n(k: i64, n: usize) -> J { J::obj(vec![("k", J::N(k)), ("n", J::N(n as i64))]) }

fn gen_hash(r: &Rnd, idx: u64, prof: &str) -> J {
    let mut ops = Vec::new();
    match prof {
        // Every length, in one piece, then in two.
        "len" => {
            let n = (idx % 300) as usize;
            let v = content(r, n);
            ops.push(op_push(&v));
            ops.push(op_n(2, 0));
            let at = if n == 0 { 0 } else { r.below(n + 1) };
            ops.push(op_push(&v[..at]));
            ops.push(op_push(&v[at..]));
            ops.push(op_n(2, 0));
            ops.push(op_n(1, n));
            ops.push(op_n(2, 0));
            ops.push(J::obj(vec![("k", J::N(4)), ("v", J::from_bytes(&v))]));
        }
        // One long piece, or a lot of short ones.
        "big" => {
            let n = r.big(if idx % 4 == 0 { 16 } else { 13 });
            let v = content(r, n);
            let mut at = r.below(130).min(n);
            ops.push(op_push(&v[..at]));
            if idx % 3 == 0 {
                while at < n { let k = r.range(1, 1 + n / 150).min(n - at); ops.push(op_push(&v[at..at + k])); at += k; }
            }
            ops.push(op_push(&v[at..]));
            if r.one_in(2) { ops.push(op_n(1, r.big(12))); }
            ops.push(op_n(2, 0));
        }
        "huge" => {
            ops.push(op_n(6, if idx % 2 == 0 { 1 } else { 2 }));
            for _ in 0..r.below(3) { ops.push(op_push(&r.bytes(length(r)))); }
            ops.push(op_n(2, 0));
        }
        _ => {
            for _ in 0..r.range(1, 8) {
                let n = length(r);
                ops.push(match r.below(12) {
                    0..=4 => op_push(&content(r, n)),
                    5 | 6 => op_n(1, n),
                    7 => op_n(3, 0),
                    8 => J::obj(vec![("k", J::N(4)), ("v", J::from_bytes(&content(r, n)))]),
                    9 => op_n(5, 0),
                    _ => op_n(2, 0),
                });
            }
            ops.push(op_n(2, 0));
        }
    }
    J::obj(vec![("plain", J::N(r.one_in(4) as i64)), ("ops", J::A(ops))])
}

fn hash_with<E: Engine<Hash = Hash<32>> + Clone + Default>(input: &J, sink: &mut Sink) {
    let mut e = E::default();
    for op in input.get("ops").arr() {
        let mut o = Vec::new();
        match op.get("k").int() {
            0 => e.push(&op.get("v").bytes()),
            1 => e.push_zero(op.get("n").int() as usize),
            2 => {
                let d = e.finalize();
                let d = Hash::<32>::from(Hash::from_bytes(d.as_bytes()).as_bytes());
                assert!(d.0 == *d.as_bytes(), "bytes");
                o.extend(d.0.iter().map(|v| *v as i64));
                o.extend(d.to_hex().chars().map(|v| v as i64));
            }
            3 => e.reset(),
            4 => o.extend(hash::hash::<E>(&op.get("v").bytes()).0.iter().map(|v| *v as i64)),
            5 => {
                let c = e.clone();
                e.push(b"abandoned");
                e = c;
            }
            6 => for _ in 0..[1, 8][op.get("n").int() as usize - 1] {
                e.push_zero(1 << 29);
                crate::tick();
            },
            _ => panic!("vh: op"),
        }
        o.insert(0, e.is_reset() as i64);
        sink.push(o);
    }
}

fn run_hash(input: &J, sink: &mut Sink) {
    if input.get("plain").int() == 0 {
        hash_with::<sha256::Engine>(input, sink)
    } else {
        hash_with::<Plain>(input, sink)
    }
}

fn gen_hmac(r: &Rnd, idx: u64, prof: &str) -> J {
    let nkey = match prof {
        "key" => (idx % 150) as usize,
        "big" if idx % 2 == 0 => r.big(16),
        _ => [0, 1, 20, 32, 55, 56, 63, 64, 65, 127, 128, 129, length(r)][r.below(13)],
    };
    let key = match r.below(8) { 0 => vec![0; nkey], 1 => vec![0x36; nkey], 2 => vec![0x5c; nkey], _ => r.bytes(nkey) };
    let mut ops = Vec::new();
    for _ in 0..r.range(0, 5) {
        let n = length(r);
        ops.push(match r.below(8) {
            0..=3 => op_push(&content(r, n)),
            4 => op_n(1, n),
            5 => op_n(3, 0),
            _ => op_n(2, 0),
        });
    }
    if prof == "big" && idx % 2 == 1 {
        let n = r.big(16);
        ops.push(op_push(&content(r, n)));
        if r.one_in(2) { ops.push(op_n(1, r.big(12))); }
    }
    ops.push(op_n(2, 0));
    J::obj(vec![("plain", J::N(r.below(3) as i64)), ("key", J::from_bytes(&key)), ("ops", J::A(ops))])
}

fn hmac_with<E: Engine<Hash = Hash<32>>>(mut e: Hmac<64, E>, input: &J, sink: &mut Sink) {
    for op in input.get("ops").arr() {
        let mut o = vec![0];
        match op.get("k").int() {
            0 => e.push(&op.get("v").bytes()),
            1 => e.push_zero(op.get("n").int() as usize),
            2 => {
                o[0] = 1;
                o.extend(e.finalize().as_bytes().iter().map(|v| *v as i64));
            }
            3 => e.reset(),
            _ => panic!("vh: op"),
        }
        sink.push(o);
    }
}

fn run_hmac(input: &J, sink: &mut Sink) {
    let key = input.get("key").bytes();
    match input.get("plain").int() {
        0 => hmac_with(HmacSha256::new(&key), input, sink),
        1 => hmac_with(Hmac::with_engine(&key, Plain::default()), input, sink),
        _ => {
            // An engine used before.
            let mut e = sha256::Engine::default();
            e.push(b"before");
            if key.len() % 2 == 0 { e.finalize(); } else { e.reset(); }
            hmac_with(HmacSha256::with_engine(&key, e), input, sink)
        }
    }
}
