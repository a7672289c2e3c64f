//! Random generators: `osi::rng`.

use crate::json::J;
use crate::rnd::Rnd;
use crate::{Sink, Sub};
use osi::rng::{Mix64, SplitMix64, Xoshiro256pp};

pub const SUB: Sub = Sub { name: "rng", gen, run };

enum G { M(Mix64), S(SplitMix64), X(Xoshiro256pp) }

fn limbs(v: u64) -> [i64; 4] {
    [(v >> 48) as i64, (v >> 32 & 0xffff) as i64, (v >> 16 & 0xffff) as i64, (v & 0xffff) as i64]
}

fn word(v: &[i64]) -> u64 {
    v.iter().fold(0, |a, l| a << 16 | *l as u64)
}

fn seed(r: &Rnd) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << r.below(64),
        3 => 0u64.wrapping_sub(0x9e3779b97f4a7c15u64.wrapping_mul(r.below(5) as u64)),
        _ => r.next(),
    }
}

fn gen(r: &Rnd, _idx: u64, prof: &str) -> J {
    // Kinds of the generators so far, to draw possible calls only.
    let mut kinds: Vec<i64> = Vec::new();
    let mut ops = Vec::new();
    let n = match prof { "jump" => r.range(2, 8), "long" => r.big(11), _ => r.range(3, 20) };
    while ops.len() < n {
        let call = |k: i64, g: usize| vec![("k", J::N(k)), ("g", J::N(g as i64 + 1))];
        if kinds.is_empty() || (kinds.len() < 40 && r.one_in(12)) {
            let k = if prof == "jump" { 2 } else { r.below(3) as i64 };
            let v: Vec<i64> = if k == 2 {
                let zero = r.one_in(4);
                (0..4).flat_map(|_| limbs(if zero { 0 } else { seed(r) })).collect()
            } else {
                limbs(seed(r)).to_vec()
            };
            kinds.push([1, 2, 3][k as usize]);
            ops.push(J::obj(vec![("k", J::N(k)), ("g", J::N(1)), ("v", J::from_ints(&v))]));
            continue;
        }
        let g = r.below(kinds.len());
        let k = match kinds[g] {
            3 => *r.pick(if prof == "jump" { &[4, 9, 10, 11, 12][..] } else { &[4, 4, 4, 11, 12][..] }),
            1 => *r.pick(&[3, 4, 4, 5, 5, 6, 11, 12]),
            _ => *r.pick(&[3, 4, 4, 5, 5, 5, 7, 8, 11, 12]),
        };
        let mut c = call(k, g);
        match k {
            5 | 6 => kinds.push(2),
            7 | 8 => kinds.push(3),
            12 => kinds.push(kinds[g]),
            11 => {
                let same: Vec<usize> = (0..kinds.len()).filter(|h| kinds[*h] == kinds[g]).collect();
                c.push(("h", J::N(*r.pick(&same) as i64 + 1)));
            }
            _ => {}
        }
        ops.push(J::obj(c));
    }
    J::obj(vec![("ops", J::A(ops))])
}

fn run(input: &J, sink: &mut Sink) {
    let mut gs: Vec<G> = Vec::new();
    for op in input.get("ops").arr() {
        let k = op.get("k").int();
        let g = op.get("g").int() as usize - 1;
        let mut o = vec![0];
        match k {
            0 => gs.push(G::M(Mix64::with_seed(word(&op.get("v").ints())))),
            1 => gs.push(G::S(SplitMix64::with_seed(word(&op.get("v").ints())))),
            2 => {
                let v = op.get("v").ints();
                gs.push(G::X(Xoshiro256pp::with_seed([word(&v[0..4]), word(&v[4..8]), word(&v[8..12]), word(&v[12..16])])));
            }
            3 => {
                let v = match &mut gs[g] { G::M(m) => m.next32(), G::S(m) => m.next32(), _ => panic!("vh: kind") };
                o = limbs(v as u64)[2..].to_vec();
            }
            4 => {
                let v = match &mut gs[g] { G::M(m) => m.next64(), G::S(m) => m.next64(), G::X(m) => m.next64() };
                o = limbs(v).to_vec();
            }
            5 => {
                let n = match &mut gs[g] { G::M(m) => m.split(), G::S(m) => m.split(), _ => panic!("vh: kind") };
                gs.push(G::S(n));
            }
            6 => {
                let n = match &gs[g] {
                    G::M(m) if gs.len() % 2 == 0 => SplitMix64::from(*m),
                    G::M(m) => SplitMix64::from_mix64(*m),
                    _ => panic!("vh: kind"),
                };
                gs.push(G::S(n));
            }
            7 => {
                let n = match &mut gs[g] { G::S(m) => Xoshiro256pp::from_splitmix64(m), _ => panic!("vh: kind") };
                gs.push(G::X(n));
            }
            8 => {
                let n = match &gs[g] { G::S(m) => Xoshiro256pp::from(*m), _ => panic!("vh: kind") };
                gs.push(G::X(n));
            }
            9 => match &mut gs[g] { G::X(m) => m.jump128(), _ => panic!("vh: kind") },
            10 => match &mut gs[g] { G::X(m) => m.jump192(), _ => panic!("vh: kind") },
            11 => {
                let h = op.get("h").int() as usize - 1;
                o[0] = match (&gs[g], &gs[h]) {
                    (G::M(a), G::M(b)) => a == b,
                    (G::S(a), G::S(b)) => a == b,
                    (G::X(a), G::X(b)) => a == b,
                    _ => panic!("vh: kind"),
                } as i64;
            }
            12 => {
                let n = match &gs[g] { G::M(m) => G::M(*m), G::S(m) => G::S(*m), G::X(m) => G::X(m.clone()) };
                gs.push(n);
            }
            _ => panic!("vh: op"),
        }
        sink.push(o);
    }
}
