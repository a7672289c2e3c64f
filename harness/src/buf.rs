//! Buffers: `tmp::io::{stream, map}`.

use crate::json::J;
use crate::rnd::Rnd;
use crate::{Sink, Sub};
use std::mem::MaybeUninit;
use std::ops::ControlFlow as Flow;
use tmp::io::{map, stream};

pub const SUB: Sub = Sub { name: "buf", gen, run };

/// Numbers too large for anything, and back.
fn num(v: i64) -> usize {
    match v { -1 => usize::MAX, -2 => 1 << 63, v => v as usize }
}
fn int(v: usize) -> i64 {
    match v { usize::MAX => -1, v if v == 1 << 63 => -2, v => v as i64 }
}
fn opt(v: i64) -> Option<usize> {
    if v == -3 { None } else { Some(num(v)) }
}
fn more(m: stream::More) -> Vec<i64> {
    vec![0, int(m.min), m.max.map_or(-3, int)]
}
fn ints(v: &[u8]) -> impl Iterator<Item = i64> + '_ {
    v.iter().map(|b| *b as i64)
}
fn outcome(f: Flow<Option<map::Error>>) -> i64 {
    match f {
        Flow::Continue(()) => 1,
        Flow::Break(Some(map::Error::Overflow)) => 2,
        Flow::Break(Some(map::Error::Exceeded)) => 3,
        Flow::Break(None) => 4,
    }
}

/// A stream that has some of its data, and maps a little more than asked for.
pub struct Arriving {
    pub data: Vec<u8>,
    pub avail: usize,
    pub extra: usize,
}

impl stream::Read for Arriving {
    fn advance(&mut self, len: usize) {
        assert!(len <= self.avail, "advance over what is not there");
        self.data.drain(..len);
        self.avail -= len;
    }
    fn map(&self, min: usize, max: Option<usize>) -> Flow<stream::More, &[u8]> {
        if min <= self.avail {
            Flow::Continue(&self.data[..(min + self.extra).min(self.avail)])
        } else {
            Flow::Break(stream::More { min, max })
        }
    }
}

fn stream_read(input: &J, sink: &mut Sink) {
    let data = input.get("data").bytes();
    let mut slice = &data[..];
    let mut other = Arriving { data: data.clone(), avail: 0, extra: input.get("chunk").int() as usize };
    let plain = input.get("kind").int() == 0;
    let mut calls = 0;
    for op in input.get("ops").arr() {
        let n = || num(op.get("n").int());
        let r: &mut dyn stream::Read = if plain { &mut slice } else { &mut other };
        sink.push(match op.get("k").int() {
            0 => {
                let min = num(op.get("min").int());
                match r.map(min, opt(op.get("max").int())) {
                    Flow::Break(m) => more(m),
                    Flow::Continue(v) => [1].into_iter().chain(ints(&v[..min])).collect(),
                }
            }
            1 => { r.advance(n()); vec![1] }
            2 => {
                if !plain { other.avail = (other.avail + n()).min(other.data.len()); }
                vec![1]
            }
            3 => {
                let (mut at, max, t) = (n(), opt(op.get("max").int()), op.get("t").int());
                let first = at;
                let mut seen = Vec::new();
                let mut place = first;
                let pred = |i: usize, b: u8| {
                    assert!(i == place, "index of the predicate");
                    place += 1;
                    seen.push(b as i64);
                    (b as i64) < t
                };
                calls += 1;
                let f = match calls % 2 {
                    0 => r.map_while(&mut at, max, pred),
                    _ if plain => stream::read_map_while(&slice, &mut at, max, pred),
                    _ => stream::read_map_while(&other, &mut at, max, pred),
                };
                match f {
                    Flow::Break(m) => { let mut o = vec![0, at as i64]; o.extend(&more(m)[1..]); o.extend(seen); o }
                    Flow::Continue(v) => {
                        let mut o = vec![1, at as i64];
                        o.extend(seen.iter());
                        o.push(-9);
                        let end = if max == Some(at) { at } else { at + 1 };
                        o.extend(ints(&v[..end]));
                        o
                    }
                }
            }
            _ => panic!("vh: op"),
        });
    }
}

/// A writer with a fixed amount of room; cells not written are 221.
pub struct Limited {
    pub cells: Vec<MaybeUninit<u8>>,
    pub done: usize,
    pub room: usize,
    /// Bytes mapped at once; none: everything there is.
    pub chunk: Option<usize>,
}

impl Limited {
    pub fn new(data: &[u8], room: usize, chunk: Option<usize>) -> Self {
        let mut cells: Vec<_> = data.iter().map(|b| MaybeUninit::new(*b)).collect();
        cells.resize(data.len() + room, MaybeUninit::new(221));
        Limited { cells, done: data.len(), room, chunk }
    }
    pub fn committed(&self) -> Vec<i64> {
        self.cells[..self.done].iter().map(|b| unsafe { b.assume_init() } as i64).collect()
    }
}

impl stream::Write for Limited {
    unsafe fn commit(&mut self, len: usize) {
        assert!(self.done + len <= self.cells.len(), "commit beyond the end");
        self.done += len;
    }
    fn map(&mut self, min: usize, max: Option<usize>) -> Flow<stream::More, &mut [MaybeUninit<u8>]> {
        let room = self.cells.len() - self.done;
        if min > room { return Flow::Break(stream::More { min, max }); }
        Flow::Continue(&mut self.cells[self.done..][..(min + 2).min(room)])
    }
}

impl map::Write for Limited {
    unsafe fn commit(&mut self, len: usize) {
        self.done += len;
        // The room moves along.
        self.cells.resize(self.done + self.room, MaybeUninit::new(221));
    }
    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<map::Error>, &mut [MaybeUninit<u8>]> {
        let Some(end) = idx.checked_add(len) else { return Flow::Break(Some(map::Error::Overflow)); };
        match self.chunk {
            Some(c) => {
                if idx >= self.room { return Flow::Break(Some(map::Error::Exceeded)); }
                let end = (idx / c * c + c).min(self.room);
                Flow::Continue(&mut self.cells[self.done + idx..self.done + end])
            }
            None => {
                if end > self.room { return Flow::Break(Some(map::Error::Exceeded)); }
                Flow::Continue(&mut self.cells[self.done + idx..self.done + self.room])
            }
        }
    }
}

fn stream_write(input: &J, sink: &mut Sink) {
    use stream::Write;
    let data = input.get("data").bytes();
    let mut vec = data.clone();
    let mut lim = Limited::new(&data, num(input.get("limit").int()).saturating_sub(data.len()), None);
    let plain = input.get("kind").int() == 0;
    for op in input.get("ops").arr() {
        let n = || num(op.get("n").int());
        let w: &mut dyn Write = if plain { &mut vec } else { &mut lim };
        let mut o = vec![1];
        match op.get("k").int() {
            0 => if let Flow::Break(m) = w.write(&op.get("v").bytes()) { sink.push(more(m)); continue; },
            1 => {
                let (min, off) = (num(op.get("min").int()), num(op.get("o").int()));
                match w.map(min, opt(op.get("max").int())) {
                    Flow::Break(m) => { sink.push(more(m)); continue; }
                    Flow::Continue(map) => {
                        assert!(map.len() >= min, "too short");
                        for (i, b) in op.get("v").bytes().iter().enumerate() { map[off + i].write(*b); }
                    }
                }
            }
            2 => unsafe { w.commit(n()) },
            3 => {
                match unsafe { w.map_unchecked(n()) } {
                    Flow::Break(m) => sink.push(more(m)),
                    Flow::Continue(v) => { o.extend(ints(v)); sink.push(o); }
                }
                continue;
            }
            _ => panic!("vh: op"),
        }
        if plain { o.extend(ints(&vec)) } else { o.extend(lim.committed()) }
        sink.push(o);
    }
}

pub struct Pieces(pub Vec<u8>, pub usize);

impl map::Read for Pieces {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<map::Error>, &[u8]> {
        let Some(_) = idx.checked_add(len) else { return Flow::Break(Some(map::Error::Overflow)); };
        if idx >= self.0.len() { return Flow::Break(Some(map::Error::Exceeded)); }
        Flow::Continue(&self.0[idx..(idx / self.1 * self.1 + self.1).min(self.0.len())])
    }
}

fn map_read(input: &J, sink: &mut Sink) {
    let data = input.get("data").bytes();
    let pieces = Pieces(data.clone(), input.get("chunk").int() as usize);
    // Unsized types cannot be trait objects.
    fn all<R: map::Read + ?Sized>(r: &R, op: &J) -> Vec<i64> {
        let (i, n) = (num(op.get("i").int()), num(op.get("n").int()));
        if op.get("k").int() == 0 {
            return match r.map(i, n) {
                Flow::Continue(v) => [1, int(i + n)].into_iter().chain(ints(v)).collect(),
                Flow::Break(e) => vec![outcome(Flow::Break(e)), int(i)],
            };
        }
        let mut buf = vec![MaybeUninit::new(221); n];
        let mut at = i;
        let f = outcome(r.read_uninit(&mut at, &mut buf));
        let done = at - i;
        let mut o = vec![f, int(at)];
        o.extend(buf[..done].iter().map(|b| unsafe { b.assume_init() } as i64));
        assert!(buf[done..].iter().all(|b| unsafe { b.assume_init() } == 221), "written beyond");
        let mut buf = vec![0; n];
        let mut at = i;
        assert!(outcome(r.read(&mut at, &mut buf)) == f && at - i == done && ints(&buf[..done]).eq(o[2..].iter().copied()), "read");
        o
    }
    for op in input.get("ops").arr() {
        sink.push(if input.get("kind").int() == 0 { all(&data[..], op) } else { all(&pieces, op) });
    }
}

fn map_write(input: &J, sink: &mut Sink) {
    use map::Write;
    let data = input.get("data").bytes();
    let kind = input.get("kind").int();
    let mut vec = data.clone();
    let mut lim = Limited::new(&data, num(input.get("limit").int()), if kind == 1 { Some(input.get("chunk").int() as usize) } else { None });
    for op in input.get("ops").arr() {
        let n = || num(op.get("n").int());
        let w: &mut dyn Write = if kind == 0 { &mut vec } else { &mut lim };
        let k = op.get("k").int();
        let mut i = if k == 4 { 0 } else { num(op.get("i").int()) };
        let r = match k {
            0 => w.write(&mut i, &op.get("v").bytes()),
            1 => w.write_iter(&mut i, &mut op.get("v").bytes().into_iter()),
            2 => w.fill(&mut i, n(), op.get("b").int() as u8),
            3 => w.align_exp2(&mut i, op.get("e").int() as u8),
            4 => { unsafe { w.commit(n()) }; Flow::Continue(()) }
            5 => {
                let r = w.map(i, n());
                sink.push(vec![match r {
                    Flow::Continue(v) => { assert!(!v.is_empty(), "nothing mapped"); 1 }
                    Flow::Break(e) => outcome(Flow::Break(e)),
                }]);
                continue;
            }
            6 => w.zero(&mut i, n()),
            _ => panic!("vh: op"),
        };
        let mut o = vec![outcome(r)];
        if k != 4 { o.push(int(i)); }
        if kind == 0 { o.extend(ints(&vec)) } else { o.extend(lim.committed()) }
        sink.push(o);
    }
}

fn run(input: &J, sink: &mut Sink) {
    match input.get("m").int() {
        0 => stream_read(input, sink),
        1 => stream_write(input, sink),
        2 => map_read(input, sink),
        _ => map_write(input, sink),
    }
}

fn gen(r: &Rnd, _idx: u64, prof: &str) -> J {
    // All lengths are larger.
    let scale = if prof == "big" { *r.pick(&[9, 40, 300]) } else { 1 };
    let small = |n: usize| r.small(n * scale);
    let n = |v: usize| J::N(v as i64);
    let m = r.below(4);
    let kind = r.below(if m == 3 { 3 } else { 2 });
    let data = r.bytes(small(60));
    let limit = data.len() + r.below(60 * scale);
    let mut ops = Vec::new();
    // What the calls have to keep to.
    let (mut left, mut avail) = (data.len(), if kind == 0 { data.len() } else { 0 });
    let mut next: Vec<bool> = Vec::new();
    let mut done = data.len();
    let huge = |v: usize| if r.one_in(12) { J::N(-1 - r.below(2) as i64) } else { n(v) };
    let max = |v: usize| match r.below(6) { 0 | 1 => J::N(-3), 2 => J::N(-1), _ => n(v) };
    for _ in 0..r.range(2, 20) {
        ops.push(J::obj(match m {
            0 => match r.below(5) {
                0 => vec![("k", n(0)), ("min", huge(r.below(left + 4))), ("max", max(r.below(60 * scale)))],
                1 => { let x = r.below(avail + 1); left -= x; avail -= x; vec![("k", n(1)), ("n", n(x))] }
                2 => { let x = small(30); avail = (avail + x).min(left); if kind == 0 { avail = left; } vec![("k", n(2)), ("n", n(x))] }
                _ => {
                    let at = r.below(avail + 1);
                    vec![("k", n(3)), ("n", n(at)), ("max", max(at + 1 + r.below(40 * scale))), ("t", n(*r.pick(&[0, 128, 200, 250, 256])))]
                }
            },
            1 => match r.below(4) {
                0 => {
                    let v = r.bytes(small(40));
                    if kind == 0 || v.len() <= limit - done { done += v.len(); next.drain(..v.len().min(next.len())); }
                    vec![("k", n(0)), ("v", J::from_bytes(&v))]
                }
                1 => {
                    let o = r.below(next.len() + 1);
                    let v = r.bytes(small(20));
                    let min = o + v.len() + r.below(5);
                    if kind == 0 || min <= limit - done { let e = o + v.len(); if next.len() < e { next.resize(e, true); } }
                    vec![("k", n(1)), ("min", n(min)), ("max", max(r.below(60 * scale))), ("o", n(o)), ("v", J::from_bytes(&v))]
                }
                2 => { let x = r.below(next.len() + 1); next.drain(..x); done += x; vec![("k", n(2)), ("n", n(x))] }
                _ => vec![("k", n(3)), ("n", n(r.below(next.len() + 1)))],
            },
            2 => {
                let (i, len) = (r.below(data.len() + 4), r.below(data.len() + 4));
                if kind == 0 && r.one_in(2) { vec![("k", n(0)), ("i", huge(i)), ("n", huge(len))] }
                else { vec![("k", n(1)), ("i", if kind == 0 { huge(i) } else { n(i) }), ("n", n(len))] }
            }
            _ => {
                let lim = if kind == 0 { 1000000 } else { limit };
                let at = r.below(next.len() + 3);
                let mut put = |i: usize, len: usize| {
                    let fit = len.min(lim.saturating_sub(i));
                    let fit = if fit < len && kind != 1 { 0 } else { fit };
                    if fit > 0 {
                        if next.len() < i + fit { next.resize(i + fit, false); }
                        next[i..i + fit].fill(true);
                    }
                };
                match r.below(7) {
                    k @ 0..=1 => {
                        let v = r.bytes(small(30));
                        if kind == 0 && r.one_in(15) { vec![("k", n(k)), ("i", J::N(-1 - r.below(2) as i64)), ("v", J::from_bytes(&v))] }
                        else { put(at, v.len()); vec![("k", n(k)), ("i", n(at)), ("v", J::from_bytes(&v))] }
                    }
                    k @ 2..=3 => {
                        let x = small(40);
                        let k = if k == 3 { 6 } else { 2 };
                        if kind == 0 && r.one_in(15) { vec![("k", n(k)), ("i", n(at)), ("n", J::N(-1 - r.below(2) as i64)), ("b", n(r.below(256)))] }
                        else { put(at, x); vec![("k", n(k)), ("i", n(at)), ("n", n(x)), ("b", n(r.below(256)))] }
                    }
                    4 => {
                        if kind == 0 && r.one_in(4) { vec![("k", n(3)), ("i", n(at)), ("e", n(r.range(63, 255)))] }
                        else {
                            let e = r.below(if scale > 1 { 12 } else { 5 });
                            put(at, at.next_multiple_of(1 << e) - at);
                            vec![("k", n(3)), ("i", n(at)), ("e", n(e))]
                        }
                    }
                    5 if kind == 0 => vec![("k", n(5)), ("i", huge(at)), ("n", huge(1 + r.below(40 * scale)))],
                    _ => {
                        let ready = next.iter().take_while(|b| **b).count();
                        let x = r.below(ready + 1);
                        next.drain(..x);
                        vec![("k", n(4)), ("n", n(x))]
                    }
                }
            }
        }));
    }
    J::obj(vec![
        ("m", n(m)), ("kind", n(kind)), ("data", J::from_bytes(&data)), ("limit", n(limit)),
        ("chunk", n(r.range(1, 7 * scale))), ("ops", J::A(ops)),
    ])
}
