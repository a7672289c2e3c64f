//! Drives the real code. One subsystem is a pair of functions: `gen` draws an
//! input, `run` performs it and appends one outcome per call to the sink.

mod args;
mod buf;
mod cell;
mod digest;
mod dvar;
mod endian;
mod image;
mod json;
mod jsontok;
mod mem;
mod own;
mod rnd;
mod rngs;
mod sig;
mod tagged;
mod tok;
mod text;

use json::J;
use rnd::Rnd;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub type Sink = Vec<Vec<i64>>;

pub struct Sub {
    pub name: &'static str,
    /// Draw input number `idx` of the profile.
    pub gen: fn(&Rnd, u64, &str) -> J,
    pub run: fn(&J, &mut Sink),
}

fn subs() -> Vec<Sub> {
    vec![
        jsontok::SUB,
        args::PARSE, args::RECV, args::HELP,
        digest::HASH, digest::HMAC, rngs::SUB,
        text::SUB, tagged::SUB, own::SUB, own::CAUGHT,
        endian::SUB, cell::SUB, mem::SUB,
        buf::SUB,
        tok::SUB,
        sig::SUB, dvar::SUB,
        image::SUB,
    ]
}

/// Outcome of a call that panicked, and of those behind it.
const PANIC: i64 = -999;

static PROGRESS: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<String> = Mutex::new(String::new());

/// Counts the largest piece of memory asked for.
struct Watched;

static PEAK: AtomicU64 = AtomicU64::new(0);

unsafe impl std::alloc::GlobalAlloc for Watched {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        PEAK.fetch_max(l.size() as u64, Ordering::Relaxed);
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        PEAK.fetch_max(n as u64, Ordering::Relaxed);
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        PEAK.fetch_max(l.size() as u64, Ordering::Relaxed);
        unsafe { std::alloc::System.alloc_zeroed(l) }
    }
}

#[global_allocator]
static WATCHED: Watched = Watched;

pub fn peak_reset() {
    PEAK.store(0, Ordering::Relaxed);
}

pub fn peak() -> usize {
    PEAK.load(Ordering::Relaxed) as usize
}

/// Keeps a long call from being taken for one that never returns.
pub fn tick() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

fn perform(sub: &Sub, input: &J) -> Sink {
    let ops = input.get("ops").arr().len();
    let mut sink: Sink = Vec::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        (sub.run)(input, &mut sink);
    }));
    match r {
        Ok(()) => assert!(sink.len() == ops, "vh: {} outcomes for {} calls", sink.len(), ops),
        Err(_) => {
            sink.truncate(ops);
            while sink.len() < ops { sink.push(vec![PANIC]); }
        }
    }
    sink
}

fn sink_json(s: &Sink) -> J {
    // The checker's integers have 32 bits; outcomes are encoded to fit.
    let fit = |v: &i64| if *v as i32 as i64 == *v { *v } else { -996 };
    J::A(s.iter().map(|v| J::A(v.iter().map(|v| J::N(fit(v))).collect())).collect())
}

/// Processor time used so far, in seconds.
fn cpu_seconds() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let v: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| v.get(i).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) / 100
}

fn announce(input: &J, sync: bool, cur: &str) {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    if sync {
        std::fs::write(cur, input.render()).unwrap();
    } else {
        let mut c = CURRENT.lock().unwrap();
        c.clear();
        input.write(&mut c);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).map(|i| args[i + 1].clone())
    };
    let name = opt("--sub").expect("--sub");
    let sub = subs().into_iter().find(|s| s.name == name).expect("unknown subsystem");
    let cur = opt("--cur").unwrap_or("/dev/null".into());
    let sync = std::env::var_os("VH_SYNC").is_some();

    if std::env::var_os("VH_PANIC").is_none() {
        std::panic::set_hook(Box::new(|i| {
            // Problems of the harness itself must not pass for outcomes.
            let m = i.payload().downcast_ref::<&str>().map(|v| v.to_string())
                .or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            if m.starts_with("vh:") {
                eprintln!("{i}");
                std::process::exit(2);
            }
        }));
    }

    let limit: u64 = opt("--hang").map(|v| v.parse().unwrap()).unwrap_or(20);
    let curw = cur.clone();
    std::thread::spawn(move || {
        // Only time spent running counts, unless nothing runs for much longer,
        // so that a busy or stopped machine does not pass for a hang.
        let (mut last, mut since, mut used) = (u64::MAX, std::time::Instant::now(), 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let p = PROGRESS.load(Ordering::Relaxed);
            if p != last {
                last = p;
                since = std::time::Instant::now();
                used = cpu_seconds();
            } else if p > 0 && (cpu_seconds() - used >= limit || since.elapsed().as_secs() >= 6 * limit) {
                let c = CURRENT.lock().unwrap();
                if !c.is_empty() { let _ = std::fs::write(&curw, &*c); }
                std::process::exit(3);
            }
        }
    });

    match args[1].as_str() {
        "record" => {
            let seed: u64 = opt("--seed").unwrap().parse().unwrap();
            let count: u64 = opt("--count").unwrap().parse().unwrap();
            let prof = opt("--profile").unwrap_or_default();
            let mut out = std::io::BufWriter::new(std::fs::File::create(opt("--out").unwrap()).unwrap());
            let start: u64 = opt("--start").map(|v| v.parse().unwrap()).unwrap_or(0);
            for i in start..start + count {
                let r = Rnd::new(seed, i);
                let input = (sub.gen)(&r, i, &prof);
                announce(&input, sync, &cur);
                let obs = perform(&sub, &input);
                writeln!(out, "{}", J::O(vec![("in".into(), input), ("out".into(), sink_json(&obs))]).render()).unwrap();
            }
            out.flush().unwrap();
        }
        "replay" => {
            // Lines {"in":..,"out":..}; prints the number of those performed,
            // and the first few with another outcome.
            let f = std::io::BufReader::new(std::fs::File::open(opt("--in").unwrap()).unwrap());
            let mut bad = std::io::BufWriter::new(std::fs::File::create(opt("--out").unwrap()).unwrap());
            let (mut n, mut calls, mut nbad) = (0u64, 0u64, 0u64);
            for l in f.lines() {
                let l = l.unwrap();
                let c = J::parse(&l);
                let input = c.get("in");
                announce(input, sync, &cur);
                let obs = sink_json(&perform(&sub, input));
                n += 1;
                calls += input.get("ops").arr().len() as u64;
                if obs != *c.get("out") {
                    nbad += 1;
                    if nbad <= 20 {
                        writeln!(bad, "{}", J::O(vec![
                            ("in".into(), input.clone()),
                            ("out".into(), obs),
                            ("expected".into(), c.get("out").clone()),
                        ]).render()).unwrap();
                    }
                }
            }
            bad.flush().unwrap();
            println!("replayed {n} calls {calls} bad {nbad}");
        }
        _ => panic!("unknown mode"),
    }
    std::process::exit(0);
}
