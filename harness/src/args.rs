//! Program arguments: `osi::args`.

use crate::json::J;
use crate::rnd::Rnd;
use crate::{Sink, Sub};
use osi::args::{self, *};
use osi::compat::OsStr;
use std::cell::{Cell, RefCell};
use std::ops::ControlFlow;
use std::rc::Rc;

pub const PARSE: Sub = Sub { name: "args", gen: gen_parse, run: run_parse };
pub const RECV: Sub = Sub { name: "argsrecv", gen: gen_recv, run: run_recv };
pub const HELP: Sub = Sub { name: "argshelp", gen: gen_help, run: run_help };

fn bytes(o: &mut Vec<i64>, b: &[u8]) {
    o.push(b.len() as i64);
    o.extend(b.iter().map(|v| *v as i64));
}

fn leak_bytes(j: &J) -> &'static [u8] {
    Vec::leak(j.bytes())
}

fn leak_str(j: &J) -> &'static str {
    core::str::from_utf8(leak_bytes(j)).expect("vh: name")
}

fn os(b: &'static [u8]) -> &'static OsStr {
    // Any bytes are an OS string on Unix.
    unsafe { OsStr::from_encoded_bytes_unchecked(b) }
}

fn os_args(j: &J) -> Vec<&'static OsStr> {
    j.arr().iter().map(|a| os(leak_bytes(a))).collect()
}

fn enc_error(e: &args::Error<'_>) -> Vec<i64> {
    let mut o = Vec::new();
    let mut put = |k: i64, l: &[&OsStr]| {
        o.push(k);
        for s in l { bytes(&mut o, s.as_encoded_bytes()); }
    };
    match e {
        args::Error::Uncaught(_) => put(20, &[]),
        args::Error::ShortsUnknown { shorts } => put(21, &[shorts]),
        args::Error::FlagUnknown { flag } => put(22, &[flag]),
        args::Error::FlagUnexpectedToggle { flag } => put(23, &[flag]),
        args::Error::FlagUnexpectedValue { flag, value } => put(24, &[flag, value]),
        args::Error::FlagNoValue { flag } => put(25, &[flag]),
        args::Error::FlagValueNotUtf8 { flag, value } => put(26, &[flag, value]),
        args::Error::ParameterUnexpected { parameter } => put(27, &[parameter]),
        args::Error::ParameterNotUtf8 { parameter } => put(28, &[parameter]),
    }
    o
}

#[derive(Default)]
struct Log { n: i64, brk: i64, o: Vec<i64>, cmds: Rc<Vec<usize>>, probe: Option<i64> }

impl Log {
    fn add(&mut self, v: Vec<i64>) -> ControlFlow<i64> {
        self.n += 1;
        self.o.extend(v);
        if self.n == self.brk { ControlFlow::Break(self.n) } else { ControlFlow::Continue(()) }
    }
}

type SharedLog = Rc<RefCell<Log>>;

/// Errors told to the context arrive at the receiver of this parse, once.
fn told(log: &SharedLog, tell: impl FnOnce(args::Error<'static>) -> ControlFlow<i64>) -> i64 {
    log.borrow_mut().probe = Some(0);
    let r = tell(args::Error::FlagNoValue { flag: OsStr::from_str("probe") });
    let n = log.borrow_mut().probe.take();
    (r == ControlFlow::Break(71) && n == Some(1)) as i64
}

/// The command of the context, counted from 1.
fn context(log: &SharedLog, cx: &mut FlagContext<'_, 'static, i64>) -> i64 {
    if told(log, |e| cx.report_error(e)) != 1 { return -1; }
    let c = &raw const *cx.command() as *const () as usize;
    log.borrow().cmds.iter().position(|v| *v == c).map_or(0, |v| v as i64 + 1)
}

struct RecFlag { c: i64, f: i64, log: SharedLog }
struct RecCmd { c: i64, log: SharedLog }
struct RecParser { log: SharedLog }

impl FlagReport<'static, i64> for RecFlag {
    fn report_set(&mut self, cx: &mut FlagContext<'_, 'static, i64>) -> ControlFlow<i64> {
        let mut o = vec![1, self.c, self.f, cx.command_current() as i64];
        bytes(&mut o, cx.flag_arg().as_encoded_bytes());
        o.push(context(&self.log, cx));
        self.log.borrow_mut().add(o)
    }
    fn report_toggle(&mut self, cx: &mut FlagContext<'_, 'static, i64>, v: bool) -> ControlFlow<i64> {
        let mut o = vec![2, self.c, self.f, cx.command_current() as i64, v as i64];
        bytes(&mut o, cx.flag_arg().as_encoded_bytes());
        o.push(context(&self.log, cx));
        self.log.borrow_mut().add(o)
    }
    fn report_parse(&mut self, cx: &mut FlagContext<'_, 'static, i64>, v: &'static OsStr) -> ControlFlow<i64> {
        let mut o = vec![3, self.c, self.f, cx.command_current() as i64];
        bytes(&mut o, cx.flag_arg().as_encoded_bytes());
        bytes(&mut o, v.as_encoded_bytes());
        o.push(context(&self.log, cx));
        self.log.borrow_mut().add(o)
    }
}

impl CommandReport<'static, i64> for RecCmd {
    fn report_parameter(&mut self, cx: &mut CommandContext<'_, 'static, i64>, v: Option<&'static OsStr>) -> ControlFlow<i64> {
        let mut o = vec![if v.is_some() { 4 } else { 5 }, self.c];
        if let Some(v) = v { bytes(&mut o, v.as_encoded_bytes()); }
        o.push(told(&self.log, |e| cx.report_error(e)));
        self.log.borrow_mut().add(o)
    }
}

impl ParserReport<'static, i64> for RecParser {
    fn report_error(&mut self, _: &mut ParserContext<'_, 'static, i64>, e: args::Error<'static>) -> ControlFlow<i64> {
        let mut log = self.log.borrow_mut();
        if let Some(n) = &mut log.probe {
            *n += (enc_error(&e) == [25, 5, 112, 114, 111, 98, 101]) as i64;
            return ControlFlow::Break(71);
        }
        log.add(enc_error(&e))
    }
}

// The sets take arrays.
fn flag_set<R: 'static>(v: Vec<Flag<'static, 'static, R>>) -> &'static mut FlagSetRef<'static, 'static, R> {
    macro_rules! go { ($($n:literal)*) => { match v.len() {
        $($n => {
            let a: [Flag<'static, 'static, R>; $n] = v.try_into().ok().unwrap();
            Box::leak(Box::new(FlagSet::<$n, R>::with(a))).as_mut()
        })*
        _ => panic!("vh: too many flags"),
    } } }
    go!(0 1 2 3 4 5 6 7 8 17 33 65 129 257)
}

fn command_set<R: 'static>(v: Vec<Command<'static, 'static, R>>) -> &'static mut CommandSetRef<'static, 'static, R> {
    macro_rules! go { ($($n:literal)*) => { match v.len() {
        $($n => {
            let a: [Command<'static, 'static, R>; $n] = v.try_into().ok().unwrap();
            Box::leak(Box::new(CommandSet::<$n, R>::with(a))).as_mut()
        })*
        _ => panic!("vh: too many commands"),
    } } }
    go!(0 1 2 3 4 5 6 7 8 9 10 11 12 17 33 65 129 257)
}

fn mode(v: i64) -> FlagMode {
    match v { 0 => FlagMode::Set, 1 => FlagMode::Toggle, _ => FlagMode::Parse }
}

fn mode_code(v: FlagMode) -> i64 {
    match v { FlagMode::Set => 0, FlagMode::Toggle => 1, FlagMode::Parse => 2 }
}

fn path(j: &J) -> &'static [&'static str] {
    Vec::leak(j.arr().iter().map(leak_str).collect::<Vec<_>>())
}

fn help_of(j: &J) -> Option<&'static str> {
    j.arr().first().map(leak_str)
}

/// All ways to look at a schema have to agree.
fn look<R>(schema: &mut Schema<'static, 'static, R>) {
    fn same<T>(a: &T, b: &T) { assert!(std::ptr::eq(a, b), "another one") }
    let n = schema.commands().len();
    assert!(schema.commands().is_empty() == (n == 0), "is_empty");
    assert!(schema.commands_iter().count() == n && schema.commands().iter().clone().count() == n, "commands");
    for (i, c) in schema.commands_iter().enumerate() {
        same(c, schema.command_at(i));
        same(c, schema.commands().command_at(i));
        same(c, schema.commands().iter().nth(i).unwrap());
        let m = c.flags().len();
        assert!(c.flags().is_empty() == (m == 0), "is_empty");
        assert!(c.flags_iter().count() == m && c.flags().iter().clone().count() == m, "flags");
        for (j, f) in c.flags_iter().enumerate() {
            same(f, c.flag_at(j));
            same(f, c.flags().flag_at(j));
            same(f, schema.flag_at((i, j)));
        }
    }
    for i in 0..n {
        let c: *const Command<_> = schema.command_at(i);
        same(unsafe { &*c }, schema.command_mut_at(i));
        same(unsafe { &*c }, schema.commands_mut().command_mut_at(i));
        for j in 0..schema.command_at(i).flags().len() {
            let f: *const Flag<_> = schema.flag_at((i, j));
            same(unsafe { &*f }, schema.flag_mut_at((i, j)));
            same(unsafe { &*f }, schema.command_mut_at(i).flag_mut_at(j));
            same(unsafe { &*f }, schema.command_mut_at(i).flags_mut().flag_mut_at(j));
        }
    }
}

fn run_parse(input: &J, sink: &mut Sink) {
    let log: SharedLog = Default::default();
    let mut cmds = Vec::new();
    let mut places = Vec::new();
    for (c, cmd) in input.get("sch").arr().iter().enumerate() {
        let c = c as i64 + 1;
        let flags = cmd.get("flags").arr().iter().enumerate().map(|(f, flag)| {
            let rep = Box::leak(Box::new(RecFlag { c, f: f as i64 + 1, log: log.clone() }));
            Flag::with(leak_str(flag.get("n")), mode(flag.get("m").int()), rep, None)
        }).collect();
        let rep = Box::leak(Box::new(RecCmd { c, log: log.clone() }));
        places.push(&raw const *rep as usize);
        cmds.push(Command::with(path(cmd.get("path")), rep, flag_set(flags), None));
    }
    let places = Rc::new(places);
    let mut schema = Schema::with(command_set(cmds));
    for op in input.get("ops").arr() {
        let set = schema.commands();
        let found = |r: Result<usize, usize>| match r { Ok(v) => vec![1, v as i64], Err(v) => vec![0, v as i64] };
        match op.get("k").int() {
            2 => {
                let p = path(op.get("path"));
                sink.push(found(set.search_by(|c| c.path().cmp(p))));
                continue;
            }
            3 => {
                let n = leak_str(op.get("n"));
                sink.push(found(schema.command_at(op.get("at").int() as usize).flags().search_by(|f| f.name().cmp(n))));
                continue;
            }
            4 => {
                let mut o = Vec::new();
                for c in set.iter_from(op.get("at").int() as usize) {
                    let mut p = Vec::new();
                    for n in c.path() { bytes(&mut p, n.as_bytes()); }
                    o.push(p.len() as i64);
                    o.extend(p);
                }
                sink.push(o);
                continue;
            }
            _ => (),
        }
        if op.get("k").int() == 1 {
            let mut o = Vec::new();
            let n = schema.commands().len();
            look(&mut schema);
            for i in 0..n {
                let c = schema.command_at(i);
                o.push(c.path().len() as i64);
                for p in c.path() { bytes(&mut o, p.as_bytes()); }
                o.push(schema.commands().up_from(i).map(|v| v as i64).unwrap_or(-1));
                o.push(c.flags().len() as i64);
                for f in c.flags_iter() {
                    bytes(&mut o, f.name().as_bytes());
                    o.push(mode_code(f.mode()));
                }
            }
            sink.push(o);
            continue;
        }
        let mut rep = RecParser { log: log.clone() };
        *log.borrow_mut() = Log { n: 0, brk: op.get("b").int(), o: Vec::new(), cmds: places.clone(), probe: None };
        let a = os_args(op.get("args"));
        let r = args::parse(&mut rep, &mut schema, &mut a.into_iter());
        let l = log.borrow();
        let mut o = match r {
            Ok(v) => vec![0, v as i64],
            Err(None) => vec![1, 0],
            Err(Some(v)) => vec![2, v],
        };
        o.push(l.n);
        o.extend(&l.o);
        sink.push(o);
    }
}

/* ---- receivers ---- */

struct Errors(Vec<Vec<i64>>);

type RErr = ();

/// A receiver with nothing but the default behaviour.
struct Plain;
impl FlagReport<'static, RErr> for Plain {}
impl CommandReport<'static, RErr> for Plain {}

/// A receiver that takes two reports and aborts on any other.
#[derive(Clone, Copy)]
struct Quota(i64);
impl Quota {
    fn take(&mut self) -> ControlFlow<RErr> {
        if self.0 == 2 { return ControlFlow::Break(()); }
        self.0 += 1;
        ControlFlow::Continue(())
    }
}
impl FlagReport<'static, RErr> for Quota {
    fn report_set(&mut self, _: &mut FlagContext<'_, 'static, RErr>) -> ControlFlow<RErr> { self.take() }
    fn report_toggle(&mut self, _: &mut FlagContext<'_, 'static, RErr>, _: bool) -> ControlFlow<RErr> { self.take() }
    fn report_parse(&mut self, _: &mut FlagContext<'_, 'static, RErr>, _: &'static OsStr) -> ControlFlow<RErr> { self.take() }
}

trait Show { fn show(&self, o: &mut Vec<i64>); }
impl Show for Plain { fn show(&self, o: &mut Vec<i64>) { o.push(0) } }
impl Show for Quota { fn show(&self, o: &mut Vec<i64>) { o.extend([1, self.0]) } }
impl Show for () { fn show(&self, o: &mut Vec<i64>) { o.push(0) } }
impl Show for Option<()> { fn show(&self, o: &mut Vec<i64>) { o.push(self.is_some() as i64) } }
impl Show for bool { fn show(&self, o: &mut Vec<i64>) { o.push(*self as i64) } }
impl Show for &'static OsStr { fn show(&self, o: &mut Vec<i64>) { o.push(1); bytes(o, self.as_encoded_bytes()) } }
impl Show for &'static str { fn show(&self, o: &mut Vec<i64>) { o.push(1); bytes(o, self.as_bytes()) } }
impl Show for String { fn show(&self, o: &mut Vec<i64>) { o.push(1); bytes(o, self.as_bytes()) } }
impl<T: Show> Show for Vec<T> {
    fn show(&self, o: &mut Vec<i64>) {
        o.extend([1, self.len() as i64]);
        for v in self { let mut t = Vec::new(); v.show(&mut t); o.extend(&t[1..]); }
    }
}
macro_rules! opt_show { ($($t:ty)*) => { $(impl Show for Option<$t> {
    fn show(&self, o: &mut Vec<i64>) { match self { None => o.push(0), Some(v) => v.show(o) } }
})* } }
opt_show!(&'static OsStr &'static str String Vec<&'static OsStr> Vec<&'static str> Vec<String>);

fn drive<F, C>(input: &J, sink: &mut Sink, mut flag: F, mut cmd: C)
where F: FlagReport<'static, RErr> + Show + 'static, C: CommandReport<'static, RErr> + Show + 'static
{
    drive_dyn(input, sink, &mut |o, f, c| {
        match f { Some(_) => (), None => flag.show(o) }
        match c { Some(_) => (), None => cmd.show(o) }
        (&mut flag as *mut F as *mut (), &mut cmd as *mut C as *mut ())
    }, |p| unsafe { &mut *(p as *mut F) }, |p| unsafe { &mut *(p as *mut C) });
}

/// The receivers stay, the schema is made anew for each parse.
fn drive_dyn<F: FlagReport<'static, RErr> + 'static, C: CommandReport<'static, RErr> + 'static>(
    input: &J, sink: &mut Sink,
    access: &mut dyn FnMut(&mut Vec<i64>, Option<()>, Option<()>) -> (*mut (), *mut ()),
    f: fn(*mut ()) -> &'static mut F, c: fn(*mut ()) -> &'static mut C,
) {
    let name = leak_str(input.get("name"));
    let m = input.get("mode").int();
    for op in input.get("ops").arr() {
        let (pf, pc) = access(&mut Vec::new(), Some(()), Some(()));
        let flags = flag_set(vec![Flag::with(name, mode(m), f(pf), None)]);
        let cmds = command_set(vec![Command::with(&[], c(pc), flags, None)]);
        let mut errors: Vec<args::Error<'static>> = Vec::new();
        let a = os_args(op);
        let stop = input.get("stop").int() as usize;
        let r = {
            let mut schema = Schema::with(cmds);
            if stop == 0 {
                args::parse(&mut errors, &mut schema, &mut a.into_iter())
            } else {
                let mut limited = Limited { errors: &mut errors, stop };
                args::parse(&mut limited, &mut schema, &mut a.into_iter())
            }
        };
        let mut o = match r {
            Ok(v) => vec![0, v as i64],
            Err(None) => vec![1, 0],
            Err(Some(())) => vec![2, 0],
        };
        access(&mut o, None, None);
        let errors = Errors(errors.iter().map(enc_error).collect());
        o.push(errors.0.len() as i64);
        for e in errors.0 { o.extend(e); }
        sink.push(o);
    }
}

/// Gathers errors up to a number.
struct Limited<'a> { errors: &'a mut Vec<args::Error<'static>>, stop: usize }
impl ParserReport<'static, ()> for Limited<'_> {
    fn report_error(&mut self, _: &mut ParserContext<'_, 'static, ()>, e: args::Error<'static>) -> ControlFlow<()> {
        self.errors.push(e);
        if self.errors.len() == self.stop { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }
    }
}

/// Receivers that share their contents.
struct SharedShow<T: 'static>(T);
macro_rules! shared { ($input:expr, $sink:expr, $share:expr, $init:expr, $t:ty, copy) => {
    match $share {
        0 => with_cmd($input, $sink, { let v: $t = $init; v }),
        1 => {
            let cell: &'static Cell<$t> = Box::leak(Box::new(Cell::new($init)));
            with_cmd($input, $sink, SharedShow((Shared::with(cell), ShowFn(Box::new(move |o| cell.get().show(o))))))
        }
        _ => {
            let cell: &'static RefCell<$t> = Box::leak(Box::new(RefCell::new($init)));
            with_cmd($input, $sink, SharedShow((Shared::with(cell), ShowFn(Box::new(move |o| cell.borrow().show(o))))))
        }
    }
}; ($input:expr, $sink:expr, $share:expr, $init:expr, $t:ty) => {
    match $share {
        0 => with_cmd($input, $sink, { let v: $t = $init; v }),
        _ => {
            let cell: &'static RefCell<$t> = Box::leak(Box::new(RefCell::new($init)));
            with_cmd($input, $sink, SharedShow((Shared::with(cell), ShowFn(Box::new(move |o| cell.borrow().show(o))))))
        }
    }
} }

struct ShowFn(Box<dyn Fn(&mut Vec<i64>)>);
impl<S> Show for SharedShow<(S, ShowFn)> { fn show(&self, o: &mut Vec<i64>) { (self.0 .1 .0)(o) } }
impl<S: FlagReport<'static, RErr>> FlagReport<'static, RErr> for SharedShow<(S, ShowFn)> {
    fn report_set(&mut self, cx: &mut FlagContext<'_, 'static, RErr>) -> ControlFlow<RErr> {
        self.0 .0.report_set(cx)
    }
    fn report_toggle(&mut self, cx: &mut FlagContext<'_, 'static, RErr>, v: bool) -> ControlFlow<RErr> {
        self.0 .0.report_toggle(cx, v)
    }
    fn report_parse(&mut self, cx: &mut FlagContext<'_, 'static, RErr>, v: &'static OsStr) -> ControlFlow<RErr> {
        self.0 .0.report_parse(cx, v)
    }
}

fn with_cmd<F: FlagReport<'static, RErr> + Show + 'static>(input: &J, sink: &mut Sink, f: F) {
    match input.get("ckind").int() {
        0 => drive(input, sink, f, ()),
        1 => drive(input, sink, f, Vec::<&'static OsStr>::new()),
        2 => drive(input, sink, f, None::<Vec<&'static OsStr>>),
        3 => drive(input, sink, f, Vec::<&'static str>::new()),
        4 => drive(input, sink, f, None::<Vec<&'static str>>),
        5 => drive(input, sink, f, Vec::<String>::new()),
        6 => drive(input, sink, f, None::<Vec<String>>),
        7 => drive(input, sink, f, Plain),
        _ => panic!("vh: ckind"),
    }
}

fn run_recv(input: &J, sink: &mut Sink) {
    let share = input.get("share").int();
    match input.get("kind").int() {
        0 => shared!(input, sink, share, None, Option<()>, copy),
        1 => shared!(input, sink, share, false, bool, copy),
        2 => shared!(input, sink, share, OsStr::from_str(""), &'static OsStr, copy),
        3 => shared!(input, sink, share, None, Option<&'static OsStr>, copy),
        4 => shared!(input, sink, share, "", &'static str, copy),
        5 => shared!(input, sink, share, None, Option<&'static str>, copy),
        6 => shared!(input, sink, share, String::new(), String),
        7 => shared!(input, sink, share, None, Option<String>),
        8 => shared!(input, sink, share, Vec::new(), Vec<&'static OsStr>),
        9 => shared!(input, sink, share, None, Option<Vec<&'static OsStr>>),
        10 => shared!(input, sink, share, Vec::new(), Vec<&'static str>),
        11 => shared!(input, sink, share, None, Option<Vec<&'static str>>),
        12 => shared!(input, sink, share, Vec::new(), Vec<String>),
        13 => shared!(input, sink, share, None, Option<Vec<String>>),
        14 => shared!(input, sink, share, Plain, Plain),
        15 => shared!(input, sink, share, Quota(0), Quota, copy),
        _ => panic!("vh: kind"),
    }
}

/* ---- help ---- */

struct Writer { n: i64, brk: i64, o: Vec<i64> }

impl Writer {
    fn add(&mut self, v: Vec<i64>) -> ControlFlow<i64> {
        self.n += 1;
        self.o.extend(v);
        if self.n == self.brk { ControlFlow::Break(self.n) } else { ControlFlow::Continue(()) }
    }
}

fn opt(o: &mut Vec<i64>, s: Option<&str>) {
    match s { None => o.push(0), Some(s) => { o.push(1); bytes(o, s.as_bytes()) } }
}

impl args::help::Write<i64> for Writer {
    fn write_info(&mut self, info: &str) -> ControlFlow<i64> {
        let mut o = vec![1]; bytes(&mut o, info.as_bytes()); self.add(o)
    }
    fn write_section(&mut self, s: &str) -> ControlFlow<i64> {
        let mut o = vec![2]; bytes(&mut o, s.as_bytes()); self.add(o)
    }
    fn write_usage(&mut self, entry: &str, path: &[&str]) -> ControlFlow<i64> {
        let mut o = vec![3];
        bytes(&mut o, entry.as_bytes());
        o.push(path.len() as i64);
        for p in path { bytes(&mut o, p.as_bytes()); }
        self.add(o)
    }
    fn write_flag(&mut self, flag: &str, mode: FlagMode, info: Option<&str>, width: usize) -> ControlFlow<i64> {
        let mut o = vec![4];
        bytes(&mut o, flag.as_bytes());
        o.push(mode_code(mode));
        opt(&mut o, info);
        o.push(width as i64);
        self.add(o)
    }
    fn write_command(&mut self, command: &str, info: Option<&str>, width: usize) -> ControlFlow<i64> {
        let mut o = vec![5];
        bytes(&mut o, command.as_bytes());
        opt(&mut o, info);
        o.push(width as i64);
        self.add(o)
    }
}

fn run_help(input: &J, sink: &mut Sink) {
    let log: SharedLog = Default::default();
    let help: &'static args::help::Help<'static> = Box::leak(Box::new(
        args::help::Help::with(leak_str(input.get("entry")), leak_str(input.get("info")))));
    let mut cmds = Vec::new();
    for (c, cmd) in input.get("sch").arr().iter().enumerate() {
        let c = c as i64 + 1;
        let flags = cmd.get("flags").arr().iter().enumerate().map(|(f, flag)| {
            let rep: &'static mut dyn FlagReport<'static, i64> = if flag.get("help").int() == 1 {
                Box::leak(Box::new(help.flag()))
            } else {
                Box::leak(Box::new(RecFlag { c, f: f as i64 + 1, log: log.clone() }))
            };
            Flag::with(leak_str(flag.get("n")), mode(flag.get("m").int()), rep, help_of(flag.get("h")))
        }).collect();
        let rep = Box::leak(Box::new(RecCmd { c, log: log.clone() }));
        cmds.push(Command::with(path(cmd.get("path")), rep, flag_set(flags), help_of(cmd.get("h"))));
    }
    let mut schema = Schema::with(command_set(cmds));
    for op in input.get("ops").arr() {
        let mut rep = RecParser { log: log.clone() };
        let a = os_args(op.get("args"));
        let _ = args::parse(&mut rep, &mut schema, &mut a.into_iter());
        let mut w = Writer { n: 0, brk: op.get("b").int(), o: Vec::new() };
        let r = if op.get("k").int() == 1 { help.try_help(&mut w, &schema) } else { help.help(&mut w, &schema) };
        let mut o = vec![match r { Ok(false) => 0, Ok(true) => 1, Err(v) => if v == w.brk { 2 } else { -997 } }, w.n];
        o.extend(w.o);
        sink.push(o);
    }
}

/* ---- inputs ---- */

const NAMES: &[&str] = &["a", "b", "ab", "a-b", "b2", "no-a", "no-", "no", "no-no-a", "", "\u{e9}", "help", "x", "-", "-a", "Z", "c"];

fn gen_schema(r: &Rnd, extra: bool) -> (J, Vec<String>, Vec<String>) {
    let few = if r.one_in(3) { 2 } else { r.range(2, 5) };
    // Few names in many places, most of them without what is above them.
    let orphans = r.one_in(4);
    let pool: Vec<&str> = (0..few).map(|_| *r.pick(NAMES)).collect();
    let mut paths: Vec<Vec<String>> = Vec::new();
    for _ in 0..r.range(0, if r.one_in(8) { 12 } else { 6 }) {
        // Mostly below what is there already.
        let mut p: Vec<String> = if !paths.is_empty() && !orphans && r.one_in(2) { r.pick(&paths).clone() } else { vec![] };
        for _ in 0..r.below(if orphans { 5 } else { 3 }) { p.push(if !orphans && r.one_in(3) { r.pick(NAMES) } else { *r.pick(&pool) }.to_string()); }
        if p.len() <= 4 && !paths.contains(&p) { paths.push(p); }
    }
    if r.one_in(2) && !paths.contains(&vec![]) { paths.push(vec![]); }
    paths.truncate(12);
    let mut fnames = Vec::new();
    let mut sch = Vec::new();
    let desc = |r: &Rnd| if r.one_in(3) { J::A(vec![]) } else { J::A(vec![J::from_bytes(r.pick(&["", "does it", "\u{e9}x", "long text"]).as_bytes())]) };
    for p in &paths {
        let mut fl: Vec<String> = Vec::new();
        for _ in 0..r.small(6) {
            let n = if r.one_in(3) { r.pick(NAMES) } else { *r.pick(&pool) }.to_string();
            if !fl.contains(&n) && !n.contains('=') { fl.push(n); }
        }
        fnames.extend(fl.iter().cloned());
        let mut help_used = false;
        let flags = fl.iter().map(|n| {
            let m = r.below(3) as i64;
            let mut o = vec![("n", J::from_bytes(n.as_bytes())), ("m", J::N(m))];
            if extra {
                let h = m != 2 && (n == "help" || (!help_used && r.one_in(3)));
                help_used |= h;
                o.push(("h", desc(r)));
                o.push(("help", J::N(h as i64)));
            }
            J::obj(o)
        }).collect();
        let mut o = vec![
            ("path", J::A(p.iter().map(|n| J::from_bytes(n.as_bytes())).collect())),
            ("flags", J::A(flags)),
        ];
        if extra { o.push(("h", desc(r))); }
        sch.push(J::obj(o));
    }
    let cnames: Vec<String> = paths.iter().flatten().cloned().collect();
    (J::A(sch), cnames, fnames)
}

fn arg(r: &Rnd, cnames: &[String], fnames: &[String]) -> Vec<u8> {
    let fname = |r: &Rnd| if fnames.is_empty() || r.one_in(5) { r.pick(NAMES).to_string() } else { r.pick(fnames).clone() };
    match r.below(16) {
        0..=4 if !cnames.is_empty() => r.pick(cnames).clone().into_bytes(),
        5 | 6 => format!("--{}", fname(r)).into_bytes(),
        7 => format!("--no-{}", fname(r)).into_bytes(),
        8 => format!("--{}{}=v{}", if r.one_in(4) { "no-" } else { "" }, fname(r), r.pick(&["", "=", "=x", "\u{e9}", "--a"])).into_bytes(),
        9 => { let mut v = format!("--{}=", fname(r)).into_bytes(); v.extend([0xff, 0x41, 0xc3]); v }
        10 => r.pick(&["--", "-", "-x", "-xyz", "--=", "--=v", "---", "--no-", "--no", "", "=", "-=", "-\u{e9}", "--\u{e9}", "---a"]).as_bytes().to_vec(),
        11 => r.pick(&[&b"--\xff"[..], b"\xff", b"-\xff", b"--a\xff=v", b"--a=\xff", b"a\xff", b"\xc3", b"--\xed\xa0\x80", b"--a=\xf4\x90\x80\x80"]).to_vec(),
        12 => fname(r).into_bytes(),
        _ => r.pick(NAMES).as_bytes().to_vec(),
    }
}

fn arg_list(r: &Rnd, cnames: &[String], fnames: &[String]) -> J {
    J::A((0..r.range(0, 8)).map(|_| J::from_bytes(&arg(r, cnames, fnames))).collect())
}

const MANY: &[usize] = &[17, 33, 65, 129, 257];

/// Many commands or flags, or long names.
fn big_schema(r: &Rnd, idx: u64, extra: bool) -> (J, Vec<String>, Vec<String>) {
    let text = |s: &str| J::from_bytes(s.as_bytes());
    let desc = |r: &Rnd| if r.one_in(3) { J::A(vec![]) } else { J::A(vec![text(r.pick(&["", "does it", "\u{e9}x"]))]) };
        let many = *r.pick(MANY);
    let long = "l".repeat(r.big(if many > 65 { 7 } else { 11 }));
    let name = |i: usize| match r.below(8) { 0 => format!("no-{i}"), 1 => format!("{long}{i}"), 2 => format!("{i:04}"), _ => format!("n{i}") };
    let mut paths: Vec<Vec<String>> = vec![vec![]];
    match idx % 4 {
        // Wide, deep, and a mixture.
        0 => for i in 1..many { paths.push(vec![name(i)]); },
        1 => for i in 1..many.min(65) { let mut p = paths[i - 1].clone(); p.push(name(i % 7)); paths.push(p); },
        2 => while paths.len() < many {
            let mut p = r.pick(&paths).clone();
            p.push(name(paths.len() % 40));
            if p.len() < 9 && !paths.contains(&p) { paths.push(p); }
        },
        _ => for i in 1..3 { paths.push(vec![name(i)]); },
    }
    if r.one_in(2) {
        for i in (1..paths.len()).rev() { paths.swap(i, r.below(i + 1)); }
    }
    let mut fnames = Vec::new();
    let mut sch = Vec::new();
    for (i, p) in paths.iter().enumerate() {
        let count = if idx % 4 == 3 && i < 2 { many } else { r.below(3) };
        let mut fl: Vec<String> = Vec::new();
        while fl.len() < count { let f = name(fl.len()); if !fl.contains(&f) { fl.push(f); } }
        fnames.extend(fl.iter().cloned());
        let flags = fl.iter().enumerate().map(|(j, f)| {
            let m = r.below(3);
            let mut o = vec![("n", text(f)), ("m", J::N(m as i64))];
            if extra { o.push(("h", desc(r))); o.push(("help", J::N((m != 2 && j + 1 == count) as i64))); }
            J::obj(o)
        }).collect();
        let mut o = vec![("path", J::A(p.iter().map(|n| text(n)).collect())), ("flags", J::A(flags))];
        if extra { o.push(("h", desc(r))); }
        sch.push(J::obj(o));
    }
    (J::A(sch), paths.into_iter().flatten().collect(), fnames)
}

fn big_args(r: &Rnd, sch: &J, cnames: &[String], fnames: &[String]) -> J {
    let mut v = r.pick(sch.arr()).get("path").arr().to_vec();
    for _ in 0..if r.one_in(2) { r.big(8) } else { r.range(1, 8) } {
        let a = match r.below(8) {
            0 if r.one_in(8) => vec![b'p'; r.big(16)],
            1 if r.one_in(8) && !fnames.is_empty() => {
                let mut a = format!("--{}=", r.pick(fnames)).into_bytes();
                a.extend(vec![b'v'; r.big(16)]);
                a
            }
            2 if r.one_in(8) => [&b"--"[..], &vec![b'u'; r.big(14)]].concat(),
            _ => arg(r, cnames, fnames),
        };
        let at = r.range(v.len().saturating_sub(4), v.len());
        v.insert(at, J::from_bytes(&a));
    }
    J::A(v)
}

fn gen_parse(r: &Rnd, idx: u64, prof: &str) -> J {
    if prof == "big" {
        let (sch, cnames, fnames) = big_schema(r, idx, false);
        let op = |k, args| J::obj(vec![("k", J::N(k)), ("args", args), ("b", J::N(if r.one_in(6) { r.range(1, 40) as i64 } else { 0 }))]);
        let ops = vec![op(1, J::A(vec![])), op(0, big_args(r, &sch, &cnames, &fnames)), op(0, big_args(r, &sch, &cnames, &fnames))];
        return J::obj(vec![("sch", sch), ("ops", J::A(ops))]);
    }
    if prof.ends_with("layout") {
        let sch = if prof == "biglayout" { big_schema(r, idx, false).0 } else { gen_schema(r, false).0 };
        let mut ops = vec![J::obj(vec![("k", J::N(1))])];
        let n = sch.arr().len();
        let name = |r: &Rnd| J::from_bytes(r.pick(NAMES).as_bytes());
        for _ in 0..r.range(1, 9) {
            let at = ("at", J::N(r.below(n.max(1)) as i64));
            ops.push(J::obj(match r.below(3) {
                0 if n > 0 => {
                    // Of this command or of another one.
                    let flags: Vec<&J> = sch.arr().iter().flat_map(|c| c.get("flags").arr()).collect();
                    vec![("k", J::N(3)), at, ("n", if flags.is_empty() || r.one_in(3) { name(r) } else { r.pick(&flags).get("n").clone() })]
                }
                1 => vec![("k", J::N(4)), ("at", J::N(r.range(0, n) as i64))],
                _ => {
                    let mut p = if n == 0 || r.one_in(8) { vec![] } else { r.pick(sch.arr()).get("path").arr().to_vec() };
                    match r.below(5) {
                        0 => { p.pop(); }
                        1 => p.push(name(r)),
                        2 if !p.is_empty() => { let i = r.below(p.len()); p[i] = name(r); }
                        _ => (),
                    }
                    vec![("k", J::N(2)), ("path", J::A(p))]
                }
            }));
        }
        return J::obj(vec![("sch", sch), ("ops", J::A(ops))]);
    }
    let (sch, cnames, fnames) = gen_schema(r, false);
    let mut ops = Vec::new();
    if prof == "cmd" && idx % 3 == 0 {
        ops.push(J::obj(vec![("k", J::N(1)), ("args", J::A(vec![])), ("b", J::N(0))]));
    }
    for _ in 0..4 {
        let mut args = arg_list(r, &cnames, &fnames);
        if !sch.arr().is_empty() && !r.one_in(4) {
            // Begin with a proper command path.
            let c = r.pick(sch.arr());
            let n = r.range(0, c.get("path").arr().len());
            let mut v = c.get("path").arr()[..n].to_vec();
            if prof == "flag" {
                // Flags of that command and those around it.
                let mut flags = Vec::new();
                for d in sch.arr() {
                    if r.one_in(2) || c.get("path").arr().starts_with(d.get("path").arr()) { flags.extend(d.get("flags").arr().iter().cloned()); }
                }
                if !flags.is_empty() {
                    for _ in 0..r.range(1, 5) {
                        let f = r.pick(&flags);
                        let mut a = b"--".to_vec();
                        if r.one_in(4) { a.extend(b"no-"); }
                        a.extend(f.get("n").bytes());
                        if r.one_in(4) { a.extend(b"=v"); }
                        let at = r.range(0, v.len());
                        v.insert(at, J::from_bytes(&a));
                    }
                }
            }
            v.extend(args.arr().iter().cloned());
            args = J::A(v);
        }
        let b = if r.one_in(6) { r.range(1, 4) as i64 } else { 0 };
        ops.push(J::obj(vec![("k", J::N(0)), ("args", args), ("b", J::N(b))]));
    }
    J::obj(vec![("sch", sch), ("ops", J::A(ops))])
}

fn gen_recv(r: &Rnd, idx: u64, prof: &str) -> J {
    let big = prof == "big";
    let kind = (idx % 16) as i64;
    let mode = if r.one_in(2) { if kind < 2 { r.below(2) } else { 2 } } else { r.below(3) } as i64;
    let name = r.pick(&["x", "flag", "no-x", "\u{e9}", "a-b"]).to_string();
    let ops = (0..r.range(1, 3)).map(|_| J::A((0..if big { r.big(8) } else { r.range(0, 6) }).map(|_| J::from_bytes(&match r.below(8) {
        0 if big && r.one_in(4) => { let mut v = format!("--{name}=").into_bytes(); v.extend(vec![b'v'; r.big(12)]); v }
        1 if big && r.one_in(4) => vec![b'p'; r.big(12)],
        0 => format!("--{name}").into_bytes(),
        1 => format!("--no-{name}").into_bytes(),
        2 => format!("--{name}={}", r.pick(&["", "v", "w w", "\u{1f600}", "--"])).into_bytes(),
        3 => { let mut v = format!("--{name}=").into_bytes(); v.extend(*r.pick(&[&b"\xff"[..], b"a\xc3", b"\xed\xa0\x80", b"ok"])); v }
        4 => r.pick(&[&b"\xff"[..], b"a\xc3\x28", b"\xf0\x9f\x98", b"\xc0\x80"]).to_vec(),
        5 => if r.one_in(4) { b"--".to_vec() } else { b"p1".to_vec() },
        _ => r.pick(&["p", "q", "", "\u{e9}", "-", "--unknown", "-s"]).as_bytes().to_vec(),
    })).collect())).collect();
    J::obj(vec![
        ("kind", J::N(kind)), ("share", J::N(r.below(3) as i64)), ("mode", J::N(mode)),
        ("stop", J::N(if r.one_in(4) { r.range(1, 3) as i64 } else { 0 })),
        ("ckind", J::N(r.below(8) as i64)), ("name", J::from_bytes(name.as_bytes())), ("ops", J::A(ops)),
    ])
}

fn gen_help(r: &Rnd, idx: u64, prof: &str) -> J {
    let (sch, cnames, fnames) = if prof == "big" { big_schema(r, idx, true) } else { gen_schema(r, true) };
    let mut hnames: Vec<String> = Vec::new();
    for c in sch.arr() { for f in c.get("flags").arr() {
        if f.get("help").int() == 1 { hnames.push(String::from_utf8(f.get("n").bytes()).unwrap()); }
    } }
    let mut ops = Vec::new();
    for _ in 0..4 {
        let mut args: Vec<J> = arg_list(r, &cnames, &fnames).arr().to_vec();
        args.truncate(r.below(4));
        if !sch.arr().is_empty() && !r.one_in(4) {
            let c = r.pick(sch.arr());
            let mut v = c.get("path").arr().to_vec();
            v.extend(args);
            args = v;
        }
        if !hnames.is_empty() {
            for _ in 0..r.below(3) {
                let at = r.range(0, args.len());
                args.insert(at, J::from_bytes(format!("--{}{}", if r.one_in(5) { "no-" } else { "" }, r.pick(&hnames)).as_bytes()));
            }
        }
        let b = if r.one_in(4) { r.range(1, 8) as i64 } else { 0 };
        ops.push(J::obj(vec![("k", J::N(r.below(2) as i64)), ("args", J::A(args)), ("b", J::N(b))]));
    }
    J::obj(vec![
        ("sch", sch),
        ("entry", J::from_bytes(r.pick(&["prog", "", "\u{e9}"]).as_bytes())),
        ("info", J::from_bytes(r.pick(&["Info\n", "", "two\nlines"]).as_bytes())),
        ("ops", J::A(ops)),
    ])
}
