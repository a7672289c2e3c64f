//! Ownership wrappers: `osi::{convert, ptr, pin, mown, cmp, error}`.

use crate::json::J;
use crate::rnd::Rnd;
use crate::{Sink, Sub};
use osi::cmp::Identity;
use osi::convert::{FromDeref, IntoDeref};
use osi::error::Uncaught;
use osi::mown::Mown;
use osi::ptr::{OnceRef, Ptr};
use std::cell::RefCell;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::pin::Pin;
use std::ptr::NonNull;
use std::rc::Rc;
use std::sync::Arc;

pub const SUB: Sub = Sub { name: "own", gen, run };
pub const CAUGHT: Sub = Sub { name: "uncaught", gen: gen_caught, run: run_caught };

thread_local! {
    /// How often each part was dropped, by object.
    static DROPS: RefCell<Vec<i64>> = const { RefCell::new(Vec::new()) };
}

pub struct Obj { id: usize, v: i64 }

impl Drop for Obj {
    fn drop(&mut self) {
        DROPS.with_borrow_mut(|d| if let Some(n) = d.get_mut(self.id) { *n += 1 });
    }
}

impl PartialEq for Obj { fn eq(&self, o: &Self) -> bool { self.v == o.v } }
impl Eq for Obj {}
impl PartialOrd for Obj { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Obj { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.v.cmp(&o.v) } }
impl Hash for Obj { fn hash<H: Hasher>(&self, h: &mut H) { self.v.hash(h) } }
impl std::fmt::Debug for Obj { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "obj{}", self.v) } }

/// The three kinds of pointees.
pub trait Probe {
    fn get(&self) -> i64;
    fn set(&mut self, v: i64);
}

impl Probe for Obj {
    fn get(&self) -> i64 { self.v }
    fn set(&mut self, v: i64) { self.v = v }
}

const PARTS: usize = 3;

impl Probe for [Obj] {
    fn get(&self) -> i64 {
        assert!(self.len() == PARTS && self.iter().all(|v| v.v == self[0].v), "parts");
        self[0].v
    }
    fn set(&mut self, v: i64) { for p in self { p.v = v; } }
}

impl PartialEq for dyn Probe { fn eq(&self, o: &Self) -> bool { self.get() == o.get() } }
impl Eq for dyn Probe {}
impl PartialOrd for dyn Probe { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for dyn Probe { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.get().cmp(&o.get()) } }
impl Hash for dyn Probe { fn hash<H: Hasher>(&self, h: &mut H) { self.get().hash(h) } }
impl std::fmt::Debug for dyn Probe { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "obj{}", self.get()) } }

type M<T> = Mown<'static, T, Rc<T>>;

enum H<T: ?Sized + 'static> {
    Dead,
    Box(Box<T>), Rc(Rc<T>), Arc(Arc<T>),
    PinBox(Pin<Box<T>>), PinRc(Pin<Rc<T>>), PinArc(Pin<Arc<T>>),
    Ref(&'static T), Mut(&'static mut T), PinRef(Pin<&'static T>), PinMut(Pin<&'static mut T>),
    Once(OnceRef<'static, T>, i64), PinOnce(Pin<OnceRef<'static, T>>, i64),
    Raw(Ptr<'static, T>),
    Mown(M<T>),
}

fn code<T: ?Sized>(h: &H<T>) -> i64 {
    match h {
        H::Dead => 0, H::Box(_) => 1, H::Rc(_) => 2, H::Arc(_) => 3,
        H::PinBox(_) => 4, H::PinRc(_) => 5, H::PinArc(_) => 6,
        H::Ref(_) => 7, H::Mut(_) => 8, H::PinRef(_) => 9, H::PinMut(_) => 10,
        H::Once(..) => 11, H::PinOnce(..) => 12, H::Raw(_) => 13,
        H::Mown(m) => {
            assert!(m.is_owned() != m.is_borrowed(), "either");
            assert!(matches!(m, Mown::Owned(_)) == m.is_owned(), "variant");
            if m.is_owned() { 14 } else { 15 }
        }
    }
}

/// Pointee, by the plain way.
fn at<T: ?Sized>(h: &H<T>) -> Option<&T> {
    Some(match h {
        H::Dead => return None,
        H::Box(v) => v, H::Rc(v) => v, H::Arc(v) => v,
        H::PinBox(v) => v, H::PinRc(v) => v, H::PinArc(v) => v,
        H::Ref(v) => v, H::Mut(v) => v, H::PinRef(v) => v, H::PinMut(v) => v,
        H::Once(v, _) => v, H::PinOnce(v, _) => v,
        H::Raw(v) => unsafe { v.as_ref() },
        H::Mown(v) => v,
    })
}

fn strong<T: ?Sized>(h: &H<T>) -> Option<i64> {
    Some(match h {
        H::Rc(v) => Rc::strong_count(v),
        H::Arc(v) => Arc::strong_count(v),
        H::PinRc(v) => Rc::strong_count(unsafe { osi::pin::as_inner(v) }),
        H::PinArc(v) => Arc::strong_count(unsafe { osi::pin::as_inner(v) }),
        H::Mown(Mown::Owned(v)) => Rc::strong_count(v),
        _ => return None,
    } as i64)
}

fn hash<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Every accessor leads to the same place.
fn look<T: ?Sized + Probe>(h: &mut H<T>, a: *const T) {
    let mut ps: Vec<*const T> = Vec::new();
    match h {
        H::Ref(v) => ps.extend([osi::ptr::nonnull_from_ref(*v).as_ptr() as *const T]),
        H::Mut(v) => ps.extend([osi::ptr::nonnull_from_mut(*v).as_ptr() as *const T]),
        H::PinBox(v) => ps.extend([
            osi::ptr::nonnull_from_pin_ref(v.as_ref()).as_ptr() as *const T,
            osi::ptr::nonnull_from_pin_mut(v.as_mut()).as_ptr(),
            osi::pin::as_ptr(v.as_ref()),
            osi::pin::as_mut_ptr(v.as_mut()),
            &raw const **unsafe { osi::pin::as_inner(v) },
        ]),
        H::PinRef(v) => ps.extend([osi::pin::as_ptr(*v) as *const T, osi::ptr::nonnull_from_pin_ref(*v).as_ptr()]),
        H::PinMut(v) => ps.extend([
            osi::pin::as_mut_ptr(v.as_mut()) as *const T,
            osi::pin::as_ptr(v.as_mut()),
            osi::ptr::nonnull_from_pin_mut(v.as_mut()).as_ptr(),
            osi::ptr::nonnull_from_pin_ref(v.as_ref()).as_ptr(),
        ]),
        H::Once(v, f) => {
            ps.extend([v.as_ptr() as *const T, v.as_nonnull().as_ptr(), v.as_ref(), &**v]);
            if [1, 8].contains(f) { ps.push(unsafe { v.as_mut() }); }
        }
        H::PinOnce(v, _) => ps.push(&raw const *v.as_ref()),
        H::Raw(v) => ps.extend([v.as_ptr() as *const T, v.as_nonnull().as_ptr(), unsafe { v.as_ref() }]),
        H::Mown(v) => ps.extend([&raw const **v, Mown::deref(v)]),
        _ => {}
    }
    assert!(ps.iter().all(|p| std::ptr::addr_eq(*p, a)), "address");
}

struct World<T: ?Sized + 'static> {
    hs: Vec<H<T>>,
    /// Object of each handle, address of each object.
    objs: Vec<usize>,
    addr: Vec<*const T>,
    parts: i64,
}

impl<T: ?Sized + Probe + 'static> World<T> {
    fn obs(&mut self, h: usize) -> Vec<i64> {
        let a = self.addr[self.objs[h]];
        let x = &mut self.hs[h];
        let mut o = vec![code(x)];
        look(x, a);
        if let Some(p) = at(x) {
            o.extend([p.get(), std::ptr::addr_eq(p, a) as i64]);
            o.extend(strong(x));
        }
        o.push(-1);
        let parts = self.parts;
        DROPS.with_borrow(|d| o.extend(d.iter().map(|n| if n % parts == 0 { n / parts } else { -2 })));
        o
    }
}

/// Pass through a raw form and back.
fn once_through<T: ?Sized>(v: OnceRef<'static, T>, j: i64) -> OnceRef<'static, T> {
    unsafe {
        match j {
            0 => OnceRef::from_nonnull(v.into_nonnull()),
            1 => OnceRef::from_ptr(v.into_ptr()),
            2 => OnceRef::from_ref(v.into_ref()),
            3 => OnceRef::from_mut(v.into_mut()),
            4 => OnceRef::from(v.into_ref()),
            5 => OnceRef::from(v.into_mut()),
            6 => OnceRef::from_nonnull(NonNull::from(v)),
            7 => OnceRef::from_ptr(<*mut T>::from(v)),
            _ => OnceRef::from_ptr(<*const T>::from(v) as *mut T),
        }
    }
}

fn raw_through<T: ?Sized>(v: Ptr<'static, T>, j: i64) -> Ptr<'static, T> {
    unsafe {
        match j {
            0 => Ptr::new(v.into_nonnull()),
            1 => Ptr::from_ptr(v.into_ptr()),
            2 => Ptr::from_ref(v.into_ref()),
            4 => Ptr::from(v.into_ref()),
            6 => Ptr::new(NonNull::from(v)),
            7 => Ptr::from_ptr(<*mut T>::from(v)),
            _ => Ptr::from_ptr(<*const T>::from(v) as *mut T),
        }
    }
}

fn world<T: ?Sized + Probe + Ord + Hash + std::fmt::Debug + 'static>(
    input: &J, sink: &mut Sink, parts: i64, make: &dyn Fn(usize, i64) -> Box<T>,
) {
    DROPS.with_borrow_mut(|d| d.clear());
    let mut w = World { hs: Vec::new(), objs: Vec::new(), addr: Vec::new(), parts };
    for op in input.get("ops").arr() {
        let k = op.get("k").int();
        if k == 1 {
            let id = DROPS.with_borrow_mut(|d| { d.push(0); d.len() - 1 });
            let b = make(id, op.get("v").int());
            // Objects that nobody owns stay allocated.
            let n: H<T> = match op.get("f").int() {
                1 => H::Box(b),
                2 => H::Rc(Rc::from(b)),
                3 => H::Arc(Arc::from(b)),
                4 => H::PinBox(Box::into_pin(b)),
                5 => H::PinRc(unsafe { Pin::new_unchecked(Rc::from(b)) }),
                6 => H::PinArc(unsafe { Pin::new_unchecked(Arc::from(b)) }),
                7 => H::Ref(Box::leak(b)),
                8 => H::Mut(Box::leak(b)),
                9 => H::PinRef(unsafe { Pin::new_unchecked(Box::leak(b)) }),
                10 => H::PinMut(unsafe { Pin::new_unchecked(Box::leak(b)) }),
                14 => H::Mown(Mown::new_owned(Rc::from(b))),
                15 => H::Mown(Mown::new_borrowed(Box::leak(b))),
                _ => panic!("vh: form"),
            };
            w.addr.push(at(&n).unwrap());
            w.objs.push(w.addr.len() - 1);
            w.hs.push(n);
            let o = w.obs(w.hs.len() - 1);
            sink.push(o);
            continue;
        }
        let h = op.get("h").int() as usize - 1;
        let take = |w: &mut World<T>| std::mem::replace(&mut w.hs[h], H::Dead);
        let bad = || -> H<T> { panic!("vh: form of the handle") };
        let mut shown = h;
        match k {
            2 => {
                let f = code(&w.hs[h]);
                w.hs[h] = match take(&mut w) {
                    H::Box(v) => H::Once(IntoDeref::into_deref(v), f),
                    H::Rc(v) => H::Once(IntoDeref::into_deref(v), f),
                    H::Arc(v) => H::Once(IntoDeref::into_deref(v), f),
                    H::Ref(v) => H::Once(IntoDeref::into_deref(v), f),
                    H::Mut(v) => H::Once(IntoDeref::into_deref(v), f),
                    _ => bad(),
                };
            }
            3 => {
                let f = code(&w.hs[h]);
                w.hs[h] = match take(&mut w) {
                    H::PinBox(v) => H::PinOnce(IntoDeref::pin_into_deref(v), f),
                    H::PinRc(v) => H::PinOnce(IntoDeref::pin_into_deref(v), f),
                    H::PinArc(v) => H::PinOnce(IntoDeref::pin_into_deref(v), f),
                    H::PinRef(v) => H::PinOnce(IntoDeref::pin_into_deref(v), f),
                    H::PinMut(v) => H::PinOnce(IntoDeref::pin_into_deref(v), f),
                    _ => bad(),
                };
            }
            4 => w.hs[h] = match take(&mut w) {
                H::Once(v, f) => unsafe { match f {
                    1 => H::Box(FromDeref::from_deref(v)),
                    2 => H::Rc(FromDeref::from_deref(v)),
                    3 => H::Arc(FromDeref::from_deref(v)),
                    7 => H::Ref(FromDeref::from_deref(v)),
                    8 => H::Mut(FromDeref::from_deref(v)),
                    _ => bad(),
                } },
                _ => bad(),
            },
            5 => w.hs[h] = match take(&mut w) {
                H::PinOnce(v, f) => unsafe { match f {
                    4 => H::PinBox(FromDeref::pin_from_deref(v)),
                    5 => H::PinRc(FromDeref::pin_from_deref(v)),
                    6 => H::PinArc(FromDeref::pin_from_deref(v)),
                    9 => H::PinRef(FromDeref::pin_from_deref(v)),
                    10 => H::PinMut(FromDeref::pin_from_deref(v)),
                    _ => bad(),
                } },
                _ => bad(),
            },
            6 => {
                let n = match &w.hs[h] {
                    H::Rc(v) => H::Rc(v.clone()),
                    H::Arc(v) => H::Arc(v.clone()),
                    H::PinRc(v) => H::PinRc(v.clone()),
                    H::PinArc(v) => H::PinArc(v.clone()),
                    H::Ref(v) => H::Ref(*v),
                    H::PinRef(v) => H::PinRef(*v),
                    H::Raw(v) => { let c = Clone::clone(v); assert!(c == *v && c.cmp(v).is_eq() && hash(&c) == hash(v), "copy"); H::Raw(*v) }
                    H::Mown(v) => H::Mown(v.clone()),
                    _ => bad(),
                };
                w.hs.push(n);
                w.objs.push(w.objs[h]);
                shown = w.hs.len() - 1;
            }
            7 => drop(take(&mut w)),
            8 => {
                let v = op.get("v").int();
                match &mut w.hs[h] {
                    H::Box(p) => p.set(v),
                    H::Mut(p) => p.set(v),
                    H::PinMut(p) => unsafe { p.as_mut().get_unchecked_mut() }.set(v),
                    H::Once(p, _) => unsafe { p.as_mut() }.set(v),
                    _ => { let _ = bad(); }
                }
            }
            9 => {
                let j = op.get("j").int();
                w.hs[h] = match take(&mut w) {
                    H::Once(v, f) => H::Once(once_through(v, j), f),
                    H::Raw(v) => H::Raw(raw_through(v, j)),
                    _ => bad(),
                };
            }
            10 => w.hs[h] = unsafe { match take(&mut w) {
                H::Box(v) => H::PinBox(Pin::new_unchecked(v)),
                H::Rc(v) => H::PinRc(Pin::new_unchecked(v)),
                H::Arc(v) => H::PinArc(Pin::new_unchecked(v)),
                H::Ref(v) => H::PinRef(Pin::new_unchecked(v)),
                H::Mut(v) => H::PinMut(Pin::new_unchecked(v)),
                _ => bad(),
            } },
            11 => w.hs[h] = unsafe { match take(&mut w) {
                H::PinBox(v) => H::Box(Pin::into_inner_unchecked(v)),
                H::PinRc(v) => H::Rc(Pin::into_inner_unchecked(v)),
                H::PinArc(v) => H::Arc(Pin::into_inner_unchecked(v)),
                H::PinRef(v) => H::Ref(Pin::into_inner_unchecked(v)),
                H::PinMut(v) => H::Mut(Pin::into_inner_unchecked(v)),
                _ => bad(),
            } },
            12 => w.hs[h] = match take(&mut w) {
                H::PinMut(v) => H::PinRef(unsafe { osi::pin::map_unchecked(v, |v: &'static mut T| -> &'static T { v }) }),
                _ => bad(),
            },
            13 => w.hs[h] = match take(&mut w) {
                H::Ref(v) => H::Raw(if h % 2 == 0 { Ptr::from_ref(v) } else { Ptr::from(v) }),
                _ => bad(),
            },
            14 => w.hs[h] = match take(&mut w) {
                H::Raw(v) => H::Ref(unsafe { v.into_ref() }),
                _ => bad(),
            },
            15 => {}
            16 => {
                let g = op.get("g").int() as usize - 1;
                let (a, b) = (Identity(at(&w.hs[h]).unwrap()), Identity(at(&w.hs[g]).unwrap()));
                let (pa, pb) = (a.0 as *const T as *const u8, b.0 as *const T as *const u8);
                assert!(a.cmp(&b) == pa.cmp(&pb) && a.partial_cmp(&b) == Some(a.cmp(&b)), "order by address");
                assert!((hash(&a) == hash(&b)) == (a == b), "hash by address");
                if let (H::Raw(x), H::Raw(y)) = (&w.hs[h], &w.hs[g]) {
                    assert!((x == y) == (pa == pb) && x.cmp(y) == pa.cmp(&pb) && x.partial_cmp(y) == Some(x.cmp(y)), "raw pointers");
                    assert!((hash(x) == hash(y)) == (pa == pb), "raw pointer hash");
                }
                sink.push(vec![(a == b) as i64]);
                continue;
            }
            17 => {
                let g = op.get("g").int() as usize - 1;
                let (H::Mown(a), H::Mown(b)) = (&w.hs[h], &w.hs[g]) else { panic!("vh: form of the handle") };
                let c = a.cmp(b);
                assert!(a.partial_cmp(b) == Some(c) && (a == b) == c.is_eq(), "comparison");
                assert!((hash(a) == hash(b)) == c.is_eq() && hash(a) == hash(&**a), "hash");
                let d = Mown::<str, String>::default();
                let (o, b2) = (Mown::<str, String>::new_owned("xy".into()), Mown::<str, String>::new_borrowed("xy"));
                assert!(d.is_owned() && d.is_empty(), "default");
                assert!(AsRef::<[u8]>::as_ref(&o) == b"xy" && AsRef::<[u8]>::as_ref(&b2) == b"xy", "view");
                let t = format!("{a:?}");
                assert!(t == format!("Mown::{}({:?})", if a.is_owned() { "Owned" } else { "Borrowed" }, at(&w.hs[h]).unwrap()), "text");
                sink.push(vec![c as i64, a.is_owned() as i64]);
                continue;
            }
            18 => w.hs[h] = H::Mown(match take(&mut w) {
                H::Rc(v) => if h % 2 == 0 { Mown::new_owned(v) } else { Mown::Owned(v) },
                H::Ref(v) => if h % 2 == 0 { Mown::new_borrowed(v) } else { Mown::from(v) },
                _ => { bad(); unreachable!() }
            }),
            19 => w.hs[h] = match take(&mut w) {
                H::Mown(Mown::Owned(v)) => H::Rc(v),
                H::Mown(Mown::Borrowed(v)) => H::Ref(v),
                _ => bad(),
            },
            20 => {
                let f = code(&w.hs[h]);
                w.hs[h] = match take(&mut w) {
                    H::PinRef(v) => H::PinOnce(if h % 2 == 0 { OnceRef::pin_from_ref(v) } else { v.into() }, f),
                    H::PinMut(v) => H::PinOnce(if h % 2 == 0 { OnceRef::pin_from_mut(v) } else { v.into() }, f),
                    _ => bad(),
                };
            }
            _ => panic!("vh: op"),
        }
        let o = w.obs(shown);
        sink.push(o);
    }
}

fn run(input: &J, sink: &mut Sink) {
    match input.get("ty").int() {
        0 => world::<Obj>(input, sink, 1, &|id, v| Box::new(Obj { id, v })),
        1 => world::<dyn Probe>(input, sink, 1, &|id, v| Box::new(Obj { id, v })),
        _ => world::<[Obj]>(input, sink, PARTS as i64, &|id, v| (0..PARTS).map(|_| Obj { id, v }).collect()),
    }
}

/// Draws calls that make sense, keeping track of the forms.
fn gen(r: &Rnd, _idx: u64, _prof: &str) -> J {
    struct Hd { f: i64, from: i64, o: usize }
    let mut hs: Vec<Hd> = Vec::new();
    let mut nobj = 0;
    let mut ops = Vec::new();
    let n = r.range(3, 24);
    while ops.len() < n {
        if hs.is_empty() || (nobj < 5 && r.one_in(7)) {
            let f = *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 15]);
            ops.push(J::obj(vec![("k", J::N(1)), ("h", J::N(1)), ("f", J::N(f)), ("v", J::N(r.below(4) as i64))]));
            hs.push(Hd { f, from: 0, o: nobj });
            nobj += 1;
            continue;
        }
        let h = r.below(hs.len());
        let k = r.range(2, 20) as i64;
        let f = hs[h].f;
        if f == 0 { if hs.iter().all(|h| h.f == 0) { hs.clear(); break; } continue; }
        let mut c = vec![("k", J::N(k)), ("h", J::N(h as i64 + 1))];
        let alone = |h: usize| hs.iter().enumerate().all(|(g, x)| g == h || x.f == 0 || x.o != hs[h].o);
        match k {
            2 if [1, 2, 3, 7, 8].contains(&f) => { hs[h].from = f; hs[h].f = 11; }
            3 | 20 if f == 9 || f == 10 || (k == 3 && (4..=6).contains(&f)) => { hs[h].from = f; hs[h].f = 12; }
            4 if f == 11 => { hs[h].f = hs[h].from; hs[h].from = 0; }
            5 if f == 12 => { hs[h].f = hs[h].from; hs[h].from = 0; }
            6 if [2, 3, 5, 6, 7, 9, 13, 14, 15].contains(&f) => { let n = Hd { f, from: hs[h].from, o: hs[h].o }; hs.push(n); }
            7 if r.one_in(2) => hs[h].f = 0,
            8 if alone(h) && ([1, 8, 10].contains(&f) || (f == 11 && [1, 8].contains(&hs[h].from))) => c.push(("v", J::N(r.below(9) as i64))),
            9 if f == 11 || f == 13 => {
                let j = r.below(9) as i64;
                if (j == 3 || j == 5) && (f == 13 || ![1, 8].contains(&hs[h].from)) { continue; }
                c.push(("j", J::N(j)));
            }
            10 if [1, 2, 3, 7, 8].contains(&f) => hs[h].f = match f { 1..=3 => f + 3, _ => f + 2 },
            11 if [4, 5, 6, 9, 10].contains(&f) => hs[h].f = match f { 4..=6 => f - 3, _ => f - 2 },
            12 if f == 10 => hs[h].f = 9,
            13 if f == 7 => hs[h].f = 13,
            14 if f == 13 => hs[h].f = 7,
            15 => {}
            16 | 17 => {
                let g = r.below(hs.len());
                if hs[g].f == 0 || (k == 17 && (f < 14 || hs[g].f < 14)) { continue; }
                c.push(("g", J::N(g as i64 + 1)));
            }
            18 if f == 2 || f == 7 => hs[h].f = if f == 2 { 14 } else { 15 },
            19 if f >= 14 => hs[h].f = if f == 14 { 2 } else { 7 },
            _ => continue,
        }
        ops.push(J::obj(c));
    }
    J::obj(vec![("ty", J::N(r.below(3) as i64)), ("ops", J::A(ops))])
}

// Wrapped errors.

struct Payload(Obj, bool);
impl std::fmt::Debug for Payload { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "D{}", self.0.v) } }
impl std::fmt::Display for Payload { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "d{}", self.0.v) } }
impl std::error::Error for Payload {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        if self.1 { Some(&std::fmt::Error) } else { None }
    }
}

fn gen_caught(r: &Rnd, idx: u64, _prof: &str) -> J {
    let ops = (0..12u64).map(|k| J::obj(vec![
        ("k", J::N(((k + idx) % 12) as i64)),
        ("v", J::N(r.below(100) as i64)),
        ("s", J::N(r.below(2) as i64)),
    ])).collect();
    J::obj(vec![("ops", J::A(ops))])
}

fn run_caught(input: &J, sink: &mut Sink) {
    use std::error::Error;
    for op in input.get("ops").arr() {
        DROPS.with_borrow_mut(|d| { d.clear(); d.push(0); });
        let p = Payload(Obj { id: 0, v: op.get("v").int() }, op.get("s").int() == 1);
        let u = match op.get("k").int() {
            0 => Uncaught::box_any(p),
            1 => Uncaught::box_debug(p),
            2 => Uncaught::box_display(p),
            3 => Uncaught::box_error(p),
            4 => Uncaught::fold_any(Box::new(p)),
            5 => Uncaught::fold_debug(Box::new(p)),
            6 => Uncaught::fold_display(Box::new(p)),
            7 => Uncaught::fold_error(Box::new(p)),
            8 => Uncaught::fold_static_any(Box::leak(Box::new(p))),
            9 => Uncaught::fold_static_debug(Box::leak(Box::new(p))),
            10 => Uncaught::fold_static_display(Box::leak(Box::new(p))),
            11 => Uncaught::fold_static_error(Box::leak(Box::new(p))),
            _ => panic!("vh: op"),
        };
        let mut o: Vec<i64> = vec![u.source().is_some() as i64];
        o.extend(format!("{u:?}|{u}").chars().map(|c| c as i64));
        let drops = || DROPS.with_borrow(|d| d[0]);
        o.push(drops());
        drop(u);
        o.push(drops());
        sink.push(o);
    }
}
