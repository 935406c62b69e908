//! C20: the driver of generated foreign-function mocks (see lib/gen_ffi.py).
use crate::mon::{failed, Mon, Verdict};
use crate::rng::Rng;
use crate::spec::{run, End, Marker};
use crate::{ensure, same};
use std::any::{Any, TypeId};
use std::collections::HashMap;
use std::ffi::{c_void, CString};
use std::panic::panic_any;
use std::sync::{Mutex, OnceLock};

/// A value that can cross the border
pub trait V: Copy + 'static {
    fn arb(r: &mut Rng) -> Self;
    fn bits(&self, v: &mut Vec<u64>);
    /// Do what the callee may do through this argument
    fn poke(&self, _: &mut Rng) {}
    fn alloc(r: &mut Rng) -> *mut Self { Box::leak(Box::new(Self::arb(r))) }
    unsafe fn read(p: *const Self, v: &mut Vec<u64>) { (*p).bits(v) }
    unsafe fn write(p: *mut Self, r: &mut Rng) { *p = Self::arb(r) }
}
pub fn bits<T: V>(t: &T) -> Vec<u64> { let mut v = vec![]; t.bits(&mut v); v }
macro_rules! ints { ($($t:ty)*) => { $(
    impl V for $t {
        fn arb(r: &mut Rng) -> Self { match r.below(8) { 0 => <$t>::MAX, 1 => <$t>::MIN, 2 => r.below(3) as $t, 3 => (0 as $t).wrapping_sub(1), _ => r.next() as $t } }
        fn bits(&self, v: &mut Vec<u64>) { v.push(*self as u64) }
    } )* } }
ints!(u8 i16 u16 i32 u32 i64 u64 isize usize);
impl V for i8 {
    fn arb(r: &mut Rng) -> Self { r.next() as i8 }
    fn bits(&self, v: &mut Vec<u64>) { v.push(*self as u64) }
    // pointers to it are C strings
    fn alloc(r: &mut Rng) -> *mut i8 {
        let n = [0, 1, 7, 40, 300][r.below(5)];
        CString::new((0..n).map(|_| r.range(1, 256) as u8).collect::<Vec<u8>>()).unwrap().into_raw()
    }
    unsafe fn read(p: *const i8, v: &mut Vec<u64>) { v.extend(std::ffi::CStr::from_ptr(p).to_bytes().iter().map(|b| *b as u64)) }
    unsafe fn write(p: *mut i8, r: &mut Rng) { if *p != 0 { *p = r.range(1, 100) as i8 } }
}
impl V for () { fn arb(_: &mut Rng) {} fn bits(&self, _: &mut Vec<u64>) {} }
impl V for bool { fn arb(r: &mut Rng) -> bool { r.chance(1, 2) } fn bits(&self, v: &mut Vec<u64>) { v.push(*self as u64) } }
impl V for f32 {
    fn arb(r: &mut Rng) -> f32 { if r.chance(1, 2) { f32::from_bits(r.next() as u32) } else { r.next() as i32 as f32 / 64.0 } }
    fn bits(&self, v: &mut Vec<u64>) { v.push(self.to_bits() as u64) }
}
impl V for f64 {
    fn arb(r: &mut Rng) -> f64 { if r.chance(1, 2) { f64::from_bits(r.next()) } else { r.next() as i64 as f64 / 64.0 } }
    fn bits(&self, v: &mut Vec<u64>) { v.push(self.to_bits()) }
}
impl<T: V, const N: usize> V for [T; N] {
    fn arb(r: &mut Rng) -> Self { std::array::from_fn(|_| T::arb(r)) }
    fn bits(&self, v: &mut Vec<u64>) { for t in self { t.bits(v) } }
}
static ARENA: Mutex<Option<HashMap<TypeId, Vec<usize>>>> = Mutex::new(None);
/// One of a few objects of type T that live forever
pub fn object<T: V>(r: &mut Rng) -> *mut T {
    let i = r.below(6);
    let get = |m: &mut Option<HashMap<TypeId, Vec<usize>>>| m.get_or_insert_default().get(&TypeId::of::<T>()).map(|v| v[i]);
    if let Some(p) = get(&mut ARENA.lock().unwrap()) { return p as *mut T }
    let mut q = Rng::new(7);
    let v: Vec<usize> = (0..6).map(|_| T::alloc(&mut q) as usize).collect();
    let mut g = ARENA.lock().unwrap();
    g.get_or_insert_default().entry(TypeId::of::<T>()).or_insert(v);
    get(&mut g).unwrap() as *mut T
}
/// An object that nobody else writes to
pub fn frozen<T: V>(r: &mut Rng) -> *const T { object::<[T; 1]>(r) as *const T }
pub fn fresh<T: V>(r: &mut Rng) -> *mut T { T::alloc(r) }
impl<T: V> V for *const T {
    fn arb(r: &mut Rng) -> Self { if r.chance(1, 8) { std::ptr::null() } else { object(r) } }
    fn bits(&self, v: &mut Vec<u64>) { v.push(*self as usize as u64); if !self.is_null() { unsafe { T::read(*self, v) } } }
}
impl<T: V> V for *mut T {
    fn arb(r: &mut Rng) -> Self { if r.chance(1, 8) { std::ptr::null_mut() } else { object(r) } }
    fn bits(&self, v: &mut Vec<u64>) { (*self as *const T).bits(v) }
    fn poke(&self, r: &mut Rng) { if !self.is_null() { unsafe { T::write(*self, r) } } }
}
impl V for *mut c_void {
    fn arb(r: &mut Rng) -> Self { r.next() as usize as *mut c_void }
    fn bits(&self, v: &mut Vec<u64>) { v.push(*self as usize as u64) }
}
impl V for *const c_void {
    fn arb(r: &mut Rng) -> Self { r.next() as usize as *mut c_void }
    fn bits(&self, v: &mut Vec<u64>) { v.push(*self as usize as u64) }
}
pub type Cb = extern "C" fn(i32) -> i32;
/// C functions; the k'th computes 3x + k
pub static CALLBACKS: OnceLock<Vec<Cb>> = OnceLock::new();
impl V for Cb {
    fn arb(r: &mut Rng) -> Self { *r.pick(CALLBACKS.get().unwrap()) }
    fn bits(&self, v: &mut Vec<u64>) { v.push(*self as usize as u64) }
    fn poke(&self, r: &mut Rng) {
        let k = CALLBACKS.get().unwrap().iter().position(|c| *c as usize == *self as usize);
        let x = r.next() as i32 >> 4;
        if k.is_none_or(|k| self(x) != x.wrapping_mul(3).wrapping_add(k as i32)) { log(9, 0, vec![x as u64]) }
    }
}
impl V for Option<Cb> {
    fn arb(r: &mut Rng) -> Self { if r.chance(1, 6) { None } else { Some(Cb::arb(r)) } }
    fn bits(&self, v: &mut Vec<u64>) { v.push(self.map_or(0, |c| c as usize as u64)) }
    fn poke(&self, r: &mut Rng) { if let Some(c) = self { c.poke(r) } }
}

/// What the mocks' callbacks saw: (kind, expectation, bits)
static LOG: Mutex<Vec<(u8, u64, Vec<u64>)>> = Mutex::new(Vec::new());
fn log(kind: u8, id: u64, b: Vec<u64>) { LOG.lock().unwrap().push((kind, id, b)) }
/// How an expectation is made
#[derive(Clone)]
pub struct Plan { pub id: u64, pub key: Option<Vec<u64>>, pub min: usize, pub max: usize, pub prov: u8, pub seed: u64 }
pub fn matcher(p: &Plan, b: Vec<u64>) -> bool {
    let r = p.key.as_ref().is_none_or(|k| *k == b);
    log(0, p.id, b);
    r
}
/// Called first, then all arguments are poked, then `answer`
pub fn answering(p: &Plan, b: Vec<u64>) -> Rng {
    log(1, p.id, b);
    if p.prov == 3 { panic_any(Marker) }
    Rng::new(p.seed)
}
pub fn answer<R: V>(p: &Plan, after: Vec<u64>) -> R {
    log(2, p.id, after);
    R::arb(&mut Rng::new(p.seed ^ 1))
}
pub fn expected<R: V>(p: &Plan) -> R { R::arb(&mut Rng::new(p.seed ^ 1)) }

/// One mocked function
pub struct Entry {
    pub name: &'static str,
    pub module: &'static str,
    pub abi: &'static str,
    /// may a panic leave it?
    pub unwinds: bool,
    /// does Rust's type of its return value permit return_const?
    pub constant: bool,
    pub open: fn() -> Box<dyn Any>,
    pub checkpoint: fn(&dyn Any),
    pub expect: fn(&dyn Any, Plan),
    /// `how`: 0-2 by C directly, by pointer, on another thread; 3 by Rust, 4 by Rust through a pointer
    /// gives the bits of all arguments, and a function to perform the call
    #[allow(clippy::type_complexity)]
    pub call: fn(&mut Rng) -> (Vec<u64>, Box<dyn Fn() -> Vec<u64>>, Box<dyn Fn(i32) -> Box<dyn FnOnce() -> Vec<u64>>>),
    pub expected: fn(&Plan) -> Box<dyn FnOnce() -> Vec<u64>>,
    pub addresses: fn() -> (usize, usize),
    pub module_checkpoint: fn(),
}
struct E { p: Plan, n: usize, seed: u64 }
const HOW: [&str; 5] = ["C", "C pointer", "C thread", "Rust", "Rust pointer"];

pub fn history(r: &mut Rng, m: &mut Mon, all: &[Entry]) -> Verdict {
    let mut es: Vec<&Entry> = vec![];
    for _ in 0..r.range(1, 5) {
        let e = r.pick(all);
        if !es.iter().any(|x| x.name == e.name) { es.push(e) }
    }
    let mut fs: Vec<(&Entry, Box<dyn Any>, Vec<E>)> = es.iter().map(|e| (*e, (e.open)(), vec![])).collect();
    let mut id = 0;
    for (e, cx, x) in &mut fs {
        let (in_c, in_rust) = (e.addresses)();
        ensure!(in_c == in_rust, "C's {} is at {in_c:x}, but the mock is at {in_rust:x}", e.name);
        for _ in 0..r.below(4) {
            id += 1;
            let seed = r.next();
            let key = if r.chance(1, 3) { None } else { Some((e.call)(&mut Rng::new(seed)).0) };
            let (min, max) = match r.below(4) { 0 => (0, usize::MAX), 1 => (1, usize::MAX), 2 => { let n = r.range(1, 4); (n, n) } _ => (0, r.range(1, 4)) };
            let mut prov = r.below(4) as u8;
            if prov == 3 && !(e.unwinds && r.chance(1, 3)) { prov = 0 }
            if prov == 2 && !e.constant { prov = 0 }
            let p = Plan { id, key, min, max, prov, seed: r.next() };
            m.op(format!("expect {} #{id} key {} {min}..={max} provider {prov}", e.name, p.key.is_some()));
            (e.expect)(&**cx, p.clone());
            x.push(E { p, n: 0, seed });
        }
    }
    for _ in 0..r.range(2, 24) {
        let i = r.below(fs.len());
        let e = fs[i].0;
        let x = &mut fs[i].2;
        // most calls with the arguments of an expectation
        let seed = if x.is_empty() || r.chance(1, 4) { r.next() } else { r.pick(x).seed };
        let (sent, now, make) = (e.call)(&mut Rng::new(seed));
        // pointees may have changed since
        let fits = |p: &Plan| p.key.as_ref().is_none_or(|k| *k == sent);
        let hit = x.iter().position(|x| fits(&x.p) && x.n < x.p.max);
        let answered = hit.is_some_and(|h| x[h].p.prov != 3 && !(x[h].p.prov == 1 && x[h].n > 0));
        if !answered && !e.unwinds { continue }
        let how = if answered { r.below(5) } else { [0, 1, 3, 4][r.below(4)] };
        LOG.lock().unwrap().clear();
        let go = make(how as i32);
        let mut got = None;
        let end = run(|| { got = Some(go()); 0 });
        let log = std::mem::take(&mut *LOG.lock().unwrap());
        m.op(format!("call {} from {} -> {end:?}", e.name, HOW[how]));
        m.count(if how < 3 { "calls_from_c" } else { "calls_from_rust" });
        m.note("callers", HOW[how]);
        m.note("abis", e.abi);
        m.note("functions", e.name);
        for (k, i, b) in &log {
            ensure!(*k != 9, "a function pointer reached the mock of {} altered", e.name);
            let fresh = i != &0 && *k < 2;
            ensure!(!fresh || *b == sent, "{} was called from {} with {sent:x?}, but {} saw {b:x?}", e.name, HOW[how], if *k == 0 { "the matcher" } else { "the closure" });
            if *k < 2 { m.add("values_compared", sent.len() as u64) }
        }
        match hit {
            Some(h) => {
                let e2 = &mut x[h];
                e2.n += 1;
                match (e2.p.prov, &end) {
                    (3, End::Marker) => m.count("panics_through_c"),
                    (1, End::Msg(_)) if e2.n > 1 => m.count("refused"),
                    (0 | 1, End::Val(0)) if e2.p.prov == 0 || e2.n == 1 => {
                        let runs: Vec<u64> = log.iter().filter(|l| l.0 == 1).map(|l| l.1).collect();
                        same!(runs, vec![e2.p.id], "closures run by a call of {}", e.name);
                        let after = log.iter().find(|l| l.0 == 2).map(|l| &l.2);
                        let now = now();
                        same!(after, Some(&now), "what a mock of {} wrote through its arguments", e.name);
                        same!(got, Some((e.expected)(&e2.p)()), "value returned by {} to {}", e.name, HOW[how]);
                        m.count("answered");
                    }
                    (2, End::Val(0)) => {
                        ensure!(log.iter().all(|l| l.0 == 0), "a closure ran");
                        same!(got, Some((e.expected)(&e2.p)()), "value returned by {} to {}", e.name, HOW[how]);
                        m.count("answered");
                    }
                    _ => return Err(failed(format!("a call of {} from {} ended with {end:?}", e.name, HOW[how]))),
                }
            }
            None => {
                let End::Msg(msg) = &end else { return Err(failed(format!("an unexpected call of {} from {} ended with {end:?}", e.name, HOW[how]))) };
                ensure!(msg.contains(e.name) && msg.contains(e.module), "the message {msg:?} names other than {}::{}", e.module, e.name);
                if x.len() == 1 && fits(&x[0].p) { x[0].n += 1 }
                m.count("refused");
            }
        }
    }
    for (e, cx, x) in fs {
        let bad = x.iter().any(|x| x.n < x.p.min || x.n > x.p.max);
        let end = match r.below(2) {
            0 => run(|| { (e.checkpoint)(&*cx); 0 }),
            _ => run(|| { drop(cx); 0 }),
        };
        m.op(format!("close {} -> {end:?}", e.name));
        ensure!(bad == matches!(end, End::Msg(_)), "verification of {} ended with {end:?}; calls {:?}", e.name, x.iter().map(|x| (x.p.min, x.n, x.p.max)).collect::<Vec<_>>());
        m.count("verifications");
    }
    // nothing is left behind
    for e in es {
        let end = run(|| { (e.module_checkpoint)(); 0 });
        same!(end, End::Val(0), "checkpoint of the idle module {}", e.module);
    }
    Ok(())
}
