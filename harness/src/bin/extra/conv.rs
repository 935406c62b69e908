//! C07: constants converted to the return type, independence of the values
//! handed out, closures' state, the last provider wins, and (nightly) defaults.
#![allow(unused_must_use, dead_code)]
use mockall::*;
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::error::Error;
use std::ffi::{CString, OsString};
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use vh::mon::{Mon, Verdict};
use vh::rng::Rng;
use vh::spec::{run, End};
use vh::{ensure, same};

pub static CLONES: AtomicU64 = AtomicU64::new(0);
pub static CONVS: AtomicU64 = AtomicU64::new(0);
pub static DEFAULTS: AtomicU64 = AtomicU64::new(0);
/// Clones are numbered
#[derive(Debug)]
pub struct Src { v: u64, serial: u64 }
impl Clone for Src {
    fn clone(&self) -> Self { Src { v: self.v, serial: CLONES.fetch_add(1, SeqCst) + 1 } }
}
#[derive(Debug, PartialEq)]
pub struct Dst { pub v: u64, pub serial: u64, pub conv: u64 }
impl From<Src> for Dst {
    fn from(s: Src) -> Dst { Dst { v: s.v, serial: s.serial, conv: CONVS.fetch_add(1, SeqCst) + 1 } }
}
/// Not Send
#[derive(Clone, Debug)]
pub struct LSrc { v: Rc<u64>, c: Cell<u32> }
impl From<LSrc> for Dst {
    fn from(s: LSrc) -> Dst { s.c.set(s.c.get() + 1); Dst { v: *s.v, serial: s.c.get() as u64, conv: 0 } }
}
#[derive(Debug, PartialEq)]
pub struct Dflt(pub u64);
impl Default for Dflt { fn default() -> Self { Dflt(DEFAULTS.fetch_add(1, SeqCst) + 1) } }
#[derive(Debug)]
pub struct NoDflt(pub u64);

#[automock]
pub trait Conv {
    fn s(&self) -> String;
    fn os(&mut self) -> OsString;
    fn path(&self, x: u8) -> PathBuf;
    fn n(&self) -> u64;
    fn f(&self) -> f64;
    fn i(&self) -> i128;
    fn opt(&self) -> Option<u64>;
    fn bx(&self) -> Box<u64>;
    fn arc(&self) -> Arc<str>;
    fn vec(&self) -> Vec<u8>;
    fn err(&self) -> Box<dyn Error + Send + Sync>;
    fn cow(&self) -> Cow<'static, str>;
    fn dst(&self, x: u32) -> Dst;
    fn deque(&self) -> VecDeque<u32>;
    fn rc(&self) -> Rc<str>;
    fn deep(&self) -> Vec<Vec<u8>>;
    fn cell(&self) -> Cell<u32>;
    fn map(&self) -> BTreeMap<u8, String>;
    fn cs(&self) -> CString;
    fn sdst(x: u32) -> Dst;
    fn ss() -> String;
    fn gen<T: From<u8> + Clone + Send + 'static>(&self) -> T;
    fn dflt(&self) -> Dflt;
    fn nodflt(&self) -> NoDflt;
    fn res(&self) -> Result<Dflt, NoDflt>;
    fn tup(&self) -> (u8, String, Option<NoDflt>);
    fn arr(&self) -> [i16; 3];
    fn unit(&self);
    fn rd(&self) -> &Dflt;
    fn rn(&self) -> &NoDflt;
    fn rs(&self) -> &str;
    fn rsl(&self) -> &[u8];
    fn md(&mut self) -> &mut Dflt;
    fn mn(&mut self) -> &mut NoDflt;
    fn sd() -> Dflt;
    fn snd() -> NoDflt;
    fn gd<T: 'static>(&self) -> T;
}

macro_rules! konst {
    ($r:ident, $m:ident, $exp:ident $(::<$g:ty>)?, $call:expr, $src:expr, $want:expr) => {{
        let src = $src;
        let mut mock = MockConv::new();
        let st = $r.chance(1, 3);
        let n = $r.range(1, 5);
        {
            let e = mock.$exp$(::<$g>)?();
            if st { e.return_const_st(src.clone()); } else { e.return_const(src.clone()); }
        }
        $m.op(format!("{}{} from {:?}, {n} calls", stringify!($exp), if st { " (st)" } else { "" }, src));
        for i in 0..n {
            #[allow(clippy::redundant_closure_call)]
            let got = ($call)(&mut mock);
            same!(got, $want, "call {i} of {}", stringify!($exp));
        }
        $m.note("conversions", concat!(stringify!($exp), " <- ", stringify!($src)));
    }};
}

fn conversions(r: &mut Rng, m: &mut Mon) -> Verdict {
    let k = r.below(250) as u8;
    let w = format!("w{}", r.below(1000));
    match r.below(22) {
        0 => konst!(r, m, expect_s, |x: &mut MockConv| x.s(), "abc", "abc".to_string()),
        1 => konst!(r, m, expect_s, |x: &mut MockConv| x.s(), w.clone().into_boxed_str(), w),
        2 => konst!(r, m, expect_s, |x: &mut MockConv| x.s(), 'q', "q".to_string()),
        3 => konst!(r, m, expect_os, |x: &mut MockConv| x.os(), w.clone(), OsString::from(&w)),
        4 => konst!(r, m, expect_path, |x: &mut MockConv| x.path(1), w.clone(), PathBuf::from(&w)),
        5 => konst!(r, m, expect_n, |x: &mut MockConv| x.n(), k, k as u64),
        6 => konst!(r, m, expect_n, |x: &mut MockConv| x.n(), k as u32 * 70000, k as u64 * 70000),
        7 => konst!(r, m, expect_n, |x: &mut MockConv| x.n(), k % 2 == 0, (k % 2 == 0) as u64),
        8 => konst!(r, m, expect_f, |x: &mut MockConv| x.f(), k as f32 / 4.0, k as f64 / 4.0),
        9 => konst!(r, m, expect_i, |x: &mut MockConv| x.i(), -(k as i64), -(k as i128)),
        10 => konst!(r, m, expect_opt, |x: &mut MockConv| x.opt(), k as u64, Some(k as u64)),
        11 => konst!(r, m, expect_bx, |x: &mut MockConv| x.bx(), k as u64, Box::new(k as u64)),
        12 => konst!(r, m, expect_arc, |x: &mut MockConv| x.arc(), w.clone(), Arc::<str>::from(w.as_str())),
        13 => konst!(r, m, expect_vec, |x: &mut MockConv| x.vec(), [k, 1, 2], vec![k, 1, 2]),
        14 => konst!(r, m, expect_vec, |x: &mut MockConv| x.vec(), w.clone(), w.clone().into_bytes()),
        15 => konst!(r, m, expect_err, |x: &mut MockConv| x.err().to_string(), w.clone(), w),
        16 => konst!(r, m, expect_cow, |x: &mut MockConv| x.cow(), "lit", Cow::Borrowed("lit")),
        17 => konst!(r, m, expect_deque, |x: &mut MockConv| x.deque(), vec![k as u32, 5], VecDeque::from(vec![k as u32, 5])),
        18 => konst!(r, m, expect_rc, |x: &mut MockConv| x.rc(), "rc", Rc::<str>::from("rc")),
        19 => konst!(r, m, expect_map, |x: &mut MockConv| x.map(), [(k, w.clone()), (255, w.clone())],
            BTreeMap::from([(k, w.clone()), (255, w.clone())])),
        20 => konst!(r, m, expect_gen::<u64>, |x: &mut MockConv| x.gen::<u64>(), k, k as u64),
        _ => konst!(r, m, expect_gen::<f32>, |x: &mut MockConv| x.gen::<f32>(), k, k as f32),
    }
    Ok(())
}




/// Every call's value is a clone of its own, converted once
fn independence(r: &mut Rng, m: &mut Mon) -> Verdict {
    let v = r.next() >> 8;
    let mut mock = MockConv::new();
    match r.below(6) {
        0 => {
            let n = r.range(1, 7);
            let stat = r.chance(1, 2);
            let ctx = MockConv::sdst_context();
            if stat { ctx.expect().return_const(Src { v, serial: 0 }); } else { mock.expect_dst().return_const(Src { v, serial: 0 }); }
            m.op(format!("numbered clones, static {stat}, {n} calls"));
            let mut seen = vec![];
            let c0 = CONVS.load(SeqCst);
            for _ in 0..n {
                let d = if stat { MockConv::sdst(1) } else { mock.dst(1) };
                same!(d.v, v, "converted constant");
                ensure!(!seen.contains(&d.serial), "one clone was handed out twice: {d:?}");
                seen.push(d.serial);
            }
            same!(CONVS.load(SeqCst) - c0, n as u64, "conversions for {n} calls");
        }
        1 => {
            mock.expect_deep().return_const(vec![vec![1u8, 2], vec![v as u8]]);
            m.op("mutate deep vectors");
            for _ in 0..r.range(2, 6) {
                let mut d = mock.deep();
                same!(d, vec![vec![1u8, 2], vec![v as u8]], "constant vector");
                d[0][0] = 99;
                d[1].clear();
                d.pop();
            }
        }
        2 => {
            mock.expect_cell().return_const_st(Cell::new(v as u32));
            m.op("mutate cells");
            for _ in 0..r.range(2, 6) {
                let c = mock.cell();
                same!(c.get(), v as u32, "constant cell");
                c.set(77);
            }
        }
        3 => {
            mock.expect_dst().return_const_st(LSrc { v: Rc::new(v), c: Cell::new(0) });
            m.op("convert cells");
            for _ in 0..r.range(2, 6) {
                same!(mock.dst(3), Dst { v, serial: 1, conv: 0 }, "each call converts a clone of the original");
            }
        }
        4 => {
            // Arc's clones share, as cloning says
            let a: Arc<str> = Arc::from("shared");
            mock.expect_arc().return_const(a.clone());
            m.op("shared arcs");
            for _ in 0..3 { ensure!(Arc::ptr_eq(&mock.arc(), &a), "a clone of an Arc must share"); }
            drop(mock);
            same!(Arc::strong_count(&a), 1, "references left behind");
        }
        _ => {
            mock.expect_cs().return_const(CString::new("x").unwrap());
            m.op("cstring");
            for _ in 0..3 { same!(mock.cs(), CString::new("x").unwrap(), "CString"); }
        }
    }
    Ok(())
}

/// Several providers on one expectation; the last one is in force, with all its
/// state; the closure runs once per call, in order
fn last_wins(r: &mut Rng, m: &mut Mon) -> Verdict {
    let mut mock = MockConv::new();
    let ctx = MockConv::sdst_context();
    let stat = r.chance(1, 3);
    let n = r.range(1, 9);
    let mut kinds = vec![];
    macro_rules! set {
        ($e:ident, $k:expr, $i:expr) => {{
            let base = $i as u64 * 1000;
            match $k {
                0 => { $e.return_const(Src { v: base, serial: 0 }); }
                1 => { $e.return_const_st(LSrc { v: Rc::new(base), c: Cell::new(0) }); }
                2 => { let mut k = 0; $e.returning(move |x| { k += 1; Dst { v: base + k, serial: x as u64, conv: 0 } }); }
                3 => { let k = Rc::new(Cell::new(0)); $e.returning_st(move |x| { k.set(k.get() + 1); Dst { v: base + k.get(), serial: x as u64, conv: 0 } }); }
                4 => { let b = Box::new(base); $e.return_once(move |x| Dst { v: *b, serial: x as u64, conv: 0 }); }
                5 => { let b = Rc::new(base); $e.return_once_st(move |x| Dst { v: *b, serial: x as u64, conv: 0 }); }
                _ => unreachable!(),
            }
        }};
    }
    {
        if stat {
            let mut g = ctx.expect();
            let k = r.below(6);
            kinds.push(k);
            let e = match k {
                0 => g.return_const(Src { v: 0, serial: 0 }),
                1 => g.return_const_st(LSrc { v: Rc::new(0), c: Cell::new(0) }),
                2 => { let mut k = 0; g.returning(move |x| { k += 1; Dst { v: k, serial: x as u64, conv: 0 } }) }
                3 => { let k = Rc::new(Cell::new(0)); g.returning_st(move |x| { k.set(k.get() + 1); Dst { v: k.get(), serial: x as u64, conv: 0 } }) }
                4 => g.return_once(move |x| Dst { v: 0, serial: x as u64, conv: 0 }),
                _ => g.return_once_st(move |x| Dst { v: 0, serial: x as u64, conv: 0 }),
            };
            for i in 1..n { let k = r.below(6); kinds.push(k); set!(e, k, i); }
        } else {
            let e = mock.expect_dst();
            for i in 0..n { let k = r.below(6); kinds.push(k); set!(e, k, i); }
        }
    }
    let last = *kinds.last().unwrap();
    let base = (n as u64 - 1) * 1000;
    m.op(format!("static {stat}, providers {kinds:?}"));
    for c in 1..=r.range(1, 6) as u64 {
        let x = r.below(1000) as u32;
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if stat { MockConv::sdst(x) } else { mock.dst(x) }));
        match (last, got) {
            (0 | 1, Ok(d)) => same!(d.v, base, "constant, call {c}"),
            (2 | 3, Ok(d)) => { same!(d.v, base + c, "closure's state at call {c}"); same!(d.serial, x as u64, "argument"); }
            (4 | 5, Ok(d)) if c == 1 => { same!(d.v, base, "once"); same!(d.serial, x as u64, "argument"); }
            (4 | 5, Err(_)) if c > 1 => m.count("once_refused"),
            (k, g) => return Err(vh::mon::failed(format!("provider {k}, call {c}: {:?}", g.map_err(vh::spec::payload)))),
        }
        m.count("calls");
    }
    Ok(())
}

/// With no provider: a panic, or the default
fn defaults(r: &mut Rng, m: &mut Mon) -> Verdict {
    let nightly = cfg!(feature = "nightly");
    let mut mock = MockConv::new();
    let n = r.range(1, 5);
    macro_rules! d {
        ($name:literal, $set:expr, $call:expr, $want:expr) => {{
            { $set; }
            m.op(format!("{} without provider, {n} calls", $name));
            m.note("defaults", $name);
            for i in 0..n {
                let mut got = None;
                let end = run(|| { got = Some($call); 0 });
                let want = $want;
                if nightly {
                    ensure!(got.is_some(), "{} call {i}: a default was expected, but {end:?}", $name);
                    same!(got.unwrap(), want, "default returned by {}", $name);
                } else {
                    ensure!(matches!(&end, End::Msg(_)), "{}: no provider, but {end:?}", $name);
                }
                m.count(if nightly { "defaults_returned" } else { "defaults_refused" });
            }
        }};
        ($name:literal, $set:expr, $call:expr) => {{
            { $set; }
            m.op(format!("{} without provider nor default", $name));
            let end = run(|| { $call; 0 });
            ensure!(matches!(&end, End::Msg(_)), "{}: no provider and no Default, but {end:?}", $name);
            m.count("defaults_refused");
        }};
    }
    match r.below(22) {
        0 => d!("u64", mock.expect_n(), mock.n(), 0u64),
        1 => d!("String", mock.expect_s(), mock.s(), String::new()),
        2 => d!("Option", mock.expect_opt(), mock.opt(), None::<u64>),
        3 => d!("Vec<u8>", mock.expect_vec(), mock.vec(), Vec::<u8>::new()),
        4 => d!("f64", mock.expect_f(), mock.f(), 0f64),
        5 => d!("Arc<str>", mock.expect_arc(), mock.arc(), Arc::<str>::default()),
        6 => d!("unit", mock.expect_unit(), mock.unit(), ()),
        7 => d!("array", mock.expect_arr(), mock.arr(), [0i16; 3]),
        8 => d!("tuple", mock.expect_tup(), { let t = mock.tup(); (t.0, t.1, t.2.is_none()) }, (0u8, String::new(), true)),
        9 => { // a Default of the user's is really used, afresh for each call
            let d0 = DEFAULTS.load(SeqCst);
            mock.expect_dflt();
            let mut seen = vec![];
            for _ in 0..n {
                let mut got = 0;
                let e = run(|| { got = mock.dflt().0; 0 });
                if nightly {
                    ensure!(got > d0 && !seen.contains(&got), "a fresh default was expected, but {got} {e:?}");
                    seen.push(got);
                } else {
                    ensure!(matches!(e, End::Msg(_)), "no provider, but {e:?}");
                }
            }
            m.op("user default");
        }
        10 => d!("NoDflt", mock.expect_nodflt(), mock.nodflt()),
        11 => d!("Result", mock.expect_res(), mock.res()),
        12 => d!("&NoDflt", mock.expect_rn(), mock.rn()),
        13 => d!("&mut NoDflt", mock.expect_mn(), mock.mn()),
        14 => d!("&str", mock.expect_rs(), mock.rs().to_string(), String::new()),
        15 => d!("&[u8]", mock.expect_rsl(), mock.rsl().to_vec(), Vec::<u8>::new()),
        16 => { // stable storage for references
            mock.expect_rd();
            let mut a = 0usize;
            let mut v = 0u64;
            let e = run(|| { let x = mock.rd(); a = x as *const _ as usize; v = x.0; 0 });
            if nightly {
                same!(e, End::Val(0), "&Dflt");
                for _ in 0..n { let x = mock.rd(); same!((x as *const _ as usize, x.0), (a, v), "a stable default"); }
            } else {
                ensure!(matches!(e, End::Msg(_)), "no provider, but {e:?}");
            }
            m.op("&Dflt");
        }
        17 => {
            mock.expect_md();
            let e = run(|| { mock.md().0 = 4242; 0 });
            if nightly {
                same!(e, End::Val(0), "&mut Dflt");
                same!(mock.md().0, 4242, "write through a default &mut");
            } else {
                ensure!(matches!(e, End::Msg(_)), "no provider, but {e:?}");
            }
            m.op("&mut Dflt");
        }
        18 => { let c = MockConv::ss_context(); d!("static String", drop(c.expect()), MockConv::ss(), String::new()) }
        19 => { let c = MockConv::snd_context(); d!("static NoDflt", drop(c.expect()), MockConv::snd()) }
        20 => d!("generic u32", mock.expect_gd::<u32>(), mock.gd::<u32>(), 0u32),
        _ => d!("generic NoDflt", mock.expect_gd::<NoDflt>(), mock.gd::<NoDflt>()),
    }
    // a provider overrides the default, and limits still count
    let v = r.next() >> 9;
    mock.checkpoint();
    mock.expect_dflt().times(2).returning(move || Dflt(v));
    same!(mock.dflt(), Dflt(v), "explicit provider");
    let e = run(|| { drop(mock); 0 });
    ensure!(matches!(e, End::Msg(_)), "one of two calls made, but {e:?}");
    Ok(())
}

pub fn history(r: &mut Rng, m: &mut Mon) -> Verdict {
    match r.below(4) {
        0 => conversions(r, m),
        1 => independence(r, m),
        2 => last_wins(r, m),
        _ => defaults(r, m),
    }
}
