//! C08: references are held across calls, their addresses and contents watched.
use mockall::predicate::eq;
use mockall::*;
use std::borrow::{Borrow, BorrowMut};
use std::collections::HashMap;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::fmt::Debug;
use std::ops::{Deref, DerefMut, Index, IndexMut};
use std::path::{Path, PathBuf};
use vh::mon::{Mon, Verdict};
use vh::rng::Rng;
use vh::spec::{run, End};
use vh::{ensure, same};

pub trait Num: Debug + Send + Sync { fn num(&self) -> u64; fn set(&mut self, v: u64); }
#[derive(Debug)]
pub struct N(u64, [u64; 3]);
impl Num for N { fn num(&self) -> u64 { self.0 } fn set(&mut self, v: u64) { self.0 = v; self.1 = [v; 3]; } }
#[derive(Debug, Clone, PartialEq)]
pub struct Big(pub [u64; 512]);

#[automock(type A=u64; type B=String;)]
pub trait Ref {
    type A;
    type B;
    fn int(&self, k: u8) -> &u64;
    fn string(&self, k: u8) -> &String;
    fn str(&self, k: u8) -> &str;
    fn slice(&self, k: u8) -> &[u16];
    fn path(&self, k: u8) -> &Path;
    fn cstr(&self, k: u8) -> &CStr;
    fn osstr(&self, k: u8) -> &OsStr;
    fn dynn(&self, k: u8) -> &dyn Num;
    fn big(&self, k: u8) -> &Big;
    fn opt(&self, k: u8) -> &Option<String>;
    fn tup(&self, k: u8) -> &(u8, String);
    fn vec(&self, k: u8) -> &Vec<String>;
    fn arr(&self, k: u8) -> &[u32; 7];
    fn stat(&self, k: u8) -> &'static u64;
    fn statstr(&self, k: u8) -> &'static str;
    fn gen<T: Send + Sync + 'static>(&self, k: u8) -> &T;
    fn aa(&self, k: u8) -> &<Self as Ref>::A;
    fn ab(&self, k: u8) -> &<Self as Ref>::B;
    fn sstat(k: u8) -> &'static u64;

    fn mint(&mut self, k: u8) -> &mut u64;
    fn mstring(&mut self, k: u8) -> &mut String;
    fn mslice(&mut self, k: u8) -> &mut [u16];
    fn mvec(&mut self, k: u8) -> &mut Vec<u16>;
    fn mdyn(&mut self, k: u8) -> &mut dyn Num;
    fn mbig(&mut self, k: u8) -> &mut Big;
    fn mgen<T: 'static>(&mut self, k: u8) -> &mut T;
    fn mopt(&mut self, k: u8) -> &mut Option<u64>;
}
mock! {
    pub Ops<T: 'static> {
        fn own(&self, k: u8) -> &T;
        fn own_mut(&mut self, k: u8) -> &mut T;
    }
    impl<T: 'static> Deref for Ops<T> { type Target = T; fn deref(&self) -> &T; }
    impl<T: 'static> DerefMut for Ops<T> { fn deref_mut(&mut self) -> &mut T; }
    impl<T: 'static> Index<usize> for Ops<T> { type Output = T; fn index(&self, i: usize) -> &T; }
    impl<T: 'static> IndexMut<usize> for Ops<T> { fn index_mut(&mut self, i: usize) -> &mut T; }
    impl<T: 'static> AsRef<str> for Ops<T> { fn as_ref(&self) -> &str; }
}
mock! {
    pub Bor {}
    impl Borrow<[u8]> for Bor { fn borrow(&self) -> &[u8]; }
    impl BorrowMut<[u8]> for Bor { fn borrow_mut(&mut self) -> &mut [u8]; }
}

/// Shared references: several expectations (one per key); hold everything
fn shared(r: &mut Rng, m: &mut Mon) -> Verdict {
    let keys = r.range(1, 5) as u8;
    let order: Vec<u8> = (0..r.range(2, 14)).map(|_| r.below(keys as usize) as u8).collect();
    let salt = r.next() % 1_000_000;
    let mut mk = MockRef::new();
    macro_rules! go {
        ($name:literal, $exp:ident $(::<$g:ty>)?, $val:expr, |$mm:ident, $k:ident| $call:expr, |$x:ident| $view:expr, $want:expr) => {{
            for k in 0..keys {
                // a value of its own per expectation
                let v = $val(k);
                let e = mk.$exp$(::<$g>)?();
                e.with(eq(k));
                if r.chance(1, 3) { e.times(..); }
                e.return_const(v);
            }
            // an expectation which never gets a turn
            mk.$exp$(::<$g>)?().with(eq(200)).return_const($val(200));
            m.note("types", $name);
            m.op(format!("{}: {keys} expectations, calls {order:?}", $name));
            let mut held = vec![];
            let mut addr: HashMap<u8, (usize, usize)> = HashMap::new();
            let $mm = &mk;
            for &$k in &order {
                let x = $call;
                let at = (x as *const _ as *const u8 as usize, std::mem::size_of_val(x));
                let a = *addr.entry($k).or_insert(at);
                same!(at, a, "{}: address and size for key {}", $name, $k);
                held.push(($k, x));
                m.count("references_checked");
            }
            for (k, $x) in &held {
                same!($view, $want(*k), "{}: contents for key {k}", $name);
            }
            let mut distinct: Vec<_> = addr.values().map(|a| a.0).collect();
            distinct.sort();
            distinct.dedup();
            ensure!(distinct.len() == addr.len() || std::mem::size_of_val(held[0].1) == 0,
                "{}: two expectations share storage", $name);
            // from other threads, too
            if r.chance(1, 12) {
                let k = order[0];
                let got = std::thread::scope(|s| (0..2).map(|_| s.spawn(|| { let $k = k; let x = $call; x as *const _ as *const u8 as usize }))
                    .collect::<Vec<_>>().into_iter().map(|t| t.join().unwrap()).collect::<Vec<_>>());
                for g in got { same!(g, addr[&k].0, "{}: address seen by a thread", $name); }
                m.count("cross_thread_references");
            }
        }};
    }
    macro_rules! statics {
        ($name:literal, $exp:ident, $vals:expr, |$mm:ident, $k:ident| $call:expr) => {{
            let vals = $vals;
            for k in 0..keys { mk.$exp().with(eq(k)).return_const(vals[k as usize]); }
            m.note("types", $name);
            m.op(format!("{}: {keys} expectations, calls {order:?}", $name));
            let $mm = &mk;
            for &$k in &order {
                let x = $call;
                ensure!(std::ptr::eq(x, vals[$k as usize]), "{}: a different 'static referent", $name);
                m.count("references_checked");
            }
        }};
    }
    let w = |k: u8| format!("v{salt}-{k}");
    let u = |k: u8| salt * 1000 + k as u64;
    static ST: [u64; 6] = [5, 4, 3, 2, 1, 0];
    match r.below(20) {
        0 => go!("&u64", expect_int, u, |mm, k| mm.int(k), |x| **x, u),
        1 => go!("&String", expect_string, w, |mm, k| mm.string(k), |x| x.to_string(), w),
        2 => go!("&str", expect_str, w, |mm, k| mm.str(k), |x| x.to_string(), w),
        3 => go!("&[u16]", expect_slice, |k| vec![k as u16, salt as u16], |mm, k| mm.slice(k), |x| x.to_vec(), |k| vec![k as u16, salt as u16]),
        4 => go!("&Path", expect_path, |k| PathBuf::from(w(k)), |mm, k| mm.path(k), |x| x.to_path_buf(), |k| PathBuf::from(w(k))),
        5 => go!("&CStr", expect_cstr, |k| CString::new(w(k)).unwrap(), |mm, k| mm.cstr(k), |x| x.to_str().unwrap().to_string(), w),
        6 => go!("&OsStr", expect_osstr, |k| OsString::from(w(k)), |mm, k| mm.osstr(k), |x| x.to_str().unwrap().to_string(), w),
        7 => go!("&dyn", expect_dynn, |k| -> Box<dyn Num> { Box::new(N(u(k), [u(k); 3])) }, |mm, k| mm.dynn(k), |x| x.num(), u),
        8 => go!("&Big", expect_big, |k| Big([u(k); 512]), |mm, k| mm.big(k), |x| (*x).clone(), |k| Big([u(k); 512])),
        9 => go!("&Option", expect_opt, |k: u8| (k % 2 == 0).then(|| w(k)), |mm, k| mm.opt(k), |x| (*x).clone(), |k: u8| (k % 2 == 0).then(|| w(k))),
        10 => go!("&tuple", expect_tup, |k| (k, w(k)), |mm, k| mm.tup(k), |x| (*x).clone(), |k| (k, w(k))),
        11 => go!("&Vec", expect_vec, |k| vec![w(k); 3], |mm, k| mm.vec(k), |x| (*x).clone(), |k| vec![w(k); 3]),
        12 => go!("&array", expect_arr, |k| [k as u32; 7], |mm, k| mm.arr(k), |x| **x, |k| [k as u32; 7]),
        13 => go!("&T=u64", expect_gen::<u64>, u, |mm, k| mm.gen::<u64>(k), |x| **x, u),
        14 => go!("&T=String", expect_gen::<String>, w, |mm, k| mm.gen::<String>(k), |x| x.to_string(), w),
        15 => go!("&Self::A", expect_aa, u, |mm, k| mm.aa(k), |x| **x, u),
        16 => go!("&Self::B", expect_ab, w, |mm, k| mm.ab(k), |x| x.to_string(), w),
        18 => statics!("&'static u64", expect_stat, [&ST[0], &ST[1], &ST[2], &ST[3], &ST[4], &ST[5]], |mm, k| mm.stat(k)),
        _ => {
            static W: [&str; 6] = ["aa", "bb", "cc", "dd", "ee", "ff"];
            statics!("&'static str", expect_statstr, W, |mm, k| mm.statstr(k));
            let c = MockRef::sstat_context();
            c.expect().return_const(&ST[3]);
            ensure!(std::ptr::eq(MockRef::sstat(1), &ST[3]), "static method's &'static u64");
            drop(c);
        }
    }
    Ok(())
}

/// Mutable references: a model value per return_var expectation, a fresh value
/// per call of a closure
fn mutable(r: &mut Rng, m: &mut Mon) -> Verdict {
    let keys = r.range(1, 5) as u8;
    let closure: Vec<bool> = (0..keys).map(|_| r.chance(1, 3)).collect();
    let order: Vec<(u8, u64)> = (0..r.range(2, 14)).map(|_| (r.below(keys as usize) as u8, r.next() % 60_000)).collect();
    let salt = r.next() % 50;
    let mut mk = MockRef::new();
    macro_rules! go {
        ($name:literal, $exp:ident $(::<$g:ty>)?, |$v:ident| $mk:expr, |$k:ident| $call:expr, |$x:ident| $get:expr, |$y:ident, $n:ident| $set:expr) => {{
            for k in 0..keys {
                let init = salt * 100 + k as u64;
                let e = mk.$exp$(::<$g>)?();
                e.with(eq(k));
                if closure[k as usize] {
                    let mut c = 0u64;
                    e.returning(move |_| { c += 1; let $v = 30_000 + 1000 * k as u64 + c; $mk });
                } else {
                    let $v = init;
                    e.return_var($mk);
                }
            }
            m.note("types", $name);
            m.op(format!("{}: closures {closure:?}, writes {order:?}", $name));
            let mut model: Vec<u64> = (0..keys).map(|k| if closure[k as usize] { 30_000 + 1000 * k as u64 } else { salt * 100 + k as u64 }).collect();
            let mut calls = vec![0u64; keys as usize];
            for &($k, n) in &order {
                let i = $k as usize;
                calls[i] += 1;
                let want = if closure[i] { 30_000 + 1000 * $k as u64 + calls[i] } else { model[i] };
                let $x = $call;
                same!($get, want, "{}: call {} of key {} (closure {})", $name, calls[i], $k, closure[i]);
                if n % 4 != 0 {
                    let ($y, $n) = ($x, n);
                    $set;
                    model[i] = n;
                    m.count("writes");
                }
                m.count("mutable_references_checked");
            }
        }};
    }
    match r.below(8) {
        0 => go!("&mut u64", expect_mint, |v| v, |k| mk.mint(k), |x| *x, |y, n| *y = n),
        1 => go!("&mut String", expect_mstring, |v| v.to_string(), |k| mk.mstring(k), |x| x.parse::<u64>().unwrap(), |y, n| { y.clear(); y.push_str(&n.to_string()) }),
        2 => go!("&mut [u16]", expect_mslice, |v| vec![1, v as u16, 2], |k| mk.mslice(k), |x| x[1] as u64, |y, n| y[1] = n as u16),
        3 => go!("&mut Vec<u16>", expect_mvec, |v| vec![0, v as u16], |k| mk.mvec(k), |x| *x.last().unwrap() as u64, |y, n| y.push(n as u16)),
        4 => go!("&mut dyn", expect_mdyn, |v| Box::new(N(v, [0; 3])) as Box<dyn Num>, |k| mk.mdyn(k), |x| x.num(), |y, n| y.set(n)),
        5 => go!("&mut Big", expect_mbig, |v| Big([v; 512]), |k| mk.mbig(k), |x| x.0[511], |y, n| y.0 = [n; 512]),
        6 => go!("&mut T", expect_mgen::<(u8, u64)>, |v| (1u8, v), |k| mk.mgen::<(u8, u64)>(k), |x| x.1, |y, n| y.1 = n),
        _ => go!("&mut Option", expect_mopt, |v| Some(v), |k| mk.mopt(k), |x| x.unwrap(), |y, n| { y.replace(n); }),
    }
    Ok(())
}

/// The operator traits' signatures
fn ops(r: &mut Rng, m: &mut Mon) -> Verdict {
    let v = r.next() >> 8;
    let mut o = MockOps::<u64>::new();
    o.expect_deref().return_const(v);
    o.expect_deref_mut().return_var(v + 1);
    o.expect_index().with(eq(3)).return_const(v + 2);
    o.expect_index().with(eq(4)).return_const(v + 3);
    o.expect_index_mut().with(eq(3)).return_var(v + 4);
    o.expect_index_mut().with(eq(4)).return_var(v + 5);
    o.expect_as_ref().return_const(format!("s{v}"));
    o.expect_own().return_const(v + 6);
    o.expect_own_mut().return_var(v + 7);
    let mut idx = [v + 4, v + 5];
    let (mut dm, mut om) = (v + 1, v + 7);
    let (a, b, s) = (&*o as *const u64 as usize, &o[3] as *const u64 as usize, AsRef::<str>::as_ref(&o).as_ptr() as usize);
    for _ in 0..r.range(3, 20) {
        let n = r.next() >> 8;
        match r.below(9) {
            0 => { m.op("deref"); same!(*o, v, "deref"); same!(&*o as *const u64 as usize, a, "address"); }
            1 => { m.op("deref_mut"); let x: &mut u64 = &mut o; same!(*x, dm, "deref_mut"); *x = n; dm = n; }
            2 => { m.op("index"); same!((o[3], o[4]), (v + 2, v + 3), "index"); same!(&o[3] as *const u64 as usize, b, "address"); }
            3 | 4 => { m.op("index_mut"); let i = r.below(2); let x = &mut o[3 + i]; same!(*x, idx[i], "index_mut"); *x = n; idx[i] = n; }
            5 => { m.op("as_ref"); let x: &str = o.as_ref(); same!((x.to_string(), x.as_ptr() as usize), (format!("s{v}"), s), "as_ref"); }
            6 => { m.op("own"); same!(*o.own(1), v + 6, "own"); }
            7 => { m.op("own_mut"); let x = o.own_mut(1); same!(*x, om, "own_mut"); *x = n; om = n; }
            _ => {
                m.op("borrow");
                let mut b = MockBor::new();
                b.expect_borrow().return_const(vec![1u8, v as u8]);
                b.expect_borrow_mut().return_var(vec![9u8]);
                let x: &[u8] = Borrow::borrow(&b);
                same!(x, &[1u8, v as u8][..], "borrow");
                let x: &mut [u8] = BorrowMut::borrow_mut(&mut b);
                x[0] = 7;
                let x: &mut [u8] = BorrowMut::borrow_mut(&mut b);
                same!(x[0], 7, "borrow_mut");
            }
        }
    }
    m.note("types", "operator traits");
    Ok(())
}

/// Setting other expectations, failing calls, and limits don't disturb storage
fn disturb(r: &mut Rng, m: &mut Mon) -> Verdict {
    let mut mk = MockRef::new();
    mk.expect_int().with(eq(1)).return_const(11u64);
    mk.expect_mint().with(eq(1)).return_var(21u64);
    let mut cur = 21u64;
    for i in 0..r.range(3, 25) {
        match r.below(6) {
            0 => { m.op("unmatched &"); ensure!(matches!(run(|| *mk.int(99)), End::Msg(_)), "unmatched call"); }
            1 => { m.op("unmatched &mut"); ensure!(matches!(run(|| *mk.mint(99)), End::Msg(_)), "unmatched call"); }
            2 => { m.op("add"); mk.expect_int().with(eq(1)).return_const(0u64); mk.expect_mint().with(eq(1)).return_var(0u64); }
            3 => { m.op("read &"); same!(*mk.int(1), 11, "shared value"); }
            4 => { m.op("read &mut"); same!(*mk.mint(1), cur, "persistent value"); }
            _ => { m.op("write"); *mk.mint(1) = i as u64; cur = i as u64; m.count("writes"); }
        }
    }
    // moving the mock keeps the values
    let boxed = Box::new(mk);
    let mut mk = *boxed;
    same!(*mk.int(1), 11, "after a move");
    same!(*mk.mint(1), cur, "after a move");
    // a checkpoint removes them
    mk.checkpoint();
    ensure!(matches!(run(|| *mk.int(1)), End::Msg(_)), "after a checkpoint");
    ensure!(matches!(run(|| *mk.mint(1)), End::Msg(_)), "after a checkpoint");
    mk.expect_mint().with(eq(1)).return_var(5u64);
    same!(*mk.mint(1), 5, "anew");
    Ok(())
}

pub fn history(r: &mut Rng, m: &mut Mon) -> Verdict {
    match r.below(8) {
        0..=2 => shared(r, m),
        3..=5 => mutable(r, m),
        6 => ops(r, m),
        _ => disturb(r, m),
    }
}
