//! C18: what matchers and closures of concretized methods receive denotes exactly
//! the caller's arguments: type, value, referent, order, number; writes come back.
#![allow(clippy::all)]
use mockall::*;
use std::any::type_name;
use std::panic::panic_any;
use std::sync::Mutex;
use vh::mon::{Mon, Verdict};
use vh::rng::Rng;
use vh::spec::{run, End, Marker};
use vh::{ensure, same};

pub trait Ob {
    fn id(&self) -> u64;
    fn at(&self) -> usize;
    fn ty(&self) -> &'static str;
}
pub trait Mu: Ob { fn set(&mut self, x: u64); }
pub trait Mk { type Of<'a>: Mu; fn mk<'a>(id: u64, s: &'a u64) -> Self::Of<'a>; const HAS_ID: bool = true; }

macro_rules! ob { ($t:ty, $s:ident, $get:expr, |$x:ident| $set:expr) => {
    impl Ob for $t { fn id(&self) -> u64 { let $s = self; $get } fn at(&self) -> usize { self as *const _ as *const u8 as usize } fn ty(&self) -> &'static str { type_name::<Self>() } }
    impl Mu for $t { fn set(&mut self, $x: u64) { let $s = self; $set } }
} }
pub struct Small(u8);
pub struct Big([u64; 40]);
#[derive(Clone, Copy)]
pub struct Zst;
pub struct Odd([u8; 3], u64);
pub struct Bor<'a>(&'a u64, u64);
ob!(Small, s, s.0 as u64, |x| s.0 = x as u8);
ob!(Big, s, { assert!(s.0.iter().all(|y| *y == s.0[0])); s.0[0] }, |x| s.0 = [x; 40]);
ob!(Zst, _s, 0, |x| { let _ = x; });
ob!(Odd, s, { assert_eq!(s.0, [1, 2, 3]); s.1 }, |x| s.1 = x);
ob!(String, s, s.parse().unwrap(), |x| *s = x.to_string());
ob!(Box<u64>, s, **s, |x| **s = x);
ob!(Vec<u64>, s, { assert_eq!(s.len() as u64, s[0] % 5 + 1); s[0] }, |x| { *s = vec![x; x as usize % 5 + 1] });
impl Ob for Bor<'_> { fn id(&self) -> u64 { assert_eq!(*self.0, 4711); self.1 } fn at(&self) -> usize { self as *const _ as *const u8 as usize } fn ty(&self) -> &'static str { type_name::<Self>() } }
impl Mu for Bor<'_> { fn set(&mut self, x: u64) { self.1 = x } }
macro_rules! mk { ($k:ident, $t:ty, |$i:ident, $s:ident| $e:expr) => {
    pub struct $k;
    impl Mk for $k { type Of<'a> = $t; fn mk<'a>($i: u64, $s: &'a u64) -> $t { let _ = $s; $e } }
} }
mk!(KSmall, Small, |i, s| Small(i as u8));
mk!(KBig, Big, |i, s| Big([i; 40]));
mk!(KOdd, Odd, |i, s| Odd([1, 2, 3], i));
mk!(KStr, String, |i, s| i.to_string());
mk!(KBox, Box<u64>, |i, s| Box::new(i));
mk!(KVec, Vec<u64>, |i, s| vec![i; i as usize % 5 + 1]);
mk!(KBor, Bor<'a>, |i, s| Bor(s, i));
pub struct KZst;
impl Mk for KZst { type Of<'a> = Zst; fn mk<'a>(_: u64, _: &'a u64) -> Zst { Zst } const HAS_ID: bool = false; }

mock! {
    pub K {
        #[mockall::concretize]
        fn val<P: Ob>(&self, p: P) -> u64;
        #[mockall::concretize]
        fn rf<P: Ob>(&self, p: &P) -> u64;
        #[mockall::concretize]
        fn mt<P: Mu>(&self, p: &mut P) -> u64;
        #[mockall::concretize]
        fn sl<P: Ob>(&self, p: &[P]) -> u64;
        #[mockall::concretize]
        fn mix<P: Ob, Q: Mu>(&self, n: u32, ps: &[P], q: &mut Q, s: &str, p: P, o: Q, r: &P) -> u64;
        #[mockall::concretize]
        fn two<Q, P>(&mut self, p: P, q: Q, p2: P, q2: &[Q]) -> u64 where P: Ob + Send, Q: Ob;
        #[mockall::concretize]
        fn refret<P: Ob>(&self, p: P, r: &P) -> &u64;
        #[mockall::concretize]
        fn mutret<P: Mu>(&mut self, p: &mut P, s: &[P]) -> &mut u64;
        #[mockall::concretize]
        fn stat<P: Ob>(r: &P, p: P, s: &[P]) -> u64;
        #[mockall::concretize]
        fn fm<F: FnMut(u64) -> u64>(&self, f: F, x: u64) -> u64;
        #[mockall::concretize]
        fn fmr<F: FnMut(u64) -> u64>(&self, x: u64, f: &mut F) -> u64;
        #[mockall::concretize]
        fn ff<F: Fn(u64) -> u64, G>(&self, g: G, f: F, x: u64) -> u64 where G: Fn(u64) -> u64;
    }
    impl Trt for K {
        #[mockall::concretize]
        fn tr<P: Ob>(&self, a: &P, b: &[P]) -> u64;
    }
}
pub trait Trt { fn tr<P: Ob>(&self, a: &P, b: &[P]) -> u64; }
#[automock]
pub trait At<X: 'static> {
    #[mockall::concretize]
    fn at<P: Mu>(&self, x: X, a: &mut P, b: P) -> X;
}
#[automock]
pub mod md {
    use super::{Mu, Ob};
    #[mockall::concretize]
    pub fn mo<P: Ob, Q: Mu>(q: &mut Q, p: &[P]) -> u64 { q.set(0); p.len() as u64 }
}

/// One observed argument
#[derive(Clone, Debug, PartialEq)]
struct Seen { id: u64, at: usize, ty: &'static str }
/// What is seen through by-value parameters has no address known to the caller
const ANY: usize = usize::MAX;
static SEEN: Mutex<Vec<(&'static str, u64, Vec<Seen>, Vec<u64>)>> = Mutex::new(Vec::new());
fn saw(who: &'static str, exp: u64, v: Vec<Seen>, plain: Vec<u64>) { SEEN.lock().unwrap_or_else(|e| e.into_inner()).push((who, exp, v, plain)) }
fn s<T: Ob + ?Sized>(x: &T) -> Seen { Seen { id: x.id(), at: x.at(), ty: x.ty() } }
fn ss(x: &[&(dyn Ob + '_)]) -> Vec<Seen> { x.iter().map(|x| s(*x)).collect() }
fn bv(x: &Seen) -> Seen { Seen { at: ANY, ..x.clone() } }
/// by-value ones: compare without address
fn strip(v: &[Seen], want: &[Seen]) -> Vec<Seen> { v.iter().enumerate().map(|(i, x)| if want.get(i).is_some_and(|w| w.at == ANY) { bv(x) } else { x.clone() }).collect() }

#[derive(Clone, Copy, Debug, PartialEq)]
enum C { Val, Rf, Mt, Sl, Mix, Two, Refret, Mutret, Stat, Fm, Fmr, Ff, Tr, At, Mo }
const ALL: [C; 15] = [C::Val, C::Rf, C::Mt, C::Sl, C::Mix, C::Two, C::Refret, C::Mutret, C::Stat, C::Fm, C::Fmr, C::Ff, C::Tr, C::At, C::Mo];

struct Exp { c: C, e: u64, key: Option<u64>, lim: Option<usize>, n: usize }
struct World { k: MockK, a: MockAt<u64>, st: __mock_MockK::__stat::Context, mo: mock_md::__mo::Context }

fn expect(w: &mut World, x: &Exp) {
    let (e, key) = (x.e, x.key);
    let ok = move |id: u64| key.is_none_or(|k| k == id % 4);
    macro_rules! go { ($ex:expr, |$($a:ident),+| $seen:expr, $plain:expr, $first:expr, $fx:expr) => {{
        let ex = $ex;
        if let Some(n) = x.lim { ex.times(n); }
        ex.withf(move |$($a),+| { let v: Vec<Seen> = $seen; let f: u64 = $first; saw("matcher", e, v, $plain); ok(f) });
        ex.returning(move |$($a),+| { let v: Vec<Seen> = $seen; saw("closure", e, v, $plain); $fx; e * 1000 });
    }} }
    match x.c {
        C::Val => go!(w.k.expect_val(), |p| vec![s(p)], vec![], p.id(), ()),
        C::Rf => go!(w.k.expect_rf(), |p| vec![s(p)], vec![], p.id(), ()),
        C::Mt => go!(w.k.expect_mt(), |p| vec![s(&*p)], vec![], p.id(), p.set(e)),
        C::Sl => go!(w.k.expect_sl(), |p| ss(p), vec![p.len() as u64], p.len() as u64, ()),
        C::Mix => go!(w.k.expect_mix(), |n, ps, q, st, p, o, r| { let mut v = ss(ps); v.extend([s(&*q), s(p), s(&*o), s(r)]); v },
            vec![n.to_owned() as u64, st.parse().unwrap(), ps.len() as u64], n.to_owned() as u64, q.set(e)),
        C::Two => go!(w.k.expect_two(), |p, q, p2, q2| { let mut v = vec![s(p), s(q), s(p2)]; v.extend(ss(q2)); v }, vec![q2.len() as u64], p2.id(), ()),
        C::Refret => { let ex = w.k.expect_refret(); if let Some(n) = x.lim { ex.times(n); }
            ex.withf(move |p, r| { saw("matcher", e, vec![s(p), s(r)], vec![]); ok(r.id()) }).return_const(e * 1000); }
        C::Mutret => { let ex = w.k.expect_mutret(); if let Some(n) = x.lim { ex.times(n); }
            ex.withf(move |p, r| { let mut v = vec![s(&*p)]; v.extend(r.iter().map(|x| s(*x))); saw("matcher", e, v, vec![r.len() as u64]); ok(p.id()) });
            ex.returning(move |p, r| { let mut v = vec![s(&*p)]; v.extend(r.iter().map(|x| s(*x))); saw("closure", e, v, vec![r.len() as u64]); p.set(e); e * 1000 }); }
        C::Stat => { let mut g = w.st.expect(); go!(g.times(..), |r, p, sl| { let mut v = vec![s(r), s(p)]; v.extend(ss(sl)); v }, vec![sl.len() as u64], r.id(), ()) }
        C::Fm => go!(w.k.expect_fm(), |f, x| vec![], vec![x.to_owned()], x.to_owned(), { return e * 1000 + f(x) + f(x) + f(x) }),
        C::Fmr => go!(w.k.expect_fmr(), |x, f| vec![], vec![x.to_owned()], x.to_owned(), { return e * 1000 + f(x) + f(x) }),
        C::Ff => go!(w.k.expect_ff(), |g, f, x| vec![], vec![x.to_owned(), f(7), g(8)], x.to_owned(), { return e * 1000 + f(x) * 3 + g(x) }),
        C::Tr => go!(w.k.expect_tr(), |a, b| { let mut v = vec![s(a)]; v.extend(ss(b)); v }, vec![b.len() as u64], a.id(), ()),
        C::At => go!(w.a.expect_at(), |x, a, b| vec![s(&*a), s(&*b)], vec![x.to_owned()], x.to_owned(), a.set(e)),
        C::Mo => { let mut g = w.mo.expect(); go!(g.times(..), |q, p| { let mut v = vec![s(&*q)]; v.extend(ss(p)); v }, vec![p.len() as u64], q.id(), q.set(e)) }
    }
}

/// A call: what it must show to callbacks, and the id that keys use
struct Shown { seen: Vec<Seen>, plain: Vec<u64>, key: u64 }
/// Calls `c` with arguments of kinds P, Q; returns how it ended, what callbacks
/// should have seen, and checks what came back through &mut
fn call<KP: Mk, KQ: Mk>(w: &mut World, c: C, id: u64, len: usize, m: &mut Mon) -> Result<(End, Shown, Option<(u64, u64)>), String>
where for<'a> KP::Of<'a>: Send {
    let anchor = 4711u64;
    let p = KP::mk(id, &anchor);
    let p2 = KP::mk(id + 1, &anchor);
    let q2 = KQ::mk(id + 2, &anchor);
    let mut q = KQ::mk(id, &anchor);
    let mut pm = KP::mk(id, &anchor);
    let ps: Vec<KP::Of<'_>> = (0..len).map(|i| KP::mk(id + 10 + i as u64, &anchor)).collect();
    let qs: Vec<KQ::Of<'_>> = (0..len).map(|i| KQ::mk(id + 20 + i as u64, &anchor)).collect();
    let sv = |v: &[KP::Of<'_>]| v.iter().map(|x| s(x)).collect::<Vec<_>>();
    let sq = |v: &[KQ::Of<'_>]| v.iter().map(|x| s(x)).collect::<Vec<_>>();
    let bp = bv(&s(&p));
    let mut shown = Shown { seen: vec![], plain: vec![], key: 0 };
    let mut back = None;
    let end = match c {
        C::Val => { shown.seen = vec![bp]; shown.key = p.id(); run(|| w.k.val(p)) }
        C::Rf => { shown.seen = vec![s(&p)]; shown.key = p.id(); run(|| w.k.rf(&p)) }
        C::Mt => { shown.seen = vec![s(&q)]; shown.key = q.id(); let e = run(|| w.k.mt(&mut q)); back = Some((q.id(), KQ::HAS_ID as u64)); e }
        C::Sl => { shown.seen = sv(&ps); shown.plain = vec![len as u64]; shown.key = len as u64; run(|| w.k.sl(&ps)) }
        C::Mix => {
            let mut v = sv(&ps);
            v.extend([s(&q), bp, bv(&s(&q2)), s(&p2)]);
            shown.seen = v;
            shown.plain = vec![id, id + 5, len as u64];
            shown.key = id;
            let st = (id + 5).to_string();
            let e = run(|| w.k.mix(id as u32, &ps, &mut q, &st, p, q2, &p2));
            back = Some((q.id(), KQ::HAS_ID as u64));
            e
        }
        C::Two => {
            let mut v = vec![bp, bv(&s(&q)), bv(&s(&p2))];
            v.extend(sq(&qs));
            shown.seen = v;
            shown.plain = vec![len as u64];
            shown.key = p2.id();
            run(|| w.k.two(p, q, p2, &qs))
        }
        C::Refret => { shown.seen = vec![bp, s(&p2)]; shown.key = p2.id(); run(|| *w.k.refret(p, &p2)) }
        C::Mutret => {
            let mut v = vec![s(&pm)];
            v.extend(sv(&ps));
            shown.seen = v;
            shown.plain = vec![len as u64];
            shown.key = pm.id();
            let e = run(|| *w.k.mutret(&mut pm, &ps));
            back = Some((pm.id(), KP::HAS_ID as u64));
            e
        }
        C::Stat => { let mut v = vec![s(&p2), bp]; v.extend(sv(&ps)); shown.seen = v; shown.plain = vec![len as u64]; shown.key = p2.id(); run(|| MockK::stat(&p2, p, &ps)) }
        C::Fm => {
            let mut st = 0;
            shown.plain = vec![id];
            shown.key = id;
            let e = run(|| w.k.fm(|y| { st += y + 1; st }, id));
            if let End::Val(_) = e { same!(st, 3 * (id + 1), "state of the caller's FnMut after three invocations") } else { same!(st, 0, "state of the FnMut after a refused call") }
            match e { End::Val(v) => { let u = id + 1; End::Val(v - 6 * u) } e => e }
        }
        C::Fmr => {
            let mut st = 0;
            shown.plain = vec![id];
            shown.key = id;
            let e = { let mut f = |y: u64| { st += y + 1; st }; run(|| w.k.fmr(id, &mut f)) };
            if let End::Val(_) = e { same!(st, 2 * (id + 1), "state of the caller's FnMut after two invocations") }
            match e { End::Val(v) => { let u = id + 1; End::Val(v - 3 * u) } e => e }
        }
        C::Ff => {
            let k = id * 17;
            shown.plain = vec![id, 7 + k, 8 * 2];
            shown.key = id;
            let e = run(|| w.k.ff(|y| y * 2, |y| y + k, id));
            match e { End::Val(v) => End::Val(v - (id + k) * 3 - id * 2), e => e }
        }
        C::Tr => { let mut v = vec![s(&p)]; v.extend(sv(&ps)); shown.seen = v; shown.plain = vec![len as u64]; shown.key = p.id(); run(|| w.k.tr(&p, &ps)) }
        C::At => { shown.seen = vec![s(&q), bv(&s(&q2))]; shown.plain = vec![id]; shown.key = id; let e = run(|| w.a.at(id, &mut q, q2)); back = Some((q.id(), KQ::HAS_ID as u64)); e }
        C::Mo => { let mut v = vec![s(&q)]; v.extend(sv(&ps)); shown.seen = v; shown.plain = vec![len as u64]; shown.key = q.id(); let e = run(|| mock_md::mo(&mut q, &ps)); back = Some((q.id(), KQ::HAS_ID as u64)); e }
    };
    m.add("slice_elements", len as u64);
    Ok((end, shown, back))
}

pub fn history(r: &mut Rng, m: &mut Mon) -> Verdict {
    let seen = || std::mem::take(&mut *SEEN.lock().unwrap_or_else(|e| e.into_inner()));
    seen();
    let mut w = World { k: MockK::new(), a: MockAt::new(), st: MockK::stat_context(), mo: mock_md::mo_context() };
    let mut all = ALL.to_vec();
    r.shuffle(&mut all);
    all.truncate(r.range(1, 4));
    let mut es: Vec<Exp> = vec![];
    for i in 0..r.range(1, 6) {
        let x = Exp { c: *r.pick(&all), e: i as u64 + 1, key: if r.chance(1, 2) { Some(r.below(4) as u64) } else { None }, lim: if r.chance(1, 2) { Some(r.range(0, 3)) } else { None }, n: 0 };
        m.op(format!("expect {:?} key {:?} times {:?}", x.c, x.key, x.lim));
        expect(&mut w, &x);
        es.push(x);
    }
    let mut spoiled = false;
    for _ in 0..r.range(2, 20) {
        let c = if r.chance(5, 6) { es[r.below(es.len())].c } else { *r.pick(&all) };
        let id = r.below(50) as u64;
        let len = match r.below(8) { 0 => 0, 1 => 1, 7 => if r.chance(1, 8) { r.range(40, 600) } else { r.range(5, 40) }, _ => r.range(2, 5) };
        let (kp, kq) = (r.below(8), r.below(4));
        macro_rules! pq { ($($i:literal $p:ident),+) => { match kp { $($i => match kq {
            0 => call::<$p, KOdd>(&mut w, c, id, len, m), 1 => call::<$p, KStr>(&mut w, c, id, len, m),
            2 => call::<$p, KZst>(&mut w, c, id, len, m), _ => call::<$p, KBor>(&mut w, c, id, len, m) },)+ _ => unreachable!() } } }
        let (end, want, back) = pq!(0 KSmall, 1 KBig, 2 KOdd, 3 KStr, 4 KBox, 5 KVec, 6 KBor, 7 KZst)?;
        m.op(format!("call {c:?} id {id} types {kp}/{kq} slice {len} -> {end:?}"));
        m.note("type_pairs", &format!("{c:?}/{kp}/{kq}"));
        m.count("calls");
        // who answers
        let mut hit = None;
        let mut full = false;
        for (i, e) in es.iter().enumerate().filter(|(_, e)| e.c == c) {
            if e.key.is_some_and(|k| k != want.key % 4) { continue }
            if e.lim.is_some_and(|n| e.n >= n) { full = true; continue }
            hit = Some(i);
            break;
        }
        match hit {
            Some(i) => { es[i].n += 1; same!(end, End::Val(es[i].e * 1000), "result of {c:?}"); m.count("calls_answered"); }
            None => { spoiled |= full; ensure!(matches!(&end, End::Msg(_)), "call of {c:?} must be refused, but {end:?}"); }
        }
        // what was shown to matchers and closures
        let got = seen();
        for (who, e, v, plain) in &got {
            let v = strip(v, &want.seen);
            same!(v, want.seen, "what the {who} of expectation {e} saw in a call of {c:?}");
            same!(*plain, want.plain, "plain values the {who} of expectation {e} saw in a call of {c:?}");
            m.count("observations");
            m.add("references_identified", v.iter().filter(|x| x.at != ANY).count() as u64);
        }
        let by: Vec<u64> = got.iter().filter(|x| x.0 == "closure").map(|x| x.1).collect();
        let expected: Vec<u64> = hit.map(|i| es[i].e).into_iter().filter(|_| c != C::Refret).collect();
        same!(by, expected, "closures that ran");
        if let Some((now, has)) = back {
            let expected = if has == 0 { 0 } else { hit.map_or(id, |i| es[i].e) };
            same!(now, expected, "value that the caller sees through its &mut argument of {c:?}");
            m.count("mutations_checked");
        }
    }
    let World { k, a, st, mo } = w;
    if spoiled {
        same!(run(|| { let _x = (k, a, st, mo); panic_any(Marker) }), End::Marker, "teardown while unwinding");
    } else {
        let met = |sel: &dyn Fn(C) -> bool| es.iter().filter(|e| sel(e.c)).all(|e| e.lim.is_none_or(|n| e.n == n));
        let ends = [
            (run(|| { drop(k); 0 }), met(&|c| !matches!(c, C::At | C::Stat | C::Mo))),
            (run(|| { drop(a); 0 }), met(&|c| c == C::At)),
            (run(|| { drop(st); 0 }), met(&|c| c == C::Stat)),
            (run(|| { drop(mo); 0 }), met(&|c| c == C::Mo)),
        ];
        for (e, ok) in ends { ensure!(matches!(e, End::Val(_)) == ok, "verification: success {ok} expected, but {e:?}") }
        m.count("verifications");
    }
    Ok(())
}
