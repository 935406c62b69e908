//! C13: a ledger of every value handed to a mock.  After each operation the
//! live values must be exactly those that the history says are still owned.
#![allow(dead_code, unused_must_use)]
use mockall::predicate::{eq, function};
use mockall::*;
use std::collections::BTreeMap;
use std::fmt;
use std::panic::panic_any;
use std::rc::Rc;
use std::sync::Mutex;
use vh::mon::{Mon, Verdict};
use vh::rng::Rng;
use vh::spec::{run, End, Marker, UserPanic};
use vh::{ensure, same};

#[derive(Default)]
struct Ledger { live: BTreeMap<u64, i64>, bad: Option<String>, created: u64, dropped: u64 }
static LEDGER: Mutex<Ledger> = Mutex::new(Ledger { live: BTreeMap::new(), bad: None, created: 0, dropped: 0 });
fn ledger<R>(f: impl FnOnce(&mut Ledger) -> R) -> R { f(&mut LEDGER.lock().unwrap_or_else(|e| e.into_inner())) }

const CLONE: u64 = 1 << 60;
const MAGIC: u64 = 0x5ca1_ab1e_0ddb_a115;
/// Counted by tag
pub struct Tok { tag: u64, k: u32, heap: Box<u64> }
impl Tok {
    fn new(tag: u64, k: u32) -> Tok {
        ledger(|l| { l.created += 1; *l.live.entry(tag).or_default() += 1; });
        Tok { tag, k, heap: Box::new(tag ^ MAGIC) }
    }
    fn check(&self) {
        if *self.heap != self.tag ^ MAGIC { ledger(|l| l.bad = Some(format!("value {} is corrupt", self.tag))) }
    }
}
impl Clone for Tok { fn clone(&self) -> Tok { self.check(); Tok::new(self.tag | CLONE, self.k) } }
impl Drop for Tok {
    fn drop(&mut self) {
        self.check();
        ledger(|l| {
            l.dropped += 1;
            let n = l.live.entry(self.tag).or_default();
            *n -= 1;
            if *n < 0 { l.bad = Some(format!("value {} dropped twice", self.tag)) }
            if *n == 0 { l.live.remove(&self.tag); }
        });
        *self.heap = 0;
    }
}
impl PartialEq for Tok { fn eq(&self, o: &Tok) -> bool { self.k == o.k } }
impl fmt::Debug for Tok { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "T{}", self.k) } }

pub trait Tv { fn k(&self) -> u32; }
impl Tv for Tok { fn k(&self) -> u32 { self.check(); self.k } }
impl Tv for Box<Tok> { fn k(&self) -> u32 { (**self).k() } }
impl Tv for Vec<Tok> { fn k(&self) -> u32 { self[0].k() } }

mock! {
    pub D {
        fn val(&self, a: Tok) -> Tok;
        fn two(&self, a: Box<Tok>, b: Vec<Tok>) -> Option<Tok>;
        fn three(&mut self, a: Tok, b: &Tok, c: [Tok; 2]) -> Result<Tok, Tok>;
        fn rf(&self, a: Tok) -> &Tok;
        fn mt(&mut self, a: Tok) -> &mut Tok;
        fn gen<G: Tv + 'static>(&self, a: G) -> Tok;
        fn ret<R: From<Tok> + 'static>(&self, a: Tok) -> R;
        fn consume(self, a: Tok) -> Tok;
        #[mockall::concretize]
        fn conc<P: Tv>(&self, a: P) -> Tok;
        fn st(a: Tok) -> Tok;
        fn stg<G: Tv + 'static>(a: G) -> Tok;
        fn unit(&self, a: Option<Tok>);
        async fn asy(&self, a: Tok) -> Tok;
        fn dynamic(&self, a: Box<dyn Tv>) -> Box<dyn Tv>;
        fn sl(&self, a: &[Tok]) -> Vec<Tok>;
    }
}
pub struct Wrap(Tok);
impl From<Tok> for Wrap { fn from(t: Tok) -> Wrap { Wrap(t) } }
#[automock]
pub mod dm {
    use super::{Tok, Tv};
    pub fn mf(a: Tok) -> Tok { a }
    pub fn mg<G: Tv + 'static>(a: G, b: Tok) -> Tok { drop(a); b }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum C { Val, Two, Three, Rf, Mt, Gen, GenB, Ret, Conc, St, Stg, Unit, Asy, Dyn, Sl, Mf, Mg }
const ALL: [C; 17] = [C::Val, C::Two, C::Three, C::Rf, C::Mt, C::Gen, C::GenB, C::Ret, C::Conc, C::St, C::Stg, C::Unit, C::Asy, C::Dyn, C::Sl, C::Mf, C::Mg];

#[derive(Clone, Copy, Debug, PartialEq)]
enum P { None, Const, Fn, FnSt, Once, OnceSt, Keep, Panic, OncePanic, OnceUnused }
#[derive(Clone, Copy, Debug, PartialEq)]
enum M { Any, F, St, With, Eq, PanicF }

/// Arguments that providers keep for themselves
type Shelf = std::sync::Arc<Mutex<Vec<Tok>>>;

struct Exp { chan: C, k: u32, prov: P, max: Option<usize>, n: usize, mat: M,
    /// ledger entries it owns
    mtags: Vec<u64>, ptags: Vec<u64>, used: bool }

struct World {
    m: Option<MockD>,
    st: Option<__mock_MockD::__st::Context>,
    stg: Option<__mock_MockD::__stg::Context>,
    mf: Option<mock_dm::__mf::Context>,
    mg: Option<mock_dm::__mg::Context>,
}

macro_rules! mats {
    ($e:ident, $m:expr, $k:expr, $tag:expr, |$($a:ident),+| $x:expr) => {{
        let (k, tag) = ($k, $tag);
        match $m {
            M::Any => {}
            M::F => { let t = Tok::new(tag, k); $e.withf(move |$($a),+| { t.check(); let _ = ($($a),+,); $x.k() == t.k() }); }
            M::PanicF => { let t = Tok::new(tag, k); $e.withf(move |$($a),+| { t.check(); let _ = ($($a),+,); if $x.k() == 9 { panic_any(UserPanic(9)) } $x.k() == t.k() }); }
            M::St => { let t = Rc::new(Tok::new(tag, k)); $e.withf_st(move |$($a),+| { t.check(); let _ = ($($a),+,); $x.k() == t.k() }); }
            M::With | M::Eq => unreachable!(),
        }
    }};
}
macro_rules! provs {
    ($e:ident, $p:expr, $tag:expr, $shelf:expr, $w:expr, |$a:ident $(, $b:ident)*| $keep:expr) => {{
        let (tag, shelf): (u64, Shelf) = ($tag, $shelf);
        match $p {
            P::None => {}
            P::Const => unreachable!(),
            P::Fn => { let t = Tok::new(tag, 0); $e.returning(move |$a $(, $b)*| { t.check(); let _ = (&$a, $(&$b),*); $w(t.clone()) }); }
            P::FnSt => { let t = Rc::new(Tok::new(tag, 0)); $e.returning_st(move |$a $(, $b)*| { t.check(); let _ = (&$a, $(&$b),*); $w((*t).clone()) }); }
            P::Once | P::OnceUnused => { let t = Tok::new(tag, 0); $e.return_once(move |$a $(, $b)*| { t.check(); let _ = (&$a, $(&$b),*); $w(t.clone()) }); }
            P::OnceSt => { let t = Rc::new(Tok::new(tag, 0)); $e.return_once_st(move |$a $(, $b)*| { t.check(); let _ = (&$a, $(&$b),*); $w((*t).clone()) }); }
            P::Keep => { let t = Tok::new(tag, 0); $e.returning(move |$a $(, $b)*| { let _ = ($(&$b,)*); shelf.lock().unwrap_or_else(|e| e.into_inner()).extend($keep); $w(t.clone()) }); }
            P::Panic => { let t = Tok::new(tag, 0); $e.returning(move |$a $(, $b)*| { let _ = (&$a, $(&$b,)*); t.check(); panic_any(UserPanic(8)) }); }
            P::OncePanic => { let t = Tok::new(tag, 0); $e.return_once(move |$a $(, $b)*| { let _ = (&$a, $(&$b,)*); t.check(); panic_any(UserPanic(8)) }); }
        }
    }};
}

fn valid_m(c: C, m: M) -> bool {
    !matches!(m, M::With | M::Eq) || c == C::Val || c == C::St || (c == C::Two && m == M::With) || (c == C::Mg && m == M::With) || (c == C::Mf && m == M::Eq)
}
fn valid_p(c: C, p: P) -> bool {
    match (c, p) {
        (_, P::OnceUnused) => true,
        (C::Rf, P::Const) => true,
        (C::Rf, _) => false,
        (C::Mt, P::Once | P::OncePanic | P::OnceSt) => false,
        (C::Conc | C::Sl, P::Keep) => false,
        (C::Two | C::Three | C::Unit | C::Asy | C::Dyn | C::Sl | C::Ret, P::Const) => false,
        _ => true,
    }
}

/// Set matcher and provider.  For M::None-like values, leave them
fn set(w: &mut World, x: &Exp, setm: Option<(M, u64)>, setp: Option<(P, u64)>, first: bool, shelf: &Shelf) {
    let k = x.k;
    macro_rules! go {
        ($e:expr, |$($a:ident),+| $x:expr, $w:expr, |$b:ident $(, $c:ident)*| $keep:expr) => {{
            let e = $e;
            if let Some(n) = x.max { e.times(n); }
            if let Some((m, tag)) = setm { mats!(e, m, k, tag, |$($a),+| $x) }
            if let Some((p, tag)) = setp { provs!(e, p, tag, shelf.clone(), $w, |$b $(, $c)*| $keep) }
        }};
        ($e:expr, const, |$($a:ident),+| $x:expr, $w:expr, |$b:ident $(, $c:ident)*| $keep:expr) => {{
            let e = $e;
            if let Some(n) = x.max { e.times(n); }
            if let Some((m, tag)) = setm { mats!(e, m, k, tag, |$($a),+| $x) }
            match setp {
                Some((P::Const, tag)) => { e.return_const(Tok::new(tag, 0)); }
                Some((p, tag)) => provs!(e, p, tag, shelf.clone(), $w, |$b $(, $c)*| $keep),
                None => {}
            }
        }};
        (withs $e:expr, [$($wm:tt)*], $($rest:tt)*) => {{
            let e = $e;
            if let Some(n) = x.max { e.times(n); }
            let mut sm = setm;
            match setm { $($wm)* _ => {} }
            let _ = &mut sm;
            go!(@tail e, sm, $($rest)*)
        }};
        (@tail $e:ident, $sm:ident, |$($a:ident),+| $x:expr, $w:expr, |$b:ident $(, $c:ident)*| $keep:expr) => {{
            if let Some((m, tag)) = $sm { if !matches!(m, M::With | M::Eq) { mats!($e, m, k, tag, |$($a),+| $x) } }
            match setp {
                Some((P::Const, tag)) => { $e.return_const(Tok::new(tag, 0)); }
                Some((p, tag)) => provs!($e, p, tag, shelf.clone(), $w, |$b $(, $c)*| $keep),
                None => {}
            }
        }};
    }
    let _ = first;
    let id = |t: Tok| t;
    match x.chan {
        C::Val => { let m = w.m.as_mut().unwrap(); let e = m.expect_val();
            if let Some((M::With, tag)) = setm { let t = Tok::new(tag, k); e.with(function(move |a: &Tok| a.k() == t.k())); }
            if let Some((M::Eq, tag)) = setm { e.with(eq(Tok::new(tag, k))); }
            go!(withs e, [], |a| a, id, |a| vec![a]) }
        C::Two => { let m = w.m.as_mut().unwrap(); let e = m.expect_two();
            if let Some((M::With, tag)) = setm { let t = Tok::new(tag, k); e.with(function(move |a: &Box<Tok>| a.k() == t.k()), mockall::predicate::always()); }
            if let Some((p, tag)) = setp { provs!(e, p, tag, shelf.clone(), Some, |a, b| { let mut b = b; b.push(*a); b }) }
            if let Some(n) = x.max { e.times(n); }
            if let Some((mm, tag)) = setm { if mm != M::With { mats!(e, mm, k, tag, |a, b| a) } } }
        C::Three => go!(w.m.as_mut().unwrap().expect_three(), |a, b, c| a, |t: Tok| if t.k % 2 == 0 { Ok(t) } else { Err(t) }, |a, b, c| vec![a]),
        C::Rf => { let e = w.m.as_mut().unwrap().expect_rf();
            if let Some(n) = x.max { e.times(n); }
            if let Some((mm, tag)) = setm { mats!(e, mm, k, tag, |a| a) }
            if let Some((P::Const, tag)) = setp { e.return_const(Tok::new(tag, 0)); } }
        C::Mt => { let e = w.m.as_mut().unwrap().expect_mt();
            if let Some(n) = x.max { e.times(n); }
            if let Some((mm, tag)) = setm { mats!(e, mm, k, tag, |a| a) }
            match setp {
                Some((P::Const, tag)) => { e.return_var(Tok::new(tag, 0)); }
                Some((P::Fn | P::OnceUnused, tag)) => { let t = Tok::new(tag, 0); e.returning(move |_| { t.check(); t.clone() }); }
                Some((P::FnSt, tag)) => { let t = Rc::new(Tok::new(tag, 0)); e.returning_st(move |_| (*t).clone()); }
                Some((P::Keep, tag)) => { let t = Tok::new(tag, 0); let s = Mutex::new(Vec::<u8>::new()); let sh = shelf.clone();
                    e.returning(move |a| { s.lock(); sh.lock().unwrap_or_else(|e| e.into_inner()).push(a); t.clone() }); }
                Some((P::Panic, tag)) => { let t = Tok::new(tag, 0); e.returning(move |_| { t.check(); panic_any(UserPanic(8)) }); }
                _ => {}
            } }
        C::Gen => go!(w.m.as_mut().unwrap().expect_gen::<Tok>(), const, |a| a, id, |a| vec![a]),
        C::GenB => go!(w.m.as_mut().unwrap().expect_gen::<Box<Tok>>(), const, |a| a, id, |a| vec![*a]),
        C::Ret => go!(w.m.as_mut().unwrap().expect_ret::<Wrap>(), |a| a, Wrap, |a| vec![a]),
        C::Conc => go!(w.m.as_mut().unwrap().expect_conc(), const, |a| a, id, |_a| vec![]),
        C::Unit => go!(w.m.as_mut().unwrap().expect_unit(), |a| a.as_ref().unwrap(), drop, |a| a),
        C::Asy => go!(w.m.as_mut().unwrap().expect_asy(), |a| a, id, |a| vec![a]),
        C::Dyn => go!(w.m.as_mut().unwrap().expect_dynamic(), |a| a, |t: Tok| Box::new(t) as Box<dyn Tv>, |a| { drop(a); vec![] }),
        C::Sl => go!(w.m.as_mut().unwrap().expect_sl(), |a| a[0], |t: Tok| vec![t], |_a| vec![]),
        C::St => { let c = w.st.as_ref().unwrap(); let mut g = c.expect();
            let e = g.times(..);
            if let Some((M::With, tag)) = setm { let t = Tok::new(tag, k); e.with(function(move |a: &Tok| a.k() == t.k())); }
            if let Some((M::Eq, tag)) = setm { e.with(eq(Tok::new(tag, k))); }
            go!(withs e, [], |a| a, id, |a| vec![a]) }
        C::Stg => { let c = w.stg.as_ref().unwrap(); let mut g = c.expect::<Vec<Tok>>(); go!(g.times(..), const, |a| a, id, |a| a) }
        C::Mf => { let c = w.mf.as_ref().unwrap(); let mut g = c.expect(); let e = g.times(..);
            if let Some((M::Eq, tag)) = setm { e.with(eq(Tok::new(tag, k))); }
            go!(withs e, [], |a| a, id, |a| vec![a]) }
        C::Mg => { let c = w.mg.as_ref().unwrap(); let mut g = c.expect::<Tok>(); let e = g.times(..);
            if let Some((M::With, tag)) = setm { let t = Tok::new(tag, k); e.with(function(move |a: &Tok| a.k() == t.k()), mockall::predicate::always()); }
            go!(withs e, [], |a, b| a, id, |a, b| vec![a]) }
    }
}
// Providers set one after the other on one expectation need one borrow
fn set2(w: &mut World, x: &Exp, steps: &[(Option<(M, u64)>, Option<(P, u64)>)], shelf: &Shelf, after: &mut dyn FnMut(usize)) {
    let k = x.k;
    let id = |t: Tok| t;
    macro_rules! all { ($e:ident, |$($a:ident),+| $x:expr, |$b:ident $(, $c:ident)*| $keep:expr) => {
        for (i, (sm, sp)) in steps.iter().enumerate() {
            match sm { Some((M::Eq | M::With, tag)) => { let t = Tok::new(*tag, k); $e.withf(move |$($a),+| { let _ = ($($a),+,); $x.k() == t.k() }); }
                       Some((m, tag)) => mats!($e, *m, k, *tag, |$($a),+| $x), None => {} }
            match sp { Some((P::Const, tag)) => { $e.return_const(Tok::new(*tag, 0)); }
                       Some((p, tag)) => provs!($e, *p, *tag, shelf.clone(), id, |$b $(, $c)*| $keep), None => {} }
            after(i);
        }
    } }
    match x.chan {
        C::Val => { let e = w.m.as_mut().unwrap().expect_val(); all!(e, |a| a, |a| vec![a]) }
        C::Gen => { let e = w.m.as_mut().unwrap().expect_gen::<Tok>(); all!(e, |a| a, |a| vec![a]) }
        C::Mt => { let e = w.m.as_mut().unwrap().expect_mt();
            for (i, (sm, sp)) in steps.iter().enumerate() {
                if let Some((_, tag)) = sm { let t = Tok::new(*tag, k); e.withf(move |a| a.k() == t.k()); }
                if let Some((p, tag)) = sp { let t = Tok::new(*tag, 0);
                    match p { P::Const => { e.return_var(t); } P::FnSt => { e.returning_st(move |_| t.clone()); } _ => { e.returning(move |_| t.clone()); } } }
                after(i);
            } }
        C::Rf => { let e = w.m.as_mut().unwrap().expect_rf();
            for (i, (sm, sp)) in steps.iter().enumerate() {
                if let Some((_, tag)) = sm { let t = Tok::new(*tag, k); e.withf(move |a| a.k() == t.k()); }
                if let Some((_, tag)) = sp { e.return_const(Tok::new(*tag, 0)); }
                after(i);
            } }
        C::St => { let c = w.st.as_ref().unwrap(); let mut g = c.expect(); let e = g.times(..); all!(e, |a| a, |a| vec![a]) }
        _ => { let c = w.stg.as_ref().unwrap(); let mut g = c.expect::<Tok>(); let e = g.times(..); all!(e, |a| a, |a| vec![a]) }
    }
}

/// Returns what the caller got: number of tokens it owns now (dropped right away
/// or kept)
fn call(w: &mut World, c: C, k: u32, tag: u64, got: &mut Vec<Box<dyn std::any::Any>>) -> End {
    let a = Tok::new(tag, k);
    run(move || {
        match c {
            C::Val => got.push(Box::new(w.m.as_ref().unwrap().val(a))),
            C::Two => got.push(Box::new(w.m.as_ref().unwrap().two(Box::new(a), vec![Tok::new(tag, k), Tok::new(tag, k)]))),
            C::Three => { let b = Tok::new(tag, k); let c = [Tok::new(tag, k), Tok::new(tag, k)]; got.push(Box::new(w.m.as_mut().unwrap().three(a, &b, c))) }
            C::Rf => { w.m.as_ref().unwrap().rf(a).check(); }
            C::Mt => { let m = w.m.as_mut().unwrap().mt(a); m.check(); }
            C::Gen => got.push(Box::new(w.m.as_ref().unwrap().gen::<Tok>(a))),
            C::GenB => got.push(Box::new(w.m.as_ref().unwrap().gen::<Box<Tok>>(Box::new(a)))),
            C::Ret => got.push(Box::new(w.m.as_ref().unwrap().ret::<Wrap>(a))),
            C::Conc => got.push(Box::new(w.m.as_ref().unwrap().conc(a))),
            C::Unit => w.m.as_ref().unwrap().unit(Some(a)),
            C::Asy => got.push(Box::new(futures::executor::block_on(w.m.as_ref().unwrap().asy(a)))),
            C::Dyn => got.push(Box::new(w.m.as_ref().unwrap().dynamic(Box::new(a)))),
            C::Sl => got.push(Box::new(w.m.as_ref().unwrap().sl(&[a, Tok::new(tag, k)]))),
            C::St => got.push(Box::new(MockD::st(a))),
            C::Stg => got.push(Box::new(MockD::stg::<Vec<Tok>>(vec![a, Tok::new(tag, k)]))),
            C::Mf => got.push(Box::new(mock_dm::mf(a))),
            C::Mg => got.push(Box::new(mock_dm::mg::<Tok>(a, Tok::new(tag, k)))),
        }
        0
    })
}

fn check(exp: &BTreeMap<u64, i64>, what: &str) -> Verdict {
    let (live, bad) = ledger(|l| (l.live.clone(), l.bad.take()));
    if let Some(b) = bad { return Err(vh::mon::failed(format!("{what}: {b}"))) }
    if &live != exp {
        let extra: Vec<_> = live.iter().filter(|(t, n)| exp.get(t) != Some(n)).map(|(t, n)| format!("{t:#x}: {n} live, {} expected", exp.get(t).unwrap_or(&0))).take(5).collect();
        let miss: Vec<_> = exp.iter().filter(|(t, n)| !live.contains_key(t) && **n != 0).map(|(t, n)| format!("{t:#x}: gone, {n} expected")).take(5).collect();
        return Err(vh::mon::failed(format!("{what}: live values differ: {}", [extra, miss].concat().join("; "))));
    }
    Ok(())
}

fn history(r: &mut Rng, m: &mut Mon) -> Verdict {
    ledger(|l| *l = Ledger::default());
    let res = history1(r, m);
    let (c, d) = ledger(|l| (l.created, l.dropped));
    m.add("values_created", c);
    m.add("values_dropped", d);
    res?;
    check(&BTreeMap::new(), "at the end")?;
    same!(c, d, "drops of all values");
    Ok(())
}

fn history1(r: &mut Rng, m: &mut Mon) -> Verdict {
    let mut w = World { m: Some(MockD::new()), st: Some(MockD::st_context()), stg: Some(MockD::stg_context()),
        mf: Some(mock_dm::mf_context()), mg: Some(mock_dm::mg_context()) };
    let shelf: Shelf = Default::default();
    let mut chans = ALL.to_vec();
    r.shuffle(&mut chans);
    chans.truncate(r.range(1, 6));
    let mut es: Vec<Exp> = vec![];
    let mut exp: BTreeMap<u64, i64> = BTreeMap::new();
    let mut tag = 100u64;
    macro_rules! own { ($exp:ident, $t:expr, $n:expr) => {{ let n: i64 = $n; let e = $exp.entry($t).or_default(); *e += n; if *e == 0 { $exp.remove(&$t); } }} }
    let stat = |c: C| matches!(c, C::St | C::Stg | C::Mf | C::Mg);
    let ms = [M::Any, M::F, M::F, M::St, M::With, M::Eq, M::PanicF];
    let ps = [P::None, P::Const, P::Fn, P::FnSt, P::Once, P::OnceSt, P::Keep, P::Panic, P::OncePanic];
    let mut kept: Vec<Box<dyn std::any::Any>> = vec![];
    for _ in 0..r.range(8, 40) {
        let c = *r.pick(&chans);
        match r.below(12) {
            0..=2 => {
                // a new expectation
                let mm = *r.pick(&ms);
                let mm = if valid_m(c, mm) { mm } else { M::F };
                let pp = *r.pick(&ps);
                let pp = if valid_p(c, pp) { pp } else if c == C::Rf { P::Const } else { P::Fn };
                tag += 2;
                let x = Exp { chan: c, k: r.below(3) as u32, prov: pp, mat: mm, n: 0, used: false,
                    max: if r.chance(1, 3) { Some(r.range(0, 3)) } else { None },
                    mtags: if mm == M::Any { vec![] } else { vec![tag] }, ptags: if pp == P::None { vec![] } else { vec![tag + 1] } };
                m.op(format!("expect {c:?} {mm:?} {pp:?} max {:?}", x.max));
                m.note("setups", &format!("{c:?}/{mm:?}/{pp:?}"));
                set(&mut w, &x, (mm != M::Any).then_some((mm, tag)), (pp != P::None).then_some((pp, tag + 1)), true, &shelf);
                for t in x.mtags.iter().chain(&x.ptags) { own!(exp, *t, 1); }
                es.push(x);
                check(&exp, "after setting an expectation")?;
            }
            3 => {
                // one whose matcher and provider are replaced again and again
                let c = *r.pick(&[C::Val, C::Gen, C::Mt, C::Rf, C::St]);
                let mut x = Exp { chan: c, k: r.below(3) as u32, prov: P::None, mat: M::Any, n: 0, used: false, max: None, mtags: vec![], ptags: vec![] };
                let mut steps = vec![];
                let mut expected = vec![];
                let mut e2 = exp.clone();
                for _ in 0..r.range(2, 6) {
                    tag += 2;
                    let sm = if r.chance(1, 2) { let mm = *r.pick(&[M::F, M::St, M::With]); Some((mm, tag)) } else { None };
                    let sp = if sm.is_none() || r.chance(1, 2) {
                        let p = *r.pick(&[P::Const, P::Fn, P::FnSt, P::Once, P::OnceSt, P::OncePanic]);
                        let p = match (c, p) { (C::Rf, _) => P::Const, (C::Mt, P::Const | P::FnSt) => p, (C::Mt, _) => P::Fn, _ => p };
                        Some((p, tag + 1))
                    } else { None };
                    if let Some((mm, t)) = sm { for o in x.mtags.drain(..) { own!(e2, o, -1) } x.mtags.push(t); own!(e2, t, 1); x.mat = mm; }
                    if let Some((p, t)) = sp { for o in x.ptags.drain(..) { own!(e2, o, -1) } x.ptags.push(t); own!(e2, t, 1); x.prov = p; }
                    steps.push((sm, sp));
                    expected.push(e2.clone());
                }
                m.op(format!("expect {c:?}, replacing {:?}", steps));
                let mut verdict = Ok(());
                set2(&mut w, &x, &steps, &shelf, &mut |i| { if verdict.is_ok() { verdict = check(&expected[i], "after replacing a matcher or provider") } });
                verdict?;
                exp = e2;
                // Without a matcher, it takes everything
                es.push(x);
                m.count("replacements");
            }
            4..=9 => {
                let k = r.below(4) as u32;
                let k = if k == 3 { 9 } else { k };
                // who answers?
                let mut hit = None;
                let mut mpanic = false;
                for (i, e) in es.iter().enumerate().filter(|(_, e)| e.chan == c) {
                    let full = e.max.is_some_and(|n| e.n >= n);
                    if e.mat == M::PanicF && k == 9 {
                        mpanic = true;
                        if full { hit = Some(usize::MAX) }
                        break;
                    }
                    if e.mat != M::Any && e.k != k { continue }
                    if full { continue }
                    hit = Some(i);
                    break;
                }
                if hit == Some(usize::MAX) { continue }
                let over = hit.is_none() && !mpanic && es.iter().any(|e| e.chan == c && e.max.is_some_and(|n| e.n >= n));
                if over && !r.chance(1, 6) { continue }
                if hit.is_none() && !over && !r.chance(1, 4) { continue }
                tag += 2;
                let mut got = vec![];
                let end = call(&mut w, c, k, tag, &mut got);
                m.op(format!("call {c:?}({k}) -> {end:?}"));
                m.count("calls");
                let mut want_ok = false;
                if let Some(i) = hit {
                    let e = &mut es[i];
                    e.n += 1;
                    let was_once = matches!(e.prov, P::Once | P::OnceSt | P::OncePanic) && c != C::Mt && c != C::Rf;
                    if was_once && e.used {
                        // refused
                    } else {
                        match e.prov {
                            P::None => {}
                            P::Panic | P::OncePanic => {}
                            _ => want_ok = true,
                        }
                        if was_once { for t in e.ptags.drain(..) { own!(exp, t, -1) } }
                        e.used = true;
                    }
                    if want_ok {
                        // what the caller, or the mock (for &mut), holds now
                        let pt = if was_once { None } else { e.ptags.first().copied() };
                        if c == C::Mt && e.prov != P::Const {
                            let t = pt.unwrap() | CLONE;
                            if e.ptags.contains(&t) { /* the previous output was replaced */ } else { e.ptags.push(t); own!(exp, t, 1); }
                        }
                        if e.prov == P::Keep {
                            // everything the provider kept stays; it must be alive exactly once
                            let s = shelf.lock().unwrap_or_else(|e| e.into_inner());
                            let n = s.iter().filter(|t| t.tag == tag).count() as i64;
                            let full = match c { C::Two => 3, C::Stg => 2, C::Dyn | C::Sl | C::Conc => 0, _ => 1 };
                            drop(s);
                            same!(n, full, "arguments kept by the provider");
                            own!(exp, tag, n);
                            if r.chance(1, 2) { shelf.lock().unwrap_or_else(|e| e.into_inner()).retain(|t| t.tag != tag); own!(exp, tag, -n); }
                        }
                    }
                }
                match (&end, want_ok) {
                    (End::Val(_), true) => m.count("calls_answered"),
                    (End::Msg(_) | End::User(_), false) => m.count("calls_panicked"),
                    _ => return Err(vh::mon::failed(format!("call of {c:?}({k}): success {want_ok} expected, but {end:?}"))),
                }
                if want_ok && !matches!(c, C::Mt | C::Rf | C::Unit) {
                    // the return value: one clone
                    let live: i64 = ledger(|l| l.live.values().sum());
                    let want: i64 = exp.values().sum::<i64>() + kept.len() as i64 * 0 + 1;
                    same!(live, want, "live values while the caller holds the result of {c:?}");
                    drop(got);
                } else {
                    drop(got);
                }
                check(&exp, "after a call")?;
                if over {
                    // somebody has been overcalled: retire everything
                    let World { m: o, st, stg, mf, mg } = w;
                    let _ = run(|| { let _x = (o, st, stg, mf, mg); panic_any(Marker) });
                    shelf.lock().unwrap_or_else(|e| e.into_inner()).clear();
                    exp.clear();
                    m.count("unwinding_teardowns");
                    return check(&exp, "after an unwinding teardown");
                }
            }
            10 => {
                // clear
                let which = r.below(6);
                let sel = |x: C| match which { 0 | 1 => !stat(x), 2 => x == C::St, 3 => x == C::Stg, 4 => x == C::Mf, _ => x == C::Mg };
                let ok = es.iter().filter(|e| sel(e.chan)).all(|e| e.max.is_none_or(|n| e.n == n));
                let how = r.below(3);
                m.op(format!("clear {which} by {how}"));
                let end = match (which, how) {
                    (0 | 1, 0) if ok => { run(|| { w.m.as_mut().unwrap().checkpoint(); 0 }) }
                    (0 | 1, 1) => { let o = w.m.take(); let e = run(|| { let _o = o; panic_any(Marker) }); w.m = Some(MockD::new()); if e == End::Marker { if ok { End::Val(0) } else { End::Msg(String::new()) } } else { e } }
                    (0 | 1, _) => { let o = w.m.take(); let e = run(|| { drop(o); 0 }); w.m = Some(MockD::new()); e }
                    (2, 0) => run(|| { w.st.as_ref().unwrap().checkpoint(); 0 }),
                    (2, _) => { let o = w.st.take(); let e = run(|| { drop(o); 0 }); w.st = Some(MockD::st_context()); e }
                    (3, 0) => run(|| { w.stg.as_ref().unwrap().checkpoint(); 0 }),
                    (3, _) => { let o = w.stg.take(); let e = run(|| { drop(o); 0 }); w.stg = Some(MockD::stg_context()); e }
                    (4, 0) => run(|| { w.mf.as_ref().unwrap().checkpoint(); 0 }),
                    (4, _) => { let o = w.mf.take(); let e = run(|| { drop(o); 0 }); w.mf = Some(mock_dm::mf_context()); e }
                    (_, 0) => run(|| { w.mg.as_ref().unwrap().checkpoint(); 0 }),
                    (_, _) => { let o = w.mg.take(); let e = run(|| { drop(o); 0 }); w.mg = Some(mock_dm::mg_context()); e }
                };
                ensure!(matches!(end, End::Val(_)) == ok, "clear {which} by {how}: success {ok} expected, but {end:?}");
                for e in es.iter().filter(|e| sel(e.chan)) { for t in e.mtags.iter().chain(&e.ptags) { own!(exp, *t, -1); } }
                es.retain(|e| !sel(e.chan));
                m.count("clears");
                check(&exp, "after a checkpoint or drop")?;
            }
            _ => {
                // a by-value receiver
                let mut o = MockD::new();
                tag += 4;
                let t = Tok::new(tag, 1);
                let n = r.below(3);
                match n {
                    0 => { o.expect_consume().times(1).return_once(move |_| t); }
                    1 => { o.expect_consume().returning(move |_| t.clone()); }
                    _ => { o.expect_consume().withf(move |a| t.k() == 1 && a.k == 7).times(1).return_const(Tok::new(tag + 1, 0)); }
                }
                let a = Tok::new(tag + 2, 7 - n as u32 % 2 * 7);
                m.op(format!("by-value call {n}"));
                let e = run(|| { drop(o.consume(a)); 0 });
                same!(e, End::Val(0), "call of a by-value method");
                m.count("calls");
                check(&exp, "after a by-value call")?;
            }
        }
    }
    // tear down
    kept.clear();
    shelf.lock().unwrap_or_else(|e| e.into_inner()).clear();
    let okm = es.iter().filter(|e| !stat(e.chan)).all(|e| e.max.is_none_or(|n| e.n == n));
    let World { m: o, st, stg, mf, mg } = w;
    if r.chance(1, 4) {
        same!(run(|| { let _x = (o, st, stg, mf, mg); panic_any(Marker) }), End::Marker, "unwinding teardown");
        m.count("unwinding_teardowns");
    } else {
        let e = run(|| { drop(o); 0 });
        ensure!(matches!(e, End::Val(_)) == okm, "final drop: success {okm} expected, but {e:?}");
        let _ = run(|| { drop(st); 0 });
        let _ = run(|| { drop(stg); 0 });
        let _ = run(|| { drop(mf); 0 });
        let _ = run(|| { drop(mg); 0 });
        m.count("teardowns");
    }
    check(&BTreeMap::new(), "after the teardown")
}

fn main() {
    vh::mon::drive(&[("history", history)])
}
