//! C19: results of async and impl-returning methods, outstanding, polled, moved,
//! sent to other threads, completed and dropped in any order.
#![allow(async_fn_in_trait, clippy::all)]
use async_trait::async_trait;
use futures::stream::Stream;
use mockall::predicate::eq;
use mockall::*;
use std::collections::BTreeMap;
use std::future::Future;
use std::panic::panic_any;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use vh::mon::{Mon, Verdict};
use vh::rng::Rng;
use vh::spec::{run, End, Marker, UserPanic};
use vh::{ensure, same};

#[async_trait]
pub trait Remote {
    async fn rem(&self, a: u32) -> u64;
    async fn rem_st(a: u32) -> u64;
    async fn rem_mut(&mut self, a: u32) -> u64;
}
pub trait Nat {
    async fn tr(&self, a: u32) -> u64;
    async fn tr_mut(&mut self, a: u32) -> u64;
    async fn tr_st(a: u32) -> u64;
}
mock! {
    pub A {
        async fn na(&self, a: u32) -> u64;
        async fn na_mut(&mut self, a: u32) -> u64;
        async fn na_ref(&self, a: &str, b: &[u32]) -> u64;
        async fn na_st(a: u32) -> u64;
        async fn na_gen<T: Into<u64> + Copy + Send + 'static>(&self, t: T) -> u64;
        async fn na_own(self, a: u32) -> u64;
        pub fn fut(&self, a: u32) -> impl Future<Output = u64> + Send;
        pub fn fut_st(a: u32) -> impl Future<Output = u64> + Send;
        fn boxed(&self, a: u32) -> Pin<Box<dyn Future<Output = u64> + Send>>;
        pub fn strm(&self, a: u32) -> impl Stream<Item = u64> + Send;
        pub fn iter(&self, a: u32) -> impl Iterator<Item = u64> + Send;
        pub fn show(&self, a: u32) -> impl std::fmt::Display + Send;
        pub fn func(&self, a: u32) -> impl Fn(u64) -> u64 + Send;
        pub fn gfut<T: Into<u64> + Copy + 'static>(&self, a: T) -> impl Future<Output = u64> + Send;
    }
    #[async_trait]
    impl Remote for A {
        async fn rem(&self, a: u32) -> u64;
        async fn rem_st(a: u32) -> u64;
        async fn rem_mut(&mut self, a: u32) -> u64;
    }
    impl Nat for A {
        async fn tr(&self, a: u32) -> u64;
        async fn tr_mut(&mut self, a: u32) -> u64;
        async fn tr_st(a: u32) -> u64;
    }
}
#[automock]
#[async_trait]
pub trait Auto {
    async fn au(&self, a: u32) -> u64;
    async fn au_st(a: u32) -> u64;
    async fn au_gen<T: Into<u64> + Copy + Send + 'static>(&self, t: T) -> u64;
}
#[automock]
pub trait AutoNat {
    async fn an(&self, a: u32) -> u64;
    async fn an_ref(&self, a: &u32) -> u64;
}
pub struct Real;
#[automock]
impl Real {
    pub async fn re(&self, a: u32) -> u64 { a as u64 }
    pub fn re_fut(&self, a: u32) -> impl Future<Output = u64> + Send { async move { a as u64 } }
}
#[automock]
pub mod md {
    pub async fn mo(a: u32) -> u64 { a as u64 }
}
/// Mocks which are futures and streams themselves
mock! {
    pub F {}
    impl Future for F {
        type Output = u64;
        fn poll<'a>(self: Pin<&mut Self>, cx: &mut Context<'a>) -> Poll<u64>;
    }
}
mock! {
    pub S {}
    impl Stream for S {
        type Item = u64;
        fn poll_next<'a>(self: Pin<&mut Self>, cx: &mut Context<'a>) -> Poll<Option<u64>>;
    }
}

// ---- what the workload observes ----
static RUNS: Mutex<Vec<(u64, u32)>> = Mutex::new(Vec::new());
fn ran(id: u64, a: u32) { RUNS.lock().unwrap_or_else(|e| e.into_inner()).push((id, a)) }
fn runs() -> Vec<(u64, u32)> { std::mem::take(&mut *RUNS.lock().unwrap_or_else(|e| e.into_inner())) }
static STEPS_LIVE: AtomicU64 = AtomicU64::new(0);

struct Wk(AtomicU64);
impl Wake for Wk { fn wake(self: Arc<Self>) { self.0.fetch_add(1, SeqCst); } }

/// What a closure hands out: a future, stream or iterator of our own
struct Steps { pend: u32, val: u64, left: u64, polls: Arc<AtomicU64>, drops: Arc<AtomicU64> }
impl Steps {
    fn new(pend: u32, val: u64, c: &Counters) -> Steps {
        STEPS_LIVE.fetch_add(1, SeqCst);
        let (polls, drops) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
        c.lock().unwrap_or_else(|e| e.into_inner()).push((polls.clone(), drops.clone()));
        Steps { pend, val, left: val % 4, polls, drops }
    }
    fn step(&mut self, w: &Waker) -> bool {
        self.polls.fetch_add(1, SeqCst);
        w.wake_by_ref();
        if self.pend == 0 { return true }
        self.pend -= 1;
        false
    }
}
impl Drop for Steps { fn drop(&mut self) { STEPS_LIVE.fetch_sub(1, SeqCst); self.drops.fetch_add(1, SeqCst); } }
impl Future for Steps {
    type Output = u64;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        if self.step(cx.waker()) { Poll::Ready(self.val) } else { Poll::Pending }
    }
}
impl Stream for Steps {
    type Item = u64;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> {
        if !self.step(cx.waker()) { return Poll::Pending }
        if self.left == 0 { return Poll::Ready(None) }
        self.left -= 1;
        Poll::Ready(Some(self.val + self.left))
    }
}
impl Iterator for Steps {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        self.polls.fetch_add(1, SeqCst);
        if self.left == 0 { return None }
        self.left -= 1;
        Some(self.val + self.left)
    }
}
impl std::fmt::Display for Steps {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.polls.fetch_add(1, SeqCst); write!(f, "<{}>", self.val) }
}
/// One entry for each thing handed out
type Counters = Arc<Mutex<Vec<(Arc<AtomicU64>, Arc<AtomicU64>)>>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum C { Na, NaRef, NaSt, GenA, GenB, Rem, RemSt, Tr, TrSt, Au, AuSt, AuGen, An, AnRef, Re, Mo,
    Fut, FutSt, Boxed, ReFut, GfutA, GfutB, Strm, Iter, Show, Func }
use C::*;
const LAZY: [C; 16] = [Na, NaRef, NaSt, GenA, GenB, Rem, RemSt, Tr, TrSt, Au, AuSt, AuGen, An, AnRef, Re, Mo];
const EAGER: [C; 10] = [Fut, FutSt, Boxed, ReFut, GfutA, GfutB, Strm, Iter, Show, Func];
impl C { fn lazy(self) -> bool { LAZY.contains(&self) } }

#[derive(Clone, Copy, Debug, PartialEq)]
enum P { Const, Fn, FnSt, Once, None, Panic }
#[derive(Clone, Debug)]
struct Exp { chan: C, id: u64, key: Option<u32>, how: usize, max: Option<usize>, prov: P, n: usize, used: u64 }
/// What call number k (from 0) of the provider yields
fn val(id: u64, a: u32, k: u64) -> u64 { id * 1_000_000 + a as u64 * 10_000 + k * 10 + (id + k) % 7 }

struct Mocks { a: MockA, au: MockAuto, an: MockAutoNat, re: MockReal }
struct Ctxs {
    na_st: __mock_MockA::__na_st::Context, fut_st: __mock_MockA::__fut_st::Context,
    rem_st: __mock_MockA_Remote::__rem_st::Context, tr_st: __mock_MockA_Nat::__tr_st::Context,
    au_st: __mock_MockAuto_Auto::__au_st::Context, mo: mock_md::__mo::Context,
}
enum Item<'a> {
    F(Pin<Box<dyn Future<Output = u64> + Send + 'a>>),
    S(Pin<Box<dyn Stream<Item = u64> + Send>>),
    I(Box<dyn Iterator<Item = u64> + Send>),
    D(Box<dyn std::fmt::Display + Send>),
    G(Box<dyn Fn(u64) -> u64 + Send>),
}

fn expect(m: &mut Mocks, c: &Ctxs, x: &Exp, cs: &Counters) {
    let (id, key, how, prov) = (x.id, x.key, x.how, x.prov);
    macro_rules! tail { ($e:ident, $conv:expr, const) => {
        if prov == P::Const { $e.return_const(val(id, 0, 0)); } else { tail!($e, $conv) }
    };
    ($e:ident, $conv:expr) => {{
        let mut k = 0u64;
        let cs = cs.clone();
        #[allow(unused)] let conv = $conv;
        match prov {
            P::None | P::Const => {}
            P::Fn => { $e.returning(move |a| { let a = Arg::arg(&a); ran(id, a); k += 1; out!(conv, id, a, k - 1, cs) }); }
            P::FnSt => { let r = Rc::new(1); $e.returning_st(move |a| { let a = Arg::arg(&a); ran(id, a); let _ = &r; k += 1; out!(conv, id, a, k - 1, cs) }); }
            P::Once => { $e.return_once(move |a| { let a = Arg::arg(&a); ran(id, a); out!(conv, id, a, 0, cs) }); }
            P::Panic => { $e.returning(move |a| { let a = Arg::arg(&a); ran(id, a); panic_any(UserPanic(id)) }); }
        }
    }} }
    macro_rules! out { ($conv:expr, $id:expr, $a:expr, $k:expr, $cs:expr) => { $conv(val($id, $a, $k), &$cs) } }
    macro_rules! mat { ($e:ident) => {
        if let Some(k) = key { if how == 1 { $e.withf(move |a| Arg::arg(a) == k); } else { let r = Rc::new(k); $e.withf_st(move |a| Arg::arg(a) == *r); } }
    } }
    macro_rules! go { ($e:expr, $conv:expr $(, $k:ident)?) => {{
        let e = $e;
        if let Some(n) = x.max { e.times(n); }
        mat!(e);
        tail!(e, $conv $(, $k)?)
    }} }
    macro_rules! gow { ($e:expr, $t:ty, $conv:expr $(, $k:ident)?) => {{
        let e = $e;
        if let Some(n) = x.max { e.times(n); }
        if let (Some(k), 0) = (key, how) { e.with(eq(k as $t)); } else { mat!(e); }
        tail!(e, $conv $(, $k)?)
    }} }
    macro_rules! gos { ($c:expr, $conv:expr $(, $k:ident)?) => {{ let mut g = $c.expect(); gow!(g.times(..), u32, $conv $(, $k)?) }} }
    let v = |x: u64, _: &Counters| x;
    let f = |x: u64, cs: &Counters| -> Pin<Box<dyn Future<Output = u64> + Send>> { Box::pin(Steps::new((x % 5) as u32, x, cs)) };
    match x.chan {
        Na => gow!(m.a.expect_na(), u32, v, const),
        NaRef => {
            let e = m.a.expect_na_ref();
            if let Some(n) = x.max { e.times(n); }
            if let Some(k) = key { e.withf(move |a, b| a == k.to_string() && b == [k, k + 1]); }
            let mut n = 0;
            match prov {
                P::Const => { e.return_const(val(id, 0, 0)); }
                P::None => {}
                P::Panic => { e.returning(move |a, _| { ran(id, a.parse().unwrap()); panic_any(UserPanic(id)) }); }
                P::Once => { e.return_once(move |a, _| { let a = a.parse().unwrap(); ran(id, a); val(id, a, 0) }); }
                _ => { e.returning(move |a, b| { let a = a.parse().unwrap(); ran(id, a); assert_eq!(b[1], a + 1); n += 1; val(id, a, n - 1) }); }
            }
        }
        NaSt => gos!(c.na_st, v, const),
        GenA => gow!(m.a.expect_na_gen::<u8>(), u8, v, const),
        GenB => gow!(m.a.expect_na_gen::<u32>(), u32, v, const),
        Rem => gow!(m.a.expect_rem(), u32, v, const),
        RemSt => gos!(c.rem_st, v, const),
        Tr => gow!(m.a.expect_tr(), u32, v, const),
        TrSt => gos!(c.tr_st, v, const),
        Au => gow!(m.au.expect_au(), u32, v, const),
        AuSt => gos!(c.au_st, v, const),
        AuGen => gow!(m.au.expect_au_gen::<u16>(), u16, v, const),
        An => gow!(m.an.expect_an(), u32, v, const),
        AnRef => gow!(m.an.expect_an_ref(), u32, v, const),
        Re => gow!(m.re.expect_re(), u32, v, const),
        Mo => gos!(c.mo, v, const),
        Fut => gow!(m.a.expect_fut(), u32, f),
        FutSt => gos!(c.fut_st, f),
        Boxed => gow!(m.a.expect_boxed(), u32, f),
        ReFut => gow!(m.re.expect_re_fut(), u32, f),
        GfutA => gow!(m.a.expect_gfut::<u8>(), u8, f),
        GfutB => gow!(m.a.expect_gfut::<u32>(), u32, f),
        Strm => gow!(m.a.expect_strm(), u32, |x: u64, cs: &Counters| -> Pin<Box<dyn Stream<Item = u64> + Send>> { Box::pin(Steps::new((x % 5) as u32, x, cs)) }),
        Iter => gow!(m.a.expect_iter(), u32, |x: u64, cs: &Counters| -> Box<dyn Iterator<Item = u64> + Send> { Box::new(Steps::new(0, x, cs)) }),
        Show => gow!(m.a.expect_show(), u32, |x: u64, cs: &Counters| -> Box<dyn std::fmt::Display + Send> { Box::new(Steps::new(0, x, cs)) }),
        Func => go!(m.a.expect_func(), |x: u64, cs: &Counters| -> Box<dyn Fn(u64) -> u64 + Send> { let s = Steps::new(0, x, cs); Box::new(move |y| { s.polls.fetch_add(1, SeqCst); s.val + y }) }),
    }
}
trait Arg { fn arg(&self) -> u32; }
impl Arg for u8 { fn arg(&self) -> u32 { *self as u32 } }
impl Arg for u16 { fn arg(&self) -> u32 { *self as u32 } }
impl Arg for u32 { fn arg(&self) -> u32 { *self } }
impl<T: Arg> Arg for &T { fn arg(&self) -> u32 { (**self).arg() } }

const STRS: [&str; 5] = ["0", "1", "2", "3", "4"];
const SL: [[u32; 2]; 5] = [[0, 1], [1, 2], [2, 3], [3, 4], [4, 5]];
const US: [u32; 5] = [0, 1, 2, 3, 4];
/// Creating a lazy one is not yet a call.  The results of eager ones live on their own
fn start<'a>(m: &'a Mocks, c: C, a: u32) -> Item<'a> {
    match c {
        Na => Item::F(Box::pin(m.a.na(a))),
        NaRef => Item::F(Box::pin(m.a.na_ref(STRS[a as usize], &SL[a as usize]))),
        NaSt => Item::F(Box::pin(MockA::na_st(a))),
        GenA => Item::F(Box::pin(m.a.na_gen(a as u8))),
        GenB => Item::F(Box::pin(m.a.na_gen(a))),
        Rem => Item::F(m.a.rem(a)),
        RemSt => Item::F(MockA::rem_st(a)),
        Tr => Item::F(Box::pin(m.a.tr(a))),
        TrSt => Item::F(Box::pin(MockA::tr_st(a))),
        Au => Item::F(m.au.au(a)),
        AuSt => Item::F(MockAuto::au_st(a)),
        AuGen => Item::F(m.au.au_gen(a as u16)),
        An => Item::F(Box::pin(m.an.an(a))),
        AnRef => Item::F(Box::pin(m.an.an_ref(&US[a as usize]))),
        Re => Item::F(Box::pin(m.re.re(a))),
        Mo => Item::F(Box::pin(mock_md::mo(a))),
        _ => eager(m, c, a),
    }
}
fn eager(m: &Mocks, c: C, a: u32) -> Item<'static> {
    match c {
        Fut => Item::F(Box::pin(m.a.fut(a))),
        FutSt => Item::F(Box::pin(MockA::fut_st(a))),
        Boxed => Item::F(m.a.boxed(a)),
        ReFut => Item::F(Box::pin(m.re.re_fut(a))),
        GfutA => Item::F(Box::pin(m.a.gfut(a as u8))),
        GfutB => Item::F(Box::pin(m.a.gfut(a))),
        Strm => Item::S(Box::pin(m.a.strm(a))),
        Iter => Item::I(Box::new(m.a.iter(a))),
        Show => Item::D(Box::new(m.a.show(a))),
        _ => Item::G(Box::new(m.a.func(a))),
    }
}

/// How a call ends, according to the expectations
#[derive(Debug, PartialEq)]
enum Fate { Val(u64), User(u64), Refused }
fn answer(es: &mut [Exp], c: C, a: u32, spoiled: &mut bool, want: &mut Vec<(u64, u32)>) -> Fate {
    let mut over = false;
    for e in es.iter_mut().filter(|e| e.chan == c && e.key.is_none_or(|k| k == a)) {
        if e.max.is_some_and(|n| e.n >= n) { over = true; continue }
        e.n += 1;
        let k = e.used;
        return match e.prov {
            P::Const => Fate::Val(val(e.id, 0, 0)),
            P::None => Fate::Refused,
            P::Once => { e.used += 1; if k == 0 { want.push((e.id, a)); Fate::Val(val(e.id, a, 0)) } else { Fate::Refused } }
            P::Panic => { want.push((e.id, a)); Fate::User(e.id) }
            _ => { e.used += 1; want.push((e.id, a)); Fate::Val(val(e.id, a, k)) }
        };
    }
    *spoiled |= over;
    Fate::Refused
}

struct Live<'a> { it: Item<'a>, c: C, a: u32,
    /// of an eager one
    val: u64, pend: u32, left: u64, polls: u64, cs: Option<(Arc<AtomicU64>, Arc<AtomicU64>)>, n: u32 }

/// Use one outstanding result a bit; true if it is finished
fn advance(l: &mut Live, es: &mut [Exp], spoiled: &mut bool, want: &mut Vec<(u64, u32)>, m: &mut Mon, away: bool) -> Result<bool, String> {
    let wk = Arc::new(Wk(AtomicU64::new(0)));
    let w: Waker = wk.clone().into();
    let n = l.n;
    let it = &mut l.it;
    let mut go = move || {
        let mut cx = Context::from_waker(&w);
        match it {
            Item::F(f) => run(|| match f.as_mut().poll(&mut cx) { Poll::Ready(v) => v * 2 + 1, Poll::Pending => 0 }),
            Item::S(s) => run(|| match s.as_mut().poll_next(&mut cx) { Poll::Ready(Some(v)) => v * 4 + 1, Poll::Ready(None) => 3, Poll::Pending => 0 }),
            Item::I(i) => run(|| match i.next() { Some(v) => v * 4 + 1, None => 3 }),
            Item::D(d) => run(|| { let s = d.to_string(); s[1..s.len() - 1].parse::<u64>().unwrap() }),
            Item::G(g) => run(|| g(n as u64)),
        }
    };
    let end = if away { m.count("polls_on_other_threads"); std::thread::scope(|s| s.spawn(go).join().unwrap()) } else { go() };
    m.count("polls");
    l.n += 1;
    if l.c.lazy() {
        return match (answer(es, l.c, l.a, spoiled, want), end) {
            (Fate::Val(v), End::Val(x)) if x == v * 2 + 1 => { m.count("calls_answered"); Ok(true) }
            (Fate::User(v), End::User(x)) if x == v => { m.count("user_panics"); Ok(true) }
            (Fate::Refused, End::Msg(_)) => { m.count("calls_refused"); Ok(true) }
            (f, e) => Err(vh::mon::failed(format!("first poll of {:?}({}): {f:?} expected, {e:?} observed (results 2v+1, 0 is pending)", l.c, l.a))),
        };
    }
    l.polls += 1;
    let pending = l.pend > 0 && matches!(l.c, Fut | FutSt | Boxed | ReFut | GfutA | GfutB | Strm);
    if pending { l.pend -= 1 }
    let (expected, done) = match l.c {
        _ if pending => (0, false),
        Strm | Iter => if l.left == 0 { (3, true) } else { l.left -= 1; ((l.val + l.left) * 4 + 1, false) },
        Show => (l.val, n >= 2),
        Func => (l.val + n as u64, n >= 3),
        _ => (l.val * 2 + 1, true),
    };
    same!(end, End::Val(expected), "use {n} of the result of {:?}({})", l.c, l.a);
    let cs = l.cs.as_ref().unwrap();
    same!(cs.0.load(SeqCst), l.polls, "uses that reached the result of {:?}", l.c);
    same!(cs.1.load(SeqCst), 0, "drops of the outstanding result of {:?}", l.c);
    if matches!(l.it, Item::F(_) | Item::S(_)) { same!(wk.0.load(SeqCst), 1, "wake-ups through the waker of {:?}", l.c) }
    Ok(done)
}

fn drop_it(l: Live, m: &mut Mon, away: bool) -> Verdict {
    let Live { it, cs, c, .. } = l;
    let e = if away { std::thread::scope(|s| s.spawn(|| run(|| { drop(it); 0 })).join().unwrap()) } else { run(|| { drop(it); 0 }) };
    same!(e, End::Val(0), "drop of a result of {c:?}");
    if let Some(cs) = cs { same!(cs.1.load(SeqCst), 1, "drops of what the closure returned for {c:?}") }
    m.count("results_dropped");
    Ok(())
}

fn schedule(r: &mut Rng, m: &mut Mon) -> Verdict {
    runs();
    STEPS_LIVE.store(0, SeqCst);
    let mut mk = Mocks { a: MockA::new(), au: MockAuto::new(), an: MockAutoNat::new(), re: MockReal::new() };
    let ctx = Ctxs { na_st: MockA::na_st_context(), fut_st: MockA::fut_st_context(), rem_st: MockA::rem_st_context(),
        tr_st: MockA::tr_st_context(), au_st: MockAuto::au_st_context(), mo: mock_md::mo_context() };
    let cs: Counters = Default::default();
    let mut all: Vec<C> = LAZY.iter().chain(&EAGER).copied().collect();
    r.shuffle(&mut all);
    all.truncate(r.range(1, 5));
    let mut es: Vec<Exp> = vec![];
    let mut st = false;
    for i in 0..r.range(1, 8) {
        let c = *r.pick(&all);
        let prov = match r.below(12) { 0..=2 if c.lazy() => P::Const, 3 | 4 => P::Once, 5 => P::None, 6 => P::Panic, 7 => P::FnSt, _ => P::Fn };
        let x = Exp { chan: c, id: i as u64 + 1, key: if r.chance(2, 3) { Some(r.below(4) as u32) } else { None }, how: r.below(3),
            max: match r.below(3) { 0 => None, _ => Some(r.range(0, 4)) }, prov, n: 0, used: 0 };
        let x = if c == Func && x.how == 0 { Exp { how: 1, ..x } } else { x };
        // single-thread ones must be polled here
        if (x.how == 2 && x.key.is_some() && c != NaRef) || (prov == P::FnSt && c != NaRef) { st = true }
        m.op(format!("expect {c:?} {x:?}"));
        m.note("setups", &format!("{c:?}/{prov:?}"));
        expect(&mut mk, &ctx, &x, &cs);
        es.push(x);
    }
    let mut spoiled = false;
    let mut want = vec![];
    let mut after: Vec<Live<'static>> = vec![];
    {
        let mk = &mk;
        let mut live: Vec<Live> = vec![];
        for _ in 0..r.range(5, 60) {
            match r.below(10) {
                0..=3 => {
                    let c = *r.pick(&all);
                    let a = r.below(5) as u32;
                    m.op(format!("start {c:?}({a})"));
                    if c.lazy() {
                        live.push(Live { it: start(mk, c, a), c, a, val: 0, pend: 0, left: 0, polls: 0, cs: None, n: 0 });
                        m.count("lazy_started");
                    } else {
                        let mut it = None;
                        let end = run(|| { it = Some(eager(mk, c, a)); 0 });
                        let f = answer(&mut es, c, a, &mut spoiled, &mut want);
                        match (f, end) {
                            (Fate::Val(v), End::Val(_)) => {
                                let x = cs.lock().unwrap_or_else(|e| e.into_inner()).pop();
                                ensure!(x.is_some(), "the result of {c:?}({a}) was not made by the closure");
                                let l = Live { it: it.unwrap(), c, a, val: v, pend: (v % 5) as u32, left: v % 4, polls: 0, cs: x, n: 0 };
                                if r.chance(1, 4) { after.push(l) } else { live.push(l) }
                                m.count("calls_answered");
                            }
                            (Fate::User(v), End::User(x)) if v == x => m.count("user_panics"),
                            (Fate::Refused, End::Msg(_)) => m.count("calls_refused"),
                            (f, e) => return Err(vh::mon::failed(format!("call of {c:?}({a}): {f:?} expected, {e:?} observed"))),
                        }
                    }
                }
                4..=7 if !live.is_empty() => {
                    let i = r.below(live.len());
                    let l = live.swap_remove(i);
                    // it is moved about between its polls
                    let mut l = Box::new(l);
                    m.op(format!("poll {:?}({})", l.c, l.a));
                    let away = !st && r.chance(1, 12);
                    if advance(&mut l, &mut es, &mut spoiled, &mut want, m, away)? {
                        drop_it(*l, m, false)?;
                    } else {
                        live.push(*l);
                    }
                }
                8 if !live.is_empty() => {
                    let i = r.below(live.len());
                    let l = live.swap_remove(i);
                    m.op(format!("drop {:?}({}) after {} polls", l.c, l.a, l.n));
                    m.count(if l.n == 0 { "dropped_unpolled" } else { "dropped_in_between" });
                    drop_it(l, m, r.chance(1, 12))?;
                }
                _ if live.len() > 1 => {
                    let (i, j) = (r.below(live.len()), r.below(live.len()));
                    live.swap(i, j);
                }
                _ => {}
            }
            same!(runs(), want, "closure invocations (expectation, argument)");
            want.clear();
            m.counters.entry("most_outstanding".into()).and_modify(|x| *x = (*x).max(live.len() as u64)).or_insert(0);
        }
        if r.chance(1, 3) {
            for l in live { drop_it(l, m, false)? }
        } else {
            r.shuffle(&mut live);
            for mut l in live {
                while !advance(&mut l, &mut es, &mut spoiled, &mut want, m, false)? {}
                drop_it(l, m, false)?;
            }
        }
    }
    same!(runs(), want, "closure invocations (expectation, argument)");
    let met = |sel: &dyn Fn(C) -> bool| es.iter().filter(|e| sel(e.chan)).all(|e| e.max.is_none_or(|n| e.n == n));
    let is_st = |c: C| matches!(c, NaSt | FutSt | RemSt | TrSt | AuSt | Mo);
    if spoiled {
        same!(run(|| { let _x = (mk, ctx); panic_any(Marker) }), End::Marker, "teardown while unwinding");
    } else {
        let okm = met(&|c| !is_st(c));
        let e = run(|| { drop(mk); 0 });
        ensure!(matches!(e, End::Val(_)) == okm, "verification of the objects: success {okm} expected, but {e:?}");
        let Ctxs { na_st, fut_st, rem_st, tr_st, au_st, mo } = ctx;
        let ends = [run(|| { drop(na_st); 0 }), run(|| { drop(fut_st); 0 }), run(|| { drop(rem_st); 0 }), run(|| { drop(tr_st); 0 }), run(|| { drop(au_st); 0 }), run(|| { drop(mo); 0 })];
        for (e, c) in ends.iter().zip([NaSt, FutSt, RemSt, TrSt, AuSt, Mo]) {
            let ok = met(&|x| x == c);
            ensure!(matches!(e, End::Val(_)) == ok, "verification of {c:?}: success {ok} expected, but {e:?}");
        }
        m.count("verifications");
    }
    // results that outlive their mock
    for mut l in after {
        m.count("used_after_the_mock_is_gone");
        while !advance(&mut l, &mut [], &mut spoiled, &mut want, m, false)? {}
        drop_it(l, m, false)?;
    }
    same!(STEPS_LIVE.load(SeqCst), 0, "results still alive at the end");
    Ok(())
}

fn poll_once<F: Future<Output = u64> + ?Sized>(f: Pin<&mut F>) -> End {
    let w: Waker = Arc::new(Wk(AtomicU64::new(0))).into();
    run(|| match f.poll(&mut Context::from_waker(&w)) { Poll::Ready(v) => v, Poll::Pending => u64::MAX })
}

/// Exclusive and consuming receivers; sequences by order of polling
fn exclusive(r: &mut Rng, m: &mut Mon) -> Verdict {
    let kind = r.below(5);
    match kind {
        0 | 1 => {
            // &mut self: one outstanding future at a time
            let mut a = MockA::new();
            let mut exp: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
            for i in 0..3 {
                if r.chance(2, 3) {
                    let n = r.range(0, 4);
                    exp.insert(i, (n, 0));
                    match i {
                        0 => { a.expect_na_mut().times(n).returning(|x| x as u64 + 10); }
                        1 => { a.expect_rem_mut().times(n).returning(|x| x as u64 + 11); }
                        _ => { a.expect_tr_mut().times(n).return_const(12u64); }
                    }
                }
            }
            m.op(format!("&mut: {exp:?}"));
            let mut over = false;
            for _ in 0..r.range(1, 12) {
                let i = r.below(3);
                let polled = r.chance(2, 3);
                m.op(format!("{i} polled {polled}"));
                let mut f: Pin<Box<dyn Future<Output = u64>>> = match i { 0 => Box::pin(a.na_mut(5)), 1 => a.rem_mut(5), _ => Box::pin(a.tr_mut(5)) };
                if !polled { drop(f); m.count("dropped_unpolled"); continue }
                let e = poll_once(f.as_mut());
                drop(f);
                match exp.get_mut(&i) {
                    Some((n, k)) if *k < *n => { *k += 1; same!(e, End::Val([15, 16, 12][i]), "result of method {i}"); m.count("calls_answered"); }
                    x => { over |= x.is_some(); ensure!(matches!(&e, End::Msg(_)), "call of {i} must be refused, but {e:?}"); m.count("calls_refused"); }
                }
            }
            if over { same!(run(|| { let _a = a; panic_any(Marker) }), End::Marker, "teardown"); return Ok(()) }
            let ok = exp.values().all(|(n, k)| n == k);
            let e = run(|| { drop(a); 0 });
            ensure!(matches!(e, End::Val(_)) == ok, "verification: success {ok} expected, but {e:?}");
            m.count("verifications");
        }
        2 => {
            // by value: the future owns the mock
            let mut a = MockA::new();
            let n = r.range(0, 3);
            let other = r.chance(1, 4);
            if n > 0 { a.expect_na_own().times(n).returning(|x| x as u64 + 1); }
            if other { a.expect_na().times(1).return_const(1u64); }
            let polled = r.chance(1, 2);
            m.op(format!("by value: times {n}, other unmet {other}, polled {polled}"));
            let mut f = Box::pin(a.na_own(3));
            let mut called = 0;
            if polled {
                let e = poll_once(f.as_mut());
                if n == 0 || n > 1 || other { ensure!(matches!(&e, End::Msg(_)), "times {n}, another unmet: {other}; but {e:?}"); m.count("calls_refused"); }
                else { same!(e, End::Val(4), "result"); m.count("calls_answered"); }
                called = 1;
            }
            let e = run(|| { drop(f); 0 });
            let ok = called == 1 || (n == 0 && !other);
            ensure!(matches!(e, End::Val(_)) == ok, "drop of the future (polled {polled}): success {ok} expected, but {e:?}");
            m.count("verifications");
        }
        3 => {
            // calls happen when first polled, and sequences see them so
            let n = r.range(2, 6);
            let mut a = MockA::new();
            let mut seq = Sequence::new();
            let kinds: Vec<usize> = (0..n).map(|_| r.below(4)).collect();
            for (i, k) in kinds.iter().enumerate() {
                let i = i as u32;
                match k {
                    0 => { a.expect_na().with(eq(i)).times(1).in_sequence(&mut seq).returning(|x| x as u64); }
                    1 => { a.expect_rem().with(eq(i)).times(1).in_sequence(&mut seq).returning(|x| x as u64); }
                    2 => { a.expect_tr().with(eq(i)).times(1).in_sequence(&mut seq).returning(|x| x as u64); }
                    _ => { a.expect_na_gen::<u32>().with(eq(i)).times(1).in_sequence(&mut seq).returning(|x| x as u64); }
                }
            }
            drop(seq);
            let mut order: Vec<usize> = (0..n).collect();
            r.shuffle(&mut order);
            m.op(format!("sequence {kinds:?} created as {order:?}"));
            let wrong = if r.chance(1, 3) { Some(r.range(0, n - 1)) } else { None };
            let res: Verdict = (|| {
                let mut fs: Vec<Option<Pin<Box<dyn Future<Output = u64> + '_>>>> = (0..n).map(|_| None).collect();
                for i in order {
                    let x = i as u32;
                    fs[i] = Some(match kinds[i] { 0 => Box::pin(a.na(x)), 1 => a.rem(x), 2 => Box::pin(a.tr(x)), _ => Box::pin(a.na_gen(x)) });
                }
                for i in 0..n {
                    if wrong == Some(i) && i + 1 < n {
                        let j = r.range(i + 1, n);
                        let e = poll_once(fs[j].as_mut().unwrap().as_mut());
                        ensure!(matches!(&e, End::Msg(_)), "member {j} polled while {i} is next: {e:?}");
                        m.count("calls_refused");
                        return Ok(());
                    }
                    same!(poll_once(fs[i].as_mut().unwrap().as_mut()), End::Val(i as u64), "member {i} in order");
                    m.count("calls_answered");
                }
                Ok(())
            })();
            res?;
            if wrong.is_some_and(|i| i + 1 < n) { same!(run(|| { let _a = a; panic_any(Marker) }), End::Marker, "teardown"); return Ok(()) }
            same!(run(|| { drop(a); 0 }), End::Val(0), "verification of a completed sequence");
            m.count("verifications");
        }
        _ => {
            // mocks that are futures and streams themselves
            let n = r.range(0, 5);
            let wk = Arc::new(Wk(AtomicU64::new(0)));
            let w: Waker = wk.clone().into();
            let mut cx = Context::from_waker(&w);
            m.op(format!("mock of a future/stream, {n} pending"));
            if r.chance(1, 2) {
                let mut f = MockF::new();
                let mut q = Sequence::new();
                if n > 0 { f.expect_poll().times(n).in_sequence(&mut q).returning(|cx| { cx.waker().wake_by_ref(); Poll::Pending }); }
                f.expect_poll().times(1).in_sequence(&mut q).return_const(Poll::Ready(99));
                let mut f = Box::pin(f);
                for _ in 0..n { same!(f.as_mut().poll(&mut cx), Poll::Pending, "poll") }
                same!(wk.0.load(SeqCst), n as u64, "wake-ups");
                same!(f.as_mut().poll(&mut cx), Poll::Ready(99), "last poll");
                same!(run(|| { drop(f); 0 }), End::Val(0), "verification");
            } else {
                let mut s = MockS::new();
                let mut k = 0;
                s.expect_poll_next().times(2 * n + 1).returning(move |cx| { k += 1; cx.waker().wake_by_ref(); if k > 2 * n { Poll::Ready(None) } else if k % 2 == 1 { Poll::Pending } else { Poll::Ready(Some(k as u64)) } });
                let mut s = Box::pin(s);
                let mut got = vec![];
                loop { match s.as_mut().poll_next(&mut cx) { Poll::Pending => {} Poll::Ready(None) => break, Poll::Ready(Some(x)) => got.push(x) } }
                same!(got, (1..=n as u64).map(|i| 2 * i).collect::<Vec<_>>(), "items of a mocked stream");
                same!(wk.0.load(SeqCst), 2 * n as u64 + 1, "wake-ups");
                same!(run(|| { drop(s); 0 }), End::Val(0), "verification");
            }
            m.add("calls_answered", n as u64 + 1);
            m.count("verifications");
        }
    }
    Ok(())
}

fn main() {
    vh::mon::drive(&[("schedule", schedule), ("exclusive", exclusive)])
}
