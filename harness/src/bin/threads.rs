//! C12: where closures run, and what may cross threads.
#![allow(dead_code)]
use mockall::predicate::{eq, function};
use mockall::*;
use std::cell::{Cell, RefCell};
use std::ffi::CStr;
use std::future::Future;
use std::path::Path;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Mutex, RwLock};
use std::thread::ThreadId;
use vh::mon::{Mon, Verdict};
use vh::rng::Rng;
use vh::spec::{run, End, UserPanic};
use vh::{ensure, same};

// ---- definitions whose mocks must be Send, or Sync, whatever their methods mention ----
pub trait Marker0 {}
#[automock(type As=Rc<u8>;)]
pub trait Wide {
    type As;
    fn plain(&self, x: u32) -> u32;
    fn rc(&self, x: Rc<u32>) -> Rc<u32>;
    fn cell(&mut self, x: &Cell<u8>, y: RefCell<String>) -> Cell<u8>;
    fn raw(&self, p: *const u8) -> *mut u8;
    fn dynarg(&self, x: &dyn Marker0, y: Box<dyn Marker0>) -> Box<dyn Marker0>;
    fn gen<T: 'static>(&self, x: T) -> T;
    fn gen2<A: 'static, B: 'static + Clone>(&mut self, x: A, y: &B) -> (A, B);
    fn rf(&self, x: u32) -> &u64;
    fn rs(&self) -> &str;
    fn rp(&self) -> &Path;
    fn rc_str(&self) -> &CStr;
    fn rsl(&self) -> &[String];
    fn rm(&mut self, x: Rc<u8>) -> &mut u64;
    fn st(&self) -> &'static str;
    fn assoc(&self, x: Self::As) -> Self::As;
    fn life<'a>(&self, x: &'a Rc<str>) -> u8;
    fn fut(&self) -> Pin<Box<dyn Future<Output = Rc<u8>>>>;
    fn unit(&self);
    fn five(&self, a: Rc<u8>, b: &str, c: &[Rc<u8>], d: Option<Rc<u8>>, e: (u8, Rc<u8>));
    fn fnptr(&self, f: fn(Rc<u8>) -> u8);
    fn stat(x: Rc<u8>) -> Rc<u8>;
    fn statg<T: 'static>(x: T) -> T;
}
mock! {
    pub Gs<T: 'static, U: Clone + 'static> {
        fn a(&self, t: T) -> U;
        fn b(&mut self, u: &U) -> T;
        fn g<Q: 'static>(&self, t: T, q: Q) -> U;
        fn s(t: T) -> U;
    }
    impl<T: 'static, U: Clone + 'static> Clone for Gs<T, U> { fn clone(&self) -> Self; }
    impl<T: 'static, U: Clone + 'static> Marker0 for Gs<T, U> {}
}
mock! { pub Ref<T: 'static> { fn r(&self) -> &T; fn m(&mut self) -> &mut T; } }
#[automock]
pub mod amod { pub fn f(x: std::rc::Rc<u8>) -> std::rc::Rc<u8> { x } pub fn g<T: 'static>(t: T) -> T { t } }

fn is_send<T: Send>() -> u64 { 1 }
fn is_sync<T: Sync>() -> u64 { 1 }
fn assertions() -> u64 {
    is_send::<MockWide>() + is_sync::<MockWide>()
        + is_send::<MockGs<u8, u8>>() + is_sync::<MockGs<u8, u8>>()
        + is_send::<MockGs<Cell<u8>, RefCell<u8>>>()
        // stored values must allow it
        + is_send::<MockRef<u8>>() + is_sync::<MockRef<u8>>() + is_send::<MockRef<Cell<u8>>>()
        + is_send::<Sequence>() + is_sync::<Sequence>()
        + is_send::<MockT>() + is_sync::<MockT>()
        + is_send::<__mock_MockWide_Wide::__stat::Context>()
        + is_send::<mock_amod::__f::Context>() + is_send::<mock_amod::__g::Context>()
        + is_send::<__mock_MockGs::__s::Context<Rc<u8>, Rc<u8>>>()
}

// ---- the mock under observation ----
#[automock]
pub trait T {
    fn val(&self, x: u32) -> u64;
    fn rc(&self, x: u32) -> Rc<u64>;
    fn gen<G: 'static + From<u8>>(&self, x: u32) -> G;
    fn mt(&mut self, x: u32) -> &mut u64;
    fn rf(&self, x: u32) -> &u64;
    fn st(x: u32) -> u64;
    fn stg<G: 'static + Into<u64>>(x: G) -> u64;
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum P { Const, ConstSt, Fn, FnSt, Once, OnceSt }
#[derive(Clone, Copy, Debug, PartialEq)]
enum M { Any, With, F, St }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum C { Val, Rc, Gen, Mt, Rf, St, Stg }
#[derive(Clone, Debug)]
struct E { chan: C, owner: usize, mat: M, accepts: u32, prov: P, max: Option<usize>, n: usize, val: u64, used: bool }

type Job = Box<dyn FnOnce() + Send>;
struct Actor { tx: mpsc::Sender<Job>, id: ThreadId, h: Option<std::thread::JoinHandle<()>> }
impl Actor {
    fn new() -> Self {
        let (tx, rx) = mpsc::channel::<Job>();
        let h = std::thread::spawn(move || { for j in rx { j() } });
        let id = h.thread().id();
        Actor { tx, id, h: Some(h) }
    }
    fn on<R: Send + 'static, F: FnOnce() -> R + Send + 'static>(&self, f: F) -> R {
        let (tx, rx) = mpsc::channel();
        self.tx.send(Box::new(move || { let _ = tx.send(f()); })).unwrap();
        rx.recv().expect("actor died")
    }
}
impl Drop for Actor {
    fn drop(&mut self) {
        let (tx, _) = mpsc::channel();
        self.tx = tx;
        if let Some(h) = self.h.take() { let _ = h.join(); }
    }
}

static RAN: AtomicU64 = AtomicU64::new(0);
static WRONG: Mutex<Option<String>> = Mutex::new(None);
fn ran(what: &str, id: u64, owner: Option<ThreadId>, caller: &'static str) {
    RAN.fetch_add(1, SeqCst);
    let me = std::thread::current().id();
    if let Some(o) = owner {
        if o != me {
            *WRONG.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("single-thread {what} {id} of {o:?} ran on {me:?} {caller}"));
        }
    }
}

type Sh = Arc<RwLock<Option<MockT>>>;
type Cx = Arc<Mutex<Option<(__mock_MockT_T::__st::Context, __mock_MockT_T::__stg::Context)>>>;

macro_rules! set_mat {
    ($e:ident, $x:expr, $own:expr, $deref:expr) => {{
        let (acc, own, id) = ($x.accepts, $own, $x.val);
        match $x.mat {
            M::Any => {}
            M::With => { $e.with(function(move |v| $deref(v) == acc)); }
            M::F => { $e.withf(move |v| { ran("", id, None, ""); $deref(v) == acc }); }
            M::St => { let rc = Rc::new(acc); $e.withf_st(move |v| { ran("matcher", id, Some(own), ""); $deref(v) == *rc }); }
        }
        if let Some(n) = $x.max { $e.times(n); }
    }};
}
macro_rules! set_prov {
    ($e:ident, $x:expr, $own:expr, $w:expr) => {{
        let (v, own) = ($x.val, $own);
        match $x.prov {
            P::Const | P::ConstSt => { $e.return_const_st($w(v)); }
            P::Fn => { $e.returning(move |_| { ran("", v, None, ""); $w(v) }); }
            P::FnSt => { let rc = Rc::new(Cell::new(v)); $e.returning_st(move |_| { ran("closure", v, Some(own), ""); rc.set(rc.get() + 0); $w(rc.get()) }); }
            P::Once => { $e.return_once(move |_| { ran("", v, None, ""); $w(v) }); }
            P::OnceSt => { let rc = Rc::new(v); $e.return_once_st(move |_| { ran("once", v, Some(own), ""); $w(*rc) }); }
        }
    }};
}

fn expect(sh: &Sh, cx: &Cx, x: &E, own: ThreadId) {
    let mut g = sh.write().unwrap_or_else(|e| e.into_inner());
    let m = g.as_mut().unwrap();
    let d = |v: &u32| *v;
    match x.chan {
        C::Val => {
            let e = m.expect_val();
            set_mat!(e, x, own, d);
            if x.prov == P::Const { e.return_const(x.val); } else { set_prov!(e, x, own, |v| v) }
        }
        C::Rc => { let e = m.expect_rc(); set_mat!(e, x, own, d); set_prov!(e, x, own, Rc::new) }
        C::Gen => { let e = m.expect_gen::<u64>(); set_mat!(e, x, own, d);
            if x.prov == P::Const { e.return_const(x.val); } else { set_prov!(e, x, own, |v| v) } }
        C::Mt => {
            let e = m.expect_mt();
            set_mat!(e, x, own, d);
            let v = x.val;
            match x.prov {
                P::FnSt | P::OnceSt | P::ConstSt => { let rc = Rc::new(v); e.returning_st(move |_| { ran("closure", v, Some(own), ""); *rc }); }
                P::Fn | P::Once => { e.returning(move |_| { ran("", v, None, ""); v }); }
                P::Const => { e.return_var(v); }
            }
        }
        C::Rf => { let e = m.expect_rf(); set_mat!(e, x, own, d); e.return_const(x.val); }
        C::St => {
            let c = cx.lock().unwrap_or_else(|e| e.into_inner());
            let mut e = c.as_ref().unwrap().0.expect();
            let e = e.times(..);
            set_mat!(e, x, own, d);
            if x.prov == P::Const { e.return_const(x.val); } else { set_prov!(e, x, own, |v| v) }
        }
        C::Stg => {
            let c = cx.lock().unwrap_or_else(|e| e.into_inner());
            let mut e = c.as_ref().unwrap().1.expect::<u32>();
            let e = e.times(..);
            set_mat!(e, x, own, d);
            if x.prov == P::Const { e.return_const(x.val); } else { set_prov!(e, x, own, |v| v) }
        }
    }
}
fn call(sh: &Sh, c: C, x: u32) -> End {
    match c {
        C::Val => { let g = sh.read().unwrap_or_else(|e| e.into_inner()); run(|| g.as_ref().unwrap().val(x)) }
        C::Rc => { let g = sh.read().unwrap_or_else(|e| e.into_inner()); run(|| *g.as_ref().unwrap().rc(x)) }
        C::Gen => { let g = sh.read().unwrap_or_else(|e| e.into_inner()); run(|| g.as_ref().unwrap().gen::<u64>(x)) }
        C::Mt => { let mut g = sh.write().unwrap_or_else(|e| e.into_inner()); run(|| *g.as_mut().unwrap().mt(x)) }
        C::Rf => { let g = sh.read().unwrap_or_else(|e| e.into_inner()); run(|| *g.as_ref().unwrap().rf(x)) }
        C::St => run(|| MockT::st(x)),
        C::Stg => run(|| MockT::stg(x)),
    }
}
/// Does the provider belong to its thread?
fn bound(e: &E) -> bool {
    match e.chan {
        C::Rf => false,
        C::Mt => matches!(e.prov, P::FnSt | P::OnceSt | P::ConstSt),
        // return_const_st and, for Rc, every constant
        C::Rc => matches!(e.prov, P::Const | P::ConstSt | P::FnSt | P::OnceSt),
        _ => matches!(e.prov, P::ConstSt | P::FnSt | P::OnceSt),
    }
}
fn once(e: &E) -> bool { !matches!(e.chan, C::Mt | C::Rf) && matches!(e.prov, P::Once | P::OnceSt) }

/// Sequential histories over several threads
fn history(r: &mut Rng, m: &mut Mon) -> Verdict {
    thread_local! { static ACTORS: Vec<Actor> = (0..3).map(|_| Actor::new()).collect(); }
    ACTORS.with(|a| history1(r, m, a))
}
fn history1(r: &mut Rng, m: &mut Mon, actors: &[Actor]) -> Verdict {
    *WRONG.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let owner = r.below(actors.len());
    let sh: Sh = Arc::new(RwLock::new(None));
    let cx: Cx = Arc::new(Mutex::new(None));
    {
        // created here or there
        let (s, c) = (sh.clone(), cx.clone());
        let t = r.below(actors.len() + 1);
        let f = move || {
            *s.write().unwrap_or_else(|e| e.into_inner()) = Some(MockT::new());
            *c.lock().unwrap_or_else(|e| e.into_inner()) = Some((MockT::st_context(), MockT::stg_context()));
        };
        if t == actors.len() { f() } else { actors[t].on(f) }
        m.op(format!("created on {t}; single-thread closures belong to {owner}"));
    }
    let all = [C::Val, C::Rc, C::Gen, C::Mt, C::Rf, C::St, C::Stg];
    let mut chans: Vec<C> = all.to_vec();
    r.shuffle(&mut chans);
    chans.truncate(r.range(1, 4));
    let mut es: Vec<E> = vec![];
    let mut next = r.next() >> 16;
    let mut any_st = false;
    for _ in 0..r.range(10, 50) {
        let c = *r.pick(&chans);
        if r.chance(1, 4) || !es.iter().any(|e| e.chan == c) {
            next += 1;
            let st = r.chance(1, 2);
            let x = E {
                chan: c,
                owner: if st { owner } else { r.below(actors.len()) },
                mat: *r.pick(if st { &[M::Any, M::With, M::F, M::St, M::St, M::St] } else { &[M::Any, M::With, M::With, M::F] }),
                accepts: r.below(3) as u32,
                prov: *r.pick(if st { &[P::Const, P::ConstSt, P::FnSt, P::FnSt, P::OnceSt, P::Fn, P::Once][..] } else if c == C::Rc { &[P::Fn, P::Once] } else { &[P::Const, P::Fn, P::Once] }),
                max: if r.chance(1, 3) { Some(r.range(1, 4)) } else { None },
                n: 0,
                val: next,
                used: false,
            };
            // what stays on one thread must be of the owner's
            if !st && (bound(&x) || x.mat == M::St) { continue }
            any_st |= bound(&x) || x.mat == M::St;
            m.op(format!("on {}: {x:?}", x.owner));
            let (s, k, y) = (sh.clone(), cx.clone(), x.clone());
            let own = actors[x.owner].id;
            actors[x.owner].on(move || expect(&s, &k, &y, own));
            m.note("setups", &format!("{:?}/{:?}/{:?}", x.chan, x.mat, x.prov));
            es.push(x);
        } else {
            let t = if r.chance(1, 2) { owner } else { r.below(actors.len()) };
            let x = r.below(3) as u32;
            // predict
            let mut want = None;
            let mut wrong = false;
            let mut skip = false;
            let mut hit = None;
            for (i, e) in es.iter().enumerate().filter(|(_, e)| e.chan == c) {
                let full = e.max.is_some_and(|n| e.n >= n);
                if e.mat == M::St && t != e.owner {
                    // is a saturated expectation's matcher needed?  Not said
                    if full { skip = true }
                    wrong = true;
                    break;
                }
                if e.mat != M::Any && e.accepts != x { continue }
                if full { continue }
                hit = Some(i);
                break;
            }
            if skip { continue }
            let none = hit.is_none() && !wrong;
            if none && es.iter().any(|e| e.chan == c && e.max.is_some_and(|n| e.n >= n)) {
                // would overcall somebody
                continue;
            }
            let before = RAN.load(SeqCst);
            let mut provider = false;
            if let Some(i) = hit {
                let e = &mut es[i];
                e.n += 1;
                if once(e) && e.used {
                    want = Some(Err(()));
                } else if bound(e) && t != e.owner {
                    want = Some(Err(()));
                    wrong = true;
                } else {
                    want = Some(Ok(e.val));
                    provider = true;
                    e.used = true;
                }
            }
            let s = sh.clone();
            let got = actors[t].on(move || call(&s, c, x));
            m.op(format!("on {t}: {c:?}({x}) -> {got:?}"));
            m.count("calls");
            match (&want, &got) {
                (Some(Ok(v)), End::Val(g)) => {
                    same!(g, v, "value of {c:?}({x}) on thread {t}");
                    m.count(if es[hit.unwrap()].owner == t { "answered_on_owner" } else { "answered_on_other_threads" });
                }
                (Some(Err(())) | None, End::Msg(_)) => m.count(if wrong { "wrong_thread_refused" } else { "otherwise_refused" }),
                _ => return Err(vh::mon::failed(format!("{c:?}({x}) on thread {t}: {want:?} (wrong thread: {wrong}) expected, but {got:?}"))),
            }
            let _ = (before, provider);
            let w = WRONG.lock().unwrap_or_else(|e| e.into_inner()).take();
            ensure!(w.is_none(), "{}", w.unwrap());
        }
    }
    let ok_obj = es.iter().filter(|e| !matches!(e.chan, C::St | C::Stg)).all(|e| e.max.is_none_or(|n| e.n == n));
    let ok_st = es.iter().filter(|e| matches!(e.chan, C::St | C::Stg)).all(|e| e.max.is_none_or(|n| e.n == n));
    // verified on the owner, or anywhere if nothing is bound to a thread
    let t = if any_st { owner } else { r.below(actors.len()) };
    if any_st && r.chance(1, 4) {
        // on a foreign thread which is unwinding: whatever else, no abort
        let t = (owner + 1) % actors.len();
        m.op(format!("dropped by unwinding on {t}"));
        let g = actors[t].on(move || {
            let o = sh.write().unwrap_or_else(|e| e.into_inner()).take();
            let c = cx.lock().unwrap_or_else(|e| e.into_inner()).take();
            run(move || { let _x = (o, c); std::panic::panic_any(UserPanic(3)) })
        });
        same!(g, End::User(3), "payload");
        m.count("foreign_unwinding_drops");
        return Ok(());
    }
    let (a, b) = actors[t].on(move || {
        let o = sh.write().unwrap_or_else(|e| e.into_inner()).take();
        let c = cx.lock().unwrap_or_else(|e| e.into_inner()).take();
        (run(|| { drop(o); 0 }), run(|| { drop(c); 0 }))
    });
    ensure!(matches!(a, End::Val(_)) == ok_obj, "object dropped on {t}: success {ok_obj} expected, but {a:?}");
    ensure!(matches!(b, End::Val(_)) == ok_st, "contexts dropped on {t}: success {ok_st} expected, but {b:?}");
    m.count("verifications");
    m.add("send_sync_assertions", assertions());
    Ok(())
}

/// Real concurrency: the owner and others call at once
fn race(r: &mut Rng, m: &mut Mon) -> Verdict {
    *WRONG.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let me = std::thread::current().id();
    let kind = r.below(4);
    let n = r.range(5, 40);
    let mut mk = MockT::new();
    let ctx = MockT::st_context();
    let count = Rc::new(Cell::new(0u64));
    let k = count.clone();
    m.op(format!("race kind {kind}, {n} calls per thread"));
    m.sig(r.next());
    match kind {
        0 => { mk.expect_val().returning_st(move |_| { ran("closure", 0, Some(me), ""); k.set(k.get() + 1); 5 }); }
        1 => { mk.expect_val().withf_st(move |_| { ran("matcher", 0, Some(me), ""); k.set(k.get() + 1); true }).return_const(5u64); }
        2 => { mk.expect_val().with(eq(0)).returning_st(move |_| { ran("closure", 0, Some(me), ""); k.set(k.get() + 1); 5 });
               mk.expect_val().with(eq(1)).returning(|_| 5); }
        _ => { ctx.expect().returning_st(move |_| { ran("closure", 0, Some(me), ""); k.set(k.get() + 1); 5 }); }
    }
    let mk = Arc::new(mk);
    let go = Arc::new(std::sync::Barrier::new(3));
    let hs: Vec<_> = (0..2).map(|_| {
        let (mk, go) = (mk.clone(), go.clone());
        std::thread::spawn(move || {
            go.wait();
            let (mut ok, mut bad) = (0, 0);
            for _ in 0..n {
                let x = if kind == 2 { 1 } else { 0 };
                match if kind == 3 { run(|| MockT::st(x)) } else { run(|| mk.val(x)) } {
                    End::Val(5) => ok += 1,
                    End::Msg(_) => bad += 1,
                    e => panic!("{e:?}"),
                }
            }
            (ok, bad)
        })
    }).collect();
    go.wait();
    let mut ok = 0;
    let mut first = None;
    for _ in 0..n {
        match if kind == 3 { run(|| MockT::st(0)) } else { run(|| mk.val(0)) } {
            End::Val(5) => ok += 1,
            e => first = Some(e),
        }
    }
    let res: Vec<(usize, usize)> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    let w = WRONG.lock().unwrap_or_else(|e| e.into_inner()).take();
    ensure!(w.is_none(), "{}", w.unwrap());
    ensure!(ok == n, "the owner's calls are disturbed by others: {ok} of {n} succeeded; {first:?}");
    same!(count.get(), n as u64, "runs of the single-thread closure");
    for (o, b) in res {
        if kind == 2 { same!(o, n, "calls that need no single-thread closure"); } else { same!(b, n, "refused calls of another thread"); }
        m.add("wrong_thread_refused", b as u64);
    }
    m.add("calls", 3 * n as u64);
    let e = run(|| { drop(mk); drop(ctx); 0 });
    same!(e, End::Val(0), "verification");
    Ok(())
}

fn main() {
    vh::mon::drive(&[("history", history), ("race", race)])
}
