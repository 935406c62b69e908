//! C05: Contexts that are dropped, while unwinding or not, or checkpointed, while
//! other threads are in the middle of calls.  Whatever the timing, nothing set
//! through the Context answers a call that starts after the Context is gone, and
//! the next Context starts clean.
use mockall::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;
use vh::model::Class;
use vh::mon::{Mon, Verdict};
use vh::rng::Rng;
use vh::spec::{run, End, Marker, UserPanic};
use vh::ensure;

#[automock]
pub trait Tr {
    fn st(x: u32) -> u64;
    fn gn<T: 'static>(x: T) -> u64;
    fn dr(&self, x: u32) -> u64;
}
pub struct Gs<T>(T);
#[automock]
impl<T: 'static + Clone> Gs<T> {
    #[allow(unused)]
    pub fn gs(_x: T) -> u64 { 0 }
}
mock! { pub Mm { pub fn mm(x: u32, y: String) -> u64; } }
#[automock]
pub mod fns {
    #[allow(unused)]
    pub fn f1(x: u32) -> u64 { x as u64 }
}
#[automock]
pub mod ffi {
    extern "C-unwind" {
        pub fn f3(x: u32) -> u64;
    }
}

/// What an expectation does when called
#[derive(Clone)]
struct Plan {
    tag: u64,
    yields: usize,
    micros: u64,
    panics: bool,
    entered: Arc<AtomicU64>,
    left: Arc<AtomicU64>,
}
impl Plan {
    fn go(&self) -> u64 {
        self.entered.fetch_add(1, SeqCst);
        for _ in 0..self.yields { std::thread::yield_now() }
        if self.micros > 0 { std::thread::sleep(Duration::from_micros(self.micros)) }
        self.left.fetch_add(1, SeqCst);
        if self.panics { std::panic::panic_any(UserPanic(self.tag)) }
        self.tag
    }
}
/// Lower bound on calls, if any
trait Ctx {
    fn expect(&self, p: Option<Plan>, min: usize);
    fn check(&self);
}
struct Kind {
    name: &'static str,
    ctx: fn() -> Box<dyn Ctx>,
    call: fn(u32) -> u64,
}
macro_rules! kind {
    ($n:literal, $ctx:expr, $ty:ty, $expect:ident $tf:tt, |$c:ident| $check:expr, $call:expr, |$($a:ident),*|) => {{
        struct C($ty);
        impl Ctx for C {
            fn expect(&self, p: Option<Plan>, min: usize) {
                kind!(@e self.0, $expect, $tf).times(min..).returning(move |$($a),*| { $(let _ = $a;)* p.as_ref().unwrap().go() });
            }
            fn check(&self) { let $c = &self.0; $check }
        }
        Kind { name: $n, ctx: || Box::new(C($ctx)), call: $call }
    }};
    (@e $c:expr, $expect:ident, ()) => { $c.$expect() };
    (@e $c:expr, $expect:ident, ($t:ty)) => { $c.$expect::<$t>() };
}
fn kinds() -> Vec<Kind> {
    vec![
        kind!("trait static", MockTr::st_context(), __mock_MockTr_Tr::__st::Context, expect (), |c| c.checkpoint(), MockTr::st, |_x|),
        kind!("generic static", MockTr::gn_context(), __mock_MockTr_Tr::__gn::Context, expect (u32), |c| c.checkpoint(), MockTr::gn::<u32>, |_x|),
        kind!("generic static, other instance", MockTr::gn_context(), __mock_MockTr_Tr::__gn::Context, expect (String), |c| c.checkpoint(),
            |x| MockTr::gn(x.to_string()), |_x|),
        kind!("generic struct", MockGs::<u8>::gs_context(), __mock_MockGs::__gs::Context<u8>, expect (), |c| c.checkpoint(), |x| MockGs::<u8>::gs(x as u8), |_x|),
        kind!("mock!", MockMm::mm_context(), __mock_MockMm::__mm::Context, expect (), |c| c.checkpoint(), |x| MockMm::mm(x, x.to_string()), |_x, _y|),
        kind!("module", mock_fns::f1_context(), mock_fns::__f1::Context, expect (), |_c| mock_fns::checkpoint(), mock_fns::f1, |_x|),
        kind!("foreign", mock_ffi::f3_context(), mock_ffi::__f3::Context, expect (), |_c| mock_ffi::checkpoint(), |x| unsafe { mock_ffi::f3(x) }, |_x|),
    ]
}

pub fn history(r: &mut Rng, m: &mut Mon) -> Verdict {
    let ks = kinds();
    for round in 0..r.range(1, 5) {
        let k = &ks[r.below(ks.len())];
        let nthreads = r.range(1, 4);
        let ncalls = r.range(1, 3);
        let entered = Arc::new(AtomicU64::new(0));
        let left = Arc::new(AtomicU64::new(0));
        let p = Plan {
            tag: 1000 + round as u64,
            yields: r.below(200),
            micros: if r.chance(1, 4) && !cfg!(miri) { r.below(600) as u64 } else { 0 },
            panics: r.chance(1, 3),
            entered: entered.clone(),
            left: left.clone(),
        };
        // with one call altogether, the number of calls when it's verified is known
        let lone = nthreads * ncalls == 1;
        let min = if lone { r.below(3) } else { 0 };
        let how = r.below(4);
        let wait = r.below(100);
        let early = r.chance(1, 8); // possibly before any call
        m.op(format!("{} threads={nthreads}x{ncalls} panics={} hold={}y+{}us min={min} {}{}", k.name, p.panics, p.yields, p.micros,
            ["drop", "drop while unwinding", "checkpoint", "checkpoint, drop while unwinding"][how], if early { " early" } else { "" }));
        m.note("kinds_of_function", k.name);
        m.note("ends_of_context", ["drop", "unwinding drop", "checkpoint", "checkpoint, unwinding drop"][how]);
        let (call, tag, panics) = (k.call, p.tag, p.panics);
        let stop = Arc::new(AtomicBool::new(false));
        let mut hs = vec![];
        let mut inflight = 0;
        let end = run(|| {
            let ctx = (k.ctx)();
            ctx.expect(Some(p), min);
            for t in 0..nthreads {
                let stop = stop.clone();
                hs.push(std::thread::spawn(move || {
                    (0..ncalls).map(|i| { let before = !stop.load(SeqCst); (before, run(|| call((t * 8 + i) as u32))) }).collect::<Vec<_>>()
                }));
            }
            if !early {
                while entered.load(SeqCst) == 0 { std::thread::yield_now() }
            }
            for _ in 0..wait { std::thread::yield_now() }
            inflight = entered.load(SeqCst).saturating_sub(left.load(SeqCst));
            if how == 1 { std::panic::panic_any(Marker) }
            if how >= 2 { ctx.check() }
            if how == 3 { std::panic::panic_any(Marker) }
            0
        });
        stop.store(true, SeqCst);
        if inflight > 0 { m.count("contexts_ended_during_a_call") }
        let sat = entered.load(SeqCst) as usize;
        m.sig(inflight);
        // From now on, nobody may be answered by the old expectation
        let late = r.chance(1, 2).then(|| {
            let before = entered.load(SeqCst);
            let e = run(|| call(3));
            (before, entered.load(SeqCst), e)
        });
        let rs: Vec<(bool, End)> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
        if let Some((a, b, e)) = late {
            m.count("calls_after_the_context");
            ensure!(a == b && matches!(&e, End::Msg(s) if Class::of(s) != Some(Class::TooMany)),
                "{}: a call after its Context was gone gave {e:?} ({} invocations)", k.name, b - a);
        }
        let mut ok = 0;
        for (before, e) in &rs {
            m.count("calls");
            match e {
                End::Val(v) if *v == tag && !panics => ok += 1,
                End::User(v) if *v == tag && panics => ok += 1,
                End::Msg(s) if Class::of(s).is_none_or(|c| c == Class::NoMatch) => { m.count("calls_refused"); continue }
                e => ensure!(false, "{}: a call returned {e:?}", k.name),
            }
            ensure!(*before, "{}: a call after the Context was gone was answered: {e:?}", k.name);
        }
        ensure!(left.load(SeqCst) == ok && entered.load(SeqCst) == ok, "{}: {ok} calls were answered, but {} invocations", k.name, entered.load(SeqCst));
        if ok == 0 { m.trivial() } else { m.count("calls_answered") }
        match (how, &end) {
            (1, End::Marker) => (),
            (_, End::Msg(s)) if how != 1 && lone && sat < min && Class::of(s).is_none_or(|c| c == Class::TooFew) => m.count("verifications_failed"),
            (3, End::Marker) | (0 | 2, End::Val(0)) if !(lone && !early && sat < min) => (),
            // a poisoned mutex is reported when verifying
            (0 | 2 | 3, End::Msg(s)) if panics && Class::of(s).is_none() => m.count("verifications_of_poisoned"),
            _ => ensure!(false, "{}: with {sat} calls and at least {min} expected, the end of the Context gave {end:?}", k.name),
        }
        // The next Context starts clean
        let e = run(|| {
            let ctx = (k.ctx)();
            let r0 = run(|| call(1));
            if let End::Val(v) = r0 { panic!("answered {v} without any expectation") }
            if r0 == End::User(tag) { panic!("answered by the previous Context's expectation") }
            let t2 = Plan { tag: 7, yields: 0, micros: 0, panics: false, entered: Arc::default(), left: Arc::default() };
            ctx.expect(Some(t2.clone()), 1);
            let v = std::thread::scope(|s| s.spawn(|| call(2)).join()).unwrap();
            if v != 7 { panic!("the previous Context's expectation answered {v}") }
            drop(ctx);
            t2.entered.load(SeqCst)
        });
        ensure!(e == End::Val(1), "{}: the next Context gave {e:?}", k.name);
        m.count("contexts_started_clean");
    }
    Ok(())
}
