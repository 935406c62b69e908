//! C10: faults inside of everything mockall runs on the user's behalf (matchers,
//! predicates and their Display, Debug of arguments, Clone and conversion of
//! constants, providers, destructors), mocks that fail inside of other mocks, and
//! every way of tearing them down.
use mockall::predicate::*;
use mockall::*;
use std::cell::Cell;
use std::fmt;
use std::panic::panic_any;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use vh::mon::{Mon, Verdict};
use vh::rng::Rng;
use vh::spec::{run, End, Marker, UserPanic};
use vh::{ensure, same};

#[automock]
pub trait Inner {
    fn i(&self, x: u32) -> u32;
}
/// Panics when formatted, if told to
pub struct Arg(u32, bool);
impl fmt::Debug for Arg {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.1 { panic_any(UserPanic(501)) }
        write!(f, "Arg{}", self.0)
    }
}
thread_local! {
    static CLONE_BAD: Cell<bool> = const { Cell::new(false) };
    static CONV_BAD: Cell<bool> = const { Cell::new(false) };
    static DROP_BAD: Cell<bool> = const { Cell::new(false) };
    static SHOW_BAD: Cell<bool> = const { Cell::new(false) };
}
static LIVE: AtomicU32 = AtomicU32::new(0);
pub struct Val(u64);
impl Clone for Val {
    fn clone(&self) -> Self { if CLONE_BAD.get() { panic_any(UserPanic(502)) } Val(self.0) }
}
pub struct Out(u64);
impl From<Val> for Out {
    fn from(v: Val) -> Out { if CONV_BAD.get() { panic_any(UserPanic(503)) } Out(v.0) }
}
/// An argument with a destructor that fails
pub struct Bad(bool);
impl Drop for Bad {
    fn drop(&mut self) { if self.0 && !std::thread::panicking() { panic_any(UserPanic(504)) } }
}
/// A predicate that fails
struct Pr { k: u32, bad: u32 }
impl predicates::reflection::PredicateReflection for Pr {}
impl Predicate<u32> for Pr {
    fn eval(&self, x: &u32) -> bool { if *x == self.bad { panic_any(UserPanic(505)) } *x == self.k }
}
impl fmt::Display for Pr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { if SHOW_BAD.get() { panic_any(UserPanic(506)) } write!(f, "Pr{}", self.k) }
}

#[automock]
pub trait Outer {
    fn plain(&self, x: u32) -> u32;
    fn arg(&self, a: Arg) -> u32;
    fn konst(&self, x: u32) -> Out;
    fn bad(&self, b: Bad) -> u32;
    fn take(&self, m: MockInner) -> u32;
    fn give(&self) -> MockInner;
    fn rf(&self, x: u32) -> &u32;
    fn mt(&mut self, x: u32) -> &mut u32;
    fn gen<T: 'static>(&self, x: T) -> u32;
    fn st(x: u32) -> u32;
    fn stg<T: 'static>(x: T) -> u32;
}

fn unmet() -> MockInner {
    LIVE.fetch_add(1, SeqCst);
    let mut i = MockInner::new();
    i.expect_i().times(1).return_const(1u32);
    i
}

/// A fault at a random place; afterwards everything still works, and the counts
/// are as if each accepted call had been an ordinary one
fn faults(r: &mut Rng, m: &mut Mon) -> Verdict {
    let mut o = MockOuter::new();
    let lim = r.range(1, 6);
    let mut made = 0usize;
    let kind = r.below(9);
    macro_rules! expect_user { ($e:expr, $id:expr, $what:expr) => {{ let g = run(|| $e as u64); same!(g, End::User($id), "{}", $what); m.count("user_panics_propagated"); }} }
    macro_rules! expect_msg { ($e:expr, $what:expr) => {{ let g = run(|| $e as u64); ensure!(matches!(&g, End::Msg(_)), "{}: mockall's own panic was expected, but {g:?}", $what); m.count("mock_panics"); }} }
    macro_rules! expect_val { ($e:expr, $v:expr, $what:expr) => {{ let g = run(|| $e as u64); same!(g, End::Val($v), "{}", $what); m.count("calls_answered"); }} }
    let steps: Vec<u8> = (0..r.range(2, 10)).map(|_| r.below(3) as u8).collect();
    m.op(format!("fault kind {kind}, limit {lim}, steps {steps:?}"));
    // statics are cleared by a guard of their own
    let ctx = MockOuter::st_context();
    let gctx = MockOuter::stg_context();
    match kind {
        0 => { o.expect_plain().with(Pr { k: 1, bad: 2 }).times(lim).return_const(7u32); }
        1 => { o.expect_arg().withf(|a| a.0 == 1).times(lim).return_const(7u32); }
        2 => { o.expect_konst().times(lim).return_const(Val(7)); }
        3 => { o.expect_bad().withf(|_| true).times(lim).returning(|_| 7); }
        4 => { o.expect_rf().with(Pr { k: 1, bad: 2 }).times(lim).return_const(7u32); }
        5 => { o.expect_mt().withf(|x| if *x == 2 { panic_any(UserPanic(505)) } else { *x == 1 }).times(lim).returning(|_| 7); }
        6 => { o.expect_gen::<u32>().with(Pr { k: 1, bad: 2 }).times(lim).return_const(7u32); }
        7 => { ctx.expect().with(Pr { k: 1, bad: 2 }).times(lim).return_const(7u32); }
        _ => { gctx.expect::<u32>().with(Pr { k: 1, bad: 2 }).times(lim).return_const(7u32); }
    }
    for s in steps {
        if made == lim { break }
        match (kind, s) {
            (0, 0) => { expect_val!(o.plain(1), 7, "call"); made += 1; }
            (0, 1) => expect_user!(o.plain(2), 505, "predicate fails"),
            (0, _) => expect_msg!(o.plain(3), "no match"),
            (1, 0) => { expect_val!(o.arg(Arg(1, false)), 7, "call"); made += 1; }
            (1, 1) => { let g = run(|| o.arg(Arg(3, true)) as u64);
                ensure!(matches!(&g, End::User(501) | End::Msg(_)), "no match, and Debug fails: {g:?}"); m.count("mock_panics"); }
            (1, _) => expect_msg!(o.arg(Arg(3, false)), "no match"),
            (2, 0) => { expect_val!(o.konst(1).0, 7, "constant"); made += 1; }
            (2, 1) => { CLONE_BAD.set(true); let g = run(|| o.konst(1).0); CLONE_BAD.set(false);
                same!(g, End::User(502), "Clone fails"); made += 1; }
            (2, _) => { CONV_BAD.set(true); let g = run(|| o.konst(1).0); CONV_BAD.set(false);
                same!(g, End::User(503), "conversion fails"); made += 1; }
            (3, 0) => { expect_val!(o.bad(Bad(false)), 7, "call"); made += 1; }
            (3, _) => { expect_user!(o.bad(Bad(true)), 504, "argument's destructor fails"); made += 1; }
            (4, 0) => { expect_val!(*o.rf(1), 7, "call"); made += 1; }
            (4, 1) => expect_user!(*o.rf(2), 505, "predicate fails"),
            (4, _) => expect_msg!(*o.rf(3), "no match"),
            (5, 0) => { expect_val!(*o.mt(1), 7, "call"); made += 1; }
            (5, 1) => expect_user!(*o.mt(2), 505, "matcher fails"),
            (5, _) => expect_msg!(*o.mt(3), "no match"),
            (6, 0) => { expect_val!(o.gen(1u32), 7, "call"); made += 1; }
            (6, 1) => expect_user!(o.gen(2u32), 505, "predicate fails"),
            (6, _) => expect_msg!(o.gen(1u8), "no match"),
            (7, 0) => { expect_val!(MockOuter::st(1), 7, "call"); made += 1; }
            (7, 1) => expect_user!(MockOuter::st(2), 505, "predicate fails"),
            (7, _) => expect_msg!(MockOuter::st(3), "no match"),
            (_, 0) => { expect_val!(MockOuter::stg(1u32), 7, "call"); made += 1; }
            (_, 1) => expect_user!(MockOuter::stg(2u32), 505, "predicate fails"),
            (_, _) => expect_msg!(MockOuter::stg(1u8), "no match"),
        }
    }
    let ok = made == lim;
    // every other method is unaffected
    o.expect_give().returning(MockInner::new);
    drop(o.give());
    let end = match r.below(3) {
        0 => run(|| { drop(ctx); drop(gctx); drop(o); 0 }),
        1 => run(|| { ctx.checkpoint(); gctx.checkpoint(); o.checkpoint(); drop(ctx); drop(gctx); 0 }),
        _ => {
            let e = run(|| { let _k = (&ctx, &gctx, &o); panic_any(Marker) });
            same!(e, End::Marker, "own panic");
            run(|| { drop(gctx); drop(o); drop(ctx); 0 })
        }
    };
    ensure!(matches!(end, End::Val(_)) == ok, "{made} calls of {lim}: verification ended with {end:?}");
    m.count("verifications");
    Ok(())
}

/// Mocks with unmet expectations, owned by other mocks and contexts
fn owned(r: &mut Rng, m: &mut Mon) -> Verdict {
    let place = r.below(9);
    let n = r.range(1, 4);
    let outer_unmet = r.chance(1, 2);
    let how = r.below(5);
    m.op(format!("{n} failing mocks at place {place}, outer unmet {outer_unmet}, torn down by {how}"));
    let mut o = MockOuter::new();
    let ctx = MockOuter::st_context();
    for _ in 0..n {
        let i = unmet();
        // moved into a provider, a matcher, a predicate, a constant...
        match place {
            0 => { o.expect_plain().returning(move |x| { let _ = &i; x }); }
            1 => { o.expect_plain().return_once(move |x| { let _ = &i; x }); }
            2 => { o.expect_plain().withf(move |_| { let _ = &i; true }).return_const(1u32); }
            3 => { o.expect_plain().with(function(move |_: &u32| { let _ = &i; true })).return_const(1u32); }
            4 => { o.expect_gen::<u8>().returning_st(move |_| { let _ = &i; 1 }); }
            5 => { ctx.expect().returning(move |x| { let _ = &i; x }); }
            6 => { o.expect_plain().withf_st(move |_| { let _ = &i; true }).return_const(1u32); }
            7 => { o.expect_mt().returning(move |x| { let _ = &i; x }); }
            _ => { let g = std::sync::Mutex::new(Some(i)); o.expect_give().returning(move || g.lock().unwrap().take().unwrap()); }
        }
    }
    if outer_unmet { o.expect_plain().times(9).return_const(1u32); }
    let gone;
    match how {
        0 => { gone = run(|| { drop(o); drop(ctx); 0 }); ensure!(matches!(&gone, End::Msg(_)), "{n} unmet mocks, but teardown ended with {gone:?}"); }
        1 => {
            gone = run(|| { o.checkpoint(); ctx.checkpoint(); 0 });
            ensure!(matches!(&gone, End::Msg(_)), "{n} unmet mocks, but the checkpoint ended with {gone:?}");
            let _ = run(|| { let _x = (o, ctx); panic_any(Marker) });
        }
        2 => { gone = run(|| { let _x = (o, ctx); panic_any(UserPanic(77)) }); same!(gone, End::User(77), "teardown while unwinding"); }
        3 => {
            // in another thread.  With single-thread closures that is an error, too
            let e: Result<(), _> = std::thread::spawn(move || { drop(o); drop(ctx); }).join();
            ensure!(e.is_err(), "{n} unmet mocks, but a teardown by another thread succeeded");
        }
        _ => {
            // in a panicking thread
            let t = std::thread::spawn(move || { let _x = (o, ctx); panic_any(UserPanic(78)) });
            let e = t.join();
            let e: Result<(), _> = e;
            same!(vh::spec::payload(e.unwrap_err()), End::User(78), "panic of a thread which owned mocks");
        }
    }
    m.count("teardowns");
    Ok(())
}

/// Failing mocks passed as arguments and returned; mocks failing inside of a
/// provider
fn passing(r: &mut Rng, m: &mut Mon) -> Verdict {
    let mut o = MockOuter::new();
    let n = r.range(1, 4);
    let kind = r.below(6);
    m.op(format!("passing kind {kind} x{n}"));
    match kind {
        0 => {
            // No match: the argument dies while the mock's panic unwinds
            o.expect_take().withf(|_| false).return_const(1u32);
            for _ in 0..n {
                let g = run(|| o.take(unmet()) as u64);
                ensure!(matches!(&g, End::Msg(_)), "unmatched call: {g:?}");
            }
        }
        1 => {
            // accepted, and then the argument fails its own verification
            o.expect_take().times(n).returning(|_| 1);
            for _ in 0..n {
                let g = run(|| o.take(unmet()) as u64);
                ensure!(matches!(&g, End::Msg(_)), "the argument's own verification: {g:?}");
            }
            same!(run(|| { drop(o); 0 }), End::Val(0), "all {n} calls were counted");
            m.count("passings");
            return Ok(());
        }
        2 => {
            // the provider panics while it owns a failing mock
            o.expect_plain().times(n).returning(|x| { let _i = unmet(); panic_any(UserPanic(x as u64)) });
            for k in 0..n {
                same!(run(|| o.plain(k as u32) as u64), End::User(k as u64), "provider's panic");
            }
            same!(run(|| { drop(o); 0 }), End::Val(0), "all {n} calls were counted");
            m.count("passings");
            return Ok(());
        }
        3 => {
            // a mock that fails inside of a provider
            o.expect_plain().times(n).returning(|_| { let _i = unmet(); 1 });
            for _ in 0..n {
                let g = run(|| o.plain(1) as u64);
                ensure!(matches!(&g, End::Msg(_)), "a mock's verification inside of a provider: {g:?}");
            }
            same!(run(|| { drop(o); 0 }), End::Val(0), "all {n} calls were counted");
            m.count("passings");
            return Ok(());
        }
        4 => {
            // returned
            o.expect_give().returning(unmet);
            for _ in 0..n {
                let i = o.give();
                let g = run(|| { drop(i); 0 });
                ensure!(matches!(&g, End::Msg(_)), "returned mock's verification: {g:?}");
            }
        }
        _ => {
            // calls from destructors while unwinding
            struct OnDrop<'a>(&'a MockOuter, &'a Cell<u32>, bool);
            impl Drop for OnDrop<'_> {
                fn drop(&mut self) {
                    if self.2 {
                        self.1.set(self.0.plain(5));
                    } else {
                        let i = MockInner::new();
                        drop(i);
                        let mut j = MockOuter::new();
                        j.expect_plain().times(3).return_const(4u32);
                        self.1.set(j.plain(1) + self.0.plain(5));
                    }
                }
            }
            o.expect_plain().with(eq(5)).times(n).return_const(6u32);
            for _ in 0..n {
                let c = Cell::new(0);
                let b = r.chance(1, 2);
                let g = run(|| { let _d = OnDrop(&o, &c, b); panic_any(UserPanic(9)) });
                same!(g, End::User(9), "payload");
                same!(c.get(), if b { 6 } else { 10 }, "value returned to a destructor");
            }
            same!(run(|| { drop(o); 0 }), End::Val(0), "all {n} calls were counted");
            m.count("passings");
            return Ok(());
        }
    }
    same!(run(|| { drop(o); 0 }), End::Val(0), "final verification");
    m.count("passings");
    Ok(())
}

pub fn history(r: &mut Rng, m: &mut Mon) -> Verdict {
    match r.below(4) {
        0 | 1 => faults(r, m),
        2 => owned(r, m),
        _ => passing(r, m),
    }
}
