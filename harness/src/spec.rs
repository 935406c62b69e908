//! What the workload asks mockall to do, independent of any concrete mock.
use std::cell::Cell;
use std::panic::panic_any;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
pub enum TimesSpec {
    N(usize),
    Range(usize, usize),
    Incl(usize, usize),
    To(usize),
    ToIncl(usize),
    From(usize),
    Full,
    Once,
    Never,
}
impl TimesSpec {
    /// Inclusive bounds, or None if mockall must refuse it
    pub fn bounds(&self) -> Option<(usize, usize)> {
        use TimesSpec::*;
        let inf = usize::MAX;
        match *self {
            N(n) => Some((n, n)),
            Range(a, b) => (a < b).then(|| (a, b - 1)),
            Incl(a, b) => (a <= b).then_some((a, b)),
            To(b) => (b > 0).then(|| (0, b - 1)),
            ToIncl(b) => Some((0, b)),
            From(a) => Some((a, inf)),
            Full => Some((0, inf)),
            Once => Some((1, 1)),
            Never => Some((0, 0)),
        }
    }
}

/// A per-argument predicate: the accepted subset of the domain, and how to
/// express it.
#[derive(Clone, Debug, PartialEq)]
pub struct Pr {
    pub mask: u8,
    pub style: u8,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mat {
    With(Vec<Pr>),
    /// Accepted pairs as a bit mask over (a*4+b); second mask: pairs on which the
    /// matcher panics
    Withf(u16, u16),
    WithfSt(u16, u16),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum RetKind {
    None,
    Const,
    ConstSt,
    Once,
    OnceSt,
    Fn,
    FnSt,
    Var,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ret {
    pub kind: RetKind,
    /// Distinguishes providers of the same expectation
    pub id: u64,
    /// Panic at this invocation (1-based) of the closure
    pub panic_at: u32,
    /// The panic payload is a string rather than a `UserPanic`
    pub panic_str: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Times(TimesSpec),
    Mat(Mat),
    Ret(Ret),
    Seq(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub steps: Vec<Step>,
    /// Configure statics through the guard for every step, rather than through
    /// the `Expectation` it returns
    pub via_guard: bool,
}

#[derive(Debug, Clone, PartialEq)]
pub struct UserPanic(pub u64);
/// Thrown by the engine itself
#[derive(Debug, Clone, PartialEq)]
pub struct Marker;

// ---- what callbacks observe ----
#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub ret: u64,
    pub k: u32,
    pub args: Vec<u32>,
}
pub static EVENTS: Mutex<Vec<Ev>> = Mutex::new(Vec::new());
pub static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
pub static MATCHER_EVALS: AtomicU64 = AtomicU64::new(0);
pub static RET_EVALS: AtomicU64 = AtomicU64::new(0);
pub static COMPLAINTS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub static QUIET: AtomicBool = AtomicBool::new(true);

pub fn complain(s: String) {
    let mut g = COMPLAINTS.lock().unwrap_or_else(|e| e.into_inner());
    if g.len() < 20 {
        g.push(s);
    }
}
pub fn log_ev(e: Ev) {
    EVENTS.lock().unwrap_or_else(|e| e.into_inner()).push(e);
}

/// Extra arguments of methods with more than two are functions of the first two
pub fn x2(a: u32, b: u32) -> u32 { (a + b) % 4 }
pub fn x3(a: u32, b: u32) -> u32 { (a + 2 * b + 1) % 4 }
pub fn x4(a: u32, b: u32) -> u32 { (3 * a + b + 2) % 4 }
pub fn xn(n: u32, a: u32, b: u32) -> u32 { (n * a + (n + 1) * b + n / 2) % 4 }
pub fn full_args(a: u32, b: u32, n: usize) -> Vec<u32> {
    let mut v = vec![a, b, x2(a, b), x3(a, b), x4(a, b)];
    v.extend((5..n as u32).map(|i| xn(i, a, b)));
    v.truncate(n);
    v
}
pub fn set_cur(a: u32, b: u32) {
    CUR.store(((a as u64) << 32) | b as u64, Ordering::SeqCst);
}
pub fn unset_cur() {
    CUR.store(u64::MAX, Ordering::SeqCst);
}
fn check_cur(who: &str, xs: &[u32]) {
    let c = CUR.load(Ordering::SeqCst);
    if c == u64::MAX {
        complain(format!("{who} invoked outside of any call, with {xs:?}"));
        return;
    }
    let want = full_args((c >> 32) as u32, c as u32, xs.len());
    if want != xs {
        complain(format!("{who} saw arguments {xs:?}, but the call's are {want:?}"));
    }
}

/// Matcher used through withf / withf_st
pub struct MatFn {
    pub mask: u16,
    pub panics: u16,
}
impl MatFn {
    pub fn check(&self, xs: &[u32]) -> bool {
        MATCHER_EVALS.fetch_add(1, Ordering::Relaxed);
        check_cur("matcher", xs);
        let a = xs.first().copied().unwrap_or(0);
        let b = xs.get(1).copied().unwrap_or(0);
        if a > 3 || b > 3 {
            return false;
        }
        let bit = 1u16 << (a * 4 + b);
        if self.panics & bit != 0 {
            panic_any(UserPanic(0xFACE));
        }
        self.mask & bit != 0
    }
}

/// Stateful return provider
pub struct RetFn {
    pub r: Ret,
    pub k: u32,
}
pub fn const_val(id: u64) -> u64 {
    crate::rng::mix(&[id, 77]) >> 8
}
pub fn fn_val(id: u64, xs: &[u32], k: u32) -> u64 {
    let mut v = vec![id, k as u64];
    v.extend(xs.iter().map(|x| *x as u64));
    crate::rng::mix(&v) >> 8
}
impl RetFn {
    pub fn call(&mut self, xs: &[u32]) -> u64 {
        RET_EVALS.fetch_add(1, Ordering::Relaxed);
        self.k += 1;
        check_cur("return provider", xs);
        log_ev(Ev { ret: self.r.id, k: self.k, args: xs.to_vec() });
        if self.r.panic_at == self.k {
            throw(&self.r);
        }
        fn_val(self.r.id, xs, self.k)
    }
}
pub fn throw(r: &Ret) -> ! {
    if r.panic_str {
        panic!("user panic {}", r.id)
    } else {
        panic_any(UserPanic(r.id))
    }
}
pub fn mat_fn(mask: u16, panics: u16) -> MatFn { MatFn { mask, panics } }
pub fn ret_fn(r: &Ret) -> RetFn { RetFn { r: r.clone(), k: 0 } }

thread_local! { static IN_CATCH: Cell<bool> = const { Cell::new(false) }; }

/// How a guarded piece of code ended
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Val(u64),
    User(u64),
    Marker,
    Msg(String),
}

pub fn payload(e: Box<dyn std::any::Any + Send>) -> End {
    if let Some(u) = e.downcast_ref::<UserPanic>() {
        End::User(u.0)
    } else if e.downcast_ref::<Marker>().is_some() {
        End::Marker
    } else if let Some(s) = e.downcast_ref::<String>() {
        End::Msg(s.clone())
    } else if let Some(s) = e.downcast_ref::<&str>() {
        End::Msg(s.to_string())
    } else {
        End::Msg("<foreign payload>".into())
    }
}

pub fn run<F: FnOnce() -> u64>(f: F) -> End {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => End::Val(v),
        Err(e) => payload(e),
    }
}

/// Silence panic messages (they are all captured)
pub fn quiet_hook() {
    if std::env::var_os("VH_LOUD").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}
