//! The other half: static functions, modules, foreign functions, concretize,
//! closures, futures, associated types, receivers.
#![allow(unused,dead_code, clippy::all, non_snake_case)]
use mockall::*;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use vh::engine::Zoo;
use vh::shape;
use vh::spec::x2;
use vh::vals::*;

// ---- static methods: of a trait, of a generic struct, generic themselves ----
#[automock]
pub trait Stat {
    fn s_foo(x: u32) -> u64;
    fn s_two(x: String, y: &u8) -> String;
    fn s_gen<T: 'static>(x: T) -> u64;
    fn s_ret<R: Rv + 'static>(x: u32) -> R;
    fn s_unit();
    fn meth(&self, x: u32) -> u64;
    fn s_slice(x: &[u8], y: &str, z: u32) -> Vec<u8>;
}
shape! { ZStat, false, MockStat, MockStat::new(), |m| m.checkpoint(), |m| format!("{m:?}");
    s_foo = stat(0 MockStat::s_foo_context(); |c| c.expect(); y [x: p]; (c cs o os f fs) u64; |a, b| MockStat::s_foo(u32::ex(a)));
    s_two = stat(1 MockStat::s_two_context(); |c| c.expect(); y [x: p, y: p]; (c cs o os f fs) String;
        |a, b| MockStat::s_two(String::ex(a), &u8::ex(b)));
    s_gen_u8 = gstat(2 MockStat::s_gen_context(); |c| c.expect::<u8>(); y [x: p]; (c cs o os f fs) u64; |a, b| MockStat::s_gen(u8::ex(a)));
    s_gen_i8 = gstat(2 MockStat::s_gen_context(); |c| c.expect::<i8>(); y [x: p]; (c cs o os f fs) u64; |a, b| MockStat::s_gen(i8::ex(a)));
    s_gen_v = gstat(2 MockStat::s_gen_context(); |c| c.expect::<Vec<i8>>(); y [x: p]; (c cs o os f fs) u64; |a, b| MockStat::s_gen(Vec::<i8>::ex(a)));
    s_ret_u64 = gstat(5 MockStat::s_ret_context(); |c| c.expect::<u64>(); y [x: p]; (c cs o os f fs) u64; |a, b| MockStat::s_ret::<u64>(u32::ex(a)));
    s_ret_u8 = gstat(5 MockStat::s_ret_context(); |c| c.expect::<u8>(); y [x: p]; (c cs o os f fs) u8; |a, b| MockStat::s_ret::<u8>(u32::ex(a)));
    s_unit = stat(7 MockStat::s_unit_context(); |c| c.expect(); n []; (c cs o os f fs) (); |a, b| MockStat::s_unit());
    meth = val(|m| m.expect_meth(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.meth(u32::ex(a)));
    s_slice = stat(9 MockStat::s_slice_context(); |c| c.expect(); y [x: f, y: f, z: p]; (c cs o os f fs) Vec<u8>;
        |a, b| MockStat::s_slice(&Vec::<u8>::ex(a), &String::ex(b), u32::ex(x2(a, b))));
}

mock! {
    pub GStat<T: 'static> {
        fn g_foo(t: T) -> u64;
        fn g_gen<Q: 'static>(t: T, q: Q) -> u64;
        fn plain(&self, t: T) -> u64;
    }
}
shape! { ZGStat, false, MockGStat<u32>, MockGStat::<u32>::new(), |m| m.checkpoint(), |_m| String::new();
    g_foo = stat(0 MockGStat::<u32>::g_foo_context(); |c| c.expect(); y [x: p]; (c cs o os f fs) u64; |a, b| MockGStat::<u32>::g_foo(u32::ex(a)));
    g_gen_u8 = gstat(1 MockGStat::<u32>::g_gen_context(); |c| c.expect::<u8>(); y [x: p, y: p]; (c cs o os f fs) u64;
        |a, b| MockGStat::<u32>::g_gen(u32::ex(a), u8::ex(b)));
    g_gen_u32 = gstat(1 MockGStat::<u32>::g_gen_context(); |c| c.expect::<u32>(); y [x: p, y: p]; (c cs o os f fs) u64;
        |a, b| MockGStat::<u32>::g_gen(u32::ex(a), u32::ex(b)));
    plain = val(|m| m.expect_plain(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.plain(u32::ex(a)));
}

// ---- struct with constructors ----
pub struct Build;
#[automock]
impl Build {
    pub fn build(x: u32) -> u64 { 0 }
    pub(crate) fn helper<'a>(x: &'a str, y: u32) -> u64 { 0 }
    pub fn get(&self, x: u32) -> u64 { 0 }
}
shape! { ZBuild, false, MockBuild, MockBuild::new(), |m| m.checkpoint(), |m| format!("{m:?}");
    build = stat(0 MockBuild::build_context(); |c| c.expect(); y [x: p]; (c cs o os f fs) u64; |a, b| MockBuild::build(u32::ex(a)));
    helper = stat(1 MockBuild::helper_context(); |c| c.expect(); n [x: f, y: p]; (c f fs) u64;
        |a, b| MockBuild::helper(&String::ex(a), u32::ex(b)));
    get = val(|m| m.expect_get(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.get(u32::ex(a)));
}

// ---- modules ----
#[automock]
pub mod fns {
    pub fn f1(x: u32) -> u64 { 0 }
    pub fn f2(mut x: String, y: &[u8]) -> String { x.push('a'); x }
    pub fn f3<T: 'static>(x: T, y: u8) -> u64 { 0 }
    pub(crate) fn f4() -> u32 { 0 }
}
#[automock]
pub mod fns2 {
    pub fn f1(x: u32) -> u64 { 0 }
    pub fn f5(a: u8, b: u16, c: u32, d: u64, e: i8) -> u64 { 0 }
}
shape! { ZMod, true, (), (), |m| mock_fns::checkpoint(), |_m| String::new();
    f1 = stat(0 mock_fns::f1_context(); |c| c.expect(); y [x: p]; (c cs o os f fs) u64; |a, b| mock_fns::f1(u32::ex(a)));
    f2 = stat(1 mock_fns::f2_context(); |c| c.expect(); y [x: p, y: f]; (c cs o os f fs) String;
        |a, b| mock_fns::f2(String::ex(a), &Vec::<u8>::ex(b)));
    f3_u8 = gstat(2 mock_fns::f3_context(); |c| c.expect::<u8>(); y [x: p, y: p]; (c cs o os f fs) u64; |a, b| mock_fns::f3::<u8>(u8::ex(a), u8::ex(b)));
    f3_i64 = gstat(2 mock_fns::f3_context(); |c| c.expect::<i64>(); y [x: p, y: p]; (c cs o os f fs) u64; |a, b| mock_fns::f3::<i64>(i64::ex(a), u8::ex(b)));
    f4 = stat(4 mock_fns::f4_context(); |c| c.expect(); n []; (c cs o os f fs) u32; |a, b| mock_fns::f4());
}
shape! { ZMod2, true, (), (), |m| mock_fns2::checkpoint(), |_m| String::new();
    f1 = stat(0 mock_fns2::f1_context(); |c| c.expect(); y [x: p]; (c cs o os f fs) u64; |a, b| mock_fns2::f1(u32::ex(a)));
    f5 = stat(1 mock_fns2::f5_context(); |c| c.expect(); y [p0: p, p1: p, p2: p, p3: p, p4: p]; (c cs o os f fs) u64;
        |a, b| { mock_fns2::f5(u8::ex(a), u16::ex(b), u32::ex(x2(a, b)), u64::ex(x3(a, b)), i8::ex(x4(a, b))) });
}

// ---- foreign functions ----
#[automock]
pub mod ffi {
    extern "C" {
        pub fn vh_ext_a(x: u32) -> i64;
        pub fn vh_ext_b(x: u32, y: u8) -> u32;
    }
    extern "Rust" {
        pub fn vh_ext_r(x: &u32) -> u64;
    }
}
shape! { ZFfi, true, (), (), |m| mock_ffi::checkpoint(), |_m| String::new();
    ext_a = stat(0 mock_ffi::vh_ext_a_context(); |c| c.expect(); y [x: p]; (c cs o os f fs) i64;
        |a, b| unsafe { mock_ffi::vh_ext_a(u32::ex(a)) });
    ext_b = stat(1 mock_ffi::vh_ext_b_context(); |c| c.expect(); y [x: p, y: p]; (c cs o os f fs) u32;
        |a, b| unsafe { mock_ffi::vh_ext_b(u32::ex(a), u8::ex(b)) });
    ext_r = stat(2 mock_ffi::vh_ext_r_context(); |c| c.expect(); y [x: p]; (c cs o os f fs) u64;
        |a, b| unsafe { mock_ffi::vh_ext_r(&u32::ex(a)) });
}

// ---- concretize ----
/// Values seen through a trait object
pub trait Dn {
    fn dn(&self) -> u32;
}
impl Dn for u32 { fn dn(&self) -> u32 { self.dx() } }
impl Dn for String { fn dn(&self) -> u32 { self.dx() } }
impl Dn for u8 { fn dn(&self) -> u32 { self.dx() } }
impl Dn for Opaque { fn dn(&self) -> u32 { self.0 } }
impl Dx for dyn Dn + '_ { fn dx(&self) -> u32 { self.dn() } }
mock! {
    pub Conc {
        #[mockall::concretize]
        fn c_val<P: Dn>(&self, x: P) -> u64;
        #[mockall::concretize]
        fn c_where<P>(&self, y: u8, x: P) -> u64 where P: Dn;
        #[mockall::concretize]
        fn c_ref<P: Dn>(&self, x: &P) -> u64;
        #[mockall::concretize]
        fn c_mut<P: Dn>(&mut self, x: &mut P) -> String;
        #[mockall::concretize]
        fn c_slice<P: Dn>(&self, x: &[P]) -> u64;
        #[mockall::concretize]
        fn c_two<P: Dn, Q: Dn>(&self, x: P, y: Q) -> u64;
        #[mockall::concretize]
        fn c_static<P: Dn>(x: P, y: u16) -> u64;
    }
    impl ConcT for Conc {
        #[mockall::concretize]
        fn ct<P: Dn>(&self, x: P, y: &P) -> u64;
    }
}
pub trait ConcT {
    fn ct<P: Dn>(&self, x: P, y: &P) -> u64;
}
shape! { ZConc, false, MockConc, MockConc::new(), |m| m.checkpoint(), |_m| String::new();
    c_val = val(|m| m.expect_c_val(); n [x: f]; (c cs o os f fs) u64; |m, a, b| match a {
        0 => m.c_val(u32::ex(a)), 1 => m.c_val(String::ex(a)), 2 => m.c_val(Opaque(a)), _ => m.c_val(u8::ex(a)) });
    c_where = val(|m| m.expect_c_where(); n [x: f, y: f]; (c cs o os f fs) u64; |m, a, b| match b {
        0 => m.c_where(u8::ex(a), u32::ex(b)), 1 => m.c_where(u8::ex(a), String::ex(b)), _ => m.c_where(u8::ex(a), u8::ex(b)) });
    c_ref = val(|m| m.expect_c_ref(); n [x: f]; (c cs o os f fs) u64; |m, a, b| match a {
        0 => m.c_ref(&u32::ex(a)), 1 => m.c_ref(&String::ex(a)), _ => m.c_ref(&u8::ex(a)) });
    c_mut = val(|m| m.expect_c_mut(); n [x: f]; (c cs o os f fs) String; |m, a, b| match a {
        0 => m.c_mut(&mut u32::ex(a)), 1 => m.c_mut(&mut String::ex(a)), _ => m.c_mut(&mut u8::ex(a)) });
    c_slice = val(|m| m.expect_c_slice(); n [x: f]; (c cs o os f fs) u64; |m, a, b| match a {
        0 => m.c_slice(&Vec::<u32>::ex(a)), 1 => m.c_slice(&Vec::<String>::ex(a)), _ => m.c_slice(&Vec::<u8>::ex(a)) });
    c_two = val(|m| m.expect_c_two(); n [x: f, y: f]; (c cs o os f fs) u64; |m, a, b| match (a, b) {
        (0, _) => m.c_two(u32::ex(a), String::ex(b)), (1, _) => m.c_two(String::ex(a), u32::ex(b)), (_, 0) => m.c_two(u8::ex(a), Opaque(b)),
        _ => m.c_two(Opaque(a), Opaque(b)) });
    c_static = stat(6 MockConc::c_static_context(); |c| c.expect(); n [x: f, y: f]; (c cs o os f fs) u64; |a, b| match a {
        0 => MockConc::c_static(u32::ex(a), u16::ex(b)), 1 => MockConc::c_static(String::ex(a), u16::ex(b)), _ => MockConc::c_static(Opaque(a), u16::ex(b)) });
    ct = val(|m| m.expect_ct(); n [x: f, y: f]; (c cs o os f fs) u64; |m, a, b| match a {
        0 => m.ct(u32::ex(a), &u32::ex(b)), _ => m.ct(String::ex(a), &String::ex(b)) });
}

// ---- closures, futures, impl Trait ----
pub struct Nums(u64, u8);
impl Iterator for Nums {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        self.1 += 1;
        if self.1 < 3 { Some(self.0) } else { None }
    }
}
/// Wraps values for return types which are boxed by mockall
pub struct BoxIt;
mock! {
    pub Odd {
        fn clos<F: Fn(u32) -> u32 + Send + 'static>(&self, f: F, x: u32) -> u64;
        fn fnptr(&self, f: fn(u32) -> u32) -> u64;
        fn bdyn(&self, f: Box<dyn Fn(u32) -> u32 + Send>) -> Box<dyn Tr + Send + Sync>;
        async fn asy(&self, x: u32, y: String) -> u64;
        fn fut(&self, x: u32) -> Pin<Box<dyn Future<Output = u64> + Send>>;
        fn life<'a, 'b>(&self, x: &'a u32, y: &'b str) -> u64;
        fn rc_self(self: Rc<Self>, x: u32) -> u64;
        fn pin_self(self: Pin<Box<Self>>, x: u32) -> u64;
        fn arc_self(self: Arc<Self>, x: u32) -> u64;
        fn tup(&self, xy: (u32, String)) -> (u64, String);
        unsafe fn uns(&self, x: u32) -> u64;
        fn r#match(&self, r#type: u32) -> u64;
    }
}
fn cl(v: u32) -> impl Fn(u32) -> u32 + Send + 'static { move |_| v }
fn fp(v: u32) -> fn(u32) -> u32 {
    fn z(_: u32) -> u32 { 0 }
    fn o(_: u32) -> u32 { 1 }
    fn t(_: u32) -> u32 { 2 }
    fn h(_: u32) -> u32 { 3 }
    [z, o, t, h][v as usize]
}
pub trait CallDx {
    fn cdx(&self) -> u32;
}
impl<F: Fn(u32) -> u32 + ?Sized> CallDx for F {
    fn cdx(&self) -> u32 { self(9) }
}
shape! { ZOdd, false, MockOdd, MockOdd::new(), |m| m.checkpoint(), |_m| String::new();
    asy = val(|m| m.expect_asy(); y [x: p, y: p]; (c cs o os f fs) u64;
        |m, a, b| futures::executor::block_on(m.asy(u32::ex(a), String::ex(b))));
    life = val(|m| m.expect_life(); n [x: p, y: f]; (c f fs) u64; |m, a, b| m.life(&u32::ex(a), &String::ex(b)));
    tup = val(|m| m.expect_tup(); y [xy: p]; (c cs o os f fs) (u64, String); |m, a, b| m.tup(Ex::ex(a)));
    uns = val(|m| m.expect_uns(); y [x: p]; (c cs o os f fs) u64; |m, a, b| unsafe { m.uns(u32::ex(a)) });
    raw = val(|m| m.expect_match(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.r#match(u32::ex(a)));
    pin_self = take(|m| m.expect_pin_self(); y [x: p]; (c cs o os f fs) u64; |m, a, b| Box::pin(m).pin_self(u32::ex(a)));
    rc_self = take(|m| m.expect_rc_self(); y [x: p]; (c cs o os f fs) u64; |m, a, b| Rc::new(m).rc_self(u32::ex(a)));
    arc_self = take(|m| m.expect_arc_self(); y [x: p]; (c cs o os f fs) u64; |m, a, b| Arc::new(m).arc_self(u32::ex(a)));
}

// ---- associated types, async_trait, Iterator ----
#[automock(type Key = u16; type Value = String;)]
pub trait Assoc {
    type Key: 'static;
    type Value;
    fn lookup(&self, k: Self::Key) -> Self::Value;
    fn store(&mut self, k: Self::Key, v: Self::Value) -> Option<u64>;
    fn stat(k: Self::Key) -> u64;
}
shape! { ZAssoc, false, MockAssoc, MockAssoc::new(), |m| m.checkpoint(), |m| format!("{m:?}");
    lookup = val(|m| m.expect_lookup(); y [x: p]; (c cs o os f fs) String; |m, a, b| m.lookup(u16::ex(a)));
    store = val(|m| m.expect_store(); y [x: p, y: p]; (c cs o os f fs) Option<u64>; |m, a, b| m.store(u16::ex(a), String::ex(b)));
    stat = stat(2 MockAssoc::stat_context(); |c| c.expect(); y [x: p]; (c cs o os f fs) u64; |a, b| <MockAssoc as Assoc>::stat(u16::ex(a)));
}
#[automock]
#[async_trait::async_trait]
pub trait Asy {
    async fn at_foo(&self, x: u32) -> u64;
    async fn at_bar(&mut self, x: &str, y: Vec<u8>) -> Result<u64, u64>;
    async fn at_static(x: u32) -> u64;
}
shape! { ZAsy, false, MockAsy, MockAsy::new(), |m| m.checkpoint(), |m| format!("{m:?}");
    at_foo = val(|m| m.expect_at_foo(); y [x: p]; (c cs o os f fs) u64; |m, a, b| futures::executor::block_on(m.at_foo(u32::ex(a))));
    at_bar = val(|m| m.expect_at_bar(); y [x: f, y: p]; (c cs o os f fs) Result<u64, u64>;
        |m, a, b| futures::executor::block_on(m.at_bar(&String::ex(a), Ex::ex(b))));
    at_static = stat(2 MockAsy::at_static_context(); |c| c.expect(); y [x: p]; (c cs o os f fs) u64;
        |a, b| futures::executor::block_on(MockAsy::at_static(u32::ex(a))));
}
mock! {
    pub Iter {}
    impl Iterator for Iter {
        type Item = u64;
        fn next(&mut self) -> Option<u64>;
    }
    impl Clone for Iter {
        fn clone(&self) -> Self;
    }
    impl PartialEq for Iter {
        fn eq(&self, x: &Self) -> bool;
    }
}
shape! { ZIter, false, MockIter, MockIter::new(), |m| m.checkpoint(), |_m| String::new();
    next = val(|m| m.expect_next(); n []; (c cs o os f fs) Option<u64>; |m, a, b| m.next());
}

// ---- generic traits and lifetimes ----
#[automock]
pub trait Gtr<T: Clone + 'static, U> where U: Send + 'static {
    fn gt_foo(&self, t: T, u: U) -> u64;
    fn gt_bar(&mut self, t: &T) -> U;
    fn gt_stat(t: T) -> u64;
}
shape! { ZGtr, false, MockGtr<u8, String>, MockGtr::<u8, String>::new(), |m| m.checkpoint(), |m| format!("{m:?}");
    gt_foo = val(|m| m.expect_gt_foo(); y [x: p, y: p]; (c cs o os f fs) u64; |m, a, b| m.gt_foo(u8::ex(a), String::ex(b)));
    gt_bar = val(|m| m.expect_gt_bar(); y [x: p]; (c cs o os f fs) String; |m, a, b| m.gt_bar(&u8::ex(a)));
    gt_stat = gstat(2 MockGtr::<u8, String>::gt_stat_context(); |c| c.expect(); y [x: p]; (c cs o os f fs) u64;
        |a, b| <MockGtr<u8, String> as Gtr<u8, String>>::gt_stat(u8::ex(a)));
}
shape! { ZGtr2, false, MockGtr<String, String>, MockGtr::<String, String>::new(), |m| m.checkpoint(), |m| format!("{m:?}");
    gt_foo = val(|m| m.expect_gt_foo(); y [x: p, y: p]; (c cs o os f fs) u64; |m, a, b| m.gt_foo(String::ex(a), String::ex(b)));
    gt_bar = val(|m| m.expect_gt_bar(); y [x: p]; (c cs o os f fs) String; |m, a, b| m.gt_bar(&String::ex(a)));
}

// ---- many arguments ----
use vh::spec::{x3, x4, xn};
#[automock]
pub trait Arity {
    fn a6m(&self, p0: u32, p1: u16, p2: String, p3: &u8, p4: i64, p5: Vec<u8>) -> u64;
    fn a6s(p0: u32, p1: u16, p2: String, p3: &u8, p4: i64, p5: Vec<u8>) -> u64;
    fn a7m(&self, p0: u32, p1: u16, p2: String, p3: &u8, p4: i64, p5: Vec<u8>, p6: &u32) -> u64;
    fn a7s(p0: u32, p1: u16, p2: String, p3: &u8, p4: i64, p5: Vec<u8>, p6: &u32) -> u64;
    fn a8m(&self, p0: u32, p1: u16, p2: String, p3: &u8, p4: i64, p5: Vec<u8>, p6: &u32, p7: i8) -> u64;
    fn a8s(p0: u32, p1: u16, p2: String, p3: &u8, p4: i64, p5: Vec<u8>, p6: &u32, p7: i8) -> u64;
    fn a10m(&self, p0: u32, p1: u16, p2: String, p3: &u8, p4: i64, p5: Vec<u8>, p6: &u32, p7: i8, p8: u64, p9: Option<u32>) -> u64;
    fn a10s(p0: u32, p1: u16, p2: String, p3: &u8, p4: i64, p5: Vec<u8>, p6: &u32, p7: i8, p8: u64, p9: Option<u32>) -> u64;
    fn a12s(p0: u32, p1: u16, p2: String, p3: &u8, p4: i64, p5: Vec<u8>, p6: &u32, p7: i8, p8: u64, p9: Option<u32>, p10: u8, p11: &String) -> u64;
    fn a13m(&self, p0: u32, p1: u16, p2: String, p3: &u8, p4: i64, p5: Vec<u8>, p6: &u32, p7: i8, p8: u64, p9: Option<u32>, p10: u8, p11: &String, p12: i16) -> u64;
    fn a17m(&self, p0: u32, p1: u16, p2: String, p3: &u8, p4: i64, p5: Vec<u8>, p6: &u32, p7: i8, p8: u64, p9: Option<u32>, p10: u8, p11: &String, p12: i16, p13: i32, p14: u32, p15: &u64, p16: u16) -> u64;
    fn a17s(p0: u32, p1: u16, p2: String, p3: &u8, p4: i64, p5: Vec<u8>, p6: &u32, p7: i8, p8: u64, p9: Option<u32>, p10: u8, p11: &String, p12: i16, p13: i32, p14: u32, p15: &u64, p16: u16) -> u64;
    fn a26m(&self, p0: u32, p1: u16, p2: String, p3: &u8, p4: i64, p5: Vec<u8>, p6: &u32, p7: i8, p8: u64, p9: Option<u32>, p10: u8, p11: &String, p12: i16, p13: i32, p14: u32, p15: &u64, p16: u16, p17: i64, p18: String, p19: u8, p20: &u16, p21: u32, p22: i8, p23: u64, p24: &u8, p25: u32) -> u64;
    fn a26s(p0: u32, p1: u16, p2: String, p3: &u8, p4: i64, p5: Vec<u8>, p6: &u32, p7: i8, p8: u64, p9: Option<u32>, p10: u8, p11: &String, p12: i16, p13: i32, p14: u32, p15: &u64, p16: u16, p17: i64, p18: String, p19: u8, p20: &u16, p21: u32, p22: i8, p23: u64, p24: &u8, p25: u32) -> u64;
}
shape! { ZArity, false, MockArity, MockArity::new(), |m| m.checkpoint(), |m| format!("{m:?}");
    a6m = val(|m| m.expect_a6m(); y [p0: p, p1: p, p2: p, p3: p, p4: p, p5: p]; (c cs o os f fs) u64;
        |m, a, b| m.a6m(<u32>::ex(a), <u16>::ex(b), <String>::ex(x2(a, b)), &<u8>::ex(x3(a, b)), <i64>::ex(x4(a, b)), <Vec<u8>>::ex(xn(5, a, b))));
    a6s = stat(1 MockArity::a6s_context(); |c| c.expect(); y [p0: p, p1: p, p2: p, p3: p, p4: p, p5: p]; (c cs o os f fs) u64;
        |a, b| MockArity::a6s(<u32>::ex(a), <u16>::ex(b), <String>::ex(x2(a, b)), &<u8>::ex(x3(a, b)), <i64>::ex(x4(a, b)), <Vec<u8>>::ex(xn(5, a, b))));
    a7m = val(|m| m.expect_a7m(); y [p0: p, p1: p, p2: p, p3: p, p4: p, p5: p, p6: p]; (c cs o os f fs) u64;
        |m, a, b| m.a7m(<u32>::ex(a), <u16>::ex(b), <String>::ex(x2(a, b)), &<u8>::ex(x3(a, b)), <i64>::ex(x4(a, b)), <Vec<u8>>::ex(xn(5, a, b)), &<u32>::ex(xn(6, a, b))));
    a7s = stat(3 MockArity::a7s_context(); |c| c.expect(); y [p0: p, p1: p, p2: p, p3: p, p4: p, p5: p, p6: p]; (c cs o os f fs) u64;
        |a, b| MockArity::a7s(<u32>::ex(a), <u16>::ex(b), <String>::ex(x2(a, b)), &<u8>::ex(x3(a, b)), <i64>::ex(x4(a, b)), <Vec<u8>>::ex(xn(5, a, b)), &<u32>::ex(xn(6, a, b))));
    a8m = val(|m| m.expect_a8m(); y [p0: p, p1: p, p2: p, p3: p, p4: p, p5: p, p6: p, p7: p]; (c cs o os f fs) u64;
        |m, a, b| m.a8m(<u32>::ex(a), <u16>::ex(b), <String>::ex(x2(a, b)), &<u8>::ex(x3(a, b)), <i64>::ex(x4(a, b)), <Vec<u8>>::ex(xn(5, a, b)), &<u32>::ex(xn(6, a, b)), <i8>::ex(xn(7, a, b))));
    a8s = stat(5 MockArity::a8s_context(); |c| c.expect(); y [p0: p, p1: p, p2: p, p3: p, p4: p, p5: p, p6: p, p7: p]; (c cs o os f fs) u64;
        |a, b| MockArity::a8s(<u32>::ex(a), <u16>::ex(b), <String>::ex(x2(a, b)), &<u8>::ex(x3(a, b)), <i64>::ex(x4(a, b)), <Vec<u8>>::ex(xn(5, a, b)), &<u32>::ex(xn(6, a, b)), <i8>::ex(xn(7, a, b))));
    a10m = val(|m| m.expect_a10m(); y [p0: p, p1: p, p2: p, p3: p, p4: p, p5: p, p6: p, p7: p, p8: p, p9: p]; (c cs o os f fs) u64;
        |m, a, b| m.a10m(<u32>::ex(a), <u16>::ex(b), <String>::ex(x2(a, b)), &<u8>::ex(x3(a, b)), <i64>::ex(x4(a, b)), <Vec<u8>>::ex(xn(5, a, b)), &<u32>::ex(xn(6, a, b)), <i8>::ex(xn(7, a, b)), <u64>::ex(xn(8, a, b)), <Option<u32>>::ex(xn(9, a, b))));
    a10s = stat(7 MockArity::a10s_context(); |c| c.expect(); y [p0: p, p1: p, p2: p, p3: p, p4: p, p5: p, p6: p, p7: p, p8: p, p9: p]; (c cs o os f fs) u64;
        |a, b| MockArity::a10s(<u32>::ex(a), <u16>::ex(b), <String>::ex(x2(a, b)), &<u8>::ex(x3(a, b)), <i64>::ex(x4(a, b)), <Vec<u8>>::ex(xn(5, a, b)), &<u32>::ex(xn(6, a, b)), <i8>::ex(xn(7, a, b)), <u64>::ex(xn(8, a, b)), <Option<u32>>::ex(xn(9, a, b))));
    a12s = stat(8 MockArity::a12s_context(); |c| c.expect(); y [p0: p, p1: p, p2: p, p3: p, p4: p, p5: p, p6: p, p7: p, p8: p, p9: p, p10: p, p11: p]; (c cs o os f fs) u64;
        |a, b| MockArity::a12s(<u32>::ex(a), <u16>::ex(b), <String>::ex(x2(a, b)), &<u8>::ex(x3(a, b)), <i64>::ex(x4(a, b)), <Vec<u8>>::ex(xn(5, a, b)), &<u32>::ex(xn(6, a, b)), <i8>::ex(xn(7, a, b)), <u64>::ex(xn(8, a, b)), <Option<u32>>::ex(xn(9, a, b)), <u8>::ex(xn(10, a, b)), &<String>::ex(xn(11, a, b))));
    a13m = val(|m| m.expect_a13m(); y [p0: p, p1: p, p2: p, p3: p, p4: p, p5: p, p6: p, p7: p, p8: p, p9: p, p10: p, p11: p, p12: p]; (c cs o os f fs) u64;
        |m, a, b| m.a13m(<u32>::ex(a), <u16>::ex(b), <String>::ex(x2(a, b)), &<u8>::ex(x3(a, b)), <i64>::ex(x4(a, b)), <Vec<u8>>::ex(xn(5, a, b)), &<u32>::ex(xn(6, a, b)), <i8>::ex(xn(7, a, b)), <u64>::ex(xn(8, a, b)), <Option<u32>>::ex(xn(9, a, b)), <u8>::ex(xn(10, a, b)), &<String>::ex(xn(11, a, b)), <i16>::ex(xn(12, a, b))));
    a17m = val(|m| m.expect_a17m(); y [p0: p, p1: p, p2: p, p3: p, p4: p, p5: p, p6: p, p7: p, p8: p, p9: p, p10: p, p11: p, p12: p, p13: p, p14: p, p15: p, p16: p]; (c cs o os f fs) u64;
        |m, a, b| m.a17m(<u32>::ex(a), <u16>::ex(b), <String>::ex(x2(a, b)), &<u8>::ex(x3(a, b)), <i64>::ex(x4(a, b)), <Vec<u8>>::ex(xn(5, a, b)), &<u32>::ex(xn(6, a, b)), <i8>::ex(xn(7, a, b)), <u64>::ex(xn(8, a, b)), <Option<u32>>::ex(xn(9, a, b)), <u8>::ex(xn(10, a, b)), &<String>::ex(xn(11, a, b)), <i16>::ex(xn(12, a, b)), <i32>::ex(xn(13, a, b)), <u32>::ex(xn(14, a, b)), &<u64>::ex(xn(15, a, b)), <u16>::ex(xn(16, a, b))));
    a17s = stat(11 MockArity::a17s_context(); |c| c.expect(); y [p0: p, p1: p, p2: p, p3: p, p4: p, p5: p, p6: p, p7: p, p8: p, p9: p, p10: p, p11: p, p12: p, p13: p, p14: p, p15: p, p16: p]; (c cs o os f fs) u64;
        |a, b| MockArity::a17s(<u32>::ex(a), <u16>::ex(b), <String>::ex(x2(a, b)), &<u8>::ex(x3(a, b)), <i64>::ex(x4(a, b)), <Vec<u8>>::ex(xn(5, a, b)), &<u32>::ex(xn(6, a, b)), <i8>::ex(xn(7, a, b)), <u64>::ex(xn(8, a, b)), <Option<u32>>::ex(xn(9, a, b)), <u8>::ex(xn(10, a, b)), &<String>::ex(xn(11, a, b)), <i16>::ex(xn(12, a, b)), <i32>::ex(xn(13, a, b)), <u32>::ex(xn(14, a, b)), &<u64>::ex(xn(15, a, b)), <u16>::ex(xn(16, a, b))));
    a26m = val(|m| m.expect_a26m(); y [p0: p, p1: p, p2: p, p3: p, p4: p, p5: p, p6: p, p7: p, p8: p, p9: p, p10: p, p11: p, p12: p, p13: p, p14: p, p15: p, p16: p, p17: p, p18: p, p19: p, p20: p, p21: p, p22: p, p23: p, p24: p, p25: p]; (c cs o os f fs) u64;
        |m, a, b| m.a26m(<u32>::ex(a), <u16>::ex(b), <String>::ex(x2(a, b)), &<u8>::ex(x3(a, b)), <i64>::ex(x4(a, b)), <Vec<u8>>::ex(xn(5, a, b)), &<u32>::ex(xn(6, a, b)), <i8>::ex(xn(7, a, b)), <u64>::ex(xn(8, a, b)), <Option<u32>>::ex(xn(9, a, b)), <u8>::ex(xn(10, a, b)), &<String>::ex(xn(11, a, b)), <i16>::ex(xn(12, a, b)), <i32>::ex(xn(13, a, b)), <u32>::ex(xn(14, a, b)), &<u64>::ex(xn(15, a, b)), <u16>::ex(xn(16, a, b)), <i64>::ex(xn(17, a, b)), <String>::ex(xn(18, a, b)), <u8>::ex(xn(19, a, b)), &<u16>::ex(xn(20, a, b)), <u32>::ex(xn(21, a, b)), <i8>::ex(xn(22, a, b)), <u64>::ex(xn(23, a, b)), &<u8>::ex(xn(24, a, b)), <u32>::ex(xn(25, a, b))));
    a26s = stat(13 MockArity::a26s_context(); |c| c.expect(); y [p0: p, p1: p, p2: p, p3: p, p4: p, p5: p, p6: p, p7: p, p8: p, p9: p, p10: p, p11: p, p12: p, p13: p, p14: p, p15: p, p16: p, p17: p, p18: p, p19: p, p20: p, p21: p, p22: p, p23: p, p24: p, p25: p]; (c cs o os f fs) u64;
        |a, b| MockArity::a26s(<u32>::ex(a), <u16>::ex(b), <String>::ex(x2(a, b)), &<u8>::ex(x3(a, b)), <i64>::ex(x4(a, b)), <Vec<u8>>::ex(xn(5, a, b)), &<u32>::ex(xn(6, a, b)), <i8>::ex(xn(7, a, b)), <u64>::ex(xn(8, a, b)), <Option<u32>>::ex(xn(9, a, b)), <u8>::ex(xn(10, a, b)), &<String>::ex(xn(11, a, b)), <i16>::ex(xn(12, a, b)), <i32>::ex(xn(13, a, b)), <u32>::ex(xn(14, a, b)), &<u64>::ex(xn(15, a, b)), <u16>::ex(xn(16, a, b)), <i64>::ex(xn(17, a, b)), <String>::ex(xn(18, a, b)), <u8>::ex(xn(19, a, b)), &<u16>::ex(xn(20, a, b)), <u32>::ex(xn(21, a, b)), <i8>::ex(xn(22, a, b)), <u64>::ex(xn(23, a, b)), &<u8>::ex(xn(24, a, b)), <u32>::ex(xn(25, a, b))));
}

pub fn zoo() -> Zoo {
    vec![
        ("ZStat", &["static", "generic"], ZStat::make),
        ("ZGStat", &["static", "generic"], ZGStat::make),
        ("ZBuild", &["static"], ZBuild::make),
        ("ZMod", &["static", "module"], ZMod::make),
        ("ZMod2", &["static", "module"], ZMod2::make),
        ("ZFfi", &["static", "module", "ffi"], ZFfi::make),
        ("ZConc", &["conc"], ZConc::make),
        ("ZOdd", &["odd"], ZOdd::make),
        ("ZAssoc", &["static"], ZAssoc::make),
        ("ZAsy", &["static", "async"], ZAsy::make),
        ("ZArity", &["static", "arity"], ZArity::make),
        ("ZIter", &["odd"], ZIter::make),
        ("ZGtr", &["generic", "static"], ZGtr::make),
        ("ZGtr2", &["generic"], ZGtr2::make),
    ]
}
