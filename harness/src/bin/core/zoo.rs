//! Real mocks of every supported shape, seen through the uniform interface.
//! This half: objects with ordinary methods, references, generics.
#![allow(dead_code, clippy::all, non_snake_case)]
use mockall::*;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use vh::engine::Zoo;
use vh::shape;
use vh::spec::{x2, x3, x4};
use vh::vals::*;

// ---- a plain trait, many argument shapes ----
#[automock]
pub trait Plain {
    fn foo(&self, x: u32) -> u32;
    fn bar(&self, x: u8, y: i64) -> String;
    fn zero(&self) -> u64;
    fn unit(&self, x: u32);
    fn nothing(&self);
    fn five(&self, a: u32, b: u16, c: i32, d: u64, e: i8) -> u64;
    fn three(&mut self, a: &u32, b: String, c: &str) -> Vec<u32>;
    fn strs(&self, a: &str, b: &[u8]) -> bool;
    fn owned(&self, a: String, b: Vec<u16>) -> Result<u32, String>;
    fn opts(&self, a: Option<u32>, b: (u8, u8)) -> Option<u64>;
    fn noclone(&self, a: Opaque) -> NoClone;
    fn dynarg(&self, a: Box<dyn Tr + Send>, b: &dyn Tr) -> u64;
    fn paths(&self, a: &Path, b: PathBuf) -> PathBuf;
    fn cs(&self, a: &CStr, b: &OsStr) -> OsString;
    fn fl(&self, a: f64, b: char) -> Box<u64>;
    fn mutarg(&self, a: &mut u32, b: &mut [u8]) -> u64;
    fn arr(&self, a: [u8; 3], b: std::sync::Arc<u32>) -> [u64; 2];
    fn byvalmut(&self, a: u32) -> u64;
    fn nested(&self, a: Vec<Option<u32>>, b: &[String]) -> (u64, u8);
}
fn vecopt(v: u32) -> Vec<Option<u32>> { (0..v + 1).map(|_| Some(<u32 as Ex>::ex(v))).collect() }

shape! { ZPlain, false, MockPlain, MockPlain::new(), |m| m.checkpoint(), |m| format!("{m:?}");
    foo = val(|m| m.expect_foo(); y [x: p]; (c cs o os f fs) u32; |m, a, b| m.foo(u32::ex(a)));
    bar = val(|m| m.expect_bar(); y [x: p, y: p]; (c cs o os f fs) String; |m, a, b| m.bar(u8::ex(a), i64::ex(b)));
    zero = val(|m| m.expect_zero(); n []; (c cs o os f fs) u64; |m, a, b| m.zero());
    unit = val(|m| m.expect_unit(); y [x: p]; (c cs o os f fs) (); |m, a, b| m.unit(u32::ex(a)));
    nothing = val(|m| m.expect_nothing(); n []; (c o f fs) (); |m, a, b| m.nothing());
    five = val(|m| m.expect_five(); y [p0: p, p1: p, p2: p, p3: p, p4: p]; (c cs o os f fs) u64;
        |m, a, b| m.five(u32::ex(a), u16::ex(b), i32::ex(x2(a, b)), u64::ex(x3(a, b)), i8::ex(x4(a, b))));
    three = val(|m| m.expect_three(); y [p0: p, p1: p, p2: f]; (c cs o os f fs) Vec<u32>;
        |m, a, b| m.three(&u32::ex(a), String::ex(b), &String::ex(x2(a, b))));
    strs = val(|m| m.expect_strs(); y [p0: f, p1: f]; (c cs o os f fs) bool;
        |m, a, b| m.strs(&String::ex(a), &Vec::<u8>::ex(b)));
    owned = val(|m| m.expect_owned(); y [p0: p, p1: p]; (c cs o os f fs) Result<u32, String>;
        |m, a, b| m.owned(String::ex(a), Ex::ex(b)));
    opts = val(|m| m.expect_opts(); y [p0: p, p1: p]; (c cs o os f fs) Option<u64>;
        |m, a, b| m.opts(Ex::ex(a), Ex::ex(b)));
    noclone = val(|m| m.expect_noclone(); y [p0: f]; (o os f fs) NoClone; |m, a, b| m.noclone(Opaque(a)));
    dynarg = val(|m| m.expect_dynarg(); n [p0: f, p1: f]; (c cs o os f fs) u64;
        |m, a, b| m.dynarg(Box::new(TrImpl(a as u64)), &TrImpl(b as u64)));
    paths = val(|m| m.expect_paths(); y [p0: f, p1: p]; (c cs o os f fs) PathBuf;
        |m, a, b| m.paths(&PathBuf::ex(a), PathBuf::ex(b)));
    cs = val(|m| m.expect_cs(); y [p0: f, p1: f]; (c cs o os f fs) OsString;
        |m, a, b| m.cs(&CString::ex(a), &OsString::ex(b)));
    fl = val(|m| m.expect_fl(); y [p0: p, p1: p]; (c cs o os f fs) Box<u64>;
        |m, a, b| m.fl(Ex::ex(a), Ex::ex(b)));
    mutarg = val(|m| m.expect_mutarg(); y [p0: p, p1: f]; (c cs o os f fs) u64;
        |m, a, b| m.mutarg(&mut u32::ex(a), &mut Vec::<u8>::ex(b)));
    arr = val(|m| m.expect_arr(); y [p0: p, p1: p]; (c cs o os f fs) [u64; 2];
        |m, a, b| m.arr(Ex::ex(a), Ex::ex(b)));
    byvalmut = val(|m| m.expect_byvalmut(); y [p0: p]; (c cs o os f fs) u64; |m, a, b| m.byvalmut(u32::ex(a)));
    nested = val(|m| m.expect_nested(); y [p0: f, p1: f]; (c cs o os f fs) (u64, u8);
        |m, a, b| m.nested(vecopt(a), &Vec::<String>::ex(b)));
}

// ---- an inherent struct impl (accessed through the module of its mock) ----
mod inner {
    #![allow(unused)]
    use super::*;
    pub struct Struct2 {}
    #[automock]
    impl Struct2 {
        pub fn foo(&self, mut x: u32) -> u64 { x += 1; x as u64 }
        pub fn moved(self, x: u16) -> u64 { x as u64 }
        pub(crate) fn private(&mut self, x: &u32, y: &mut String) -> u64 { 0 }
        pub(super) fn private2(&mut self, x: [u8; 2]) -> u64 { 0 }
        pub fn underscore(&self, _y: u8) -> u64 { 0 }
    }
}
use inner::MockStruct2;
shape! { ZStruct, false, MockStruct2, MockStruct2::new(), |m| m.checkpoint(), |m| format!("{m:?}");
    foo = val(|m| m.expect_foo(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.foo(u32::ex(a)));
    moved = take(|m| m.expect_moved(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.moved(u16::ex(a)));
    private = val(|m| m.expect_private(); y [x: p, y: p]; (c cs o os f fs) u64;
        |m, a, b| m.private(&u32::ex(a), &mut String::ex(b)));
    private2 = val(|m| m.expect_private2(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.private2(Ex::ex(a)));
    under = val(|m| m.expect_underscore(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.underscore(u8::ex(a)));
}

// ---- mock!: inherent methods plus several traits, some names shared ----
pub mod ma {
    pub trait Same {
        fn same(&self, x: u32) -> u64;
        fn other(&self, x: u8, y: u8) -> u64;
    }
}
pub trait Tc<T> {
    fn tc(&self, x: T) -> u64;
}
shape! { ZMulti, false, MockMulti2, MockMulti2::new(), |m| m.checkpoint(), |m| format!("{m:?}");
    inherent = val(|m| m.expect_inherent(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.inherent(u32::ex(a)));
    other = val(|m| m.expect_other(); y [x: p, y: p]; (c cs o os f fs) u64;
        |m, a, b| ma::Same::other(m, u8::ex(a), u8::ex(b)));
    same = val(|m| m.expect_same(); y [x: p]; (c cs o os f fs) u64; |m, a, b| ma::Same::same(m, u32::ex(a)));
    tb_only = val(|m| m.expect_tb_only(); y [x: f]; (c cs o os f fs) String; |m, a, b| Tb2::tb_only(m, &String::ex(a)));
    td = val(|m| m.expect_td(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.td(Ex::ex(a)));
    boxed = take(|m| m.expect_boxed(); y [x: p]; (c cs o os f fs) u64; |m, a, b| Box::new(m).boxed(u32::ex(a)));
    by_value = take(|m| m.expect_by_value(); y [x: p, y: p]; (c cs o os f fs) u64;
        |m, a, b| m.by_value(u32::ex(a), u8::ex(b)));
    tc = val(|m| m.expect_tc(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.tc(i64::ex(a)));
}
pub trait Tb2 {
    fn tb_only(&mut self, x: &str) -> String;
}
pub trait Td2: Tb2 {
    fn td(&self, x: Vec<u8>) -> u64;
}
mock! {
    #[derive(Debug)]
    pub Multi2 {
        fn inherent(&self, x: u32) -> u64;
        fn boxed(self: Box<Self>, x: u32) -> u64;
        fn by_value(self, x: u32, y: u8) -> u64;
    }
    impl ma::Same for Multi2 {
        fn same(&self, x: u32) -> u64;
        fn other(&self, x: u8, y: u8) -> u64;
    }
    impl Tb2 for Multi2 {
        fn tb_only(&mut self, x: &str) -> String;
    }
    impl Td2 for Multi2 {
        fn td(&self, x: Vec<u8>) -> u64;
    }
    impl Tc<i64> for Multi2 {
        fn tc(&self, x: i64) -> u64;
    }
}

// ---- a generic struct, implementing one trait for specific arguments ----
pub trait Bar {
    fn bar(&self, x: u32) -> u64;
    fn baz(&mut self, x: String, y: u8) -> u64;
}
mock! {
    pub Sp<T: 'static> {
        fn inh(&self, x: u8) -> u64;
    }
    impl Bar for Sp<u32> {
        fn bar(&self, x: u32) -> u64;
        fn baz(&mut self, x: String, y: u8) -> u64;
    }
    impl Bar for Sp<i32> {
        fn bar(&self, x: u32) -> u64;
        fn baz(&mut self, x: String, y: u8) -> u64;
    }
    impl Bar for Sp<Vec<u8>> {
        fn bar(&self, x: u32) -> u64;
        fn baz(&mut self, x: String, y: u8) -> u64;
    }
}
pub struct Three {
    a: MockSp<u32>,
    b: MockSp<i32>,
    c: MockSp<Vec<u8>>,
}
shape! { ZSpU, false, MockSp<u32>, MockSp::<u32>::new(), |m| m.checkpoint(), |_m| String::new();
    bar = val(|m| m.expect_bar(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.bar(u32::ex(a)));
    baz = val(|m| m.expect_baz(); y [x: p, y: p]; (c cs o os f fs) u64; |m, a, b| m.baz(String::ex(a), u8::ex(b)));
    inh = val(|m| m.expect_inh(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.inh(u8::ex(a)));
}
shape! { ZSpI, false, MockSp<i32>, MockSp::<i32>::new(), |m| m.checkpoint(), |_m| String::new();
    bar = val(|m| m.expect_bar(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.bar(u32::ex(a)));
    baz = val(|m| m.expect_baz(); y [x: p, y: p]; (c cs o os f fs) u64; |m, a, b| m.baz(String::ex(a), u8::ex(b)));
    inh = val(|m| m.expect_inh(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.inh(u8::ex(a)));
}
shape! { ZSpV, false, MockSp<Vec<u8>>, MockSp::<Vec<u8>>::new(), |m| m.checkpoint(), |_m| String::new();
    bar = val(|m| m.expect_bar(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.bar(u32::ex(a)));
    baz = val(|m| m.expect_baz(); y [x: p, y: p]; (c cs o os f fs) u64; |m, a, b| m.baz(String::ex(a), u8::ex(b)));
    inh = val(|m| m.expect_inh(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.inh(u8::ex(a)));
}

// ---- a generic struct with an inherent impl and a generic trait ----
pub trait Tget<T> {
    fn tget(&self, k: T) -> u64;
}
mock! {
    pub Gs<T: Clone + 'static, V: 'static> where V: Send {
        fn take(&self, t: T) -> V;
        fn pair(&mut self, t: &T, v: V) -> u64;
        fn meth<Q: 'static>(&self, t: T, q: Q) -> u64;
    }
    impl<T: Clone + 'static, V: 'static> Tget<T> for Gs<T, V> where V: Send {
        fn tget(&self, k: T) -> u64;
    }
}
shape! { ZGs, false, MockGs<u32, String>, MockGs::<u32, String>::new(), |m| m.checkpoint(), |_m| "?".into();
    take = val(|m| m.expect_take(); y [x: p]; (c cs o os f fs) String; |m, a, b| m.take(u32::ex(a)));
    pair = val(|m| m.expect_pair(); y [x: p, y: p]; (c cs o os f fs) u64; |m, a, b| m.pair(&u32::ex(a), String::ex(b)));
    meth_u8 = gval(|m| m.expect_meth::<u8>(); y [x: p, y: p]; (c cs o os f fs) u64;
        |m, a, b| m.meth::<u8>(u32::ex(a), u8::ex(b)));
    meth_i8 = gval(|m| m.expect_meth::<i8>(); y [x: p, y: p]; (c cs o os f fs) u64;
        |m, a, b| m.meth::<i8>(u32::ex(a), i8::ex(b)));
    tget = val(|m| m.expect_tget(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.tget(u32::ex(a)));
}

// ---- generic methods on an ordinary mock ----
/// Two different types which are both called `Same`
pub fn t1() -> (fn(u32) -> local_a::Same, fn(u32) -> local_b::Same) {
    (local_a::Same::ex, local_b::Same::ex)
}
pub mod local_a {
    #[derive(Clone, Debug, PartialEq)]
    pub struct Same(pub u32);
    impl vh::vals::Dx for Same { fn dx(&self) -> u32 { self.0 } }
    impl vh::vals::Ex for Same { fn ex(v: u32) -> Self { Same(v) } }
    pub mod deep {
        #[derive(Clone, Debug, PartialEq)]
        pub struct Same(pub u32);
        impl vh::vals::Dx for Same { fn dx(&self) -> u32 { self.0 } }
        impl vh::vals::Ex for Same { fn ex(v: u32) -> Self { Same(v) } }
    }
}
pub mod local_b {
    #[derive(Clone, Debug, PartialEq)]
    pub struct Same(pub u32);
    impl vh::vals::Dx for Same { fn dx(&self) -> u32 { self.0 } }
    impl vh::vals::Ex for Same { fn ex(v: u32) -> Self { Same(v) } }
}
#[automock]
pub trait Gen {
    fn one<T: 'static>(&self, t: T) -> u64;
    fn two<A: 'static, B: 'static>(&self, a: A, b: B) -> u64;
    fn noarg<T: 'static>(&self) -> u64;
    fn phantom<T: 'static, U: 'static>(&self, x: u32) -> u64;
    fn ret<R: Rv + 'static>(&self, x: u32) -> R;
    fn refd<T: 'static>(&self, t: &T) -> u64;
    fn gref<T: 'static>(&self, t: T) -> &u64;
    fn gmut<T: 'static>(&mut self, t: T) -> &mut u64;
    fn bounded<T>(&mut self, t: T) -> T where T: Clone + std::fmt::Debug + 'static;
}
shape! { ZGen, false, MockGen, MockGen::new(), |m| m.checkpoint(), |m| format!("{m:?}");
    one_sa = gval(|m| m.expect_one::<local_a::Same>(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.one(local_a::Same::ex(a)));
    one_sb = gval(|m| m.expect_one::<local_b::Same>(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.one(local_b::Same::ex(a)));
    one_sd = gval(|m| m.expect_one::<local_a::deep::Same>(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.one(local_a::deep::Same::ex(a)));
    one_u8 = gval(|m| m.expect_one::<u8>(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.one(u8::ex(a)));
    one_i8 = gval(|m| m.expect_one::<i8>(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.one(i8::ex(a)));
    one_vu8 = gval(|m| m.expect_one::<Vec<u8>>(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.one(Vec::<u8>::ex(a)));
    two_ab = gval(|m| m.expect_two::<u32, i32>(); y [x: p, y: p]; (c cs o os f fs) u64; |m, a, b| m.two(u32::ex(a), i32::ex(b)));
    two_ba = gval(|m| m.expect_two::<i32, u32>(); y [x: p, y: p]; (c cs o os f fs) u64; |m, a, b| m.two(i32::ex(a), u32::ex(b)));
    two_aa = gval(|m| m.expect_two::<u32, u32>(); y [x: p, y: p]; (c cs o os f fs) u64; |m, a, b| m.two(u32::ex(a), u32::ex(b)));
    two_bb = gval(|m| m.expect_two::<i32, i32>(); y [x: p, y: p]; (c cs o os f fs) u64; |m, a, b| m.two(i32::ex(a), i32::ex(b)));
    two_tup = gval(|m| m.expect_two::<(u32, i32), (i32, u32)>(); y [x: p, y: p]; (c cs o os f fs) u64; |m, a, b| m.two(<(u32, i32)>::ex(a), <(i32, u32)>::ex(b)));
    noarg_u8 = gval(|m| m.expect_noarg::<u8>(); n []; (c cs o os f fs) u64; |m, a, b| m.noarg::<u8>());
    noarg_i8 = gval(|m| m.expect_noarg::<i8>(); n []; (c cs o os f fs) u64; |m, a, b| m.noarg::<i8>());
    noarg_unit = gval(|m| m.expect_noarg::<()>(); n []; (c cs o os f fs) u64; |m, a, b| m.noarg::<()>());
    ph_1 = gval(|m| m.expect_phantom::<u8, u16>(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.phantom::<u8, u16>(u32::ex(a)));
    ph_2 = gval(|m| m.expect_phantom::<u16, u8>(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.phantom::<u16, u8>(u32::ex(a)));
    ph_3 = gval(|m| m.expect_phantom::<u8, u8>(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.phantom::<u8, u8>(u32::ex(a)));
    ret_u64 = gval(|m| m.expect_ret::<u64>(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.ret::<u64>(u32::ex(a)));
    ret_u8 = gval(|m| m.expect_ret::<u8>(); y [x: p]; (c cs o os f fs) u8; |m, a, b| m.ret::<u8>(u32::ex(a)));
    ret_str = gval(|m| m.expect_ret::<String>(); y [x: p]; (c cs o os f fs) String; |m, a, b| m.ret::<String>(u32::ex(a)));
    refd_u8 = gval(|m| m.expect_refd::<u8>(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.refd::<u8>(&u8::ex(a)));
    refd_u16 = gval(|m| m.expect_refd::<u16>(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.refd::<u16>(&u16::ex(a)));
    gref_u8 = refr(|m| m.expect_gref::<u8>(); y [x: p]; (c) u64; |m, a, b| *m.gref::<u8>(u8::ex(a)));
    gref_u16 = refr(|m| m.expect_gref::<u16>(); y [x: p]; (c) u64; |m, a, b| *m.gref::<u16>(u16::ex(a)));
    gmut_u8 = refr(|m| m.expect_gmut::<u8>(); y [x: p]; (v f fs) u64; |m, a, b| bumped(m.gmut::<u8>(u8::ex(a))));
    gmut_u16 = refr(|m| m.expect_gmut::<u16>(); y [x: p]; (v f fs) u64; |m, a, b| bumped(m.gmut::<u16>(u16::ex(a))));
    bnd_u64 = gval(|m| m.expect_bounded::<u64>(); y [x: p]; (c cs o os f fs) u64; |m, a, b| m.bounded::<u64>(u64::ex(a)));
    bnd_u16 = gval(|m| m.expect_bounded::<u16>(); y [x: p]; (c cs o os f fs) u16; |m, a, b| m.bounded::<u16>(u16::ex(a)));
}
/// Read through a mutable reference, then write
pub fn bumped<T: Rv>(r: &mut T) -> u64 {
    let v = r.dec();
    r.bump();
    v
}

// ---- methods returning references ----
mock! {
    #[derive(Debug)]
    pub Refs {
        fn r_u64(&self, x: u32) -> &u64;
        fn r_str(&self, x: u32) -> &str;
        fn r_slice(&self, x: u32) -> &[u64];
        fn r_path(&self) -> &Path;
        fn r_cstr(&self) -> &CStr;
        fn r_osstr(&self) -> &OsStr;
        fn r_dyn(&self, x: u32, y: u8) -> &dyn TrS;
        fn r_static(&self, x: u32) -> &'static u64;
        fn r_statstr(&self) -> &'static str;
        fn r_string(&self, x: &str) -> &String;
        fn r_opt(&self) -> &Option<u64>;
        fn m_u64(&mut self, x: u32) -> &mut u64;
        fn m_str(&mut self, x: u32) -> &mut String;
        fn m_slice(&mut self, x: u32) -> &mut [u64];
        fn m_vec(&mut self) -> &mut Vec<u64>;
        fn m_dyn(&mut self, x: u32) -> &mut dyn TrS;
        fn m_w(&mut self, x: u32, y: u8) -> &mut W<u64>;
    }
    impl RefTrait for Refs {
        fn t_u64(&self, x: u32) -> &u64;
        fn t_mut(&mut self, x: u32) -> &mut u64;
    }
}
pub trait TrS: Tr + Send + Sync {}
impl<T: Tr + Send + Sync> TrS for T {}
impl Rv for Box<dyn TrS> {
    fn enc(v: u64) -> Self { Box::new(TrImpl(v)) }
    fn dec(&self) -> u64 { self.num() }
    fn bump(&mut self) { (**self).bump() }
}
pub trait RefTrait {
    fn t_u64(&self, x: u32) -> &u64;
    fn t_mut(&mut self, x: u32) -> &mut u64;
}
fn sl(s: &[u64]) -> u64 { s.to_vec().dec() }
fn sb(s: &mut [u64]) -> u64 {
    let v = s.to_vec().dec();
    for x in s { x.bump() }
    v
}
shape! { ZRefs, false, MockRefs, MockRefs::new(), |m| m.checkpoint(), |m| format!("{m:?}");
    r_u64 = refr(|m| m.expect_r_u64(); y [x: p]; (c) u64; |m, a, b| *m.r_u64(u32::ex(a)));
    r_str = refr(|m| m.expect_r_str(); y [x: p]; (c) String; |m, a, b| m.r_str(u32::ex(a)).to_string().dec());
    r_slice = refr(|m| m.expect_r_slice(); y [x: p]; (c) Vec<u64>; |m, a, b| sl(m.r_slice(u32::ex(a))));
    r_path = refr(|m| m.expect_r_path(); n []; (c) PathBuf; |m, a, b| m.r_path().to_path_buf().dec());
    r_cstr = refr(|m| m.expect_r_cstr(); n []; (c) CString; |m, a, b| m.r_cstr().to_owned().dec());
    r_osstr = refr(|m| m.expect_r_osstr(); n []; (c) OsString; |m, a, b| m.r_osstr().to_owned().dec());
    r_dyn = refr(|m| m.expect_r_dyn(); y [x: p, y: p]; (c) Box<dyn TrS>; |m, a, b| m.r_dyn(u32::ex(a), u8::ex(b)).num());
    r_static = refr(|m| m.expect_r_static(); y [x: p]; (c) &'static u64; |m, a, b| Rv::dec(&m.r_static(u32::ex(a))));
    r_statstr = refr(|m| m.expect_r_statstr(); n []; (c) &'static str; |m, a, b| Rv::dec(&m.r_statstr()));
    r_string = refr(|m| m.expect_r_string(); y [x: f]; (c) String; |m, a, b| m.r_string(&String::ex(a)).dec());
    r_opt = refr(|m| m.expect_r_opt(); n []; (c) Option<u64>; |m, a, b| m.r_opt().dec());
    m_u64 = refr(|m| m.expect_m_u64(); y [x: p]; (v f fs) u64; |m, a, b| bumped(m.m_u64(u32::ex(a))));
    m_str = refr(|m| m.expect_m_str(); y [x: p]; (v f fs) String; |m, a, b| bumped(m.m_str(u32::ex(a))));
    m_slice = refr(|m| m.expect_m_slice(); y [x: p]; (v f fs) Vec<u64>; |m, a, b| sb(m.m_slice(u32::ex(a))));
    m_vec = refr(|m| m.expect_m_vec(); n []; (v f fs) Vec<u64>; |m, a, b| bumped(m.m_vec()));
    m_dyn = refr(|m| m.expect_m_dyn(); y [x: p]; (v f fs) Box<dyn TrS>;
        |m, a, b| { let r = m.m_dyn(u32::ex(a)); let v = r.num(); r.bump(); v });
    m_w = refr(|m| m.expect_m_w(); y [x: p, y: p]; (v f fs) W<u64>; |m, a, b| bumped(m.m_w(u32::ex(a), u8::ex(b))));
    t_u64 = refr(|m| m.expect_t_u64(); y [x: p]; (c) u64; |m, a, b| *RefTrait::t_u64(m, u32::ex(a)));
    t_mut = refr(|m| m.expect_t_mut(); y [x: p]; (v f fs) u64; |m, a, b| bumped(RefTrait::t_mut(m, u32::ex(a))));
}

// ---- values that cannot leave their thread ----
pub trait Local {
    fn rc(&self, x: Rc<u32>) -> Rc<u64>;
    fn cell(&mut self, x: std::cell::Cell<u32>, y: Rc<String>) -> u64;
}
mock! {
    pub Loc {
        fn inh(&self, x: Rc<u8>) -> Rc<u64>;
    }
    impl Local for Loc {
        fn rc(&self, x: Rc<u32>) -> Rc<u64>;
        fn cell(&mut self, x: std::cell::Cell<u32>, y: Rc<String>) -> u64;
    }
}
shape! { ZLoc, false, MockLoc, MockLoc::new(), |m| m.checkpoint(), |_m| String::new();
    inh = val(|m| m.expect_inh(); y [x: f]; (cs os f fs) Rc<u64>; |m, a, b| m.inh(Rc::new(u8::ex(a))));
    rc = val(|m| m.expect_rc(); y [x: f]; (cs os fs) Rc<u64>; |m, a, b| m.rc(Rc::new(u32::ex(a))));
    cell = val(|m| m.expect_cell(); n [x: f, y: f]; (c f) u64;
        |m, a, b| m.cell(std::cell::Cell::new(u32::ex(a)), Rc::new(String::ex(b))));
}

pub fn zoo() -> Zoo {
    vec![
        ("ZPlain", &["plain"], ZPlain::make),
        ("ZStruct", &["plain"], ZStruct::make),
        ("ZMulti", &["plain"], ZMulti::make),
        ("ZSpU", &["plain"], ZSpU::make),
        ("ZSpI", &["plain"], ZSpI::make),
        ("ZSpV", &["plain"], ZSpV::make),
        ("ZGs", &["generic"], ZGs::make),
        ("ZGen", &["generic"], ZGen::make),
        ("ZRefs", &["ref"], ZRefs::make),
        ("ZLoc", &["plain"], ZLoc::make),
    ]
}
