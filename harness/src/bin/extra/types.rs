//! C06: instances of generic methods and functions over look-alike types,
//! including types that only differ in the block that declares them, closures,
//! function items, lifetimes inside of function pointers, nesting and order.
#![allow(dead_code)]
use mockall::*;
use std::rc::Rc;
use vh::mon::{Mon, Verdict};
use vh::rng::Rng;
use vh::spec::{run, End};
use vh::{ensure, same};

#[automock]
pub trait Lt {
    fn one<T: 'static>(&self, t: T) -> u64;
    fn two<A: 'static, B: 'static>(&self, a: A, b: B) -> u64;
    fn phantom<A: 'static, B: 'static>(&self) -> u64;
    fn rf<T: 'static>(&self, t: T) -> &u64;
    fn rm<T: 'static>(&mut self, t: T) -> &mut u64;
    fn st<T: 'static>(t: T) -> u64;
    fn st2<A: 'static, B: 'static>() -> u64;
    fn w3<A: 'static, B: 'static, C: 'static>(&self) -> u64;
    fn w5<A: 'static, B: 'static, C: 'static, D: 'static, E: 'static>(&self) -> u64;
    fn w8<A: 'static, B: 'static, C: 'static, D: 'static, E: 'static, F: 'static, G: 'static, H: 'static>(&self) -> u64;
    fn sw4<A: 'static, B: 'static, C: 'static, D: 'static>() -> u64;
    fn sw12<A: 'static, B: 'static, C: 'static, D: 'static, E: 'static, F: 'static, G: 'static, H: 'static, I: 'static, J: 'static, K: 'static, L: 'static>() -> u64;
}
mock! {
    pub Own<T: 'static> {
        fn own(&self, t: T) -> u64;
        fn own_st(t: T) -> u64;
        fn both<Q: 'static>(&self, t: T, q: Q) -> u64;
    }
}
#[automock]
pub mod gm {
    pub fn gf<T: 'static>(t: T) -> u64 { drop(t); 0 }
    pub fn gf2<A: 'static, B: 'static>(a: A, b: B) -> u64 { drop((a, b)); 0 }
}

/// One way of (un)setting and calling, for one tuple of type arguments
#[derive(Clone)]
pub struct Inst {
    pub ty: String,
    /// Expectations of the same channel never mix with those of another
    pub chan: &'static str,
    pub expect: Rc<dyn Fn(&mut World, u64, Option<usize>)>,
    pub call: Rc<dyn Fn(&mut World, usize) -> u64>,
    pub ctx: Option<Rc<dyn Fn() -> Box<dyn Ctx>>>,
    pub own: Option<Rc<dyn Fn() -> Box<dyn std::any::Any>>>,
}
pub trait Ctx {
    fn any(&self) -> &dyn std::any::Any;
    fn cp(&self);
}
pub struct World {
    pub m: Vec<MockLt>,
    pub ctx: Vec<Option<Box<dyn Ctx>>>,
    pub own: Vec<Option<Box<dyn std::any::Any>>>,
    /// which instance is being used, and which object
    pub cur: usize,
    pub obj: usize,
}
macro_rules! ctx_ty {
    ($t:ty) => { impl Ctx for $t { fn any(&self) -> &dyn std::any::Any { self } fn cp(&self) { self.checkpoint() } } };
}
ctx_ty!(__mock_MockLt_Lt::__st::Context);
ctx_ty!(__mock_MockLt_Lt::__st2::Context);
ctx_ty!(__mock_MockLt_Lt::__sw4::Context);
ctx_ty!(__mock_MockLt_Lt::__sw12::Context);
ctx_ty!(mock_gm::__gf::Context);
ctx_ty!(mock_gm::__gf2::Context);
impl<T: 'static> Ctx for __mock_MockOwn::__own_st::Context<T> {
    fn any(&self) -> &dyn std::any::Any { self }
    fn cp(&self) { self.checkpoint() }
}

macro_rules! fin {
    ($e:expr, $v:expr, $n:expr, $mk:ident) => {{
        let v = $v;
        let e = $e;
        match $n {
            Some(n) => { e.times(n).$mk(v); }
            None => { e.$mk(v); }
        }
    }};
}
macro_rules! fing {
    ($e:expr, $v:expr, $n:expr) => {{
        let v = $v;
        let mut e = $e;
        match $n {
            Some(n) => { e.times(n).return_const(v); }
            None => { e.return_const(v); }
        }
    }};
}

struct Reg {
    v: Vec<Inst>,
}
impl Reg {
    /// The same instance must not be listed twice
    fn wide(&mut self, i: Inst) {
        if !self.v.iter().any(|j| j.chan == i.chan && j.ty == i.ty) {
            self.v.push(i);
        }
    }
    fn one<T: 'static, F: Fn() -> T + Clone + 'static>(&mut self, ty: &str, mk: F) {
        let ty = ty.to_string();
        let p = |chan, expect: Rc<dyn Fn(&mut World, u64, Option<usize>)>, call: Rc<dyn Fn(&mut World, usize) -> u64>| Inst {
            ty: ty.clone(), chan, expect, call, ctx: None, own: None };
        let k = mk.clone();
        self.v.push(p("one", Rc::new(|w, v, n| fin!(w.m[w.obj].expect_one::<T>(), v, n, return_const)),
            Rc::new(move |w, o| w.m[o].one::<T>(k()))));
        let k = mk.clone();
        self.v.push(p("rf", Rc::new(|w, v, n| fin!(w.m[w.obj].expect_rf::<T>(), v, n, return_const)),
            Rc::new(move |w, o| *w.m[o].rf::<T>(k()))));
        let k = mk.clone();
        self.v.push(p("rm", Rc::new(|w, v, n| fin!(w.m[w.obj].expect_rm::<T>(), v, n, return_var)),
            Rc::new(move |w, o| *w.m[o].rm::<T>(k()))));
        let k = mk.clone();
        let mut i = p("st", Rc::new(|w, v, n| fing!(w.ctx[w.cur].as_ref().unwrap().any()
                .downcast_ref::<__mock_MockLt_Lt::__st::Context>().unwrap().expect::<T>(), v, n)),
            Rc::new(move |_, _| MockLt::st::<T>(k())));
        i.ctx = Some(Rc::new(|| Box::new(MockLt::st_context())));
        self.v.push(i);
        let k = mk.clone();
        let mut i = p("gf", Rc::new(|w, v, n| fing!(w.ctx[w.cur].as_ref().unwrap().any()
                .downcast_ref::<mock_gm::__gf::Context>().unwrap().expect::<T>(), v, n)),
            Rc::new(move |_, _| mock_gm::gf::<T>(k())));
        i.ctx = Some(Rc::new(|| Box::new(mock_gm::gf_context())));
        self.v.push(i);
        // instances of the generic struct
        let k = mk.clone();
        let mut i = p("own", Rc::new(|w, v, n| fin!(w.own[w.cur].as_mut().unwrap().downcast_mut::<MockOwn<T>>().unwrap()
                .expect_own(), v, n, return_const)),
            Rc::new(move |w, _| w.own[w.cur].as_ref().unwrap().downcast_ref::<MockOwn<T>>().unwrap().own(k())));
        i.own = Some(Rc::new(|| Box::new(MockOwn::<T>::new())));
        self.v.push(i);
        let k = mk.clone();
        let mut i = p("own_st", Rc::new(|w, v, n| fing!(w.ctx[w.cur].as_ref().unwrap().any()
                .downcast_ref::<__mock_MockOwn::__own_st::Context<T>>().unwrap().expect(), v, n)),
            Rc::new(move |_, _| MockOwn::<T>::own_st(k())));
        i.ctx = Some(Rc::new(|| Box::new(MockOwn::<T>::own_st_context())));
        self.v.push(i);
    }
    fn two<A: 'static, B: 'static, F: Fn() -> A + Clone + 'static, G: Fn() -> B + Clone + 'static>(
        &mut self, ty: &str, mk: F, ml: G) {
        let ty = ty.to_string();
        let p = |chan, expect: Rc<dyn Fn(&mut World, u64, Option<usize>)>, call: Rc<dyn Fn(&mut World, usize) -> u64>| Inst {
            ty: ty.clone(), chan, expect, call, ctx: None, own: None };
        let (k, l) = (mk.clone(), ml.clone());
        self.v.push(p("two", Rc::new(|w, v, n| fin!(w.m[w.obj].expect_two::<A, B>(), v, n, return_const)),
            Rc::new(move |w, o| w.m[o].two::<A, B>(k(), l()))));
        self.v.push(p("phantom", Rc::new(|w, v, n| fin!(w.m[w.obj].expect_phantom::<A, B>(), v, n, return_const)),
            Rc::new(move |w, o| w.m[o].phantom::<A, B>())));
        let (k, l) = (mk.clone(), ml.clone());
        let mut i = p("own_both", Rc::new(|w, v, n| fin!(w.own[w.cur].as_mut().unwrap().downcast_mut::<MockOwn<A>>().unwrap()
                .expect_both::<B>(), v, n, return_const)),
            Rc::new(move |w, _| w.own[w.cur].as_ref().unwrap().downcast_ref::<MockOwn<A>>().unwrap().both::<B>(k(), l())));
        i.own = Some(Rc::new(|| Box::new(MockOwn::<A>::new())));
        self.v.push(i);
        let mut i = p("st2", Rc::new(|w, v, n| fing!(w.ctx[w.cur].as_ref().unwrap().any()
                .downcast_ref::<__mock_MockLt_Lt::__st2::Context>().unwrap().expect::<A, B>(), v, n)),
            Rc::new(move |_, _| MockLt::st2::<A, B>()));
        i.ctx = Some(Rc::new(|| Box::new(MockLt::st2_context())));
        self.v.push(i);
        let (k, l) = (mk.clone(), ml.clone());
        let mut i = p("gf2", Rc::new(|w, v, n| fing!(w.ctx[w.cur].as_ref().unwrap().any()
                .downcast_ref::<mock_gm::__gf2::Context>().unwrap().expect::<A, B>(), v, n)),
            Rc::new(move |_, _| mock_gm::gf2::<A, B>(k(), l())));
        i.ctx = Some(Rc::new(|| Box::new(mock_gm::gf2_context())));
        self.v.push(i);
    }
}

/// Instances of methods with many type parameters
macro_rules! wide {
    ($r:ident; $($A:ty, $B:ty, $C:ty, $D:ty, $E:ty, $F:ty, $G:ty, $H:ty, $I:ty, $J:ty, $K:ty, $L:ty);* $(;)?) => { $(
        wide!(@obj $r w3 expect_w3 [$A, $B, $C]);
        wide!(@obj $r w5 expect_w5 [$A, $B, $C, $D, $E]);
        wide!(@obj $r w8 expect_w8 [$A, $B, $C, $D, $E, $F, $G, $H]);
        wide!(@st $r sw4 __sw4 sw4_context [$A, $B, $C, $D]);
        wide!(@st $r sw12 __sw12 sw12_context [$A, $B, $C, $D, $E, $F, $G, $H, $I, $J, $K, $L]);
    )* };
    (@obj $r:ident $f:ident $e:ident [$($t:ty),*]) => {
        $r.wide(Inst { ty: stringify!($($t),*).to_string(), chan: stringify!($f),
            expect: Rc::new(|w, v, n| fin!(w.m[w.obj].$e::<$($t),*>(), v, n, return_const)),
            call: Rc::new(move |w, o| w.m[o].$f::<$($t),*>()), ctx: None, own: None });
    };
    (@st $r:ident $f:ident $md:ident $c:ident [$($t:ty),*]) => {
        $r.wide(Inst { ty: stringify!($($t),*).to_string(), chan: stringify!($f),
            expect: Rc::new(|w, v, n| fing!(w.ctx[w.cur].as_ref().unwrap().any()
                .downcast_ref::<__mock_MockLt_Lt::$md::Context>().unwrap().expect::<$($t),*>(), v, n)),
            call: Rc::new(move |_, _| MockLt::$f::<$($t),*>()),
            ctx: Some(Rc::new(|| Box::new(MockLt::$c()))), own: None });
    };
}

pub mod m1 { #[derive(Clone, Copy)] pub struct X(pub u32); }
pub mod m2 { #[derive(Clone, Copy)] pub struct X(pub u32); pub mod m1 { #[derive(Clone, Copy)] pub struct X(pub u32); } }
#[derive(Clone, Copy)] pub struct G<T>(pub T);
#[derive(Clone, Copy)] pub struct C<const N: usize>;
#[derive(Clone, Copy)] pub struct Cb<const B: bool>;

fn table() -> Vec<Inst> {
    let mut r = Reg { v: vec![] };
    // same-named types of different blocks of one function
    { #[derive(Clone, Copy)] struct L(u32); r.one("block0::L", || L(0)); r.two("block0::L,u8", || L(0), || 0u8);
      r.two("u8,block0::L", || 0u8, || L(0)); r.two("block0::L,block0::L", || L(0), || L(1));
      let _ = L(0).0; }
    { #[derive(Clone, Copy)] struct L(u32); r.one("block1::L", || L(0)); r.two("block1::L,u8", || L(0), || 0u8);
      r.two("u8,block1::L", || 0u8, || L(0)); r.two("block1::L,block1::L", || L(0), || L(1));
      r.one("G<block1::L>", || G(L(0)));
      let _ = L(0).0; }
    if true { #[derive(Clone, Copy)] struct L; r.one("block2::L", || L); r.one("G<block2::L>", || G(L)); r.one("Vec<block2::L>", || vec![L]); }
    if true { #[derive(Clone, Copy)] struct L; r.one("block3::L", || L); r.one("G<block3::L>", || G(L)); r.one("Vec<block3::L>", || vec![L]); }
    // a local type of a generic function is a different one for each instance? No:
    // inner items don't capture the outer function's parameters
    fn nest() -> impl Fn() -> Box<dyn Fn() -> u8> + Copy + 'static { || Box::new(|| 1) }
    r.one("Box<dyn Fn()->u8>", nest());
    // closures and function items are all different types
    let c1 = |x: u32| x;
    let c2 = |x: u32| x;
    fn f1(x: u32) -> u32 { x }
    fn f2(x: u32) -> u32 { x }
    r.one("closure1", move || c1);
    r.one("closure2", move || c2);
    r.one("fn item f1", || f1);
    r.one("fn item f2", || f2);
    r.one("fn pointer", || f1 as fn(u32) -> u32);
    r.one("unsafe fn pointer", || f1 as unsafe fn(u32) -> u32);
    r.one("fn(i32)", || (|x| x) as fn(i32) -> i32);
    r.two("closure1,closure2", move || c1, move || c2);
    r.two("closure2,closure1", move || c2, move || c1);
    for _ in 0..1 { r.one("closure3", || || 0u8); r.one("closure4", || || 0u8); }
    // modules
    r.one("m1::X", || m1::X(0));
    r.one("m2::X", || m2::X(0));
    r.one("m2::m1::X", || m2::m1::X(0));
    r.two("m1::X,m2::X", || m1::X(0), || m2::X(0));
    r.two("m2::X,m1::X", || m2::X(0), || m1::X(0));
    r.two("m1::X,m1::X", || m1::X(0), || m1::X(0));
    r.two("m2::X,m2::X", || m2::X(0), || m2::X(0));
    // nesting and grouping
    r.one("((u8,u16),u32)", || ((0u8, 0u16), 0u32));
    r.one("(u8,(u16,u32))", || (0u8, (0u16, 0u32)));
    r.one("(u8,u16,u32)", || (0u8, 0u16, 0u32));
    r.two("(u8,u16),u32", || (0u8, 0u16), || 0u32);
    r.two("u8,(u16,u32)", || 0u8, || (0u16, 0u32));
    r.two("u8,u16", || 0u8, || 0u16);
    r.two("u16,u8", || 0u16, || 0u8);
    r.two("u8,u8", || 0u8, || 0u8);
    r.two("u16,u16", || 0u16, || 0u16);
    r.two("(),u8", || (), || 0u8);
    r.two("u8,()", || 0u8, || ());
    r.two("(),()", || (), || ());
    // same layout
    r.one("u64", || 0u64);
    r.one("usize", || 0usize);
    r.one("i64", || 0i64);
    r.one("G<u64>", || G(0u64));
    r.one("G<G<u64>>", || G(G(0u64)));
    r.one("(u64,)", || (0u64,));
    r.one("[u64;1]", || [0u64]);
    r.one("[u64;2]", || [0u64; 2]);
    r.one("[u8;257]", || [0u8; 257]);
    r.one("[u8;1]", || [0u8; 1]);
    r.one("C<0>", || C::<0>);
    r.one("C<1>", || C::<1>);
    r.one("C<256>", || C::<256>);
    r.one("Cb<true>", || Cb::<true>);
    r.one("Cb<false>", || Cb::<false>);
    r.one("()", || ());
    r.one("PhantomData<u8>", || std::marker::PhantomData::<u8>);
    r.one("PhantomData<u16>", || std::marker::PhantomData::<u16>);
    r.one("char", || 'a');
    r.one("u32", || 0u32);
    // references and the lifetimes inside function pointers
    r.one("&str", || "a");
    r.one("&&str", || &"a");
    r.one("&'static u8", || &1u8);
    r.one("*const u8", || std::ptr::null::<u8>());
    r.one("*mut u8", || std::ptr::null_mut::<u8>());
    r.one("for<'a> fn(&'a u8)", || (|_| ()) as for<'a> fn(&'a u8));
    r.one("fn(&'static u8)", || (|_| ()) as fn(&'static u8));
    r.one("dyn Fn(&u8)", || Box::new(|_: &u8| ()) as Box<dyn Fn(&u8)>);
    r.one("dyn Fn(&'static u8)", || Box::new(|_: &'static u8| ()) as Box<dyn Fn(&'static u8)>);
    r.one("Box<dyn Fn(u8)>", || Box::new(|_| ()) as Box<dyn Fn(u8)>);
    r.one("Box<dyn Fn(u8)+Send>", || Box::new(|_| ()) as Box<dyn Fn(u8) + Send>);
    r.one("Result<u8,u16>", || Ok::<u8, u16>(0));
    r.one("Result<u16,u8>", || Ok::<u16, u8>(0));
    r.one("Option<Option<u8>>", || Some(Some(0u8)));
    r.one("Option<u8>", || Some(0u8));
    r.one("String", String::new);
    r.one("Vec<u8>", Vec::<u8>::new);
    r.one("Rc<u8>", || Rc::new(0u8));
    wide!(r;
        u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8;
        u16, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8;
        u8, u16, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8;
        u8, u8, u16, u8, u8, u8, u8, u8, u8, u8, u8, u8;
        u8, u8, u8, u16, u8, u8, u8, u8, u8, u8, u8, u8;
        u8, u8, u8, u8, u16, u8, u8, u8, u8, u8, u8, u8;
        u8, u8, u8, u8, u8, u16, u8, u8, u8, u8, u8, u8;
        u8, u8, u8, u8, u8, u8, u16, u8, u8, u8, u8, u8;
        u8, u8, u8, u8, u8, u8, u8, u16, u8, u8, u8, u8;
        u8, u8, u8, u8, u8, u8, u8, u8, u16, u8, u8, u8;
        u8, u8, u8, u8, u8, u8, u8, u8, u8, u16, u8, u8;
        u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16, u8;
        u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16;
        u16, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16;
        u16, u16, u16, u16, u16, u16, u16, u16, u16, u16, u16, u16;
        u8, u16, u8, u16, u8, u16, u8, u16, u8, u16, u8, u16;
        u16, u8, u16, u8, u16, u8, u16, u8, u16, u8, u16, u8;
        u8, u8, u16, u16, m1::X, m2::X, (), i8, char, u32, i32, bool;
        bool, i32, u32, char, i8, (), m2::X, m1::X, u16, u16, u8, u8;
        u8, u16, u16, m1::X, m2::X, (), i8, char, u32, i32, bool, u8;
        u8, u8, u16, u16, m2::X, m1::X, (), i8, char, u32, i32, bool;
    );
    r.v
}

struct Exp { val: u64, max: Option<usize>, n: usize }

pub fn history(r: &mut Rng, m: &mut Mon) -> Verdict {
    thread_local! { static TABLE: Vec<Inst> = table(); }
    let all: Vec<Inst> = TABLE.with(|t| t.clone());
    // a few channels, and several instances of each
    let mut chans: Vec<&str> = all.iter().map(|i| i.chan).collect();
    chans.sort();
    chans.dedup();
    r.shuffle(&mut chans);
    chans.truncate(r.range(1, 4));
    let mut pool: Vec<usize> = (0..all.len()).filter(|i| chans.contains(&all[*i].chan)).collect();
    // prefer look-alikes: sometimes restrict to names sharing a letter pattern
    r.shuffle(&mut pool);
    pool.truncate(r.range(3, 16));
    if r.chance(1, 2) {
        let key = *r.pick(&["block", "X", "closure", "u8", "fn", "G<", "C<", "u64", "PhantomData", "dyn", ", u"]);
        let extra: Vec<usize> = (0..all.len()).filter(|i| chans.contains(&all[*i].chan) && all[*i].ty.contains(key)).collect();
        if extra.len() > 2 { pool = extra; pool.truncate(24) }
    }
    let insts: Vec<Inst> = pool.iter().map(|i| all[*i].clone()).collect();
    let nobj = r.range(1, 4);
    let mut w = World { m: (0..nobj).map(|_| MockLt::new()).collect(), ctx: vec![], own: vec![], cur: 0, obj: 0 };
    // statics: one context per channel (held by the first instance of it).  A
    // generic struct's instances have contexts of their own.
    for (k, i) in insts.iter().enumerate() {
        let first = i.chan == "own_st" || !insts[..k].iter().any(|j| j.chan == i.chan);
        w.ctx.push(if first { i.ctx.as_ref().map(|f| f()) } else { None });
        w.own.push(i.own.as_ref().map(|f| f()));
    }
    let holder: Vec<usize> = insts.iter().enumerate().map(|(k, i)| {
        if i.ctx.is_none() || i.chan == "own_st" { k } else { insts.iter().position(|j| j.chan == i.chan).unwrap() }
    }).collect();
    // model[object][instance]
    let mut model: Vec<Vec<Vec<Exp>>> = (0..nobj).map(|_| insts.iter().map(|_| vec![]).collect()).collect();
    let is_obj = |k: usize| insts[k].ctx.is_none() && insts[k].own.is_none();
    let steps = r.range(15, 80);
    let mut next = r.next() >> 20;
    for _ in 0..steps {
        let k = r.below(insts.len());
        let o = if is_obj(k) { r.below(nobj) } else { 0 };
        m.note("channels", insts[k].chan);
        m.note("instances", &format!("{}<{}>", insts[k].chan, insts[k].ty));
        match r.below(20) {
            0..=6 => {
                let n = if r.chance(1, 3) { None } else { Some(r.range(0, 4)) };
                next += 1;
                m.op(format!("obj {o}: expect {}<{}> times {n:?} returning {next}", insts[k].chan, insts[k].ty));
                w.cur = if insts[k].own.is_some() { k } else { holder[k] };
                w.obj = o;
                (insts[k].expect)(&mut w, next, n);
                model[o][k].push(Exp { val: next, max: n, n: 0 });
            }
            7..=18 => {
                let want = model[o][k].iter_mut().find(|e| e.max.is_none_or(|x| e.n < x));
                let want = want.map(|e| { e.n += 1; e.val });
                if want.is_none() && model[o][k].iter().any(|e| e.max.is_some()) {
                    // Overcalling: which one is charged is not our business here
                    continue;
                }
                m.op(format!("obj {o}: call {}<{}>", insts[k].chan, insts[k].ty));
                w.cur = k;
                let got = run(|| (insts[k].call)(&mut w, o));
                m.count("calls");
                match (want, got) {
                    (Some(v), End::Val(g)) => {
                        same!(g, v, "value returned by {}<{}>", insts[k].chan, insts[k].ty);
                        m.count("calls_answered");
                    }
                    (None, End::Msg(_)) => m.count("calls_refused"),
                    (x, g) => return Err(vh::mon::failed(format!("{}<{}>: {:?} expected, but {:?}", insts[k].chan, insts[k].ty, x, g))),
                }
            }
            _ => {
                // clear one static channel, or one object
                if is_obj(k) {
                    let ok = (0..insts.len()).filter(|j| is_obj(*j)).all(|j| model[o][j].iter().all(|e| e.max.is_none_or(|x| e.n == x)));
                    m.op(format!("checkpoint obj {o}"));
                    let old = std::mem::take(&mut w.m[o]);
                    let got = run(|| { drop(old); 0 });
                    ensure!(matches!(got, End::Val(_)) == ok, "verifying object {o}: success {ok} expected, but {got:?}");
                    m.count(if ok { "verifications_passed" } else { "verifications_failed" });
                    for j in 0..insts.len() { if is_obj(j) { model[o][j].clear() } }
                } else if insts[k].own.is_some() {
                    let ok = model[0][k].iter().all(|e| e.max.is_none_or(|x| e.n == x));
                    m.op(format!("drop {}<{}>", insts[k].chan, insts[k].ty));
                    let old = w.own[k].take();
                    let got = run(|| { drop(old); 0 });
                    ensure!(matches!(got, End::Val(_)) == ok, "verifying {}: success {ok} expected, but {got:?}", insts[k].ty);
                    m.count(if ok { "verifications_passed" } else { "verifications_failed" });
                    w.own[k] = insts[k].own.as_ref().map(|f| f());
                    model[0][k].clear();
                } else {
                    let h = holder[k];
                    // a context clears all generic instances of its function
                    let same: Vec<usize> = (0..insts.len()).filter(|j| insts[*j].chan == insts[k].chan).collect();
                    let ok = same.iter().all(|j| model[0][*j].iter().all(|e| e.max.is_none_or(|x| e.n == x)));
                    m.op(format!("checkpoint context of {}", insts[k].chan));
                    let got = run(|| { w.ctx[h].as_ref().unwrap().cp(); 0 });
                    ensure!(matches!(got, End::Val(_)) == ok, "verifying {}: success {ok} expected, but {got:?}", insts[k].chan);
                    m.count(if ok { "verifications_passed" } else { "verifications_failed" });
                    for j in same { model[0][j].clear() }
                }
            }
        }
    }
    // everything is verified at the end
    for o in 0..nobj {
        let ok = (0..insts.len()).filter(|j| is_obj(*j)).all(|j| model[o][j].iter().all(|e| e.max.is_none_or(|x| e.n == x)));
        let old = std::mem::take(&mut w.m[o]);
        let got = run(|| { drop(old); 0 });
        ensure!(matches!(got, End::Val(_)) == ok, "dropping object {o}: success {ok} expected, but {got:?}");
    }
    for k in 0..insts.len() {
        if let Some(c) = w.ctx[k].take() {
            let _ = run(|| { drop(c); 0 });
        }
        if let Some(c) = w.own[k].take() {
            let ok = model[0][k].iter().all(|e| e.max.is_none_or(|x| e.n == x));
            let got = run(|| { drop(c); 0 });
            ensure!(matches!(got, End::Val(_)) == ok, "dropping {}: success {ok} expected, but {got:?}", insts[k].ty);
        }
    }
    Ok(())
}
