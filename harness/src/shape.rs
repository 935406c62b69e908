//! A uniform, object-safe view of wildly different mocks, and the macros that
//! build it.
use crate::spec::*;
use mockall::Sequence;
use std::any::Any;

#[derive(Clone)]
pub struct ChanInfo {
    pub name: &'static str,
    pub arity: usize,
    /// Has `with`
    pub with: bool,
    pub rets: Vec<RetKind>,
    pub canon: fn(u64) -> u64,
    /// For statics: which function's context governs it (index of the first
    /// channel of the same function)
    pub group: Option<usize>,
    /// Takes self by value
    pub consumes: bool,
    /// Callable without an object, from any thread
    pub free: Option<fn(u32, u32) -> u64>,
    pub generic: bool,
}

pub trait Shape {
    fn name(&self) -> &'static str;
    fn infos(&self) -> Vec<ChanInfo>;
    fn is_module(&self) -> bool;
    fn alive(&self) -> bool;
    fn expect(&mut self, ch: usize, s: &Spec, seqs: &mut [Sequence]);
    fn call(&mut self, ch: usize, a: u32, b: u32) -> u64;
    fn checkpoint(&mut self);
    fn drop_obj(&mut self);
    fn ctx_open(&mut self, ch: usize);
    fn ctx_drop(&mut self, ch: usize);
    fn ctx_checkpoint(&mut self, ch: usize);
    fn debug(&self) -> String;
}

/// Downcast to the (unnameable) type returned by `_f`
pub fn dc<T: 'static>(b: &dyn Any, _f: fn() -> T) -> &T {
    b.downcast_ref::<T>().unwrap()
}

pub fn rk(s: &str) -> RetKind {
    match s {
        "c" => RetKind::Const,
        "cs" => RetKind::ConstSt,
        "o" => RetKind::Once,
        "os" => RetKind::OnceSt,
        "f" => RetKind::Fn,
        "fs" => RetKind::FnSt,
        "v" => RetKind::Var,
        _ => unreachable!(),
    }
}

#[macro_export]
macro_rules! mpr {
    (p, $p:expr) => { $crate::pred::any_pred($p) };
    (f, $p:expr) => { $crate::pred::fun_pred($p) };
}
#[macro_export]
macro_rules! mwith {
    (y, $e:ident, $ps:ident, [$($x:ident : $wk:ident),*]) => {{
        #[allow(unused_variables, unused_mut)]
        let mut it = $ps.iter();
        let _ = $e.with($( $crate::mpr!($wk, it.next().unwrap()) ),*);
    }};
    (n, $e:ident, $ps:ident, $args:tt) => { unreachable!() };
}
#[macro_export]
macro_rules! mwithf {
    ($e:ident, $m:ident, $f:ident, [$($x:ident : $wk:ident),*]) => {
        let _ = $e.$m(move |$($x),*| $f.check(&[$($crate::vals::Dx::dx(&$x)),*]));
    };
}
#[macro_export]
macro_rules! mret {
    (c, $e:ident, $r:ident, $args:tt, $R:ty) => {
        if $r.kind == $crate::spec::RetKind::Const {
            let _ = $e.return_const(<$R as $crate::vals::Rv>::enc($crate::spec::const_val($r.id)));
        }
    };
    (cs, $e:ident, $r:ident, $args:tt, $R:ty) => {
        if $r.kind == $crate::spec::RetKind::ConstSt {
            let _ = $e.return_const_st(<$R as $crate::vals::Rv>::enc($crate::spec::const_val($r.id)));
        }
    };
    (v, $e:ident, $r:ident, $args:tt, $R:ty) => {
        if $r.kind == $crate::spec::RetKind::Var {
            let _ = $e.return_var(<$R as $crate::vals::Rv>::enc($crate::spec::const_val($r.id)));
        }
    };
    (o, $e:ident, $r:ident, [$($x:ident : $wk:ident),*], $R:ty) => {
        if $r.kind == $crate::spec::RetKind::Once {
            let mut f = $crate::spec::ret_fn($r);
            let _ = $e.return_once(move |$($x),*|
                <$R as $crate::vals::Rv>::enc(f.call(&[$($crate::vals::Dx::dx(&$x)),*])));
        }
    };
    (os, $e:ident, $r:ident, [$($x:ident : $wk:ident),*], $R:ty) => {
        if $r.kind == $crate::spec::RetKind::OnceSt {
            let f = ::std::rc::Rc::new(::std::cell::RefCell::new($crate::spec::ret_fn($r)));
            let _ = $e.return_once_st(move |$($x),*|
                <$R as $crate::vals::Rv>::enc(f.borrow_mut().call(&[$($crate::vals::Dx::dx(&$x)),*])));
        }
    };
    (f, $e:ident, $r:ident, [$($x:ident : $wk:ident),*], $R:ty) => {
        if $r.kind == $crate::spec::RetKind::Fn {
            let mut f = $crate::spec::ret_fn($r);
            let _ = $e.returning(move |$($x),*|
                <$R as $crate::vals::Rv>::enc(f.call(&[$($crate::vals::Dx::dx(&$x)),*])));
        }
    };
    (fs, $e:ident, $r:ident, [$($x:ident : $wk:ident),*], $R:ty) => {
        if $r.kind == $crate::spec::RetKind::FnSt {
            let f = ::std::rc::Rc::new(::std::cell::RefCell::new($crate::spec::ret_fn($r)));
            let _ = $e.returning_st(move |$($x),*|
                <$R as $crate::vals::Rv>::enc(f.borrow_mut().call(&[$($crate::vals::Dx::dx(&$x)),*])));
        }
    };
}

/// Apply a Spec to anything with the builder methods
#[macro_export]
macro_rules! apply {
    ($e:ident, $s:expr, $seqs:expr, $wst:ident, $w:ident, $args:tt, ($($rk:ident)*), $R:ty) => {
        for st in $s.steps.iter() {
            use $crate::spec::{Step, TimesSpec, Mat};
            match st {
                Step::Times(t) => match *t {
                    TimesSpec::N(n) => { let _ = $e.times(n); }
                    TimesSpec::Range(x, y) => { let _ = $e.times(x..y); }
                    TimesSpec::Incl(x, y) => { let _ = $e.times(x..=y); }
                    TimesSpec::To(y) => { let _ = $e.times(..y); }
                    TimesSpec::ToIncl(y) => { let _ = $e.times(..=y); }
                    TimesSpec::From(x) => { let _ = $e.times(x..); }
                    TimesSpec::Full => { let _ = $e.times(..); }
                    TimesSpec::Once => { let _ = $e.once(); }
                    TimesSpec::Never => { let _ = $e.never(); }
                },
                Step::Seq(i) => { let _ = $e.in_sequence(&mut $seqs[*i]); }
                #[allow(unused_variables)]
                Step::Mat(Mat::With(ps)) => { $crate::mwith!($w, $e, ps, $args); }
                Step::Mat(Mat::Withf(m, p)) => {
                    let f = $crate::spec::mat_fn(*m, *p);
                    $crate::mwithf!($e, withf, f, $args);
                }
                Step::Mat(Mat::WithfSt(m, p)) => {
                    let f = $crate::spec::mat_fn(*m, *p);
                    $crate::mwithf!($e, $wst, f, $args);
                }
                Step::Ret(r) => { $( $crate::mret!($rk, $e, r, $args, $R); )* }
            }
        }
    };
}

#[macro_export]
macro_rules! nargs {
    ([$($x:ident : $wk:ident),*]) => { 0usize $( + { let _ = stringify!($x); 1usize } )* };
}
#[macro_export]
macro_rules! yn { (y) => { true }; (n) => { false }; }

#[macro_export]
macro_rules! chan_info {
    // val / refr / refm / take, with optional leading flags
    (@obj $cons:expr, $gen:expr, $name:expr, $w:ident, $args:tt, ($($rk:ident)*), $R:ty) => {
        $crate::shape::ChanInfo {
            name: $name,
            arity: $crate::nargs!($args),
            with: $crate::yn!($w),
            rets: vec![$( $crate::shape::rk(stringify!($rk)) ),*],
            canon: <$R as $crate::vals::Rv>::canon,
            group: None,
            consumes: $cons,
            free: None,
            generic: $gen,
        }
    };
    (val, $n:expr, |$m:ident| $ex:expr; $w:ident $args:tt; $rks:tt $R:ty; |$m2:ident, $a:ident, $b:ident| $call:expr) => {
        $crate::chan_info!(@obj false, false, $n, $w, $args, $rks, $R)
    };
    (gval, $n:expr, |$m:ident| $ex:expr; $w:ident $args:tt; $rks:tt $R:ty; |$m2:ident, $a:ident, $b:ident| $call:expr) => {
        $crate::chan_info!(@obj false, true, $n, $w, $args, $rks, $R)
    };
    (refr, $n:expr, |$m:ident| $ex:expr; $w:ident $args:tt; $rks:tt $R:ty; |$m2:ident, $a:ident, $b:ident| $call:expr) => {
        $crate::chan_info!(@obj false, false, $n, $w, $args, $rks, $R)
    };
    (take, $n:expr, |$m:ident| $ex:expr; $w:ident $args:tt; $rks:tt $R:ty; |$m2:ident, $a:ident, $b:ident| $call:expr) => {
        $crate::chan_info!(@obj true, false, $n, $w, $args, $rks, $R)
    };
    (@stat $gen:expr, $n:expr, $g:expr, $w:ident, $args:tt, ($($rk:ident)*), $R:ty, $a:ident, $b:ident, $call:expr) => {{
        #[allow(unused_variables)]
        fn free($a: u32, $b: u32) -> u64 { $crate::vals::Rv::dec(&$call) }
        $crate::shape::ChanInfo {
            name: $n,
            arity: $crate::nargs!($args),
            with: $crate::yn!($w),
            rets: vec![$( $crate::shape::rk(stringify!($rk)) ),*],
            canon: <$R as $crate::vals::Rv>::canon,
            group: Some($g),
            consumes: false,
            free: Some(free),
            generic: $gen,
        }
    }};
    (stat, $n:expr, $g:literal $cx:expr; |$c:ident| $ex:expr; $w:ident $args:tt; $rks:tt $R:ty; |$a:ident, $b:ident| $call:expr) => {
        $crate::chan_info!(@stat false, $n, $g, $w, $args, $rks, $R, $a, $b, $call)
    };
    (gstat, $n:expr, $g:literal $cx:expr; |$c:ident| $ex:expr; $w:ident $args:tt; $rks:tt $R:ty; |$a:ident, $b:ident| $call:expr) => {
        $crate::chan_info!(@stat true, $n, $g, $w, $args, $rks, $R, $a, $b, $call)
    };
}

#[macro_export]
macro_rules! chan_expect {
    (gval, $($t:tt)*) => { $crate::chan_expect!(val, $($t)*) };
    (refr, $($t:tt)*) => { $crate::chan_expect!(val, $($t)*) };
    (take, $($t:tt)*) => { $crate::chan_expect!(val, $($t)*) };
    (gstat, $($t:tt)*) => { $crate::chan_expect!(stat, $($t)*) };
    (val, $self:ident, $i:expr, $s:ident, $seqs:ident, |$m:ident| $ex:expr; $w:ident $args:tt; $rks:tt $R:ty; |$m2:ident, $a:ident, $b:ident| $call:expr) => {{
        let $m = $self.m.as_mut().unwrap();
        let e = $ex;
        $crate::apply!(e, $s, $seqs, withf_st, $w, $args, $rks, $R);
    }};
    (stat, $self:ident, $i:expr, $s:ident, $seqs:ident, $g:literal $cx:expr; |$c:ident| $ex:expr; $w:ident $args:tt; $rks:tt $R:ty; |$a:ident, $b:ident| $call:expr) => {{
        let $c = $crate::shape::dc(&**$self.ctx[$i].as_ref().unwrap(), || $cx);
        #[allow(unused_mut)]
        let mut g = $ex;
        if $s.via_guard {
            $crate::apply!(g, $s, $seqs, withf, $w, $args, $rks, $R);
        } else {
            let e = g.times(..);
            $crate::apply!(e, $s, $seqs, withf_st, $w, $args, $rks, $R);
        }
    }};
}

#[macro_export]
macro_rules! chan_call {
    (gval, $($t:tt)*) => { $crate::chan_call!(val, $($t)*) };
    (gstat, $($t:tt)*) => { $crate::chan_call!(stat, $($t)*) };
    (val, $self:ident, $pa:ident, $pb:ident, |$m:ident| $ex:expr; $w:ident $args:tt; $rks:tt $R:ty; |$m2:ident, $a:ident, $b:ident| $call:expr) => {{
        let $m2 = $self.m.as_mut().unwrap();
        #[allow(unused_variables)]
        let ($a, $b) = ($pa, $pb);
        let r: $R = $call;
        $crate::vals::Rv::dec(&r)
    }};
    (refr, $self:ident, $pa:ident, $pb:ident, |$m:ident| $ex:expr; $w:ident $args:tt; $rks:tt $R:ty; |$m2:ident, $a:ident, $b:ident| $call:expr) => {{
        let $m2 = $self.m.as_mut().unwrap();
        #[allow(unused_variables)]
        let ($a, $b) = ($pa, $pb);
        let r: u64 = $call;
        r
    }};
    (take, $self:ident, $pa:ident, $pb:ident, |$m:ident| $ex:expr; $w:ident $args:tt; $rks:tt $R:ty; |$m2:ident, $a:ident, $b:ident| $call:expr) => {{
        let $m2 = $self.m.take().unwrap();
        #[allow(unused_variables)]
        let ($a, $b) = ($pa, $pb);
        let r: $R = $call;
        $crate::vals::Rv::dec(&r)
    }};
    (stat, $self:ident, $pa:ident, $pb:ident, $g:literal $cx:expr; |$c:ident| $ex:expr; $w:ident $args:tt; $rks:tt $R:ty; |$a:ident, $b:ident| $call:expr) => {{
        #[allow(unused_variables)]
        let ($a, $b) = ($pa, $pb);
        let r: $R = $call;
        $crate::vals::Rv::dec(&r)
    }};
}

#[macro_export]
macro_rules! chan_ctx {
    (val, $($t:tt)*) => { unreachable!() };
    (gval, $($t:tt)*) => { unreachable!() };
    (refr, $($t:tt)*) => { unreachable!() };
    (take, $($t:tt)*) => { unreachable!() };
    (gstat, $($t:tt)*) => { $crate::chan_ctx!(stat, $($t)*) };
    (stat, open, $self:ident, $i:expr, $g:literal $cx:expr; |$c:ident| $ex:expr; $w:ident $args:tt; $rks:tt $R:ty; |$a:ident, $b:ident| $call:expr) => {
        $self.ctx[$i] = Some(Box::new($cx))
    };
    (stat, ckpt, $self:ident, $i:expr, $g:literal $cx:expr; |$c:ident| $ex:expr; $w:ident $args:tt; $rks:tt $R:ty; |$a:ident, $b:ident| $call:expr) => {
        $crate::shape::dc(&**$self.ctx[$i].as_ref().unwrap(), || $cx).checkpoint()
    };
}

#[macro_export]
macro_rules! shape {
    ($name:ident, $module:literal, $mockty:ty, $new:expr, |$cm:ident| $ckpt:expr, $dbg:expr;
     $( $chname:ident = $kind:ident ( $($body:tt)* ) );* $(;)?) => {
        pub struct $name {
            m: Option<$mockty>,
            #[allow(dead_code)]
            ctx: Vec<Option<Box<dyn ::std::any::Any>>>,
        }
        impl $name {
            pub fn make() -> Box<dyn $crate::shape::Shape> {
                let mut s = $name { m: Some($new), ctx: vec![] };
                use $crate::shape::Shape;
                let n = s.infos().len();
                s.ctx = (0..n).map(|_| None).collect();
                Box::new(s)
            }
        }
        #[allow(unused_assignments, unused_variables, unreachable_code)]
        impl $crate::shape::Shape for $name {
            fn name(&self) -> &'static str { stringify!($name) }
            fn is_module(&self) -> bool { $module }
            fn alive(&self) -> bool { self.m.is_some() }
            fn infos(&self) -> Vec<$crate::shape::ChanInfo> {
                vec![ $( $crate::chan_info!($kind, stringify!($chname), $($body)*) ),* ]
            }
            fn expect(&mut self, ch: usize, s: &$crate::spec::Spec, seqs: &mut [::mockall::Sequence]) {
                let mut i = 0usize;
                $(
                    if ch == i {
                        $crate::chan_expect!($kind, self, ch, s, seqs, $($body)*);
                        return;
                    }
                    i += 1;
                )*
            }
            fn call(&mut self, ch: usize, a: u32, b: u32) -> u64 {
                let mut i = 0usize;
                $(
                    if ch == i {
                        return $crate::chan_call!($kind, self, a, b, $($body)*);
                    }
                    i += 1;
                )*
                unreachable!()
            }
            fn checkpoint(&mut self) {
                let $cm = self.m.as_mut().unwrap();
                $ckpt;
            }
            fn drop_obj(&mut self) { drop(self.m.take()) }
            fn ctx_open(&mut self, ch: usize) {
                let mut i = 0usize;
                $(
                    if ch == i { $crate::chan_ctx!($kind, open, self, ch, $($body)*); return; }
                    i += 1;
                )*
            }
            fn ctx_checkpoint(&mut self, ch: usize) {
                let mut i = 0usize;
                $(
                    if ch == i { $crate::chan_ctx!($kind, ckpt, self, ch, $($body)*); return; }
                    i += 1;
                )*
            }
            fn ctx_drop(&mut self, ch: usize) { drop(self.ctx[ch].take()) }
            fn debug(&self) -> String {
                let f: fn(&$mockty) -> String = $dbg;
                self.m.as_ref().map(f).unwrap_or_default()
            }
        }
    };
}
