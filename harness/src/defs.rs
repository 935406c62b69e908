//! C14: support of the generated definitions (see lib/gen_defs.py).
pub use crate::mon::{failed, Mon, Verdict};
pub use crate::rng::{mix, Rng};
pub use crate::spec::{run, End};
pub use crate::{ensure, same};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;

/// Values made from, and reduced to, numbers
pub trait K: Sized { fn mk(x: u64) -> Self; fn key(&self) -> u64; }
macro_rules! ints { ($($t:ty)*) => { $( impl K for $t { fn mk(x: u64) -> Self { x as $t } fn key(&self) -> u64 { *self as u64 } } )* } }
ints!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128);
impl K for () { fn mk(_: u64) {} fn key(&self) -> u64 { 0 } }
impl K for bool { fn mk(x: u64) -> bool { x & 1 == 1 } fn key(&self) -> u64 { *self as u64 } }
impl K for char { fn mk(x: u64) -> char { (b'a' + (x % 26) as u8) as char } fn key(&self) -> u64 { *self as u64 } }
impl K for f64 { fn mk(x: u64) -> f64 { x as u32 as f64 } fn key(&self) -> u64 { self.to_bits() } }
impl K for String { fn mk(x: u64) -> String { x.to_string() } fn key(&self) -> u64 { self.parse().unwrap() } }
impl<T: K> K for Vec<T> { fn mk(x: u64) -> Self { (0..x % 4).map(|i| T::mk(mix(&[x, i]))).collect() } fn key(&self) -> u64 { mix(&self.iter().map(K::key).collect::<Vec<_>>()) } }
impl<T: K> K for Option<T> { fn mk(x: u64) -> Self { if x % 5 == 0 { None } else { Some(T::mk(x)) } } fn key(&self) -> u64 { self.as_ref().map_or(99, |t| mix(&[t.key()])) } }
impl<T: K, E: K> K for Result<T, E> { fn mk(x: u64) -> Self { if x % 3 == 0 { Err(E::mk(x)) } else { Ok(T::mk(x)) } } fn key(&self) -> u64 { match self { Ok(t) => mix(&[1, t.key()]), Err(e) => mix(&[2, e.key()]) } } }
impl<T: K> K for Box<T> { fn mk(x: u64) -> Self { Box::new(T::mk(x)) } fn key(&self) -> u64 { (**self).key() } }
impl<T: K> K for Arc<T> { fn mk(x: u64) -> Self { Arc::new(T::mk(x)) } fn key(&self) -> u64 { (**self).key() } }
impl<A: K, B: K> K for (A, B) { fn mk(x: u64) -> Self { (A::mk(x), B::mk(x ^ 77)) } fn key(&self) -> u64 { mix(&[self.0.key(), self.1.key()]) } }
impl<T: K, const N: usize> K for [T; N] { fn mk(x: u64) -> Self { std::array::from_fn(|i| T::mk(x.wrapping_add(i as u64))) } fn key(&self) -> u64 { mix(&self.iter().map(K::key).collect::<Vec<_>>()) } }
/// Neither Debug, Clone nor PartialEq
pub struct Plain(pub u64);
impl K for Plain { fn mk(x: u64) -> Self { Plain(x) } fn key(&self) -> u64 { self.0 } }
/// Everything
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Rich { pub v: u64 }
impl K for Rich { fn mk(x: u64) -> Self { Rich { v: x } } fn key(&self) -> u64 { self.v } }
/// With parameters
#[derive(Clone, Debug, PartialEq)]
pub struct Pair<A, B = u8>(pub A, pub B);
impl<A: K, B: K> K for Pair<A, B> { fn mk(x: u64) -> Self { Pair(A::mk(x), B::mk(x ^ 5)) } fn key(&self) -> u64 { mix(&[self.0.key(), self.1.key()]) } }
/// With a lifetime
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Two<'a, 'b>(pub &'a u64, pub &'b u64);
#[derive(Clone, Debug, PartialEq)]
pub struct LtT<'a, T>(pub &'a T, pub T);
#[derive(Clone, Copy, Debug)]
pub struct Lt<'a>(pub &'a u64);
/// Const generic
#[derive(Clone, Debug, PartialEq)]
pub struct Arr<const N: usize>(pub [u8; N]);
impl<const N: usize> K for Arr<N> { fn mk(x: u64) -> Self { Arr(K::mk(x)) } fn key(&self) -> u64 { self.0.key() } }

/// For trait objects
pub trait Kd: Send + Sync { fn k(&self) -> u64; }
impl Kd for u64 { fn k(&self) -> u64 { *self } }
impl Kd for Box<dyn Kd> { fn k(&self) -> u64 { (**self).k() } }
impl Kd for Box<dyn Kd + Send> { fn k(&self) -> u64 { (**self).k() } }
pub fn twice(x: u64) -> u64 { x.wrapping_mul(2) }
pub fn thrice(x: u64) -> u64 { x.wrapping_mul(3) }
pub fn leak<T>(t: T) -> &'static T { Box::leak(Box::new(t)) }
pub type Pinned<T> = Pin<Box<T>>;
pub type Shared<T> = Rc<T>;
/// Bounds for parameters
pub trait Bound {}
impl<T> Bound for T {}
pub trait BoundT<T: ?Sized> {}
impl<S: ?Sized, T: ?Sized> BoundT<T> for S {}

/// One generated item
pub struct Item { pub name: &'static str, pub features: &'static [&'static str], pub run: fn(&mut Rng, &mut Mon) -> Verdict }
pub fn history(r: &mut Rng, m: &mut Mon, all: &[Item]) -> Verdict {
    let mut i: Vec<&Item> = all.iter().collect();
    r.shuffle(&mut i);
    for i in i.iter().take(3) {
        m.op(i.name);
        m.note("items", i.name);
        for f in i.features { m.note("features", f) }
        (i.run)(r, m)?;
    }
    Ok(())
}
/// A call that nothing expects must fail, naming the method
pub fn refused(e: End, mock: &str, method: &str) -> Verdict {
    match e {
        End::Msg(s) if s.contains(mock) && s.contains(method) => Ok(()),
        e => Err(failed(format!("an unexpected call of {mock}::{method} ended with {e:?}"))),
    }
}

// ---- for lib/gen_special.py ----
/// Concretized by mutable reference
pub trait Km { fn km(&self) -> u64; fn bump(&mut self); }
impl Km for u64 { fn km(&self) -> u64 { *self } fn bump(&mut self) { *self ^= 1 } }
/// More implementors of Kd
pub struct Small(pub u8);
impl Kd for Small { fn k(&self) -> u64 { self.0 as u64 } }
pub struct Owned(pub String);
impl Kd for Owned { fn k(&self) -> u64 { self.0.parse().unwrap() } }
/// With an associated type
pub trait Fk { type Out; }
pub struct Snd;
impl Fk for Snd { type Out = u32; }
pub trait Dt<T> { fn dt(&self) -> T; }
impl Dt<u32> for u32 { fn dt(&self) -> u32 { *self } }
pub trait Kt {}
impl<T> Kt for T {}
/// Types that hold others
pub trait Dg<T> { fn dg(&self) -> T; }
pub trait Ds { type O; fn o(&self) -> Self::O; }
pub struct Src<T>(pub fn(u64) -> T, pub u64);
impl<T> Dg<T> for Src<T> { fn dg(&self) -> T { (self.0)(self.1) } }
impl<T> Ds for Src<T> { type O = T; fn o(&self) -> T { (self.0)(self.1) } }
impl<T> Dg<T> for Box<dyn Dg<T>> { fn dg(&self) -> T { (**self).dg() } }
impl<T> Dg<T> for Box<dyn Dg<T> + Send> { fn dg(&self) -> T { (**self).dg() } }
impl<T> Ds for Box<dyn Ds<O = T>> { type O = T; fn o(&self) -> T { (**self).o() } }
impl<T> Ds for Box<dyn Ds<O = T> + Send> { type O = T; fn o(&self) -> T { (**self).o() } }
