//! Conversions between the model's small numbers and real argument and return
//! types.
use std::ffi::{CStr, CString, OsStr, OsString};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

/// Arguments are drawn from 0..D
pub const D: u32 = 4;

/// Decode an argument.
pub trait Dx {
    fn dx(&self) -> u32;
}
/// Build an argument.
pub trait Ex: Sized {
    fn ex(v: u32) -> Self;
}

macro_rules! int_dx {
    ($($t:ty),*) => { $(
        impl Dx for $t { fn dx(&self) -> u32 { (*self as i64 - 100i64 ) as u32 } }
        impl Ex for $t { fn ex(v: u32) -> Self { (v + 100) as $t } }
    )* }
}
int_dx!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, u128, i128);
impl Dx for f64 {
    fn dx(&self) -> u32 { *self as u32 }
}
impl Ex for f64 {
    fn ex(v: u32) -> Self { v as f64 + 0.25 }
}
impl Dx for char {
    fn dx(&self) -> u32 { *self as u32 - 'a' as u32 }
}
impl Ex for char {
    fn ex(v: u32) -> Self { (b'a' + v as u8) as char }
}
impl Dx for str {
    fn dx(&self) -> u32 {
        self.strip_prefix("arg-").and_then(|s| s.parse().ok()).unwrap_or(9999)
    }
}
impl Dx for String {
    fn dx(&self) -> u32 { self.as_str().dx() }
}
impl Ex for String {
    fn ex(v: u32) -> Self { format!("arg-{v}") }
}
impl Dx for Path {
    fn dx(&self) -> u32 { self.to_str().unwrap().dx() }
}
impl Dx for PathBuf {
    fn dx(&self) -> u32 { self.as_path().dx() }
}
impl Ex for PathBuf {
    fn ex(v: u32) -> Self { PathBuf::from(String::ex(v)) }
}
impl Dx for OsStr {
    fn dx(&self) -> u32 { self.to_str().unwrap().dx() }
}
impl Dx for OsString {
    fn dx(&self) -> u32 { self.as_os_str().dx() }
}
impl Ex for OsString {
    fn ex(v: u32) -> Self { OsString::from(String::ex(v)) }
}
impl Dx for CStr {
    fn dx(&self) -> u32 { self.to_str().unwrap().dx() }
}
impl Dx for CString {
    fn dx(&self) -> u32 { self.as_c_str().dx() }
}
impl Ex for CString {
    fn ex(v: u32) -> Self { CString::new(String::ex(v)).unwrap() }
}
impl<T: Dx> Dx for [T] {
    fn dx(&self) -> u32 {
        // v+1 equal elements
        if self.is_empty() { return 9998; }
        let v = self[0].dx();
        if self.len() as u32 == v + 1 && self.iter().all(|x| x.dx() == v) { v } else { 9997 }
    }
}
impl<T: Dx> Dx for Vec<T> {
    fn dx(&self) -> u32 { self.as_slice().dx() }
}
impl<T: Ex> Ex for Vec<T> {
    fn ex(v: u32) -> Self { (0..v + 1).map(|_| T::ex(v)).collect() }
}
impl<T: Dx, const N: usize> Dx for [T; N] {
    fn dx(&self) -> u32 {
        let v = self[0].dx();
        if self.iter().all(|x| x.dx() == v) { v } else { 9996 }
    }
}
impl<T: Ex, const N: usize> Ex for [T; N] {
    fn ex(v: u32) -> Self { std::array::from_fn(|_| T::ex(v)) }
}
impl<T: Dx> Dx for Option<T> {
    fn dx(&self) -> u32 { self.as_ref().map(|x| x.dx()).unwrap_or(0) }
}
impl<T: Ex> Ex for Option<T> {
    fn ex(v: u32) -> Self { if v == 0 { None } else { Some(T::ex(v)) } }
}
impl<T: Dx, U: Dx> Dx for Result<T, U> {
    fn dx(&self) -> u32 {
        match self { Ok(x) => x.dx(), Err(x) => x.dx() }
    }
}
impl<T: Ex, U: Ex> Ex for Result<T, U> {
    fn ex(v: u32) -> Self { if v % 2 == 0 { Ok(T::ex(v)) } else { Err(U::ex(v)) } }
}
impl<T: Dx, U: Dx> Dx for (T, U) {
    fn dx(&self) -> u32 {
        if self.0.dx() == self.1.dx() { self.0.dx() } else { 9995 }
    }
}
impl<T: Ex, U: Ex> Ex for (T, U) {
    fn ex(v: u32) -> Self { (T::ex(v), U::ex(v)) }
}
impl<T: Dx + ?Sized> Dx for &T {
    fn dx(&self) -> u32 { (**self).dx() }
}
impl<T: Dx + ?Sized> Dx for &mut T {
    fn dx(&self) -> u32 { (**self).dx() }
}
impl<T: Dx + ?Sized> Dx for Box<T> {
    fn dx(&self) -> u32 { (**self).dx() }
}
impl<T: Dx + ?Sized> Dx for Rc<T> {
    fn dx(&self) -> u32 { (**self).dx() }
}
impl<T: Dx + ?Sized> Dx for Arc<T> {
    fn dx(&self) -> u32 { (**self).dx() }
}
impl<T: Ex> Ex for Box<T> {
    fn ex(v: u32) -> Self { Box::new(T::ex(v)) }
}
impl<T: Ex> Ex for Rc<T> {
    fn ex(v: u32) -> Self { Rc::new(T::ex(v)) }
}
impl<T: Ex> Ex for Arc<T> {
    fn ex(v: u32) -> Self { Arc::new(T::ex(v)) }
}
/// Object-safe trait used for `dyn` arguments and returns
pub trait Tr {
    fn num(&self) -> u64;
    fn bump(&mut self) {}
}
impl Dx for dyn Tr + '_ {
    fn dx(&self) -> u32 { self.num() as u32 }
}
impl Dx for dyn Tr + Send + '_ {
    fn dx(&self) -> u32 { self.num() as u32 }
}
#[derive(Debug, Clone, PartialEq)]
pub struct TrImpl(pub u64);
impl Tr for TrImpl {
    fn num(&self) -> u64 { self.0 }
    fn bump(&mut self) { self.0 = self.0.wrapping_add(1) }
}
/// No derives at all
pub struct Opaque(pub u32);
impl Dx for Opaque {
    fn dx(&self) -> u32 { self.0 }
}
impl Ex for Opaque {
    fn ex(v: u32) -> Self { Opaque(v) }
}
/// Debug, PartialEq, Clone; generic
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Hash)]
pub struct W<T>(pub T);
impl<T: Dx> Dx for W<T> {
    fn dx(&self) -> u32 { self.0.dx() }
}
impl<T: Ex> Ex for W<T> {
    fn ex(v: u32) -> Self { W(T::ex(v)) }
}

/// Return values.  `canon(v)` is the part of `v` that survives a trip through
/// the type.
pub trait Rv: Sized {
    fn enc(v: u64) -> Self;
    fn dec(&self) -> u64;
    fn canon(v: u64) -> u64 { v }
    fn bump(&mut self) {
        let v = self.dec();
        *self = Self::enc(v.wrapping_add(1));
    }
}
macro_rules! int_rv {
    ($($t:ty),*) => { $(
        impl Rv for $t {
            fn enc(v: u64) -> Self { v as $t }
            fn dec(&self) -> u64 { *self as u64 }
            fn canon(v: u64) -> u64 { v as $t as u64 }
            fn bump(&mut self) { *self = self.wrapping_add(1) }
        }
    )* }
}
int_rv!(u8, u16, u32, u64, usize, i16, i32, i64, u128);
impl Rv for bool {
    fn enc(v: u64) -> Self { v & 1 == 1 }
    fn dec(&self) -> u64 { *self as u64 }
    fn canon(v: u64) -> u64 { v & 1 }
}
impl Rv for () {
    fn enc(_: u64) -> Self {}
    fn dec(&self) -> u64 { 0 }
    fn canon(_: u64) -> u64 { 0 }
}
impl Rv for String {
    fn enc(v: u64) -> Self { format!("{v}") }
    fn dec(&self) -> u64 { self.parse().unwrap_or(u64::MAX - 7) }
}
impl Rv for PathBuf {
    fn enc(v: u64) -> Self { PathBuf::from(String::enc(v)) }
    fn dec(&self) -> u64 { self.to_str().unwrap().to_string().dec() }
}
impl Rv for OsString {
    fn enc(v: u64) -> Self { OsString::from(String::enc(v)) }
    fn dec(&self) -> u64 { self.to_str().unwrap().to_string().dec() }
}
impl Rv for CString {
    fn enc(v: u64) -> Self { CString::new(String::enc(v)).unwrap() }
    fn dec(&self) -> u64 { self.to_str().unwrap().to_string().dec() }
}
impl<T: Rv> Rv for Vec<T> {
    fn enc(v: u64) -> Self { (0..3).map(|_| T::enc(v)).collect() }
    fn dec(&self) -> u64 {
        if self.len() == 3 && self.iter().all(|x| x.dec() == self[0].dec()) {
            self[0].dec()
        } else {
            u64::MAX - 1
        }
    }
    fn canon(v: u64) -> u64 { T::canon(v) }
    fn bump(&mut self) {
        for x in self.iter_mut() { x.bump() }
    }
}
impl<T: Rv, const N: usize> Rv for [T; N] {
    fn enc(v: u64) -> Self { std::array::from_fn(|_| T::enc(v)) }
    fn dec(&self) -> u64 {
        if self.iter().all(|x| x.dec() == self[0].dec()) { self[0].dec() } else { u64::MAX - 2 }
    }
    fn canon(v: u64) -> u64 { T::canon(v) }
}
impl<T: Rv> Rv for Box<T> {
    fn enc(v: u64) -> Self { Box::new(T::enc(v)) }
    fn dec(&self) -> u64 { (**self).dec() }
    fn canon(v: u64) -> u64 { T::canon(v) }
}
impl<T: Rv> Rv for Rc<T> {
    fn enc(v: u64) -> Self { Rc::new(T::enc(v)) }
    fn dec(&self) -> u64 { (**self).dec() }
    fn canon(v: u64) -> u64 { T::canon(v) }
}
impl<T: Rv> Rv for Arc<T> {
    fn enc(v: u64) -> Self { Arc::new(T::enc(v)) }
    fn dec(&self) -> u64 { (**self).dec() }
    fn canon(v: u64) -> u64 { T::canon(v) }
}
impl<T: Rv> Rv for W<T> {
    fn enc(v: u64) -> Self { W(T::enc(v)) }
    fn dec(&self) -> u64 { self.0.dec() }
    fn canon(v: u64) -> u64 { T::canon(v) }
    fn bump(&mut self) { self.0.bump() }
}
impl<T: Rv> Rv for Option<T> {
    fn enc(v: u64) -> Self { Some(T::enc(v)) }
    fn dec(&self) -> u64 { self.as_ref().map(|x| x.dec()).unwrap_or(u64::MAX - 3) }
    fn canon(v: u64) -> u64 { T::canon(v) }
}
impl<T: Rv, U: Rv> Rv for Result<T, U> {
    fn enc(v: u64) -> Self { if v % 2 == 0 { Ok(T::enc(v)) } else { Err(U::enc(v)) } }
    fn dec(&self) -> u64 { match self { Ok(x) => x.dec(), Err(x) => x.dec() } }
    fn canon(v: u64) -> u64 { if v % 2 == 0 { T::canon(v) } else { U::canon(v) } }
}
impl<T: Rv, U: Rv> Rv for (T, U) {
    fn enc(v: u64) -> Self { (T::enc(v), U::enc(v)) }
    fn dec(&self) -> u64 { self.0.dec() }
    fn canon(v: u64) -> u64 { T::canon(v) }
}
impl Rv for TrImpl {
    fn enc(v: u64) -> Self { TrImpl(v) }
    fn dec(&self) -> u64 { self.0 }
}
impl Rv for Box<dyn Tr> {
    fn enc(v: u64) -> Self { Box::new(TrImpl(v)) }
    fn dec(&self) -> u64 { self.num() }
    fn bump(&mut self) { (**self).bump() }
}
impl Rv for Box<dyn Tr + Send> {
    fn enc(v: u64) -> Self { Box::new(TrImpl(v)) }
    fn dec(&self) -> u64 { self.num() }
}
impl Rv for Box<dyn Tr + Send + Sync> {
    fn enc(v: u64) -> Self { Box::new(TrImpl(v)) }
    fn dec(&self) -> u64 { self.num() }
    fn bump(&mut self) { (**self).bump() }
}
/// Move-only return value
#[derive(Debug, PartialEq)]
pub struct NoClone(pub u64);
impl Rv for NoClone {
    fn enc(v: u64) -> Self { NoClone(v) }
    fn dec(&self) -> u64 { self.0 }
}

/// `&'static` values
pub static NUMS: [u64; 64] = {
    let mut a = [0u64; 64];
    let mut i = 0;
    while i < 64 {
        a[i] = i as u64;
        i += 1;
    }
    a
};
impl Rv for &'static u64 {
    fn enc(v: u64) -> Self { &NUMS[(v % 64) as usize] }
    fn dec(&self) -> u64 {
        let p: *const u64 = *self;
        if NUMS.as_ptr_range().contains(&p) { **self } else { u64::MAX - 20 }
    }
    fn canon(v: u64) -> u64 { v % 64 }
}
static WORDS: [&str; 8] = ["0", "1", "2", "3", "4", "5", "6", "7"];
impl Rv for &'static str {
    fn enc(v: u64) -> Self { WORDS[(v % 8) as usize] }
    fn dec(&self) -> u64 { self.parse().unwrap() }
    fn canon(v: u64) -> u64 { v % 8 }
}
impl Dx for std::cell::Cell<u32> {
    fn dx(&self) -> u32 { self.get().dx() }
}
