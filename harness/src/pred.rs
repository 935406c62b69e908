//! Builds real predicates from (mask, style).
use crate::spec::{Pr, MATCHER_EVALS};
use crate::vals::{Dx, Ex};
use mockall::predicate::*;
use mockall::Predicate;
use predicates::prelude::{PredicateBooleanExt, PredicateBoxExt};
use predicates::BoxPredicate;
use std::fmt::Debug;
use std::sync::atomic::Ordering;

pub fn holds(mask: u8, v: u32) -> bool {
    v < 8 && mask >> v & 1 == 1
}

/// For any type: only predicate::function
pub fn fun_pred<T: Dx + ?Sized + 'static>(p: &Pr) -> impl Predicate<T> + Send + Sync + 'static {
    let mask = p.mask;
    function(move |x: &T| {
        MATCHER_EVALS.fetch_add(1, Ordering::Relaxed);
        holds(mask, x.dx())
    })
}

/// For comparable types: eq, ne, in_iter, and/or/not, always, never, function
pub fn any_pred<T>(p: &Pr) -> BoxPredicate<T>
where
    T: Dx + Ex + PartialEq + Debug + Send + Sync + 'static,
{
    let ones: Vec<u32> = (0..4).filter(|v| holds(p.mask, *v)).collect();
    let zeros: Vec<u32> = (0..4).filter(|v| !holds(p.mask, *v)).collect();
    let m = p.mask;
    match (p.style % 4, ones.len()) {
        (0, 4) => always().boxed(),
        (0, 0) => never().boxed(),
        (0 | 1, 1) => eq(T::ex(ones[0])).boxed(),
        (0 | 1, 3) => ne(T::ex(zeros[0])).boxed(),
        (0, 2) => eq(T::ex(ones[0])).or(eq(T::ex(ones[1]))).boxed(),
        (1, 2) => ne(T::ex(zeros[0])).and(ne(T::ex(zeros[1]))).boxed(),
        (2, _) => function(move |x: &T| holds(m, x.dx())).not().not().boxed(),
        _ => function(move |x: &T| holds(m, x.dx())).boxed(),
    }
}
