pub mod pred;
pub mod rng;
#[macro_use]
pub mod shape;
pub mod model;
pub mod spec;
pub mod vals;
pub mod defs;
pub mod engine;
pub mod ffi;
pub mod report;
#[macro_use]
pub mod mon;
