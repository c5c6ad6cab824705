//! Runtime monitor for rustc_apfloat: workload generators, an independent exact
//! oracle, and the event runner shared by the per-property monitors in `bin/`.
pub mod big;
pub mod clib;
pub mod dd;
pub mod fp;
pub mod gen;
pub mod host;
pub mod hw;
pub mod grammar;
pub mod model;
pub mod rng;
pub mod ops;
pub mod pairs;
pub mod port;
pub mod run;
