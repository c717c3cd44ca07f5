//! Runtime monitors for chf: reference model, workload generators and online checkers.
#![allow(long_running_const_eval)]
pub mod consts;
#[cfg(feature = "engine")]
pub mod engine;
pub mod engines;
pub mod gen;
pub mod kat;
pub mod rec;
pub mod refimpl;
pub mod rng;
pub mod values;

#[cfg(feature = "m-foreign")]
pub mod foreign;
#[cfg(feature = "m-hash")]
pub mod hashing;
#[cfg(feature = "m-iso")]
pub mod iso;
#[cfg(feature = "m-long")]
pub mod long;
#[cfg(any(feature = "m-serde", all(feature = "m-tour", feature = "serde")))]
pub mod serdes;
#[cfg(feature = "m-tour")]
pub mod tour;
#[cfg(feature = "m-vals")]
pub mod vals;
#[cfg(feature = "m-io")]
pub mod writers;
