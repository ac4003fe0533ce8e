//! Runtime monitors for splr: workloads, oracles and online checkers.
pub mod ctx;
pub mod drat;
#[cfg(not(feature = "no_io"))]
pub mod files;
pub mod formula;
pub mod mon;
#[cfg(not(feature = "no_io"))]
pub mod opts;
pub mod props;
#[cfg(splr_verif)]
pub mod pruning;
#[cfg(splr_verif)]
pub mod analysis;
pub mod refsat;
pub mod rng;
pub mod run;
