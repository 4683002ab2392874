//! Stand-ins for the external crates PolyhedraZK/ExpanderCompilerCollection depends on and that
//! are not available offline.  They exist so that the repository's own sources can be resolved
//! and type-checked; the finite-field and transcript parts are also functional, so that
//! demonstrations can execute repository code.  The facade crates beside this one re-export the
//! modules under the names the repository uses.
#![allow(clippy::all)]
#![allow(dead_code, unused_variables)]

pub mod serdes;
#[macro_use]
pub mod arith;
pub mod bn254;
pub mod fields;
pub mod gkr_engine;
pub mod transcript;
pub mod circuit;
pub mod polynomials;
pub mod poly_commit;
pub mod sumcheck;
pub mod gkr;
pub mod executor;
pub mod crosslayer;
pub mod timer;
pub mod mpi;
pub mod shmem;
pub mod web;
