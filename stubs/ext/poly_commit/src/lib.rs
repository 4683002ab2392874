#![allow(unused_imports)]
pub use xstub::poly_commit::*;
