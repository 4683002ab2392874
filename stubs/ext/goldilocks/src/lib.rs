#![allow(unused_imports)]
pub use xstub::fields::{Goldilocks, GoldilocksExt2, Goldilocksx8};
