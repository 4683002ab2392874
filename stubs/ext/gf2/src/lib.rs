#![allow(unused_imports)]
pub use xstub::fields::{GF2, GF2x8};
