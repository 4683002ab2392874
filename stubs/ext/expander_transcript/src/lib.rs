#![allow(unused_imports)]
pub use xstub::transcript::*;
