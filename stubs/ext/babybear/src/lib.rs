#![allow(unused_imports)]
pub use xstub::fields::{BabyBear, BabyBearExt3, BabyBearx16};
