#![allow(unused_imports)]
pub use xstub::arith::{ExtensionField, FFTField, Field, Fr, SimdField};
