#![allow(unused_imports)]
pub use xstub::fields::{M31, M31Ext3, M31x16};
