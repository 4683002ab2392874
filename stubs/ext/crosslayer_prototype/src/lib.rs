#![allow(unused_imports)]
pub use xstub::crosslayer::*;
