#![allow(unused_imports)]
pub use serdes_derive::ExpSerde;
pub use xstub::serdes::*;
