#![allow(unused_imports)]
pub use xstub::web::reqwest::*;
