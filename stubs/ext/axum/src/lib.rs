#![allow(unused_imports)]
pub use xstub::web::axum::*;
