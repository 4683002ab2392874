#![allow(unused_imports)]
pub mod bn256 {
    pub use xstub::bn254::Fr;
    #[derive(Clone, Copy, Debug, Default)]
    pub struct Bn256;
}
pub mod ff {
    pub use xstub::arith::Field;
    pub trait PrimeField: Sized {
        fn from_str_vartime(s: &str) -> Option<Self>;
        fn to_repr(&self) -> [u8; 32];
        fn from_repr(b: [u8; 32]) -> Option<Self>;
    }
    impl PrimeField for xstub::bn254::Fr {
        fn from_str_vartime(s: &str) -> Option<Self> { xstub::bn254::Fr::from_str_vartime(s) }
        fn to_repr(&self) -> [u8; 32] { self.to_bytes() }
        fn from_repr(b: [u8; 32]) -> Option<Self> { Self::from_bytes(&b) }
    }
}
