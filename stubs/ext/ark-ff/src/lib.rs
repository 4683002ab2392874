//! Stand-in for the part of ark-ff this repository uses.
pub use num_traits::{One, Zero};
pub mod fields {
    pub use super::Field;
}
pub trait Field: Copy + Zero + One + Sized {
    fn inverse(&self) -> Option<Self>;
    fn sqrt(&self) -> Option<Self>;
    fn square(&self) -> Self {
        *self * *self
    }
    fn pow<S: AsRef2>(&self, exp: S) -> Self {
        let e: Vec<u64> = exp.digits();
        let mut r = Self::one();
        for w in e.iter().rev() {
            for i in (0..64).rev() {
                r = r * r;
                if w >> i & 1 == 1 {
                    r = r * *self;
                }
            }
        }
        r
    }
}

/// what `pow` takes as an exponent here: little-endian 64-bit digits
pub trait AsRef2 {
    fn digits(self) -> Vec<u64>;
}
impl<'a, I: Iterator<Item = &'a u64>> AsRef2 for I {
    fn digits(self) -> Vec<u64> {
        self.copied().collect()
    }
}
