use crate::serdes::ExpSerde;
use ethnum::U256;
use rand::RngCore;
use std::fmt::Debug;
use std::hash::Hash;
use std::iter::{Product, Sum};
use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

pub use crate::bn254::Fr;

pub trait Field:
    Copy + Clone + Debug + Default + PartialEq + Eq + PartialOrd + Ord + Hash + From<u32>
    + Neg<Output = Self>
    + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self>
    + Sum + Product
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self> + for<'a> Mul<&'a Self, Output = Self>
    + for<'a> Sum<&'a Self> + for<'a> Product<&'a Self>
    + AddAssign + SubAssign + MulAssign
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self>
    + ExpSerde + 'static + Send + Sync
{
    const NAME: &'static str;
    const SIZE: usize;
    const FIELD_SIZE: usize;
    const ZERO: Self;
    const ONE: Self;
    const INV_2: Self;
    const MODULUS: U256;

    fn zero() -> Self { Self::ZERO }
    fn one() -> Self { Self::ONE }
    fn is_zero(&self) -> bool { *self == Self::ZERO }
    fn random_unsafe(rng: impl RngCore) -> Self;
    fn random_bool(mut rng: impl RngCore) -> Self {
        if rng.next_u32() & 1 == 1 { Self::ONE } else { Self::ZERO }
    }
    fn double(&self) -> Self { *self + *self }
    fn square(&self) -> Self { *self * *self }
    fn mul_by_2(&self) -> Self { self.double() }
    fn exp(&self, mut e: u128) -> Self {
        let mut r = Self::ONE;
        let mut b = *self;
        while e > 0 {
            if e & 1 == 1 { r *= b; }
            b = b * b;
            e >>= 1;
        }
        r
    }
    fn inv(&self) -> Option<Self>;
    fn as_u32_unchecked(&self) -> u32;
    fn to_u256(&self) -> U256;
    fn from_u256(x: U256) -> Self;
    fn from_uniform_bytes(bytes: &[u8]) -> Self {
        let mut b = [0u8; 32];
        for (i, x) in bytes.iter().take(32).enumerate() { b[i] = *x; }
        Self::from_u256(U256::from_le_bytes(b))
    }
}

pub trait SimdField: Field + From<Self::Scalar>
    + Add<Self::Scalar, Output = Self> + Mul<Self::Scalar, Output = Self>
{
    type Scalar: Field;
    const PACK_SIZE: usize;
    fn scale(&self, challenge: &Self::Scalar) -> Self;
    fn pack(base_vec: &[Self::Scalar]) -> Self;
    fn pack_full(base: &Self::Scalar) -> Self { Self::pack(&vec![*base; Self::PACK_SIZE]) }
    fn unpack(&self) -> Vec<Self::Scalar>;
    fn horizontal_sum(&self) -> Self::Scalar { self.unpack().into_iter().sum() }
}

pub trait ExtensionField: Field {
    const DEGREE: usize;
    type BaseField: Field;
}

pub trait FFTField: Field {}

#[macro_export]
macro_rules! field_ops {
    ($t:ty) => { $crate::field_ops!($t, []); };
    ($t:ty, [$($g:tt)*]) => {
        impl<$($g)*> std::ops::Sub for $t { type Output = Self; #[inline] fn sub(self, o: Self) -> Self { self + (-o) } }
        impl<'a, $($g)*> std::ops::Add<&'a $t> for $t { type Output = Self; #[inline] fn add(self, o: &'a $t) -> Self { self + *o } }
        impl<'a, $($g)*> std::ops::Sub<&'a $t> for $t { type Output = Self; #[inline] fn sub(self, o: &'a $t) -> Self { self - *o } }
        impl<'a, $($g)*> std::ops::Mul<&'a $t> for $t { type Output = Self; #[inline] fn mul(self, o: &'a $t) -> Self { self * *o } }
        impl<'a, 'b, $($g)*> std::ops::Add<&'a $t> for &'b $t { type Output = $t; #[inline] fn add(self, o: &'a $t) -> $t { *self + *o } }
        impl<'a, 'b, $($g)*> std::ops::Sub<&'a $t> for &'b $t { type Output = $t; #[inline] fn sub(self, o: &'a $t) -> $t { *self - *o } }
        impl<'a, 'b, $($g)*> std::ops::Mul<&'a $t> for &'b $t { type Output = $t; #[inline] fn mul(self, o: &'a $t) -> $t { *self * *o } }
        impl<$($g)*> std::ops::AddAssign for $t { #[inline] fn add_assign(&mut self, o: Self) { *self = *self + o; } }
        impl<$($g)*> std::ops::SubAssign for $t { #[inline] fn sub_assign(&mut self, o: Self) { *self = *self - o; } }
        impl<$($g)*> std::ops::MulAssign for $t { #[inline] fn mul_assign(&mut self, o: Self) { *self = *self * o; } }
        impl<'a, $($g)*> std::ops::AddAssign<&'a $t> for $t { #[inline] fn add_assign(&mut self, o: &'a $t) { *self = *self + *o; } }
        impl<'a, $($g)*> std::ops::SubAssign<&'a $t> for $t { #[inline] fn sub_assign(&mut self, o: &'a $t) { *self = *self - *o; } }
        impl<'a, $($g)*> std::ops::MulAssign<&'a $t> for $t { #[inline] fn mul_assign(&mut self, o: &'a $t) { *self = *self * *o; } }
        impl<$($g)*> std::iter::Sum for $t { fn sum<I: Iterator<Item = Self>>(it: I) -> Self { it.fold(<$t as $crate::arith::Field>::ZERO, |a, b| a + b) } }
        impl<'a, $($g)*> std::iter::Sum<&'a $t> for $t { fn sum<I: Iterator<Item = &'a $t>>(it: I) -> Self { it.fold(<$t as $crate::arith::Field>::ZERO, |a, b| a + *b) } }
        impl<$($g)*> std::iter::Product for $t { fn product<I: Iterator<Item = Self>>(it: I) -> Self { it.fold(<$t as $crate::arith::Field>::ONE, |a, b| a * b) } }
        impl<'a, $($g)*> std::iter::Product<&'a $t> for $t { fn product<I: Iterator<Item = &'a $t>>(it: I) -> Self { it.fold(<$t as $crate::arith::Field>::ONE, |a, b| a * *b) } }
    };
}

/// A field of `$n` packed copies of `$s`.
#[macro_export]
macro_rules! simd_field {
        (@gen $id:ident, $t:ty, [$($g:tt)*], $s:ty, $n:expr, $name:expr) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #[repr(transparent)]
        pub struct $id<$($g)*> { pub v: [$s; $n] }
        impl<$($g)*> Default for $t { fn default() -> Self { Self { v: [<$s>::default(); $n] } } }
        impl<$($g)*> std::ops::Neg for $t { type Output = Self; fn neg(mut self) -> Self { for x in self.v.iter_mut() { *x = -*x; } self } }
        impl<$($g)*> std::ops::Add for $t { type Output = Self; fn add(mut self, o: Self) -> Self { for i in 0..$n { self.v[i] += o.v[i]; } self } }
        impl<$($g)*> std::ops::Mul for $t { type Output = Self; fn mul(mut self, o: Self) -> Self { for i in 0..$n { self.v[i] *= o.v[i]; } self } }
        $crate::field_ops!($t, [$($g)*]);
        impl<$($g)*> From<u32> for $t { fn from(x: u32) -> Self { Self { v: [<$s>::from(x); $n] } } }
        impl<$($g)*> From<$s> for $t { fn from(x: $s) -> Self { Self { v: [x; $n] } } }
        impl<$($g)*> std::ops::Add<$s> for $t { type Output = Self; fn add(self, o: $s) -> Self { self + Self::from(o) } }
        impl<$($g)*> std::ops::Mul<$s> for $t { type Output = Self; fn mul(self, o: $s) -> Self { self * Self::from(o) } }
        impl<$($g)*> $crate::serdes::ExpSerde for $t {
            fn serialize_into<W: std::io::Write>(&self, writer: W) -> $crate::serdes::SerdeResult<()> { self.v.serialize_into(writer) }
            fn deserialize_from<R: std::io::Read>(reader: R) -> $crate::serdes::SerdeResult<Self> { Ok(Self { v: $crate::serdes::ExpSerde::deserialize_from(reader)? }) }
        }
        impl<$($g)*> $crate::arith::Field for $t {
            const NAME: &'static str = $name;
            const SIZE: usize = std::mem::size_of::<$s>() * $n;
            const FIELD_SIZE: usize = <$s as $crate::arith::Field>::FIELD_SIZE;
            const ZERO: Self = Self { v: [<$s as $crate::arith::Field>::ZERO; $n] };
            const ONE: Self = Self { v: [<$s as $crate::arith::Field>::ONE; $n] };
            const INV_2: Self = Self { v: [<$s as $crate::arith::Field>::INV_2; $n] };
            const MODULUS: ethnum::U256 = <$s as $crate::arith::Field>::MODULUS;
            fn random_unsafe(mut rng: impl rand::RngCore) -> Self { let mut r = Self::default(); for x in r.v.iter_mut() { *x = <$s as $crate::arith::Field>::random_unsafe(&mut rng); } r }
            fn inv(&self) -> Option<Self> { let mut r = *self; for x in r.v.iter_mut() { *x = x.inv()?; } Some(r) }
            fn as_u32_unchecked(&self) -> u32 { self.v[0].as_u32_unchecked() }
            fn to_u256(&self) -> ethnum::U256 { self.v[0].to_u256() }
            fn from_u256(x: ethnum::U256) -> Self { Self::from(<$s as $crate::arith::Field>::from_u256(x)) }
        }
        impl<$($g)*> $crate::arith::SimdField for $t {
            type Scalar = $s;
            const PACK_SIZE: usize = $n;
            fn scale(&self, c: &$s) -> Self { *self * Self::from(*c) }
            fn pack(b: &[$s]) -> Self { let mut r = Self::default(); r.v.copy_from_slice(b); r }
            fn unpack(&self) -> Vec<$s> { self.v.to_vec() }
        }
    };
    ($t:ident, $s:ty, $n:expr, $name:expr) => { $crate::simd_field!(@gen $t, $t, [], $s, $n, $name); };
}
