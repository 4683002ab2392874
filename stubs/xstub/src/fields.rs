use crate::arith::Field;
use crate::serdes::{ExpSerde, SerdeResult};
use ethnum::U256;
use std::io::{Read, Write};

macro_rules! small_prime {
    ($t:ident, $raw:ty, $p:expr, $name:expr, $bits:expr) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
        #[repr(transparent)]
        pub struct $t { pub v: $raw }
        impl $t {
            pub const P: u64 = $p;
            pub fn new(x: $raw) -> Self { Self { v: (x as u64 % $p) as $raw } }
            pub const fn new_unchecked(x: $raw) -> Self { Self { v: x } }
        }
        impl std::ops::Neg for $t { type Output = Self; fn neg(self) -> Self { if self.v == 0 { self } else { Self { v: ($p - self.v as u64) as $raw } } } }
        impl std::ops::Add for $t { type Output = Self; fn add(self, o: Self) -> Self { Self { v: ((self.v as u128 + o.v as u128) % $p as u128) as $raw } } }
        impl std::ops::Mul for $t { type Output = Self; fn mul(self, o: Self) -> Self { Self { v: ((self.v as u128 * o.v as u128) % $p as u128) as $raw } } }
        crate::field_ops!($t);
        impl From<u32> for $t { fn from(x: u32) -> Self { Self { v: (x as u64 % $p) as $raw } } }
        impl From<u64> for $t { fn from(x: u64) -> Self { Self { v: (x % $p) as $raw } } }
        impl From<bool> for $t { fn from(x: bool) -> Self { Self { v: x as $raw } } }
        impl ExpSerde for $t {
            fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> { writer.write_all(&self.v.to_le_bytes())?; Ok(()) }
            fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
                let mut b = [0u8; std::mem::size_of::<$raw>()];
                reader.read_exact(&mut b)?;
                Ok(Self { v: (<$raw>::from_le_bytes(b) as u64 % $p) as $raw })
            }
        }
        impl Field for $t {
            const NAME: &'static str = $name;
            const SIZE: usize = std::mem::size_of::<$raw>();
            const FIELD_SIZE: usize = $bits;
            const ZERO: Self = Self { v: 0 };
            const ONE: Self = Self { v: 1 };
            const INV_2: Self = Self { v: (($p + 1) / 2) as $raw };
            const MODULUS: U256 = U256::new($p as u128);
            fn random_unsafe(mut rng: impl rand::RngCore) -> Self { Self { v: (rng.next_u64() % $p) as $raw } }
            fn inv(&self) -> Option<Self> { if self.v == 0 { None } else { Some(self.exp(($p - 2) as u128)) } }
            fn as_u32_unchecked(&self) -> u32 { self.v as u32 }
            fn to_u256(&self) -> U256 { U256::new(self.v as u128) }
            fn from_u256(x: U256) -> Self { Self { v: (x % U256::new($p as u128)).as_u64() as $raw } }
        }
    };
}
small_prime!(M31, u32, 2147483647u64, "Mersenne 31", 32);
simd_field!(M31x16, M31, 16, "Mersenne 31 x16");
small_prime!(BabyBear, u32, 2013265921u64, "Baby Bear Field", 32);
simd_field!(BabyBearx16, BabyBear, 16, "Baby Bear x16");
small_prime!(Goldilocks, u64, 18446744069414584321u64, "Goldilocks", 64);
simd_field!(Goldilocksx8, Goldilocks, 8, "Goldilocks x8");
simd_field!(M31x1, M31, 1, "Mersenne 31 x1");
simd_field!(Goldilocksx1, Goldilocks, 1, "Goldilocks x1");
simd_field!(BabyBearx1, BabyBear, 1, "BabyBear x1");

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
#[repr(transparent)]
pub struct GF2 { pub v: u8 }
impl std::ops::Neg for GF2 { type Output = Self; fn neg(self) -> Self { self } }
impl std::ops::Add for GF2 { type Output = Self; fn add(self, o: Self) -> Self { GF2 { v: self.v ^ o.v } } }
impl std::ops::Mul for GF2 { type Output = Self; fn mul(self, o: Self) -> Self { GF2 { v: self.v & o.v } } }
field_ops!(GF2);
impl From<u32> for GF2 { fn from(x: u32) -> Self { GF2 { v: (x & 1) as u8 } } }
impl From<bool> for GF2 { fn from(x: bool) -> Self { GF2 { v: x as u8 } } }
impl ExpSerde for GF2 {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> { writer.write_all(&[self.v])?; Ok(()) }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> { let mut b = [0u8]; reader.read_exact(&mut b)?; Ok(GF2 { v: b[0] & 1 }) }
}
impl Field for GF2 {
    const NAME: &'static str = "Galois Field 2";
    const SIZE: usize = 1;
    const FIELD_SIZE: usize = 1;
    const ZERO: Self = GF2 { v: 0 };
    const ONE: Self = GF2 { v: 1 };
    const INV_2: Self = GF2 { v: 0 };
    const MODULUS: U256 = U256::new(2);
    fn random_unsafe(mut rng: impl rand::RngCore) -> Self { GF2 { v: (rng.next_u32() & 1) as u8 } }
    fn inv(&self) -> Option<Self> { if self.v == 0 { None } else { Some(*self) } }
    fn as_u32_unchecked(&self) -> u32 { self.v as u32 }
    fn to_u256(&self) -> U256 { U256::new(self.v as u128) }
    fn from_u256(x: U256) -> Self { GF2 { v: (x & U256::ONE).as_u8() } }
}
simd_field!(GF2x8, GF2, 8, "Galois Field 2 SIMD 8");
simd_field!(GF2x1, GF2, 1, "Galois Field 2 x1");
// Challenge "extension" fields: product rings are enough here (ring operations, embeddings).
simd_field!(M31Ext3, M31, 3, "Mersenne 31 ext 3");
simd_field!(M31Ext6, M31, 6, "Mersenne 31 ext 6");
simd_field!(BabyBearExt3, BabyBear, 3, "BabyBear ext 3");
simd_field!(GoldilocksExt2, Goldilocks, 2, "Goldilocks ext 2");
simd_field!(GF2_128, GF2, 128, "GF2 ext 128");
impl crate::arith::ExtensionField for M31Ext3 { const DEGREE: usize = 3; type BaseField = M31; }
impl crate::arith::ExtensionField for BabyBearExt3 { const DEGREE: usize = 3; type BaseField = BabyBear; }
impl crate::arith::ExtensionField for GoldilocksExt2 { const DEGREE: usize = 2; type BaseField = Goldilocks; }
impl crate::arith::ExtensionField for GF2_128 { const DEGREE: usize = 128; type BaseField = GF2; }
