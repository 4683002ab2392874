use crate::arith::{Field, SimdField};
use crate::serdes::{ExpSerde, SerdeResult};
use ethnum::U256;
use std::io::{Read, Write};

const P: [u64; 4] = [
    0x43e1f593f0000001,
    0x2833e84879b97091,
    0xb85045b68181585d,
    0x30644e72e131a029,
];
const N0: u64 = 0xc2e1f593efffffff;

/// BN254 scalar field, Montgomery form.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct Fr(pub [u64; 4]);

const fn adc(a: u64, b: u64, c: u64) -> (u64, u64) {
    let t = a as u128 + b as u128 + c as u128;
    (t as u64, (t >> 64) as u64)
}
const fn sbb(a: u64, b: u64, c: u64) -> (u64, u64) {
    let t = (a as u128).wrapping_sub(b as u128 + c as u128);
    (t as u64, ((t >> 64) as u64) & 1)
}
const fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if a[i] > b[i] {
            return true;
        }
        if a[i] < b[i] {
            return false;
        }
    }
    true
}
const fn sub4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0u64; 4];
    let mut c = 0;
    let mut i = 0;
    while i < 4 {
        let (x, y) = sbb(a[i], b[i], c);
        r[i] = x;
        c = y;
        i += 1;
    }
    r
}
const fn add_mod(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0u64; 4];
    let mut c = 0;
    let mut i = 0;
    while i < 4 {
        let (x, y) = adc(a[i], b[i], c);
        r[i] = x;
        c = y;
        i += 1;
    }
    if geq(&r, &P) {
        sub4(&r, &P)
    } else {
        r
    }
}
const fn pow2(n: usize) -> [u64; 4] {
    let mut r = [1u64, 0, 0, 0];
    let mut i = 0;
    while i < n {
        let t = r;
        r = add_mod(&t, &t);
        i += 1;
    }
    r
}
const R1: [u64; 4] = pow2(256);
const R2: [u64; 4] = pow2(512);

const fn mont_mul(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    let mut i = 0;
    while i < 4 {
        let mut c: u128 = 0;
        let mut j = 0;
        while j < 4 {
            let v = t[j] as u128 + (a[j] as u128) * (b[i] as u128) + c;
            t[j] = v as u64;
            c = v >> 64;
            j += 1;
        }
        let v = t[4] as u128 + c;
        t[4] = v as u64;
        t[5] = (v >> 64) as u64;
        let m = t[0].wrapping_mul(N0);
        let v = t[0] as u128 + (m as u128) * (P[0] as u128);
        let mut c = v >> 64;
        let mut j = 1;
        while j < 4 {
            let v = t[j] as u128 + (m as u128) * (P[j] as u128) + c;
            t[j - 1] = v as u64;
            c = v >> 64;
            j += 1;
        }
        let v = t[4] as u128 + c;
        t[3] = v as u64;
        t[4] = t[5] + (v >> 64) as u64;
        i += 1;
    }
    let r = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(&r, &P) {
        sub4(&r, &P)
    } else {
        r
    }
}
const fn to_mont(a: [u64; 4]) -> Fr {
    Fr(mont_mul(&a, &R2))
}

impl Fr {
    pub fn canonical(&self) -> [u64; 4] {
        mont_mul(&self.0, &[1, 0, 0, 0])
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        let mut b = [0; 32];
        for (i, x) in self.canonical().iter().enumerate() {
            b[i * 8..i * 8 + 8].copy_from_slice(&x.to_le_bytes());
        }
        b
    }
    pub fn from_bytes(b: &[u8; 32]) -> Option<Self> {
        let mut a = [0u64; 4];
        for i in 0..4 {
            a[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        }
        if geq(&a, &P) {
            return None;
        }
        Some(to_mont(a))
    }
    pub fn to_repr(&self) -> [u8; 32] {
        self.to_bytes()
    }
    pub fn from_repr(b: [u8; 32]) -> Option<Self> {
        Self::from_bytes(&b)
    }
    pub fn from_str_vartime(s: &str) -> Option<Self> {
        let ten = Fr::from(10u32);
        let mut r = Fr::ZERO;
        for c in s.chars() {
            r = r * ten + Fr::from(c.to_digit(10)?);
        }
        Some(r)
    }
    pub const fn from_raw(a: [u64; 4]) -> Self {
        to_mont(a)
    }
    pub const fn zero() -> Self {
        Fr([0; 4])
    }
    pub const fn one() -> Self {
        Fr(R1)
    }
    pub fn invert(&self) -> Option<Self> {
        self.inv()
    }
    pub fn random(rng: impl rand::RngCore) -> Self {
        Self::random_unsafe(rng)
    }
    pub fn pow(&self, e: &[u64]) -> Self {
        let mut r = Fr::ONE;
        for w in e.iter().rev() {
            for i in (0..64).rev() {
                r = r * r;
                if (w >> i) & 1 == 1 {
                    r *= *self;
                }
            }
        }
        r
    }
}
impl std::fmt::Debug for Fr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:#x}", self.to_u256())
    }
}
impl PartialOrd for Fr {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fr {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.to_u256().cmp(&o.to_u256())
    }
}
impl std::ops::Neg for Fr {
    type Output = Self;
    fn neg(self) -> Self {
        if self.0 == [0; 4] {
            self
        } else {
            Fr(sub4(&P, &self.0))
        }
    }
}
impl std::ops::Add for Fr {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Fr(add_mod(&self.0, &o.0))
    }
}
impl std::ops::Mul for Fr {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Fr(mont_mul(&self.0, &o.0))
    }
}
crate::field_ops!(Fr);
impl From<u32> for Fr {
    fn from(x: u32) -> Self {
        to_mont([x as u64, 0, 0, 0])
    }
}
impl From<u64> for Fr {
    fn from(x: u64) -> Self {
        to_mont([x, 0, 0, 0])
    }
}
impl From<bool> for Fr {
    fn from(x: bool) -> Self {
        Fr::from(x as u32)
    }
}
impl ExpSerde for Fr {
    fn serialize_into<W: Write>(&self, mut writer: W) -> SerdeResult<()> {
        writer.write_all(&self.to_bytes())?;
        Ok(())
    }
    fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
        let mut b = [0u8; 32];
        reader.read_exact(&mut b)?;
        Fr::from_bytes(&b).ok_or(crate::serdes::SerdeError::DeserializeError)
    }
}
impl Field for Fr {
    const NAME: &'static str = "bn254 scalar field";
    const SIZE: usize = 32;
    const FIELD_SIZE: usize = 256;
    const ZERO: Self = Fr([0; 4]);
    const ONE: Self = Fr(R1);
    const INV_2: Self = to_mont([
        0xa1f0fac9f8000001,
        0x9419f4243cdcb848,
        0xdc2822db40c0ac2e,
        0x183227397098d014,
    ]);
    const MODULUS: U256 = U256::from_words(
        ((P[3] as u128) << 64) | P[2] as u128,
        ((P[1] as u128) << 64) | P[0] as u128,
    );
    fn random_unsafe(mut rng: impl rand::RngCore) -> Self {
        let a = [rng.next_u64(), rng.next_u64(), rng.next_u64(), rng.next_u64() >> 3];
        to_mont(if geq(&a, &P) { sub4(&a, &P) } else { a })
    }
    fn inv(&self) -> Option<Self> {
        if *self == Self::ZERO {
            return None;
        }
        let e = sub4(&P, &[2, 0, 0, 0]);
        Some(Fr::pow(self, &e))
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.canonical()[0] as u32
    }
    fn to_u256(&self) -> U256 {
        U256::from_le_bytes(self.to_bytes())
    }
    fn from_u256(x: U256) -> Self {
        let x = x % Self::MODULUS;
        Fr::from_bytes(&x.to_le_bytes()).unwrap()
    }
}
impl SimdField for Fr {
    type Scalar = Fr;
    const PACK_SIZE: usize = 1;
    fn scale(&self, c: &Fr) -> Self {
        *self * *c
    }
    fn pack(b: &[Fr]) -> Self {
        b[0]
    }
    fn unpack(&self) -> Vec<Fr> {
        vec![*self]
    }
}
