//! Slow functional stand-in for the BLS12-381 base field and its tower.
use ark_ff::{Field, One, Zero};
use num_bigint::BigUint;
use std::fmt;
use std::ops::*;
use std::str::FromStr;
use std::sync::OnceLock;

fn p() -> &'static BigUint {
    static P: OnceLock<BigUint> = OnceLock::new();
    P.get_or_init(|| BigUint::from_str("4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787").unwrap())
}
#[derive(Clone, Copy, PartialEq, Eq, Default, Hash)]
pub struct Fq([u64; 6]);
impl Fq {
    fn big(&self) -> BigUint {
        let mut v = vec![];
        for x in self.0 {
            v.push(x as u32);
            v.push((x >> 32) as u32);
        }
        BigUint::new(v)
    }
}
impl From<BigUint> for Fq {
    fn from(x: BigUint) -> Fq {
        let d = (x % p()).to_u64_digits();
        let mut r = [0; 6];
        r[..d.len()].copy_from_slice(&d);
        Fq(r)
    }
}
impl From<Fq> for BigUint {
    fn from(x: Fq) -> BigUint {
        x.big()
    }
}
impl From<u64> for Fq {
    fn from(x: u64) -> Fq {
        Fq([x, 0, 0, 0, 0, 0])
    }
}
impl From<u32> for Fq {
    fn from(x: u32) -> Fq {
        Fq::from(x as u64)
    }
}
impl fmt::Display for Fq {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.big())
    }
}
impl fmt::Debug for Fq {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.big())
    }
}
impl Add for Fq {
    type Output = Fq;
    fn add(self, o: Fq) -> Fq {
        (self.big() + o.big()).into()
    }
}
impl Neg for Fq {
    type Output = Fq;
    fn neg(self) -> Fq {
        (p() - self.big()).into()
    }
}
impl Mul for Fq {
    type Output = Fq;
    fn mul(self, o: Fq) -> Fq {
        (self.big() * o.big()).into()
    }
}
impl Field for Fq {
    fn inverse(&self) -> Option<Fq> {
        self.big().modinv(p()).map(Fq::from)
    }
    fn sqrt(&self) -> Option<Fq> {
        let e = (p() + BigUint::from(1u32)) >> 2usize;
        let r: Fq = self.big().modpow(&e, p()).into();
        if r * r == *self {
            Some(r)
        } else {
            None
        }
    }
}
macro_rules! rest {
    ($t:ident) => {
        impl Sub for $t {
            type Output = $t;
            fn sub(self, o: $t) -> $t {
                self + -o
            }
        }
        impl Div for $t {
            type Output = $t;
            fn div(self, o: $t) -> $t {
                self * o.inverse().unwrap()
            }
        }
        impl AddAssign for $t {
            fn add_assign(&mut self, o: $t) {
                *self = *self + o;
            }
        }
        impl SubAssign for $t {
            fn sub_assign(&mut self, o: $t) {
                *self = *self - o;
            }
        }
        impl MulAssign for $t {
            fn mul_assign(&mut self, o: $t) {
                *self = *self * o;
            }
        }
        impl Zero for $t {
            fn zero() -> $t {
                $t::default()
            }
            fn is_zero(&self) -> bool {
                *self == $t::default()
            }
        }
    };
}
rest!(Fq);
rest!(Fq2);
rest!(Fq6);
rest!(Fq12);
impl One for Fq {
    fn one() -> Fq {
        Fq::from(1u64)
    }
}
macro_rules! tower {
    ($t:ident, $b:ident, $($c:ident)*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Default, Hash, Debug)]
        pub struct $t { $(pub $c: $b),* }
        impl $t {
            pub fn new($($c: $b),*) -> $t { $t { $($c),* } }
        }
        impl Add for $t { type Output = $t; fn add(self, o: $t) -> $t { $t { $($c: self.$c + o.$c),* } } }
        impl Neg for $t { type Output = $t; fn neg(self) -> $t { $t { $($c: -self.$c),* } } }
        impl One for $t { fn one() -> $t { $t { c0: $b::one(), ..Default::default() } } }
    };
}
tower!(Fq2, Fq, c0 c1);
tower!(Fq6, Fq2, c0 c1 c2);
tower!(Fq12, Fq6, c0 c1);
impl Mul for Fq2 {
    type Output = Fq2;
    fn mul(self, o: Fq2) -> Fq2 {
        Fq2::new(self.c0 * o.c0 - self.c1 * o.c1, self.c0 * o.c1 + self.c1 * o.c0)
    }
}
impl Fq2 {
    pub fn mul_assign_by_fp(&mut self, k: &Fq) {
        self.c0 = self.c0 * *k;
        self.c1 = self.c1 * *k;
    }
    fn nr(self) -> Fq2 {
        Fq2::new(self.c0 - self.c1, self.c0 + self.c1)
    }
}
impl Field for Fq2 {
    fn inverse(&self) -> Option<Fq2> {
        let n = (self.c0 * self.c0 + self.c1 * self.c1).inverse()?;
        Some(Fq2::new(self.c0 * n, -self.c1 * n))
    }
    fn sqrt(&self) -> Option<Fq2> {
        if self.c1.is_zero() {
            return Some(match self.c0.sqrt() {
                Some(r) => Fq2::new(r, Fq::zero()),
                None => Fq2::new(Fq::zero(), (-self.c0).sqrt()?),
            });
        }
        let n = (self.c0 * self.c0 + self.c1 * self.c1).sqrt()?;
        let two = Fq::from(2u64).inverse()?;
        for n in [n, -n] {
            if let Some(x) = ((self.c0 + n) * two).sqrt() {
                let y = self.c1 * two * x.inverse()?;
                let r = Fq2::new(x, y);
                if r * r == *self {
                    return Some(r);
                }
            }
        }
        None
    }
}
impl Mul for Fq6 {
    type Output = Fq6;
    fn mul(self, o: Fq6) -> Fq6 {
        let (a, b) = (self, o);
        Fq6::new(
            a.c0 * b.c0 + (a.c1 * b.c2 + a.c2 * b.c1).nr(),
            a.c0 * b.c1 + a.c1 * b.c0 + (a.c2 * b.c2).nr(),
            a.c0 * b.c2 + a.c1 * b.c1 + a.c2 * b.c0,
        )
    }
}
impl Fq6 {
    fn nr(self) -> Fq6 {
        Fq6::new(self.c2.nr(), self.c0, self.c1)
    }
}
impl Field for Fq6 {
    fn inverse(&self) -> Option<Fq6> {
        let (a, b, c) = (self.c0, self.c1, self.c2);
        let x = a * a - (b * c).nr();
        let y = (c * c).nr() - a * b;
        let z = b * b - a * c;
        let n = (a * x + (c * y + b * z).nr()).inverse()?;
        Some(Fq6::new(x * n, y * n, z * n))
    }
    fn sqrt(&self) -> Option<Fq6> {
        unimplemented!()
    }
}
impl Mul for Fq12 {
    type Output = Fq12;
    fn mul(self, o: Fq12) -> Fq12 {
        Fq12::new(self.c0 * o.c0 + (self.c1 * o.c1).nr(), self.c0 * o.c1 + self.c1 * o.c0)
    }
}
impl Field for Fq12 {
    fn inverse(&self) -> Option<Fq12> {
        let n = (self.c0 * self.c0 - (self.c1 * self.c1).nr()).inverse()?;
        Some(Fq12::new(self.c0 * n, -self.c1 * n))
    }
    fn sqrt(&self) -> Option<Fq12> {
        unimplemented!()
    }
}
