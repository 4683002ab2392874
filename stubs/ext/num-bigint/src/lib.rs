//! Schoolbook stand-in for num-bigint: the part of its interface this repository uses.
use num_traits::{Num, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;
use std::str::FromStr;

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct BigUint {
    d: Vec<u32>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sign {
    Minus,
    NoSign,
    Plus,
}
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct BigInt {
    neg: bool,
    m: BigUint,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseBigIntError;
impl fmt::Display for ParseBigIntError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "invalid digit found in string")
    }
}
impl std::error::Error for ParseBigIntError {}

impl BigUint {
    fn norm(mut d: Vec<u32>) -> Self {
        while d.last() == Some(&0) {
            d.pop();
        }
        BigUint { d }
    }
    pub const ZERO: Self = BigUint { d: Vec::new() };
    pub fn bits(&self) -> u64 {
        match self.d.last() {
            None => 0,
            Some(x) => self.d.len() as u64 * 32 - x.leading_zeros() as u64,
        }
    }
    pub fn bit(&self, i: u64) -> bool {
        self.d.get((i / 32) as usize).map_or(false, |x| x >> (i % 32) & 1 == 1)
    }
    fn add_(&self, o: &Self) -> Self {
        let n = self.d.len().max(o.d.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            let s = *self.d.get(i).unwrap_or(&0) as u64 + *o.d.get(i).unwrap_or(&0) as u64 + c;
            r.push(s as u32);
            c = s >> 32;
        }
        r.push(c as u32);
        Self::norm(r)
    }
    fn sub_(&self, o: &Self) -> Self {
        assert!(*self >= *o, "Cannot subtract b from a because b is larger than a.");
        let mut r = Vec::with_capacity(self.d.len());
        let mut b = 0i64;
        for i in 0..self.d.len() {
            let mut s = self.d[i] as i64 - *o.d.get(i).unwrap_or(&0) as i64 - b;
            b = 0;
            if s < 0 {
                s += 1 << 32;
                b = 1;
            }
            r.push(s as u32);
        }
        Self::norm(r)
    }
    fn mul_(&self, o: &Self) -> Self {
        let mut r = vec![0u32; self.d.len() + o.d.len() + 1];
        for (i, x) in self.d.iter().enumerate() {
            let mut c = 0u64;
            for (j, y) in o.d.iter().enumerate() {
                let t = *x as u64 * *y as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + o.d.len()] = c as u32;
        }
        Self::norm(r)
    }
    fn divrem(&self, o: &Self) -> (Self, Self) {
        assert!(!o.d.is_empty(), "attempt to divide by zero");
        if self < o {
            return (Self::ZERO, self.clone());
        }
        if o.d.len() == 1 {
            let mut q = vec![0u32; self.d.len()];
            let mut r = 0u64;
            for i in (0..self.d.len()).rev() {
                let t = (r << 32) | self.d[i] as u64;
                q[i] = (t / o.d[0] as u64) as u32;
                r = t % o.d[0] as u64;
            }
            return (Self::norm(q), Self::norm(vec![r as u32]));
        }
        // Knuth D
        let s = o.d.last().unwrap().leading_zeros() as usize;
        let v = o.shl_(s);
        let mut u = self.shl_(s).d;
        let n = v.d.len();
        while u.len() < self.d.len() + 1 {
            u.push(0);
        }
        let m = u.len() - n;
        let mut q = vec![0u32; m];
        for j in (0..m).rev() {
            let t = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
            let mut qh = t / v.d[n - 1] as u64;
            let mut rh = t % v.d[n - 1] as u64;
            while qh >= 1 << 32 || qh * v.d[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v.d[n - 1] as u64;
                if rh >= 1 << 32 {
                    break;
                }
            }
            let mut b = 0i64;
            let mut c = 0u64;
            for i in 0..n {
                let p = qh * v.d[i] as u64 + c;
                c = p >> 32;
                let t = u[i + j] as i64 - b - (p & 0xffff_ffff) as i64;
                u[i + j] = t as u32;
                b = if t < 0 { 1 } else { 0 };
            }
            let t = u[j + n] as i64 - b - c as i64;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let t = u[i + j] as u64 + v.d[i] as u64 + c;
                    u[i + j] = t as u32;
                    c = t >> 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        u.truncate(n);
        (Self::norm(q), Self::norm(u).shr_(s))
    }
    fn shl_(&self, s: usize) -> Self {
        let (w, b) = (s / 32, s % 32);
        let mut r = vec![0u32; w];
        let mut c = 0u32;
        for x in &self.d {
            if b == 0 {
                r.push(*x);
            } else {
                r.push((x << b) | c);
                c = x >> (32 - b);
            }
        }
        r.push(c);
        Self::norm(r)
    }
    fn shr_(&self, s: usize) -> Self {
        let (w, b) = (s / 32, s % 32);
        let mut r = vec![];
        for i in w..self.d.len() {
            let hi = *self.d.get(i + 1).unwrap_or(&0);
            r.push(if b == 0 { self.d[i] } else { (self.d[i] >> b) | (hi << (32 - b)) });
        }
        Self::norm(r)
    }
    fn bw(&self, o: &Self, f: impl Fn(u32, u32) -> u32) -> Self {
        let n = self.d.len().max(o.d.len());
        Self::norm((0..n).map(|i| f(*self.d.get(i).unwrap_or(&0), *o.d.get(i).unwrap_or(&0))).collect())
    }
    pub fn to_u64_digits(&self) -> Vec<u64> {
        self.d.chunks(2).map(|c| c[0] as u64 | (*c.get(1).unwrap_or(&0) as u64) << 32).collect()
    }
    pub fn to_u32_digits(&self) -> Vec<u32> {
        self.d.clone()
    }
    pub fn iter_u64_digits(&self) -> std::vec::IntoIter<u64> {
        self.to_u64_digits().into_iter()
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        let mut r: Vec<u8> = self.d.iter().flat_map(|x| x.to_le_bytes()).collect();
        while r.len() > 1 && r.last() == Some(&0) {
            r.pop();
        }
        if r.is_empty() {
            r.push(0);
        }
        r
    }
    pub fn to_bytes_be(&self) -> Vec<u8> {
        let mut r = self.to_bytes_le();
        r.reverse();
        r
    }
    pub fn from_bytes_le(b: &[u8]) -> Self {
        Self::norm(b.chunks(4).map(|c| c.iter().rev().fold(0u32, |a, x| a << 8 | *x as u32)).collect())
    }
    pub fn from_bytes_be(b: &[u8]) -> Self {
        let mut v = b.to_vec();
        v.reverse();
        Self::from_bytes_le(&v)
    }
    pub fn new(d: Vec<u32>) -> Self {
        Self::norm(d)
    }
    pub fn from_slice(d: &[u32]) -> Self {
        Self::norm(d.to_vec())
    }
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<Self> {
        let s = std::str::from_utf8(b).ok()?;
        if s.is_empty() {
            return None;
        }
        let mut r = Self::ZERO;
        let rr = BigUint::from(radix);
        for c in s.chars() {
            if c == '_' {
                continue;
            }
            r = r.mul_(&rr).add_(&BigUint::from(c.to_digit(radix)?));
        }
        Some(r)
    }
    pub fn pow(&self, mut e: u32) -> Self {
        let mut r = BigUint::from(1u32);
        let mut b = self.clone();
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul_(&b);
            }
            b = b.mul_(&b);
            e >>= 1;
        }
        r
    }
    pub fn modpow(&self, e: &Self, m: &Self) -> Self {
        let mut r = BigUint::from(1u32).divrem(m).1;
        for i in (0..e.bits()).rev() {
            r = r.mul_(&r).divrem(m).1;
            if e.bit(i) {
                r = r.mul_(self).divrem(m).1;
            }
        }
        r
    }
    pub fn modinv(&self, m: &Self) -> Option<Self> {
        BigInt::from(self.clone()).modinv(&BigInt::from(m.clone())).map(|x| x.m)
    }
    pub fn to_str_radix(&self, radix: u32) -> String {
        if self.d.is_empty() {
            return "0".into();
        }
        let mut s = vec![];
        let mut x = self.clone();
        let r = BigUint::from(radix);
        while !x.d.is_empty() {
            let (q, m) = x.divrem(&r);
            s.push(std::char::from_digit(*m.d.first().unwrap_or(&0), radix).unwrap());
            x = q;
        }
        s.iter().rev().collect()
    }
}
impl PartialOrd for BigUint {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigUint {
    fn cmp(&self, o: &Self) -> Ordering {
        self.d.len().cmp(&o.d.len()).then_with(|| self.d.iter().rev().cmp(o.d.iter().rev()))
    }
}
impl BigInt {
    pub const ZERO: Self = BigInt { neg: false, m: BigUint::ZERO };
    fn mk(neg: bool, m: BigUint) -> Self {
        BigInt { neg: neg && !m.d.is_empty(), m }
    }
    pub fn bits(&self) -> u64 {
        self.m.bits()
    }
    pub fn sign(&self) -> Sign {
        if self.m.d.is_empty() {
            Sign::NoSign
        } else if self.neg {
            Sign::Minus
        } else {
            Sign::Plus
        }
    }
    fn add_(&self, o: &Self) -> Self {
        if self.neg == o.neg {
            Self::mk(self.neg, self.m.add_(&o.m))
        } else if self.m >= o.m {
            Self::mk(self.neg, self.m.sub_(&o.m))
        } else {
            Self::mk(o.neg, o.m.sub_(&self.m))
        }
    }
    fn sub_(&self, o: &Self) -> Self {
        self.add_(&Self::mk(!o.neg, o.m.clone()))
    }
    fn mul_(&self, o: &Self) -> Self {
        Self::mk(self.neg != o.neg, self.m.mul_(&o.m))
    }
    fn divrem(&self, o: &Self) -> (Self, Self) {
        let (q, r) = self.m.divrem(&o.m);
        (Self::mk(self.neg != o.neg, q), Self::mk(self.neg, r))
    }
    pub fn to_biguint(&self) -> Option<BigUint> {
        if self.neg {
            None
        } else {
            Some(self.m.clone())
        }
    }
    pub fn magnitude(&self) -> &BigUint {
        &self.m
    }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) {
        (self.sign(), self.m.to_bytes_be())
    }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) {
        (self.sign(), self.m.to_bytes_le())
    }
    pub fn to_u64_digits(&self) -> (Sign, Vec<u64>) {
        (self.sign(), self.m.to_u64_digits())
    }
    pub fn to_u32_digits(&self) -> (Sign, Vec<u32>) {
        (self.sign(), self.m.to_u32_digits())
    }
    pub fn from_bytes_be(s: Sign, b: &[u8]) -> Self {
        Self::mk(s == Sign::Minus, BigUint::from_bytes_be(b))
    }
    pub fn from_bytes_le(s: Sign, b: &[u8]) -> Self {
        Self::mk(s == Sign::Minus, BigUint::from_bytes_le(b))
    }
    pub fn from_biguint(s: Sign, m: BigUint) -> Self {
        Self::mk(s == Sign::Minus, m)
    }
    pub fn parse_bytes(b: &[u8], radix: u32) -> Option<Self> {
        match b.first() {
            Some(b'-') => Some(Self::mk(true, BigUint::parse_bytes(&b[1..], radix)?)),
            Some(b'+') => Some(Self::mk(false, BigUint::parse_bytes(&b[1..], radix)?)),
            _ => Some(Self::mk(false, BigUint::parse_bytes(b, radix)?)),
        }
    }
    pub fn pow(&self, e: u32) -> Self {
        Self::mk(self.neg && e % 2 == 1, self.m.pow(e))
    }
    pub fn modpow(&self, e: &Self, m: &Self) -> Self {
        let b = self.mod_floor_(m);
        Self::mk(false, b.m.modpow(&e.m, &m.m))
    }
    fn mod_floor_(&self, m: &Self) -> Self {
        let r = self.divrem(m).1;
        if !r.m.d.is_empty() && r.neg != m.neg {
            r.add_(m)
        } else {
            r
        }
    }
    pub fn modinv(&self, m: &Self) -> Option<Self> {
        let (mut r0, mut r1) = (m.clone(), self.mod_floor_(m));
        let (mut t0, mut t1) = (BigInt::ZERO, BigInt::from(1));
        while !r1.m.d.is_empty() {
            let (q, r) = r0.divrem(&r1);
            r0 = r1;
            r1 = r;
            let t = t0.sub_(&q.mul_(&t1));
            t0 = t1;
            t1 = t;
        }
        if r0.m.d == [1] {
            Some(t0.mod_floor_(m))
        } else {
            None
        }
    }
    pub fn to_str_radix(&self, radix: u32) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.m.to_str_radix(radix))
    }
}
impl PartialOrd for BigInt {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigInt {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => self.m.cmp(&o.m),
            (true, true) => o.m.cmp(&self.m),
        }
    }
}
macro_rules! fmts {
    ($t:ident) => {
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{}", self.to_str_radix(10))
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{}", self.to_str_radix(10))
            }
        }
        impl fmt::LowerHex for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{}", self.to_str_radix(16))
            }
        }
        impl FromStr for $t {
            type Err = ParseBigIntError;
            fn from_str(s: &str) -> Result<Self, ParseBigIntError> {
                $t::parse_bytes(s.as_bytes(), 10).ok_or(ParseBigIntError)
            }
        }
        impl Num for $t {
            type FromStrRadixErr = ParseBigIntError;
            fn from_str_radix(s: &str, r: u32) -> Result<Self, ParseBigIntError> {
                $t::parse_bytes(s.as_bytes(), r).ok_or(ParseBigIntError)
            }
        }
        impl Zero for $t {
            fn zero() -> Self {
                Self::ZERO
            }
            fn is_zero(&self) -> bool {
                *self == Self::ZERO
            }
        }
        impl One for $t {
            fn one() -> Self {
                $t::from(1u32)
            }
        }
        binop!($t, Add, add, AddAssign, add_assign, |a: &$t, b: &$t| a.add_(b));
        binop!($t, Sub, sub, SubAssign, sub_assign, |a: &$t, b: &$t| a.sub_(b));
        binop!($t, Mul, mul, MulAssign, mul_assign, |a: &$t, b: &$t| a.mul_(b));
        binop!($t, Div, div, DivAssign, div_assign, |a: &$t, b: &$t| a.divrem(b).0);
        binop!($t, Rem, rem, RemAssign, rem_assign, |a: &$t, b: &$t| a.divrem(b).1);
        shifts!($t, usize u32 i32 u64 u8);
    };
}
macro_rules! binop {
    ($t:ident, $tr:ident, $f:ident, $tra:ident, $fa:ident, $e:expr) => {
        impl $tr<$t> for $t {
            type Output = $t;
            fn $f(self, o: $t) -> $t {
                ($e)(&self, &o)
            }
        }
        impl<'a> $tr<&'a $t> for $t {
            type Output = $t;
            fn $f(self, o: &'a $t) -> $t {
                ($e)(&self, o)
            }
        }
        impl<'a> $tr<$t> for &'a $t {
            type Output = $t;
            fn $f(self, o: $t) -> $t {
                ($e)(self, &o)
            }
        }
        impl<'a, 'b> $tr<&'b $t> for &'a $t {
            type Output = $t;
            fn $f(self, o: &'b $t) -> $t {
                ($e)(self, o)
            }
        }
        impl $tra<$t> for $t {
            fn $fa(&mut self, o: $t) {
                *self = ($e)(self, &o);
            }
        }
        impl<'a> $tra<&'a $t> for $t {
            fn $fa(&mut self, o: &'a $t) {
                *self = ($e)(self, o);
            }
        }
    };
}
macro_rules! prim {
    ($t:ident, $p:ty) => {
        prim!(@ $t, $p, Add, add, AddAssign, add_assign);
        prim!(@ $t, $p, Sub, sub, SubAssign, sub_assign);
        prim!(@ $t, $p, Mul, mul, MulAssign, mul_assign);
        prim!(@ $t, $p, Div, div, DivAssign, div_assign);
        prim!(@ $t, $p, Rem, rem, RemAssign, rem_assign);
    };
    (@ $t:ident, $p:ty, $tr:ident, $f:ident, $tra:ident, $fa:ident) => {
        impl $tr<$p> for $t {
            type Output = $t;
            fn $f(self, o: $p) -> $t {
                $tr::$f(&self, &$t::from(o))
            }
        }
        impl<'a> $tr<$p> for &'a $t {
            type Output = $t;
            fn $f(self, o: $p) -> $t {
                $tr::$f(self, &$t::from(o))
            }
        }
        impl $tra<$p> for $t {
            fn $fa(&mut self, o: $p) {
                *self = $tr::$f(&*self, &$t::from(o));
            }
        }
    };
}
macro_rules! shifts {
    ($t:ident, $($p:ty)*) => { $(
        impl Shl<$p> for $t { type Output = $t; fn shl(self, s: $p) -> $t { (&self) << s } }
        impl Shr<$p> for $t { type Output = $t; fn shr(self, s: $p) -> $t { (&self) >> s } }
        impl<'a> Shl<$p> for &'a $t { type Output = $t; fn shl(self, s: $p) -> $t { self.shl_by(s as usize) } }
        impl<'a> Shr<$p> for &'a $t { type Output = $t; fn shr(self, s: $p) -> $t { self.shr_by(s as usize) } }
        impl ShlAssign<$p> for $t { fn shl_assign(&mut self, s: $p) { *self = &*self << s; } }
        impl ShrAssign<$p> for $t { fn shr_assign(&mut self, s: $p) { *self = &*self >> s; } }
    )* };
}
impl BigUint {
    fn shl_by(&self, s: usize) -> Self {
        self.shl_(s)
    }
    fn shr_by(&self, s: usize) -> Self {
        self.shr_(s)
    }
}
impl BigInt {
    fn shl_by(&self, s: usize) -> Self {
        Self::mk(self.neg, self.m.shl_(s))
    }
    fn shr_by(&self, s: usize) -> Self {
        if self.neg {
            let q = self.m.shr_(s);
            let up = q.shl_(s) != self.m;
            Self::mk(true, if up { q.add_(&BigUint::from(1u32)) } else { q })
        } else {
            Self::mk(false, self.m.shr_(s))
        }
    }
}
fmts!(BigUint);
fmts!(BigInt);
prim!(BigUint, u32);
prim!(BigUint, u64);
prim!(BigInt, u32);
prim!(BigInt, i32);
prim!(BigInt, u64);
binop!(BigUint, BitAnd, bitand, BitAndAssign, bitand_assign, |a: &BigUint, b: &BigUint| a.bw(b, |x, y| x & y));
binop!(BigUint, BitOr, bitor, BitOrAssign, bitor_assign, |a: &BigUint, b: &BigUint| a.bw(b, |x, y| x | y));
// non-negative operands only
binop!(BigInt, BitAnd, bitand, BitAndAssign, bitand_assign, |a: &BigInt, b: &BigInt| BigInt::mk(false, a.m.bw(&b.m, |x, y| x & y)));
binop!(BigInt, BitOr, bitor, BitOrAssign, bitor_assign, |a: &BigInt, b: &BigInt| BigInt::mk(false, a.m.bw(&b.m, |x, y| x | y)));

macro_rules! fromu {
    ($($p:ty)*) => { $(
        impl From<$p> for BigUint {
            fn from(x: $p) -> Self {
                let x = x as u128;
                BigUint::norm((0..4).map(|i| (x >> (32 * i)) as u32).collect())
            }
        }
        impl From<$p> for BigInt {
            fn from(x: $p) -> Self { BigInt::mk(false, BigUint::from(x)) }
        }
    )* };
}
macro_rules! fromi {
    ($($p:ty)*) => { $(
        impl From<$p> for BigInt {
            fn from(x: $p) -> Self { BigInt::mk(x < 0, BigUint::from((x as i128).unsigned_abs())) }
        }
    )* };
}
fromu!(u8 u16 u32 u64 u128 usize);
fromi!(i8 i16 i32 i64 i128 isize);
impl From<bool> for BigInt {
    fn from(x: bool) -> Self {
        BigInt::from(x as u32)
    }
}
impl From<BigUint> for BigInt {
    fn from(m: BigUint) -> Self {
        BigInt::mk(false, m)
    }
}
impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt::mk(!self.neg, self.m)
    }
}
impl<'a> Neg for &'a BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt::mk(!self.neg, self.m.clone())
    }
}
impl Signed for BigInt {
    fn abs(&self) -> Self {
        BigInt::mk(false, self.m.clone())
    }
    fn abs_sub(&self, o: &Self) -> Self {
        if self <= o {
            BigInt::ZERO
        } else {
            self - o
        }
    }
    fn signum(&self) -> Self {
        match self.sign() {
            Sign::Minus => BigInt::from(-1),
            Sign::NoSign => BigInt::ZERO,
            Sign::Plus => BigInt::from(1),
        }
    }
    fn is_positive(&self) -> bool {
        self.sign() == Sign::Plus
    }
    fn is_negative(&self) -> bool {
        self.sign() == Sign::Minus
    }
}
impl ToPrimitive for BigUint {
    fn to_i64(&self) -> Option<i64> {
        self.to_u64().and_then(|x| i64::try_from(x).ok())
    }
    fn to_u64(&self) -> Option<u64> {
        if self.d.len() > 2 {
            return None;
        }
        Some(self.d.iter().rev().fold(0u64, |a, x| a << 32 | *x as u64))
    }
    fn to_u128(&self) -> Option<u128> {
        if self.d.len() > 4 {
            return None;
        }
        Some(self.d.iter().rev().fold(0u128, |a, x| a << 32 | *x as u128))
    }
}
impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> {
        let x = self.m.to_u64()? as i128;
        i64::try_from(if self.neg { -x } else { x }).ok()
    }
    fn to_u64(&self) -> Option<u64> {
        if self.neg {
            None
        } else {
            self.m.to_u64()
        }
    }
}
impl std::iter::Sum for BigUint {
    fn sum<I: Iterator<Item = BigUint>>(it: I) -> Self {
        it.fold(BigUint::ZERO, |a, b| a + b)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn div() {
        let p = BigUint::from_str("4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787").unwrap();
        let a = BigUint::from(3u32).pow(700);
        let (q, r) = a.divrem(&p);
        assert!(r < p);
        assert_eq!(q * &p + &r, a);
        let i = r.modinv(&p).unwrap();
        assert_eq!((i * r) % p, BigUint::from(1u32));
    }
}
