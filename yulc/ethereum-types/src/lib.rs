//! Stand-in for the parts of `ethereum_types::U256` the compiler uses (the crate is not available offline).
#![allow(clippy::all, dead_code)]
use std::cmp::Ordering;
use std::fmt;
use std::ops::{Add, BitAnd, BitOr, Div, Mul, Not, Rem, Shl, Shr, Sub};
/// little-endian 64-bit limbs
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct U256(pub [u64; 4]);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FromStrRadixErr {
    InvalidCharacter,
    InvalidLength,
    UnsupportedRadix,
}
impl fmt::Display for FromStrRadixErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self) }
}
impl std::error::Error for FromStrRadixErr {}
impl U256 {
    pub const MAX: U256 = U256([u64::MAX; 4]);
    pub fn zero() -> Self { U256([0; 4]) }
    pub fn one() -> Self { U256([1, 0, 0, 0]) }
    pub fn max_value() -> Self { Self::MAX }
    pub fn is_zero(&self) -> bool { self.0 == [0; 4] }
    pub fn low_u32(&self) -> u32 { self.0[0] as u32 }
    pub fn low_u64(&self) -> u64 { self.0[0] }
    pub fn as_u32(&self) -> u32 {
        if self.0[1] | self.0[2] | self.0[3] != 0 || self.0[0] > u32::MAX as u64 { panic!("Integer overflow when casting to u32") }
        self.0[0] as u32
    }
    pub fn as_u64(&self) -> u64 {
        if self.0[1] | self.0[2] | self.0[3] != 0 { panic!("Integer overflow when casting to u64") }
        self.0[0]
    }
    pub fn as_usize(&self) -> usize { self.as_u64() as usize }
    pub fn bits(&self) -> usize {
        for i in (0..4).rev() {
            if self.0[i] != 0 { return 64 * i + 64 - self.0[i].leading_zeros() as usize; }
        }
        0
    }
    pub fn bit(&self, i: usize) -> bool { i < 256 && (self.0[i / 64] >> (i % 64)) & 1 == 1 }
    pub fn byte(&self, i: usize) -> u8 { (self.0[i / 8] >> (8 * (i % 8))) as u8 }
    pub fn overflowing_add(self, o: U256) -> (U256, bool) {
        let mut r = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            c += self.0[i] as u128 + o.0[i] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        (U256(r), c != 0)
    }
    pub fn overflowing_sub(self, o: U256) -> (U256, bool) {
        let (r, _) = self.overflowing_add(!o);
        let (r, _) = r.overflowing_add(U256::one());
        (r, self < o)
    }
    pub fn overflowing_mul(self, o: U256) -> (U256, bool) {
        let mut r = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128;
                r[i + j] = c as u64;
                c >>= 64;
            }
            r[i + 4] = c as u64;
        }
        (U256([r[0], r[1], r[2], r[3]]), r[4] | r[5] | r[6] | r[7] != 0)
    }
    pub fn checked_add(self, o: U256) -> Option<U256> { let (r, f) = self.overflowing_add(o); if f { None } else { Some(r) } }
    pub fn checked_sub(self, o: U256) -> Option<U256> { let (r, f) = self.overflowing_sub(o); if f { None } else { Some(r) } }
    pub fn checked_mul(self, o: U256) -> Option<U256> { let (r, f) = self.overflowing_mul(o); if f { None } else { Some(r) } }
    pub fn div_mod(self, d: U256) -> (U256, U256) {
        if d.is_zero() { panic!("division by zero") }
        let (mut q, mut r) = (U256::zero(), U256::zero());
        for i in (0..256).rev() {
            r = r << 1;
            if self.bit(i) { r.0[0] |= 1 }
            if r >= d { r = r.overflowing_sub(d).0; q.0[i / 64] |= 1 << (i % 64) }
        }
        (q, r)
    }
    pub fn from_str_radix(s: &str, radix: u32) -> Result<U256, FromStrRadixErr> {
        match radix {
            10 => Self::from_dec_str(s).map_err(|_| FromStrRadixErr::InvalidCharacter),
            16 => {
                let s = s.strip_prefix("0x").unwrap_or(s);
                if s.len() > 64 { return Err(FromStrRadixErr::InvalidLength); }
                let mut r = U256::zero();
                for c in s.chars() {
                    let d = c.to_digit(16).ok_or(FromStrRadixErr::InvalidCharacter)?;
                    r = r << 4;
                    r.0[0] |= d as u64;
                }
                Ok(r)
            }
            _ => Err(FromStrRadixErr::UnsupportedRadix),
        }
    }
    pub fn from_dec_str(s: &str) -> Result<U256, FromStrRadixErr> {
        let mut r = U256::zero();
        for c in s.chars() {
            let d = c.to_digit(10).ok_or(FromStrRadixErr::InvalidCharacter)?;
            let (m, f) = r.overflowing_mul(U256::from(10u64));
            let (a, g) = m.overflowing_add(U256::from(d as u64));
            if f || g { return Err(FromStrRadixErr::InvalidLength); }
            r = a;
        }
        Ok(r)
    }
    pub fn from_big_endian(b: &[u8]) -> U256 {
        assert!(b.len() <= 32);
        let mut r = U256::zero();
        for x in b { r = r << 8; r.0[0] |= *x as u64; }
        r
    }
    pub fn from_little_endian(b: &[u8]) -> U256 {
        let mut v = b.to_vec();
        v.reverse();
        Self::from_big_endian(&v)
    }
    pub fn to_big_endian(&self, b: &mut [u8]) { for i in 0..32 { b[i] = self.byte(31 - i); } }
    pub fn to_little_endian(&self, b: &mut [u8]) { for i in 0..32 { b[i] = self.byte(i); } }
}
macro_rules! from_u { ($($t:ty),*) => {$( impl From<$t> for U256 { fn from(x: $t) -> U256 { U256([x as u64, 0, 0, 0]) } } )*} }
macro_rules! from_i { ($($t:ty),*) => {$( impl From<$t> for U256 { fn from(x: $t) -> U256 { if x < 0 { panic!("Unsigned integer can't be created from negative value") } U256([x as u64, 0, 0, 0]) } } )*} }
from_u!(u8, u16, u32, u64, usize);
from_i!(i8, i16, i32, i64, isize);
impl From<[u8; 32]> for U256 { fn from(b: [u8; 32]) -> U256 { U256::from_big_endian(&b) } }
impl From<&[u8]> for U256 { fn from(b: &[u8]) -> U256 { U256::from_big_endian(b) } }
impl std::str::FromStr for U256 { type Err = FromStrRadixErr; fn from_str(s: &str) -> Result<U256, FromStrRadixErr> { U256::from_str_radix(s, 16) } }
impl PartialOrd for U256 { fn partial_cmp(&self, o: &U256) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for U256 {
    fn cmp(&self, o: &U256) -> Ordering {
        for i in (0..4).rev() { if self.0[i] != o.0[i] { return self.0[i].cmp(&o.0[i]); } }
        Ordering::Equal
    }
}
macro_rules! sh { ($($t:ty),*) => {$(
    impl Shl<$t> for U256 { type Output = U256; fn shl(self, n: $t) -> U256 {
        let n = n as usize; let mut r = [0u64; 4];
        if n < 256 { let (w, b) = (n / 64, n % 64); for i in w..4 { r[i] = self.0[i - w] << b; if b > 0 && i > w { r[i] |= self.0[i - w - 1] >> (64 - b); } } }
        U256(r) } }
    impl Shr<$t> for U256 { type Output = U256; fn shr(self, n: $t) -> U256 {
        let n = n as usize; let mut r = [0u64; 4];
        if n < 256 { let (w, b) = (n / 64, n % 64); for i in 0..4 - w { r[i] = self.0[i + w] >> b; if b > 0 && i + w + 1 < 4 { r[i] |= self.0[i + w + 1] << (64 - b); } } }
        U256(r) } }
)*} }
sh!(i32, u32, u64, usize);
impl Not for U256 { type Output = U256; fn not(self) -> U256 { U256([!self.0[0], !self.0[1], !self.0[2], !self.0[3]]) } }
impl BitAnd for U256 { type Output = U256; fn bitand(self, o: U256) -> U256 { U256([self.0[0] & o.0[0], self.0[1] & o.0[1], self.0[2] & o.0[2], self.0[3] & o.0[3]]) } }
impl BitOr for U256 { type Output = U256; fn bitor(self, o: U256) -> U256 { U256([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]]) } }
impl<T: Into<U256>> Add<T> for U256 { type Output = U256; fn add(self, o: T) -> U256 { self.checked_add(o.into()).expect("arithmetic operation overflow") } }
impl<T: Into<U256>> Sub<T> for U256 { type Output = U256; fn sub(self, o: T) -> U256 { self.checked_sub(o.into()).expect("arithmetic operation overflow") } }
impl<T: Into<U256>> Mul<T> for U256 { type Output = U256; fn mul(self, o: T) -> U256 { self.checked_mul(o.into()).expect("arithmetic operation overflow") } }
impl<T: Into<U256>> Div<T> for U256 { type Output = U256; fn div(self, o: T) -> U256 { self.div_mod(o.into()).0 } }
impl<T: Into<U256>> Rem<T> for U256 { type Output = U256; fn rem(self, o: T) -> U256 { self.div_mod(o.into()).1 } }
impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut s = Vec::new();
        let mut x = *self;
        loop {
            let (q, r) = x.div_mod(U256::from(10u64));
            s.push(b'0' + r.0[0] as u8);
            x = q;
            if x.is_zero() { break; }
        }
        s.reverse();
        f.write_str(std::str::from_utf8(&s).unwrap())
    }
}
impl fmt::Debug for U256 { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) } }
impl fmt::LowerHex for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() { f.write_str("0x")?; }
        let s: String = (0..64).rev().map(|i| std::char::from_digit(((self.0[i / 16] >> (4 * (i % 16))) & 15) as u32, 16).unwrap()).collect();
        let t = s.trim_start_matches('0');
        f.write_str(if t.is_empty() { "0" } else { t })
    }
}
