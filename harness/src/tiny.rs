//! Tiny prime fields: they implement powdr's public field traits, so that the generic solver and
//! optimizer can be run over them while every assignment can be enumerated by the oracle.
use num_traits::{ConstOne, ConstZero, One, Zero};
use powdr_number::{BigUint, FieldElement, KnownField, LargeInt};
use schemars::JsonSchema;
use serde::{Deserialize, Serialize};
use std::fmt;
use std::ops::*;
use std::str::FromStr;

#[derive(
    Clone, Copy, PartialEq, Eq, Debug, Default, PartialOrd, Ord, Hash, derive_more::Display,
    derive_more::Add, derive_more::Sub, derive_more::AddAssign, derive_more::SubAssign,
    derive_more::Shr, derive_more::Shl, derive_more::BitAnd, derive_more::BitOr, derive_more::BitXor,
    derive_more::BitAndAssign, derive_more::BitOrAssign,
)]
pub struct SInt(pub u32);

impl LargeInt for SInt {
    const MAX: Self = Self(u32::MAX);
    const NUM_BITS: usize = 32;
    fn to_arbitrary_integer(self) -> BigUint {
        self.0.into()
    }
    fn num_bits(&self) -> usize {
        32 - self.0.leading_zeros() as usize
    }
    fn one() -> Self {
        Self(1)
    }
    fn is_one(&self) -> bool {
        self.0 == 1
    }
    fn try_into_u64(&self) -> Option<u64> {
        Some(self.0 as u64)
    }
    fn try_into_u32(&self) -> Option<u32> {
        Some(self.0)
    }
    fn from_hex(s: &str) -> Self {
        Self(u32::from_str_radix(s, 16).unwrap())
    }
}
impl From<u32> for SInt {
    fn from(v: u32) -> Self {
        Self(v)
    }
}
impl From<u64> for SInt {
    fn from(v: u64) -> Self {
        Self(v as u32)
    }
}
impl Zero for SInt {
    fn zero() -> Self {
        Self(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl ConstZero for SInt {
    const ZERO: Self = Self(0);
}
impl fmt::LowerHex for SInt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::LowerHex::fmt(&self.0, f)
    }
}
impl Not for SInt {
    type Output = Self;
    fn not(self) -> Self {
        Self(!self.0)
    }
}

#[derive(
    Clone, Copy, PartialEq, Eq, Debug, Default, PartialOrd, Ord, Hash, Serialize, Deserialize,
    JsonSchema,
)]
pub struct Fp<const P: u32>(pub u32);

impl<const P: u32> Fp<P> {
    pub fn all() -> impl Iterator<Item = Self> + Clone {
        (0..P).map(Fp)
    }
}
impl<const P: u32> fmt::Display for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u32> fmt::LowerHex for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::LowerHex::fmt(&self.0, f)
    }
}
impl<const P: u32> Add for Fp<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Fp((self.0 + o.0) % P)
    }
}
impl<const P: u32> Sub for Fp<P> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Fp((self.0 + P - o.0) % P)
    }
}
impl<const P: u32> Mul for Fp<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Fp(((self.0 as u64 * o.0 as u64) % P as u64) as u32)
    }
}
impl<const P: u32> Div for Fp<P> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        assert!(o.0 != 0, "division by zero");
        self * o.pow(SInt(P - 2))
    }
}
impl<const P: u32> Neg for Fp<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Fp((P - self.0) % P)
    }
}
impl<const P: u32> AddAssign for Fp<P> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl<const P: u32> SubAssign for Fp<P> {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o
    }
}
impl<const P: u32> MulAssign for Fp<P> {
    fn mul_assign(&mut self, o: Self) {
        *self = *self * o
    }
}
impl<const P: u32> Zero for Fp<P> {
    fn zero() -> Self {
        Fp(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const P: u32> One for Fp<P> {
    fn one() -> Self {
        Fp(1)
    }
    fn is_one(&self) -> bool {
        self.0 == 1
    }
}
impl<const P: u32> ConstZero for Fp<P> {
    const ZERO: Self = Fp(0);
}
impl<const P: u32> ConstOne for Fp<P> {
    const ONE: Self = Fp(1);
}
impl<const P: u32> From<SInt> for Fp<P> {
    fn from(n: SInt) -> Self {
        n.0.into()
    }
}
impl<const P: u32> From<BigUint> for Fp<P> {
    fn from(n: BigUint) -> Self {
        u64::try_from(n).unwrap().into()
    }
}
impl<const P: u32> From<u32> for Fp<P> {
    fn from(n: u32) -> Self {
        assert!(n < P, "not a canonical field element");
        Fp(n)
    }
}
impl<const P: u32> From<u64> for Fp<P> {
    fn from(n: u64) -> Self {
        // The low-degree hypotheses of the optimizer use these two constants regardless of the field.
        assert!(
            n < P as u64 || n == 0xff || n == 0xffff,
            "not a canonical field element"
        );
        Fp((n % P as u64) as u32)
    }
}
impl<const P: u32> From<i64> for Fp<P> {
    fn from(n: i64) -> Self {
        assert!(n.unsigned_abs() < P as u64, "not a canonical field element");
        Fp(n.rem_euclid(P as i64) as u32)
    }
}
impl<const P: u32> From<i32> for Fp<P> {
    fn from(n: i32) -> Self {
        (n as i64).into()
    }
}
impl<const P: u32> From<bool> for Fp<P> {
    fn from(n: bool) -> Self {
        Fp(n as u32)
    }
}
impl<const P: u32> FromStr for Fp<P> {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let n: u32 = s.parse().map_err(|e| format!("{e}"))?;
        if n < P {
            Ok(Fp(n))
        } else {
            Err("too large".into())
        }
    }
}
impl<const P: u32> FieldElement for Fp<P> {
    type Integer = SInt;
    const BITS: u32 = 32 - P.leading_zeros();
    fn to_degree(&self) -> u64 {
        self.0 as u64
    }
    fn to_integer(&self) -> SInt {
        SInt(self.0)
    }
    fn modulus() -> SInt {
        SInt(P)
    }
    fn pow(self, e: SInt) -> Self {
        let (mut r, mut b, mut e) = (Fp(1), self, e.0);
        while e > 0 {
            if e & 1 == 1 {
                r *= b;
            }
            b *= b;
            e >>= 1;
        }
        r
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.0.to_le_bytes().to_vec()
    }
    fn from_bytes_le(b: &[u8]) -> Self {
        u32::from_le_bytes(b.try_into().unwrap()).into()
    }
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, String> {
        let n = u32::from_str_radix(s, radix).map_err(|e| e.to_string())?;
        if n < P {
            Ok(Fp(n))
        } else {
            Err("too large".into())
        }
    }
    fn checked_from(v: BigUint) -> Option<Self> {
        u32::try_from(v).ok().filter(|n| *n < P).map(Fp)
    }
    fn is_in_lower_half(&self) -> bool {
        self.0 <= (P - 1) / 2
    }
    fn known_field() -> Option<KnownField> {
        None
    }
    fn has_direct_repr() -> bool {
        false
    }
}
