//! Drop-in replacement of the `ibig` API used by powdr, whose values may be
//! symbolic (exact natural-number terms of `symcore`).
//! Comparisons fork the symbolic execution.
use num_bigint::{BigInt as NI, BigUint as NU};
use num_traits::{Num, One, ToPrimitive, Zero};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::ops::*;
use std::str::FromStr;
use symcore::{branch, concretize, limit, Bv};

#[derive(Clone, Debug)]
enum R {
    C(NU),
    S(Bv),
}

/// Arbitrary precision natural number, possibly symbolic.
#[derive(Clone)]
pub struct UBig(R);

/// Arbitrary precision integer: concrete sign, possibly symbolic magnitude
/// (computing a sign forks).
#[derive(Clone)]
pub struct IBig {
    neg: bool,
    mag: UBig,
}

pub mod error {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct OutOfBoundsError;
    impl std::fmt::Display for OutOfBoundsError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "number out of bounds")
        }
    }
    impl std::error::Error for OutOfBoundsError {}
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum ParseError {
        NoDigits,
        InvalidDigit,
    }
    impl std::fmt::Display for ParseError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            match self {
                ParseError::NoDigits => write!(f, "no digits"),
                ParseError::InvalidDigit => write!(f, "invalid digit"),
            }
        }
    }
    impl std::error::Error for ParseError {}
}
pub use error::{OutOfBoundsError, ParseError};

impl UBig {
    pub fn from_bv(t: Bv) -> Self {
        match t.as_const() {
            Some(v) => UBig(R::C(NU::from(v))),
            None => UBig(R::S(t)),
        }
    }
    /// the value as a term; values above 2^128 are outside the engine
    pub fn to_bv(&self) -> Bv {
        match &self.0 {
            R::C(v) => match v.to_u128() {
                Some(v) => Bv::c(v),
                None => limit("big integer above 128 bits meets a symbolic value"),
            },
            R::S(t) => *t,
        }
    }
    /// concrete value, forking over all feasible ones
    fn conc(&self) -> NU {
        match &self.0 {
            R::C(v) => v.clone(),
            R::S(t) => NU::from(concretize(*t)),
        }
    }
    pub fn from_le_bytes(b: &[u8]) -> Self {
        UBig(R::C(NU::from_bytes_le(b)))
    }
    pub fn from_be_bytes(b: &[u8]) -> Self {
        UBig(R::C(NU::from_bytes_be(b)))
    }
    pub fn to_le_bytes(&self) -> Vec<u8> {
        let v = self.conc();
        if v.is_zero() {
            vec![]
        } else {
            v.to_bytes_le()
        }
    }
    pub fn to_be_bytes(&self) -> Vec<u8> {
        let v = self.conc();
        if v.is_zero() {
            vec![]
        } else {
            v.to_bytes_be()
        }
    }
    pub fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseError> {
        if s.is_empty() || s == "+" {
            return Err(ParseError::NoDigits);
        }
        NU::from_str_radix(s, radix)
            .map(|v| UBig(R::C(v)))
            .map_err(|_| ParseError::InvalidDigit)
    }
    pub fn trailing_zeros(&self) -> Option<usize> {
        match &self.0 {
            R::C(v) => v.trailing_zeros().map(|x| x as usize),
            R::S(t) => {
                if branch(t.equals(Bv::c(0))) {
                    return None;
                }
                let mut i = 0u16;
                while !branch(t.bit(i)) {
                    i += 1;
                }
                Some(i as usize)
            }
        }
    }
    pub fn is_power_of_two(&self) -> bool {
        match self.trailing_zeros() {
            None => false,
            Some(z) => *self == (UBig::from(1u32) << z),
        }
    }
    pub fn bit(&self, n: usize) -> bool {
        match &self.0 {
            R::C(v) => v.bit(n as u64),
            R::S(t) => n < 128 && branch(t.bit(n as u16)),
        }
    }
    pub fn bit_len(&self) -> usize {
        match &self.0 {
            R::C(v) => v.bits() as usize,
            R::S(t) => {
                let mut i = symcore::bits(t.ub()) as usize;
                while i > 0 && !branch(t.bit(i as u16 - 1)) {
                    i -= 1;
                }
                i
            }
        }
    }
    pub fn pow(&self, n: usize) -> UBig {
        let mut r = UBig::from(1u32);
        for _ in 0..n {
            r = r * self;
        }
        r
    }
}

macro_rules! from_uns {
    ($($t:ty),*) => {$(
        impl From<$t> for UBig { fn from(v: $t) -> Self { UBig(R::C(NU::from(v))) } }
        impl From<$t> for IBig { fn from(v: $t) -> Self { IBig { neg: false, mag: v.into() } } }
        impl TryFrom<UBig> for $t {
            type Error = OutOfBoundsError;
            fn try_from(v: UBig) -> Result<$t, OutOfBoundsError> { <$t>::try_from(&v) }
        }
        impl TryFrom<&UBig> for $t {
            type Error = OutOfBoundsError;
            fn try_from(v: &UBig) -> Result<$t, OutOfBoundsError> {
                <$t>::try_from(v.conc()).map_err(|_| OutOfBoundsError)
            }
        }
        impl TryFrom<IBig> for $t {
            type Error = OutOfBoundsError;
            fn try_from(v: IBig) -> Result<$t, OutOfBoundsError> {
                if v.neg { return Err(OutOfBoundsError) }
                <$t>::try_from(&v.mag)
            }
        }
        impl Add<$t> for UBig { type Output = UBig; fn add(self, o: $t) -> UBig { self + UBig::from(o) } }
        impl Sub<$t> for UBig { type Output = UBig; fn sub(self, o: $t) -> UBig { self - UBig::from(o) } }
        impl Mul<$t> for UBig { type Output = UBig; fn mul(self, o: $t) -> UBig { self * UBig::from(o) } }
        impl PartialEq<$t> for UBig { fn eq(&self, o: &$t) -> bool { *self == UBig::from(*o) } }
    )*};
}
from_uns!(u8, u16, u32, u64, u128, usize);
impl From<bool> for UBig {
    fn from(v: bool) -> Self {
        UBig::from(v as u32)
    }
}
macro_rules! from_sig {
    ($($t:ty),*) => {$(
        impl From<$t> for IBig {
            fn from(v: $t) -> Self { IBig { neg: v < 0, mag: (v.unsigned_abs()).into() } }
        }
        impl TryFrom<$t> for UBig {
            type Error = OutOfBoundsError;
            fn try_from(v: $t) -> Result<UBig, OutOfBoundsError> {
                if v < 0 { Err(OutOfBoundsError) } else { Ok(v.unsigned_abs().into()) }
            }
        }
        impl TryFrom<IBig> for $t {
            type Error = OutOfBoundsError;
            fn try_from(v: IBig) -> Result<$t, OutOfBoundsError> {
                let m = NI::from(v.mag.conc());
                <$t>::try_from(if v.neg { -m } else { m }).map_err(|_| OutOfBoundsError)
            }
        }
    )*};
}
from_sig!(i8, i16, i32, i64, i128, isize);

impl From<UBig> for IBig {
    fn from(v: UBig) -> Self {
        IBig { neg: false, mag: v }
    }
}
impl From<&UBig> for IBig {
    fn from(v: &UBig) -> Self {
        IBig {
            neg: false,
            mag: v.clone(),
        }
    }
}
impl TryFrom<IBig> for UBig {
    type Error = OutOfBoundsError;
    fn try_from(v: IBig) -> Result<UBig, OutOfBoundsError> {
        if v.neg {
            Err(OutOfBoundsError)
        } else {
            Ok(v.mag)
        }
    }
}
impl FromStr for UBig {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> {
        UBig::from_str_radix(s, 10)
    }
}
impl FromStr for IBig {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> {
        let (neg, s) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        let mag = UBig::from_str_radix(s, 10)?;
        let z = mag.is_zero();
        Ok(IBig {
            neg: neg && !z,
            mag,
        })
    }
}

impl PartialEq for UBig {
    fn eq(&self, o: &Self) -> bool {
        match (&self.0, &o.0) {
            (R::C(a), R::C(b)) => a == b,
            (R::C(a), R::S(b)) | (R::S(b), R::C(a)) => match a.to_u128() {
                Some(a) => branch(Bv::c(a).equals(*b)),
                None => false,
            },
            (R::S(a), R::S(b)) => branch(a.equals(*b)),
        }
    }
}
impl Eq for UBig {}
fn lt(a: &UBig, b: &UBig) -> bool {
    match (&a.0, &b.0) {
        (R::C(a), R::C(b)) => a < b,
        (R::C(a), R::S(b)) => match a.to_u128() {
            Some(a) => branch(Bv::c(a).lt(*b)),
            None => false,
        },
        (R::S(a), R::C(b)) => match b.to_u128() {
            Some(b) => branch(a.lt(Bv::c(b))),
            None => true,
        },
        (R::S(a), R::S(b)) => branch(a.lt(*b)),
    }
}
impl PartialOrd for UBig {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn lt(&self, o: &Self) -> bool {
        lt(self, o)
    }
    fn gt(&self, o: &Self) -> bool {
        lt(o, self)
    }
    fn le(&self, o: &Self) -> bool {
        !lt(o, self)
    }
    fn ge(&self, o: &Self) -> bool {
        !lt(self, o)
    }
}
impl Ord for UBig {
    fn cmp(&self, o: &Self) -> Ordering {
        if lt(self, o) {
            Ordering::Less
        } else if self == o {
            Ordering::Equal
        } else {
            Ordering::Greater
        }
    }
}
impl Hash for UBig {
    fn hash<H: Hasher>(&self, h: &mut H) {
        if symcore::concrete_hash() {
            self.conc().hash(h)
        }
    }
}
impl Default for UBig {
    fn default() -> Self {
        UBig::from(0u32)
    }
}
impl fmt::Display for UBig {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            R::C(v) => fmt::Display::fmt(v, f),
            R::S(t) => write!(f, "<sym{}>", t.0),
        }
    }
}
impl fmt::Debug for UBig {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::LowerHex for UBig {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            R::C(v) => fmt::LowerHex::fmt(v, f),
            R::S(t) => write!(f, "<sym{}>", t.0),
        }
    }
}

fn add(a: &UBig, b: &UBig) -> UBig {
    match (&a.0, &b.0) {
        (R::C(a), R::C(b)) => UBig(R::C(a + b)),
        _ => UBig::from_bv(a.to_bv().add(b.to_bv())),
    }
}
fn sub(a: &UBig, b: &UBig) -> UBig {
    match (&a.0, &b.0) {
        (R::C(x), R::C(y)) => {
            if x < y {
                panic!("UBig result must not be negative");
            }
            UBig(R::C(x - y))
        }
        _ => {
            if lt(a, b) {
                panic!("UBig result must not be negative");
            }
            UBig::from_bv(a.to_bv().sub_unchecked(b.to_bv()))
        }
    }
}
fn mul(a: &UBig, b: &UBig) -> UBig {
    match (&a.0, &b.0) {
        (R::C(a), R::C(b)) => UBig(R::C(a * b)),
        _ => UBig::from_bv(a.to_bv().mul(b.to_bv())),
    }
}
fn div(a: &UBig, b: &UBig) -> UBig {
    if b.is_zero() {
        panic!("divide by 0");
    }
    match (&a.0, &b.0) {
        (R::C(a), R::C(b)) => UBig(R::C(a / b)),
        _ => UBig::from_bv(a.to_bv().div(b.to_bv())),
    }
}
fn rem(a: &UBig, b: &UBig) -> UBig {
    if b.is_zero() {
        panic!("divide by 0");
    }
    match (&a.0, &b.0) {
        (R::C(a), R::C(b)) => UBig(R::C(a % b)),
        _ => UBig::from_bv(a.to_bv().rem(b.to_bv())),
    }
}
fn bitand(a: &UBig, b: &UBig) -> UBig {
    match (&a.0, &b.0) {
        (R::C(a), R::C(b)) => UBig(R::C(a & b)),
        _ => UBig::from_bv(a.to_bv().and(b.to_bv())),
    }
}
fn bitor(a: &UBig, b: &UBig) -> UBig {
    match (&a.0, &b.0) {
        (R::C(a), R::C(b)) => UBig(R::C(a | b)),
        _ => UBig::from_bv(a.to_bv().or(b.to_bv())),
    }
}
fn bitxor(a: &UBig, b: &UBig) -> UBig {
    match (&a.0, &b.0) {
        (R::C(a), R::C(b)) => UBig(R::C(a ^ b)),
        _ => UBig::from_bv(a.to_bv().xor(b.to_bv())),
    }
}
macro_rules! ops {
    ($ty:ty, $(($tr:ident, $m:ident, $tra:ident, $ma:ident, $f:path)),*) => {$(
        impl $tr for $ty { type Output = $ty; fn $m(self, o: $ty) -> $ty { $f(&self, &o) } }
        impl $tr<&$ty> for $ty { type Output = $ty; fn $m(self, o: &$ty) -> $ty { $f(&self, o) } }
        impl $tr<$ty> for &$ty { type Output = $ty; fn $m(self, o: $ty) -> $ty { $f(self, &o) } }
        impl $tr<&$ty> for &$ty { type Output = $ty; fn $m(self, o: &$ty) -> $ty { $f(self, o) } }
        impl $tra for $ty { fn $ma(&mut self, o: $ty) { *self = $f(&*self, &o) } }
        impl $tra<&$ty> for $ty { fn $ma(&mut self, o: &$ty) { *self = $f(&*self, o) } }
    )*};
}
ops!(
    UBig,
    (Add, add, AddAssign, add_assign, add),
    (Sub, sub, SubAssign, sub_assign, sub),
    (Mul, mul, MulAssign, mul_assign, mul),
    (Div, div, DivAssign, div_assign, div),
    (Rem, rem, RemAssign, rem_assign, rem),
    (BitAnd, bitand, BitAndAssign, bitand_assign, bitand),
    (BitOr, bitor, BitOrAssign, bitor_assign, bitor),
    (BitXor, bitxor, BitXorAssign, bitxor_assign, bitxor)
);
impl Shl<usize> for &UBig {
    type Output = UBig;
    fn shl(self, n: usize) -> UBig {
        match &self.0 {
            R::C(v) => UBig(R::C(v << n)),
            R::S(t) => {
                if n > 128 {
                    limit("shift above 128 bits");
                }
                UBig::from_bv(t.shl(n as u16))
            }
        }
    }
}
impl Shl<usize> for UBig {
    type Output = UBig;
    fn shl(self, n: usize) -> UBig {
        &self << n
    }
}
impl Shl<&usize> for UBig {
    type Output = UBig;
    fn shl(self, n: &usize) -> UBig {
        &self << *n
    }
}
impl Shl<&usize> for &UBig {
    type Output = UBig;
    fn shl(self, n: &usize) -> UBig {
        self << *n
    }
}
impl Shr<usize> for &UBig {
    type Output = UBig;
    fn shr(self, n: usize) -> UBig {
        match &self.0 {
            R::C(v) => UBig(R::C(v >> n)),
            R::S(t) => UBig::from_bv(t.shr(n.min(1000) as u16)),
        }
    }
}
impl Shr<usize> for UBig {
    type Output = UBig;
    fn shr(self, n: usize) -> UBig {
        &self >> n
    }
}
impl Shr<&usize> for UBig {
    type Output = UBig;
    fn shr(self, n: &usize) -> UBig {
        &self >> *n
    }
}
impl Zero for UBig {
    fn zero() -> Self {
        UBig::from(0u32)
    }
    fn is_zero(&self) -> bool {
        *self == UBig::from(0u32)
    }
}
impl One for UBig {
    fn one() -> Self {
        UBig::from(1u32)
    }
}
impl std::iter::Sum for UBig {
    fn sum<I: Iterator<Item = UBig>>(it: I) -> UBig {
        it.fold(UBig::from(0u32), |a, b| a + b)
    }
}
impl std::iter::Product for UBig {
    fn product<I: Iterator<Item = UBig>>(it: I) -> UBig {
        it.fold(UBig::from(1u32), |a, b| a * b)
    }
}
impl Serialize for UBig {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.conc().to_string().serialize(s)
    }
}
impl<'de> Deserialize<'de> for UBig {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        UBig::from_str(&s).map_err(serde::de::Error::custom)
    }
}

// ---- IBig
fn norm(neg: bool, mag: UBig) -> IBig {
    if neg && mag.is_zero() {
        IBig { neg: false, mag }
    } else {
        IBig { neg, mag }
    }
}
fn iadd(a: &IBig, b: &IBig) -> IBig {
    if a.neg == b.neg {
        IBig {
            neg: a.neg,
            mag: &a.mag + &b.mag,
        }
    } else if lt(&a.mag, &b.mag) {
        IBig {
            neg: b.neg,
            mag: UBig::from_bv_or_sub(&b.mag, &a.mag),
        }
    } else {
        norm(a.neg, UBig::from_bv_or_sub(&a.mag, &b.mag))
    }
}
impl UBig {
    fn from_bv_or_sub(a: &UBig, b: &UBig) -> UBig {
        match (&a.0, &b.0) {
            (R::C(a), R::C(b)) => UBig(R::C(a - b)),
            _ => UBig::from_bv(a.to_bv().sub_unchecked(b.to_bv())),
        }
    }
}
fn isub(a: &IBig, b: &IBig) -> IBig {
    iadd(a, &-b.clone())
}
fn imul(a: &IBig, b: &IBig) -> IBig {
    norm(a.neg != b.neg, &a.mag * &b.mag)
}
fn idiv(a: &IBig, b: &IBig) -> IBig {
    norm(a.neg != b.neg, &a.mag / &b.mag)
}
fn irem(a: &IBig, b: &IBig) -> IBig {
    norm(a.neg, &a.mag % &b.mag)
}
ops!(
    IBig,
    (Add, add, AddAssign, add_assign, iadd),
    (Sub, sub, SubAssign, sub_assign, isub),
    (Mul, mul, MulAssign, mul_assign, imul),
    (Div, div, DivAssign, div_assign, idiv),
    (Rem, rem, RemAssign, rem_assign, irem)
);
impl Neg for IBig {
    type Output = IBig;
    fn neg(self) -> IBig {
        norm(!self.neg, self.mag)
    }
}
impl PartialEq for IBig {
    fn eq(&self, o: &Self) -> bool {
        self.neg == o.neg && self.mag == o.mag
    }
}
impl Eq for IBig {}
impl PartialOrd for IBig {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for IBig {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self.neg, o.neg) {
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
        }
    }
}
impl Hash for IBig {
    fn hash<H: Hasher>(&self, h: &mut H) {
        if symcore::concrete_hash() {
            self.neg.hash(h);
            self.mag.hash(h)
        }
    }
}
impl Default for IBig {
    fn default() -> Self {
        IBig::from(0i32)
    }
}
impl fmt::Display for IBig {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.neg {
            write!(f, "-")?;
        }
        fmt::Display::fmt(&self.mag, f)
    }
}
impl fmt::Debug for IBig {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl Zero for IBig {
    fn zero() -> Self {
        IBig::from(0i32)
    }
    fn is_zero(&self) -> bool {
        self.mag.is_zero()
    }
}
impl One for IBig {
    fn one() -> Self {
        IBig::from(1i32)
    }
}
impl Serialize for IBig {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        format!("{}{}", if self.neg { "-" } else { "" }, self.mag.conc()).serialize(s)
    }
}
impl<'de> Deserialize<'de> for IBig {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        IBig::from_str(&s).map_err(serde::de::Error::custom)
    }
}
#[macro_export]
macro_rules! ubig {
    ($e:expr) => {
        $crate::UBig::from($e as u128)
    };
}
#[macro_export]
macro_rules! ibig {
    ($e:expr) => {
        $crate::IBig::from($e as i128)
    };
}
